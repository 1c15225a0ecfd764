"""C23: the type-erased operations of every component type do what their name says."""
from sa import terms as T
from sa.interp import Interp, Analysis, LV
from sa.terms import is_lin, sub
from sa.world import ABS

LEVEL = 'proof'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Abstract interpretation of the description object built for a representative of every class of component type (trivial, empty, odd '
               'size, over-aligned, copyable, move-only, nothrow-copyable, large, polymorphic, final): the recorded size, alignment and identity '
               'are those of the type, and every path of each function the description points to constructs, assigns or destroys exactly once, '
               'as that type, on exactly the object its arguments designate. The functions are templates that depend on the type only.')
OPS = (('copy_construct', 2), ('move_construct', 2), ('move_assign', 2), ('destruct', 1))


def run(ctx):
    ctx.assumptions = ['the special members of the component types do what their declaration says']
    P = ctx.program('meta')
    for f in sorted(P.funcs.values(), key=lambda f: f['id']):
        if f['bare'].startswith('drv_meta_') and 'body' in f:
            describe(ctx, P, f)
        elif f['bare'].startswith('drv_cm_') and 'body' in f:
            component(ctx, P, f)


def interp(P):
    I = Interp(P, abstract=ABS, user_throw=True)
    I.const_statics = True
    return I


def returned(I, f):
    """[(state, location of the returned object)]"""
    out = []
    for st, (how, v) in I.run(f):
        if how != 'return':
            continue
        if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
            out.append((st, v[1].loc))
        elif isinstance(v, LV):
            out.append((st, v.loc))
        else:
            out.append((st, None))
    return out


def fn_of(v):
    if isinstance(v, tuple) and v and v[0] == 'fn':
        return v[1]
    return None


def rec_named(P, name):
    name = 'handle' if name == 'entity' else name
    for r in P.recs.values():
        if r['q'] == name or r['bare'] == name or r['bare'].split('::')[-1] == name:
            if 'size' in r:
                return r
    return None


def describe(ctx, P, f):
    name = f['bare'][len('drv_meta_'):]
    rec = rec_named(P, name)
    rule = 'the description of a type names its size, alignment and operations'
    I = interp(P)
    try:
        res = returned(I, f)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return
    where = 'include/co_ecs/type_meta.hpp'
    for fid in I.inlined:
        if P.funcs[fid]['name'] == 'of':
            where = P.where(fid)
    for st, loc in res:
        if loc is None:
            ctx.undecide(rule, f'{name}: returned object unknown')
            continue
        for fld, want in (('size', rec['size']), ('align', rec['align'])):
            v = I.read(st, loc + (('f', fld),))
            if is_lin(v) and T.is_const(v):
                if v[1] == want:
                    ctx.ob(rule)
                else:
                    ctx.fail(rule, where, f'{name}: recorded {fld} is {v[1]}, the type has {want}', key=f'{rule}|{fld}|{name}')
            else:
                ctx.undecide(rule, f'{name}: {fld} unknown')
        for fld, n in OPS:
            fid = fn_of(I.read(st, loc + (('f', fld),)))
            if fid is None or 'body' not in P.funcs.get(fid, {}):
                ctx.undecide(rule, f'{name}: {fld} unknown')
                continue
            ctx.saw('operations', f'{name}.{fld}')
            operation(ctx, P, name, rec, fld, P.funcs[fid], n)


def param_loc(I, st, f, i, got):
    return got[i]


def operation(ctx, P, name, rec, fld, f, nargs):
    rule = f'{fld} acts once, as the type, on the objects given'
    where = P.where(f['id'])
    I = interp(P)
    try:
        if len(f['params']) != nargs:
            ctx.undecide(rule, f'{name}: parameters')
            return
        from sa.interp import St
        st0 = St()
        objs = [LV((('o', ('obj', i)),)) for i in range(nargs)]
        res = I.run(f, args=[('ptr', o) for o in objs], st=st0)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return
    copyable = any(P.funcs[c].get('special') == 'copyctor' and not P.funcs[c].get('deleted') for c in ctors(P, rec))
    user = rec['bare'] in ('W', 'M', 'N', 'Q', 'B', 'V', 'EU', 'F', 'NC')
    throwing = rec['bare'] in ('W', 'N', 'B', 'V', 'EU', 'NC')
    ends = 0
    for st, (how, v) in res:
        ctx.saw('paths', f'{name}.{fld} ' + (v.name if how == 'throw' else 'returns') + f' {len(st.path)}')
        path = [f'{w}: {T.show(p) if is_lin(p) else p} is {b}' for w, p, b in st.path if w]

        def bad(msg):
            ctx.fail(rule, where, f'{name}: {msg}', path, key=f'{rule}|{name}|{msg}')
        acts, odd = actions(P, st, rec, objs)
        if how == 'throw':
            if v.implicit and fld == 'copy_construct' and copyable:
                if acts or odd:
                    bad('something is left constructed or destroyed after the copy constructor threw')
                else:
                    ctx.ob(rule)
            elif fld == 'copy_construct' and not copyable and not v.implicit:
                if acts or odd:
                    bad('a type that cannot be copied is touched')
                else:
                    ctx.ob(rule)
            elif v.implicit and not throwing:
                ctx.undecide(rule, f'{name}: an exception of unknown origin')
            else:
                bad('an exception is raised where the operation must succeed')
            continue
        ends += 1
        if odd:
            ctx.undecide(rule, f'{name}: {odd[0]}')
            continue
        if fld == 'copy_construct' and not copyable:
            bad('a type that cannot be copied is not refused')
            continue
        if not user:
            trivial(ctx, P, I, st, rec, fld, objs, rule, name, bad, acts)
            continue
        D, S = 'obj0', 'obj1'
        if fld == 'destruct':
            want = [[('destroy', D)]]
        elif fld == 'copy_construct':
            want = [[('copy', D, S)]]
        elif fld == 'move_construct':
            want = [[('move', D, S)]]
        else:
            want = [[('moveassign', D, S)], [('destroy', D), ('move', D, S)]]
        if acts in want:
            ctx.ob(rule)
        else:
            bad('performs ' + (', '.join(' '.join(a).strip() for a in acts) or 'nothing') + ' instead of ' + ', '.join(' '.join(a) for a in want[0]))
    if not ends and not (fld == 'copy_construct' and not copyable) and res:
        ctx.fail(rule, where, f'{name}: the operation never completes', key=f'{rule}|{name}|never')


def ctors(P, rec):
    return [f['id'] for f in P.funcs.values() if f.get('rec') == rec['id'] and f.get('kind') == 'ctor']


def actions(P, st, rec, objs):
    """user-visible actions on the objects, and effects that are not understood"""
    names = {o.loc: f'obj{i}' for i, o in enumerate(objs)}
    out = []
    odd = []
    skip = None

    def nm(loc):
        return names.get(loc)
    evs = list(st.ev)
    for i, e in enumerate(evs):
        if e.kind in ('construct_at',):
            continue
        if e.kind == 'destroy':
            t = P.rec_of(e.t)
            if nm(e.loc) is None:
                odd.append(f'destroys {e.loc}')
            elif t is None or t['id'] != rec['id']:
                odd.append('destroys as another type')
            else:
                out.append(('destroy', nm(e.loc)))
                skip = e.loc
            continue
        if e.kind == 'dtor':
            if i and evs[i - 1].kind == 'destroy' and evs[i - 1].loc == e.loc:
                continue
            if nm(e.loc):
                out.append(('destroy', nm(e.loc)))
            elif e.loc[0][0] in ('v', 't'):
                out.append(('destroy', 'a local'))
            else:
                odd.append('destroys an unknown object')
            continue
        if e.kind == 'uctor':
            src = e.args[0].loc if e.args and isinstance(e.args[0], LV) else None
            d = nm(e.loc) or ('a local' if e.loc[0][0] in ('v', 't') else None)
            s = nm(src) or ('a local' if src and src[0][0] in ('v', 't') else None)
            if d is None or e.rec != rec['bare']:
                odd.append(f'constructs {e.loc}')
            elif e.how in ('copyctor', 'movector') and s:
                out.append(('copy' if e.how == 'copyctor' else 'move', d, s))
            else:
                out.append(('construct', d))
            continue
        if e.kind == 'usercall':
            g = e.d.get('callee')
            if g is not None and P.funcs[g]['name'] == 'operator=' and isinstance(e.fn, LV) and e.args and isinstance(e.args[0], LV):
                rv = P.ty(P.funcs[g]['params'][0]['t']).get('k') == 'rref'
                d = nm(e.fn.loc) or ('a local' if e.fn.loc[0][0] in ('v', 't') else None)
                s = nm(e.args[0].loc) or ('a local' if e.args[0].loc[0][0] in ('v', 't') else None)
                if d and s:
                    out.append(('moveassign' if rv else 'copyassign', d, s))
                    continue
            odd.append('calls ' + str(e.f))
            continue
        if e.kind == 'memcpy':
            out.append(('bytes', '', ''))
            continue
        if e.kind in ('throw', 'uctor_threw', 'usercall_threw'):
            continue
        if e.kind == 'stdcall':
            f = P.funcs[e.callee]
            ts = [x['t'] for x in f['params']] + [a['t'] for a in f.get('targs', []) if a.get('t') is not None]
            if any(rec['bare'] in P.ty(t)['s'] for t in ts):
                odd.append(f'calls {e.f}')
            else:
                out.append(('bytes', '', ''))
            continue
        if e.kind in ('terminate', 'unknown', 'unsupported', 'stdcall', 'recursion', 'icall'):
            odd.append(e.kind)
    return out, odd


def trivial(ctx, P, I, st, rec, fld, objs, rule, name, bad, acts):
    """types without special members: the value arrives, byte copies are fine"""
    if any(a[0] == 'bytes' for a in acts):
        ctx.undecide(rule, f'{name}: copied as bytes')
        return
    if fld == 'destruct':
        if [a for a in acts if a != ('destroy', 'obj0')]:
            bad('destroys something else')
        else:
            ctx.ob(rule)
        return
    if not rec.get('trivdtor', True) and not acts:
        ctx.undecide(rule, name)
        return
    for fl in P.all_fields(rec):
        a = I.read_rec(st, objs[0].loc + (('f', fl['n']),))
        v = I.read(st, objs[0].loc + (('f', fl['n']),))
        w = ('init', objs[1].loc + (('f', fl['n']),))
        if P.ty(fl['t']).get('k') in ('rec', 'array'):
            if a.base == w or a.base == ('init', objs[1].loc + (('f', fl['n']),)):
                continue
            if a.base == ('init', objs[0].loc + (('f', fl['n']),)):
                bad(f'{fl["n"]} does not arrive at the destination')
            else:
                ctx.undecide(rule, f'{name}: {fl["n"]} unknown')
            return
        if is_lin(v) and T.single_atom(v) == w:
            continue
        if is_lin(v) and not T.tainted(v):
            bad(f'{fl["n"]} does not arrive at the destination')
        else:
            ctx.undecide(rule, f'{name}: {fl["n"]} unknown')
        return
    ctx.ob(rule)


def component(ctx, P, f):
    """component_meta::of<T> pairs the identity of T with the description of T"""
    rule = 'a component description pairs identity and operations of one type'
    name = f['bare'][len('drv_cm_'):]
    I = interp(P)
    try:
        res = I.run(f)
        want = [l for _, l in returned(interp(P), P.driver('drv_meta_' + name))]
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return
    where = 'include/co_ecs/component.hpp'
    for fid in I.inlined:
        if P.funcs[fid]['name'] == 'of' and 'component' in P.funcs[fid]['q']:
            where = P.where(fid)
    for st, (how, v) in res:
        if how != 'return' or isinstance(v, LV) or not hasattr(v, 'get'):
            ctx.undecide(rule, f'{name}: value unknown')
            continue
        i, t = v.get(('f', 'id')), v.get(('f', 'type'))
        a = T.single_atom(i) if is_lin(i) else None
        if a is None or a[0] != 'typeid':
            ctx.undecide(rule, f'{name}: identity unknown')
        elif a[1].split('::')[-1] != name and not (name == 'entity' and 'handle<' in a[1] and 'entity_tag_t' in a[1]):
            ctx.fail(rule, where, f'{name}: carries the identity of {a[1]}', key=f'{rule}|id')
        else:
            ctx.ob(rule)
        if isinstance(t, tuple) and t and t[0] == 'ptr' and isinstance(t[1], LV) and want and want[0] is not None:
            if t[1].loc == want[0]:
                ctx.ob(rule)
            else:
                # another description object: compare what it describes
                ctx.undecide(rule, f'{name}: another description object')
        else:
            ctx.undecide(rule, f'{name}: description unknown')
