"""Transfer functions for the standard library and for the abstracted container classes.

Each model says what the call does to the abstract state; a call without a model becomes a
tainted unknown (rules never report on tainted terms)."""
from . import terms as T
from .terms import const, ZERO, ONE, atom, is_lin, is_const, add, sub, scale, mul

SIZE = ('s', 'size')
START = ('s', 'start')
IT = ('s', 'it')

MODELS = {}
CTORS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def ctor(*names):
    def d(fn):
        for n in names:
            CTORS[n] = fn
        return fn
    return d


# ------------------------------------------------------------------------- helpers
def rv(I, st, a, t=None):
    if isinstance(a, LV_()):
        if t is None:
            t = a.t
        t = I.P.strip_ref(t) if t is not None else None
        return I.load(st, a, t) if t is not None else I.read(st, a.loc)
    return a


def LV_():
    from .interp import LV
    return LV


def mkLV(loc, gens=(), t=None):
    from .interp import LV
    return LV(loc, gens, t)


def mkRec(base=None, ov=None, t=None):
    from .interp import Rec
    return Rec(base, ov, t)


def as_lv(I, st, a, t=None):
    from .interp import LV
    if isinstance(a, LV):
        return a
    lv = I.fresh_loc('t', t)
    I.write(st, lv.loc, a)
    return lv


def lin(I, st, a, t=None):
    v = rv(I, st, a, t)
    if isinstance(v, type(mkRec())):
        return T.fresh('unk', nonneg=True)
    return st.facts.norm(I.to_lin(v))


def ptype(I, f, i):
    ps = f['params']
    return I.P.strip_ref(ps[i]['t']) if i < len(ps) else None


def flat_targs(f):
    out = []
    for a in f.get('targs', []):
        out += a['pack'] if 'pack' in a else [a]
    return out


def rec_targs(I, t_or_rec):
    r = t_or_rec if isinstance(t_or_rec, dict) else I.P.rec_of(t_or_rec)
    return flat_targs(r) if r else []


def elem_type(I, rec):
    ta = rec_targs(I, rec)
    return ta[0].get('t') if ta else None


def owner(I, f):
    return I.P.recs.get(f.get('rec')) if 'rec' in f else None


def size_of(I, st, loc):
    loc = I.canon(st, loc)
    v = I.read(st, loc + (SIZE,))
    if is_lin(v):
        i = T.single_id(v)
        if i is not None:
            T.NONNEG.add(i)
        return st.facts.norm(v)
    return I.to_lin(v)


def set_size(I, st, loc, v, node=None):
    I.write(st, loc + (SIZE,), v, node)


def start_of(I, st, loc):
    loc = I.canon(st, loc)
    v = st.mem.get(loc + (START,))
    if v is None:
        return ZERO
    return v if is_lin(v) else I.read(st, loc + (START,))


def havoc_elems(I, st, loc):
    """forget the elements, keep the size"""
    loc = I.canon(st, loc)
    sz = size_of(I, st, loc)
    n = len(loc)
    for k in [k for k in st.mem if len(k) > n and k[:n] == loc and k[n][0] in ('i', 'k', 'has')]:
        del st.mem[k]
    b = st.mem.get(loc)
    st.mem[loc] = ('base', ('hv', T.fresh_n()))
    st.mem[loc + (SIZE,)] = sz
    w = st.notes.get('writes')
    if w is not None:
        w.add(loc)


def is_container_rec(r):
    return r and r['bare'] in ('std::vector', 'std::deque')


def container_lv(I, st, lv):
    return mkLV(I.canon(st, lv.loc), lv.gens, lv.t)


def elem_lv(I, st, lv, idx, t):
    loc = I.canon(st, lv.loc)
    g = tuple(lv.gens) + ((loc, st.gens.get(loc, 0)),)
    return mkLV(loc + (('i', idx),), g, t)


def known_type(I, t):
    return t is not None and t >= 0


def make_it(I, st, lv, idx, et, t=None):
    e = elem_lv(I, st, lv, idx, et)
    return mkRec(('it',), {(IT,): ('ptr', e)}, t)


def it_ptr(I, st, a):
    """element location designated by an iterator value"""
    v = rv(I, st, a)
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        return v[1]
    if is_lin(v):
        return I.deref(st, v)
    p = v.ov.get((IT,))
    if p is None:
        return None
    return p[1] if p[0] == 'ptr' else None


def it_set(I, st, this, p, node=None):
    I.write(st, this.loc + (IT,), ('ptr', p), node)


def find_ctor(I, rec, args):
    """constructor of rec for the given arguments (by arity and type compatibility)"""
    best, bs = None, -1
    for f in I.P.funcs.values():
        if f.get('rec') != rec['id'] or f.get('kind') != 'ctor' or f.get('deleted'):
            continue
        ps = f['params']
        if len(ps) < len(args) or (len(ps) > len(args) and any('def' not in p for p in ps[len(args):])):
            if len(ps) != len(args):
                continue
        sc = 1
        ok = True
        for p, a in zip(ps, args):
            s = type_score(I, p['t'], a)
            if s < 0:
                ok = False
                break
            sc += s
        if ok and len(ps) == len(args):
            sc += 1
        if ok and ('body' in f or f.get('defaulted') or f.get('implicit') or not rec['bare'].startswith('std::')):
            sc += 1
        if ok and sc > bs:
            best, bs = f, sc
    return best


def arg_type(I, a):
    from .interp import LV, Rec
    if isinstance(a, LV):
        return a.t
    if isinstance(a, Rec):
        return a.t
    return None


def type_score(I, pt, a):
    """how well argument a fits parameter type pt; -1 not at all"""
    from .interp import LV, Rec
    at = arg_type(I, a)
    t = I.P.strip_ref(pt)
    ty = I.P.ty(t)
    if at is None:
        if isinstance(a, Rec):
            return 0 if ty.get('k') == 'rec' else -1
        if isinstance(a, tuple):
            if ty.get('k') == 'rec':
                return -1
            if a[0] == 'ptr':
                if ty.get('k') != 'ptr':
                    return -1
                to = I.P.rec_of(ty.get('to'))
                ar = I.P.rec_of(a[1].t) if a[1].t is not None else None
                if to and ar:
                    return 5 if to['id'] == ar['id'] else (2 if I.P.derives(ar['id'], to['id']) else -1)
                return 2
            return 1
        return 0
    ar, tr = I.P.rec_of(at), I.P.rec_of(t)
    if ar and tr:
        if ar['id'] == tr['id']:
            s = 5
            rr = I.P.ty(pt).get('k') == 'rref'
            if not isinstance(a, LV) or a.xv is True:
                s = 6 if rr else 5
            elif a.xv is False and rr:
                s = -1
            return s
        return 2 if I.P.derives(ar['id'], tr['id']) else -1
    if (ar is None) != (tr is None):
        return -1
    return 3 if I.P.unqual_s(at) == I.P.unqual_s(t) else 1


def construct_at(I, st, lv, t, args, node):
    """construct an object of type t from args at lv -> [st]"""
    from .interp import LV, Rec
    ty = I.P.ty(t)
    k = ty.get('k')
    if k == 'rec':
        rec = I.P.recs[ty['rec']]
        f = find_ctor(I, rec, args)
        if f is None and len(args) == 1 and isinstance(args[0], Rec) and args[0].t is None:
            I.write(st, lv.loc, args[0])
            return [st]
        if f is None and rec.get('aggr') and not rec['bare'].startswith('std::'):
            if len(args) == 1 and (arg_type(I, args[0]) is None or
                                   (I.P.rec_of(arg_type(I, args[0])) or {}).get('id') == rec['id']):
                v = rv(I, st, args[0], t)
                I.write(st, lv.loc, v)
                return [st]
            st.mem[lv.loc] = ('base', ('zero',))
            I.clear_below(st, lv.loc)
            st.mem[lv.loc] = ('base', ('zero',))
            sts = [st]
            for fl, a in zip(I.P.all_fields(rec), args):
                sts = [s2 for s in sts for s2 in construct_at(I, s, lv.sub(('f', fl['n'])), fl['t'], [a], node)]
            return sts
        if f is None:
            if rec['bare'] in CTORS:
                r = CTORS[rec['bare']](I, st, rec, {'params': [], 'special': None, 'id': -1, 'q': rec['q']}, args, node,
                                       mkLV(lv.loc, lv.gens, t))
                if r is not None:
                    return r
            if len(args) == 1 and arg_type(I, args[0]) is not None and \
                    (I.P.rec_of(I.P.strip_ref(arg_type(I, args[0]))) or {}).get('id') == rec['id']:
                I.write(st, lv.loc, rv(I, st, args[0], t))
                return [st]
            I.clear_below(st, lv.loc)
            if not args:
                st.mem[lv.loc] = ('base', ('zero',))
                w = st.notes.get('writes')
                if w is not None:
                    w.add(lv.loc)
                return [st]
            I.event(st, 'uctor', node, rec=rec['bare'], how=None, loc=lv.loc, args=args, nothrow=False)
            if I.user_throw:
                from .interp import Exc
                b = st.copy()
                b.ev[-1] = I._mk('uctor_threw', node, rec=rec['bare'], loc=lv.loc)
                I.throw(b, Exc('user', where=I.where(node), implicit=True))
            I.write(st, lv.loc, Rec(('unk', T.fresh_n())))
            return [st]
        r = I.construct(st, rec, f, [adapt(I, st, a, p['t']) for a, p in zip(args, f['params'])],
                        node_like(node, f), mkLV(lv.loc, lv.gens, t))
        return [s for s, _ in r]
    if not args:
        if k == 'array':
            I.clear_below(st, lv.loc)
            st.mem[lv.loc] = ('base', ('zero',))
        else:
            I.write(st, lv.loc, ZERO if k != 'bool' else ('B', False), node)
        return [st]
    v = rv(I, st, args[0], arg_type(I, args[0]) if isinstance(args[0], LV) else None)
    if isinstance(v, Rec):
        v = convert_scalar(I, st, v, t)
    I.write(st, lv.loc, v, node)
    return [st]


def convert_scalar(I, st, v, t):
    p = v.ov.get((('f', 'r'),))
    if p is not None:
        return p
    return T.fresh('unk')


def node_like(node, f):
    n = dict(node) if isinstance(node, dict) else {'l': 0}
    n['k'] = 'ctor'
    n['f'] = f['id']
    n.pop('zi', None)
    n.pop('elide', None)
    return n


def adapt(I, st, a, pt):
    return a


def invoke(I, st, fn, args, node, t=None):
    """call a callable value -> [(st, value)]"""
    from .interp import LV, Rec
    if t is None:
        t = arg_type(I, fn)
    rec = I.P.rec_of(t) if t is not None else None
    if rec is None and isinstance(fn, LV):
        v = I.read(st, fn.loc)
        if v[0] == 'fn':
            return I.call(st, v[1], None, args, node)
    if isinstance(fn, tuple) and fn and fn[0] == 'fn':
        return I.call(st, fn[1], None, args, node)
    if isinstance(fn, tuple) and fn and fn[0] == 'ptr':
        return invoke(I, st, fn[1], args, node)
    if rec is not None and rec['bare'] == 'std::function':
        return call_function(I, st, as_lv(I, st, fn, t), args, node)
    if rec is not None and rec['bare'] == 'std::reference_wrapper':
        p = rv(I, st, fn, t).ov.get((('f', 'r'),))
        if p is not None:
            return invoke(I, st, I.deref(st, p), args, node)
    if rec is not None:
        best, bs = None, -1
        for f in I.P.funcs.values():
            if f.get('rec') == rec['id'] and f.get('name') == 'operator()' and len(f['params']) == len(args) \
                    and 'body' in f:
                sc = 0
                for p, a in zip(f['params'], args):
                    s = type_score(I, p['t'], a)
                    if s < 0:
                        sc = -100
                    sc += s
                if sc > bs:
                    best, bs = f, sc
        if best is not None:
            lv = as_lv(I, st, fn, t)
            return I.call(st, best['id'], LV(lv.loc, lv.gens, t), args, node)
        for f in I.P.funcs.values():
            if f.get('rec') == rec['id'] and f.get('name') == 'operator()' and len(f['params']) == len(args):
                return usercall(I, st, f, args, node, as_lv(I, st, fn, t))
    I.event(st, 'usercall', node, f='<callable>', args=args, fn=fn)
    if I.user_throw:
        from .interp import Exc
        b = st.copy()
        I.throw(b, Exc('user', where=I.where(node), implicit=True))
    return [(st, T.fresh('unk', 'callable'))]


def usercall(I, st, f, args, node, this=None):
    from .interp import Exc, LV
    I.event(st, 'usercall', node, f=f['bare'], args=args, fn=this, callee=f['id'])
    if I.user_throw and not f.get('noexcept'):
        b = st.copy()
        I.event(b, 'usercall_threw', node, f=f['bare'])
        I.throw(b, Exc('user', where=I.where(node), implicit=True))
    for p, a in zip(f['params'], args):
        if isinstance(a, LV) and I.P.is_ref(p['t']) and not I.P.ty(I.P.strip_ref(p['t'])).get('const'):
            I.havoc(st, a.loc)
    return [(st, I.opaque(st, f['ret'], 'user'))]


def call_function(I, st, lv, args, node):
    tgt = st.mem.get(I.canon(st, lv.loc) + (('s', 'target'),))
    if tgt is not None:
        t = tgt[1].t if tgt[0] == 'ptr' else None
        if tgt[0] == 'ptr':
            return invoke(I, st, tgt[1], args, node, t)
        return invoke(I, st, tgt, args, node)
    I.event(st, 'fncall', node, fn=lv, args=args)
    if I.user_throw:
        from .interp import Exc
        b = st.copy()
        I.throw(b, Exc('user', where=I.where(node), implicit=True))
    t = lv.t
    return [(st, T.fresh('unk', 'function'))]


# ------------------------------------------------------------------------- entry points
def categorise(I, f, args):
    """mark reference arguments with the value category their parameter type states"""
    from .interp import LV
    out = []
    ps = f.get('params') or []
    for i, a in enumerate(args):
        if isinstance(a, LV) and i < len(ps):
            k = I.P.ty(ps[i]['t']).get('k')
            if k in ('ref', 'rref'):
                a = LV(a.loc, a.gens, a.t, k == 'rref')
        out.append(a)
    return out


def call(I, st, f, this, args, node):
    b = f['bare']
    if f['name'] not in ('forward', 'move', 'as_const'):
        args = categorise(I, f, args)
    h = I.hooks.get('model')
    if h:
        r = h(I, st, f, this, args, node)
        if r is not None:
            return r
    rec = owner(I, f)
    if rec is not None and rec['bare'] in ABSTRACT and rec['bare'] in I.abstract:
        r = ABSTRACT[rec['bare']](I, st, f, rec, this, args, node)
        if r is not None:
            return r
    m = MODELS.get(b)
    if m is None and b.startswith('std::reference_wrapper::operator '):
        m = MODELS['std::reference_wrapper::get']
    if m is not None:
        r = m(I, st, f, this, args, node)
        if r is not None:
            return r
    if b.startswith('std::') or b.startswith('__gnu_cxx') or b.startswith('operator'):
        return unknown_std(I, st, f, this, args, node)
    if f.get('kind') == 'ctor':
        return [(st, ('void',))]
    if f.get('kind') == 'dtor':
        return [(st, ('void',))]
    if rec is not None and rec['bare'] in I.abstract:
        return unknown_std(I, st, f, this, args, node)
    return usercall(I, st, f, args, node, this)


def unknown_std(I, st, f, this, args, node):
    from .interp import LV
    b = f['bare']
    I.unknown_calls[b] = I.unknown_calls.get(b, 0) + 1
    I.event(st, 'stdcall', node, f=b, this=this, args=args, callee=f['id'])
    if this is not None and not f.get('const') and not f.get('static'):
        I.havoc(st, this.loc)
        I.invalidate(st, this.loc, node, b)
    for p, a in zip(f['params'], args):
        if isinstance(a, LV) and I.P.is_ref(p['t']) and not I.P.ty(I.P.strip_ref(p['t'])).get('const'):
            I.havoc(st, a.loc)
        elif isinstance(a, tuple) and a and a[0] == 'ptr' and not I.P.ty(I.P.pointee(p['t']) or -1).get('const'):
            I.havoc(st, a[1].loc)
    return [(st, I.opaque(st, f['ret'], b))]


def construct(I, st, rec, f, args, node, this):
    sp = f.get('special')
    b = rec['bare']
    args = categorise(I, f, args)
    h = I.hooks.get('model_ctor')
    if h:
        r = h(I, st, rec, f, args, node, this)
        if r is not None:
            return r
    if sp in ('copyctor', 'movector') and args and b not in ('std::lock_guard',):
        from .interp import LV, Rec
        src = args[0]
        if isinstance(src, LV):
            I.check_stale(st, src, node)
            v = I.read_rec(st, src.loc, this.t)
        else:
            v = src
        if isinstance(v, Rec):
            I.clear_below(st, this.loc)
            I.write(st, this.loc, v, node)
            if is_container_rec(rec) or b in ABSTRACT:
                I.event(st, 'cmove' if sp == 'movector' else 'ccopy', node, src=src, dst=this)
            if sp == 'movector' and isinstance(src, LV):
                moved_from_type(I, st, src.loc, this.t)
            return [st]
    c = CTORS.get(b)
    if c is not None:
        r = c(I, st, rec, f, args, node, this)
        if r is not None:
            return r
    I.clear_below(st, this.loc)
    if not args:
        st.mem[this.loc] = ('base', ('zero',))
    else:
        I.write(st, this.loc, mkRec(('unk', T.fresh_n())))
        I.unknown_calls[b + '::ctor'] = I.unknown_calls.get(b + '::ctor', 0) + 1
    w = st.notes.get('writes')
    if w is not None:
        w.add(this.loc)
    return [st]


def moved_from_type(I, st, loc, t):
    rec = I.P.rec_of(t) if t is not None else None
    if rec is None:
        return
    b = rec['bare']
    if b in ('std::vector', 'std::deque') or b in ABSTRACT:
        I.clear_below(st, loc)
        st.mem[loc] = ('base', ('zero',))
        st.mem[loc + (SIZE,)] = ZERO
        w = st.notes.get('writes')
        if w is not None:
            w.add(loc)
        if b in ABSTRACT and b in I.abstract:
            st.mem[loc + (('s', 'set'),)] = atom(('emptyset',))
    elif b == 'std::unique_ptr':
        I.write(st, loc + (('f', 'p'),), ZERO)
    elif b == 'std::function':
        pass
    elif b.startswith('std::'):
        pass
    elif not b.startswith('std::') and rec.get('fields') and not rec.get('lambda'):
        mv = next((f for f in I.P.funcs.values() if f.get('rec') == rec['id'] and f.get('special') == 'movector'), None)
        if mv is None or mv.get('defaulted') or mv.get('implicit'):
            I.moved_from(st, loc, rec)


def unlock(I, st, lv, node):
    locks = I.read(st, lv.loc + (('f', 'mx'),))
    I.event(st, 'unlock', node, mutex=locks)


def tuple_elem(I, st, lv, t, idx):
    rec = I.P.rec_of(t)
    ta = rec_targs(I, rec)
    et = ta[idx].get('t') if idx < len(ta) else None
    if rec['bare'] == 'std::pair':
        e = ('f', 'first' if idx == 0 else 'second')
    else:
        e = ('f', f'e{idx}')
    sl = lv.sub(e, t=et)
    if et is not None and I.P.is_ref(et):
        return I.deref(st, I.read(st, sl.loc, et), I.P.strip_ref(et))
    return sl


def iter_compare(I, st, lv, other, rec):
    return None


# ------------------------------------------------------------------------- identity-like
@model('std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::move_if_noexcept', 'std::forward_like')
def m_move(I, st, f, this, args, node):
    from .interp import LV
    if len(args) != 1:
        return None
    a = args[0]
    if isinstance(a, LV):
        return [(st, a)]
    return [(st, as_lv(I, st, a, ptype(I, f, 0)))]


@model('std::addressof', 'std::__addressof')
def m_addressof(I, st, f, this, args, node):
    a = as_lv(I, st, args[0], ptype(I, f, 0))
    return [(st, ('ptr', a if a.t is not None else mkLV(a.loc, a.gens, ptype(I, f, 0))))]


@model('std::exchange')
def m_exchange(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    lv = args[0]
    old = rv(I, st, lv, t)
    nv = args[1]
    I.event(st, 'exchange', node, loc=lv.loc)
    return assign_value(I, st, lv, nv, t, node, ret=old)


def assign_value(I, st, lv, src, t, node, ret=None):
    """*lv = src, for any type; returns [(st, ret or lv)]"""
    from .interp import LV, Rec
    ty = I.P.ty(t)
    I.check_stale(st, lv, node)
    if ty.get('k') == 'rec':
        rec = I.P.recs[ty['rec']]
        if not rec['bare'].startswith('std::'):
            for f in I.P.funcs.values():
                if f.get('rec') == rec['id'] and f.get('special') == ('moveassign') and not f.get('deleted'):
                    n = {'k': 'call', 'f': f['id'], 'l': node.get('l', 0), 'obj': {'t': t}, 'a': []}
                    s = as_lv(I, st, src, t)
                    return [(s2, ret if ret is not None else v) for s2, v in I.call_method(st, n, f, lv, [s])]
        v = rv(I, st, src, t)
        I.write(st, lv.loc, v, node)
        if isinstance(src, LV):
            moved_from_type(I, st, src.loc, t)
        return [(st, ret if ret is not None else lv)]
    v = rv(I, st, src, t)
    I.write(st, lv.loc, v, node)
    return [(st, ret if ret is not None else lv)]


@model('std::swap', 'std::iter_swap', 'std::ranges::swap', 'std::ranges::__swap::_Swap::operator()')
def m_swap(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    a, b = args[0], args[1]
    I.event(st, 'swap', node, a=a.loc, b=b.loc)
    ty = I.P.ty(t)
    rec = I.P.rec_of(t)
    if rec is not None and not rec['bare'].startswith('std::') and not rec.get('trivcopy', False) and \
            any(g.get('rec') == rec['id'] and g.get('special') == 'moveassign' and 'body' in g and not g.get('defaulted')
                for g in I.P.funcs.values()):
        # T tmp = move(a); a = move(b); b = move(tmp)
        tmp = I.fresh_loc('t', t)
        out = []
        for s in construct_at(I, st, tmp, t, [mkLV(a.loc, a.gens, t)], node):
            for s2, _ in assign_value(I, s, a, b, t, node):
                out += [(s3, ('void',)) for s3, _ in assign_value(I, s2, b, tmp, t, node)]
        return out
    va, vb = rv(I, st, a, t), rv(I, st, b, t)
    I.write(st, a.loc, vb, node)
    I.write(st, b.loc, va, node)
    return [(st, ('void',))]


@model('std::min', 'std::max')
def m_minmax(I, st, f, this, args, node):
    if len(args) < 2:
        return None
    t = ptype(I, f, 0)
    a, b = rv(I, st, args[0], t), rv(I, st, args[1], t)
    x, y = I.to_lin(a), I.to_lin(b)
    p = I.compare(st, '<', x, y)
    d = I.simplify(st, p)
    mn = f['name'] == 'min'
    if d is None and I.split_minmax:
        return [(s, as_lv(I, s, (x if b else y) if mn else (y if b else x), t)) for s, b in I.branch(st, p, node)]
    if d is None:
        i = ('min' if mn else 'max', min(x, y), max(x, y))
        v = atom(i, nonneg=T.nonneg_lin(x) and T.nonneg_lin(y))
        if mn:
            st.facts.assume_le(sub(v, x))
            st.facts.assume_le(sub(v, y))
        else:
            st.facts.assume_le(sub(x, v))
            st.facts.assume_le(sub(y, v))
    else:
        v = (x if d else y) if mn else (y if d else x)
    return [(st, as_lv(I, st, v, t))]


@model('std::get')
def m_get(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    rec = I.P.rec_of(t)
    lv = as_lv(I, st, args[0], t)
    ta = flat_targs(f)
    if rec is None:
        return None
    if rec['bare'] in ('std::pair', 'std::tuple'):
        # std::get<I> or std::get<T>
        a0 = f['targs'][0] if f.get('targs') else {}
        idx = a0.get('v')
        if idx is None and a0.get('t') is not None:
            want = I.P.unqual_s(a0['t'])
            for i, x in enumerate(rec_targs(I, rec)):
                if I.P.unqual_s(x['t']) == want:
                    idx = i
        if idx is None:
            return None
        return [(st, tuple_elem(I, st, lv, t, int(idx)))]
    if rec['bare'] == 'std::variant':
        a0 = f['targs'][0] if f.get('targs') else {}
        ta = rec_targs(I, rec)
        if a0.get('v') is not None:
            return [(st, lv.sub(('f', f"alt{a0['v']}"), t=ta[int(a0['v'])]['t']))]
        for i, x in enumerate(ta):
            if I.P.unqual_s(x['t']) == I.P.unqual_s(a0['t']):
                return [(st, lv.sub(('f', f"alt{i}"), t=x['t']))]
    if rec['bare'].startswith('std::ranges::subrange'):
        return None
    return None


@model('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple', 'std::tie')
def m_make_tuple(I, st, f, this, args, node):
    t = f['ret']
    lv = I.fresh_loc('t', t)
    sts = fill_tuple(I, st, lv, t, args, node)
    return [(s, I.read_rec(s, lv.loc, t)) for s in sts]


def fill_tuple(I, st, lv, t, args, node):
    rec = I.P.rec_of(t)
    ta = rec_targs(I, rec)
    I.clear_below(st, lv.loc)
    st.mem[lv.loc] = ('base', ('zero',))
    sts = [st]
    for i, (x, a) in enumerate(zip(ta, args)):
        e = ('f', ('first', 'second')[i]) if rec['bare'] == 'std::pair' else ('f', f'e{i}')
        et = x.get('t')
        nxt = []
        for s in sts:
            if et is not None and I.P.is_ref(et):
                a2 = unwrap_ref(I, s, a)
                al = as_lv(I, s, a2, I.P.strip_ref(et))
                if al.t is None:
                    al = mkLV(al.loc, al.gens, I.P.strip_ref(et))
                I.write(s, lv.loc + (e,), ('ptr', al), node)
                nxt.append(s)
            else:
                nxt += construct_at(I, s, lv.sub(e, t=et), et, [a], node)
        sts = nxt
    return sts


def unwrap_ref(I, st, a):
    r = I.P.rec_of(arg_type(I, a)) if arg_type(I, a) is not None else None
    if r is not None and r['bare'] == 'std::reference_wrapper':
        p = rv(I, st, a).ov.get((('f', 'r'),))
        if p is not None:
            return I.deref(st, p)
    return a


@ctor('std::pair', 'std::tuple')
def c_tuple(I, st, rec, f, args, node, this):
    from .interp import LV
    t = this.t
    ta = rec_targs(I, rec)
    if args and len(args) == 3 and (I.P.rec_of(arg_type(I, args[0]) or -1) or {}).get('bare') == 'std::piecewise_construct_t':
        I.clear_below(st, this.loc)
        st.mem[this.loc] = ('base', ('zero',))
        sts = [st]
        for i, name in enumerate(('first', 'second')):
            a = args[1 + i]
            tt = arg_type(I, a)
            n = len(rec_targs(I, tt))
            nxt = []
            for s in sts:
                al = as_lv(I, s, a, tt)
                el = [tuple_elem(I, s, al, tt, j) for j in range(n)]
                nxt += construct_at(I, s, this.sub(('f', name), t=ta[i]['t']), ta[i]['t'], el, node)
            sts = nxt
        return sts
    if len(args) == 1 and len(ta) != 1 or (len(args) == 1 and len(ta) == 1 and arg_type(I, args[0]) is not None and
                                           (I.P.rec_of(arg_type(I, args[0])) or {}).get('bare') == rec['bare'] and
                                           len(rec_targs(I, arg_type(I, args[0]))) == 1 and
                                           (I.P.rec_of(ta[0]['t']) or {}).get('bare') != rec['bare']):
        # converting construction from another pair / tuple
        at = arg_type(I, args[0])
        if at is None or (I.P.rec_of(at) or {}).get('bare') not in ('std::pair', 'std::tuple'):
            return None
        al = as_lv(I, st, args[0], at)
        el = [tuple_elem(I, st, al, at, j) for j in range(len(ta))]
        return fill_tuple(I, st, this, t, el, node)
    if not args:
        I.clear_below(st, this.loc)
        st.mem[this.loc] = ('base', ('zero',))
        return [st]
    return fill_tuple(I, st, this, t, args, node)


@model('std::pair::operator=', 'std::tuple::operator=')
def m_tuple_assign(I, st, f, this, args, node):
    from .interp import LV, Rec
    rec = owner(I, f)
    t = this.t if this.t is not None else I.rec_type(rec)
    at = ptype(I, f, 0)
    ar = I.P.rec_of(at)
    if ar and ar['id'] == rec['id'] and not any(I.P.is_ref(x['t']) for x in rec_targs(I, rec)):
        src = args[0]
        I.event(st, 'assign', node, loc=this.loc, src=src, t=t)
        if isinstance(src, LV) and I.canon(st, src.loc) == I.canon(st, this.loc):
            return [(st, this)]
        v = I.read_rec(st, src.loc, t) if isinstance(src, LV) else src
        I.write(st, this.loc, v, node)
        if isinstance(src, LV) and I.P.ty(f['params'][0]['t']).get('k') == 'rref':
            moved_from_type(I, st, src.loc, t)
        return [(st, this)]
    if ar and ar['bare'] in ('std::pair', 'std::tuple'):
        al = as_lv(I, st, args[0], at)
        sts = [st]
        for i, x in enumerate(rec_targs(I, rec)):
            nxt = []
            for s in sts:
                d = tuple_elem(I, s, this, t, i)
                e = tuple_elem(I, s, al, at, i)
                nxt += [s2 for s2, _ in assign_value(I, s, d, e, I.P.strip_ref(x['t']), node)]
            sts = nxt
        return [(s, this) for s in sts]
    return None


@model('std::pair::swap', 'std::tuple::swap', 'std::vector::swap', 'std::unique_ptr::swap', 'std::deque::swap')
def m_memswap(I, st, f, this, args, node):
    t = this.t if this.t is not None else I.rec_type(owner(I, f))
    va, vb = I.read_rec(st, this.loc, t), I.read_rec(st, args[0].loc, t)
    I.event(st, 'swap', node, a=this.loc, b=args[0].loc)
    I.write(st, this.loc, vb, node)
    I.write(st, args[0].loc, va, node)
    return [(st, ('void',))]


@model('std::apply')
def m_apply(I, st, f, this, args, node):
    tt = ptype(I, f, 1)
    al = as_lv(I, st, args[1], tt)
    n = len(rec_targs(I, tt))
    el = [tuple_elem(I, st, al, tt, j) for j in range(n)]
    fn = args[0]
    return invoke(I, st, fn, el, node, arg_type(I, fn) if arg_type(I, fn) is not None else ptype(I, f, 0))


@model('std::invoke', 'std::__invoke', 'std::ranges::invoke')
def m_invoke(I, st, f, this, args, node):
    return invoke(I, st, args[0], args[1:], node, arg_type(I, args[0]) if arg_type(I, args[0]) is not None else ptype(I, f, 0))


@model('std::visit')
def m_visit(I, st, f, this, args, node):
    t = ptype(I, f, 1)
    lv = as_lv(I, st, args[1], t)
    ta = rec_targs(I, t)
    idx = I.read(st, lv.loc + (('s', 'index'),))
    out = []
    for i, x in enumerate(ta):
        s = st.copy()
        if not I.assume(s, ('cmp', '==', sub(I.to_lin(idx), const(i)))):
            continue
        s.path.append((I.where(node), ('cmp', '==', sub(I.to_lin(idx), const(i))), True))
        alt = lv.sub(('f', f'alt{i}'), t=x['t'])
        I.event(s, 'visit_alt', node, i=i, t=I.P.ty(x['t'])['s'])
        out += invoke(I, s, args[0], [alt], node, arg_type(I, args[0]) if arg_type(I, args[0]) is not None else ptype(I, f, 0))
    return out


@ctor('std::variant')
def c_variant(I, st, rec, f, args, node, this):
    ta = rec_targs(I, rec)
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    if not args:
        return [st]
    at = arg_type(I, args[0])
    ar = I.P.rec_of(at) if at is not None else None
    for i, x in enumerate(ta):
        xr = I.P.rec_of(x['t'])
        if ar and xr and ar['id'] == xr['id']:
            st.mem[this.loc + (('s', 'index'),)] = const(i)
            return construct_at(I, st, this.sub(('f', f'alt{i}'), t=x['t']), x['t'], [args[0]], node)
    return None


@model('std::variant::index')
def m_vindex(I, st, f, this, args, node):
    return [(st, I.read(st, this.loc + (('s', 'index'),)))]


@model('std::holds_alternative')
def m_holds(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    ta = rec_targs(I, t)
    want = f['targs'][0].get('t')
    for i, x in enumerate(ta):
        if I.P.unqual_s(x['t']) == I.P.unqual_s(want):
            return [(st, ('cmp', '==', sub(I.to_lin(I.read(st, args[0].loc + (('s', 'index'),))), const(i))))]
    return None


@model('std::make_unique', 'std::make_shared')
def m_make_unique(I, st, f, this, args, node):
    t = rec_targs(I, f['ret'])[0]['t']
    lv = I.fresh_loc('h', t)
    I.event(st, 'new', node, loc=lv.loc, t=t, n=None)
    st.mem[lv.loc] = ('base', None)
    base = I.sink
    out = []
    ty = I.P.ty(t)
    if ty.get('k') == 'array':
        st.mem[lv.loc + (SIZE,)] = lin(I, st, args[0]) if args else const(ty.get('n', 0))
        return [(st, mkRec(('own',), {(('f', 'p'),): ('ptr', mkLV(lv.loc + (('i', ZERO),), (), ty['to']))}, f['ret']))]
    for s in construct_at(I, st, lv, t, args, node):
        rec = I.P.rec_of(t)
        if rec is not None:
            s.notes[('dyn', lv.loc)] = rec['id']
        out.append((s, mkRec(('own',), {(('f', 'p'),): ('ptr', lv)}, f['ret'])))
    return out


@ctor('std::unique_ptr', 'std::shared_ptr')
def c_unique(I, st, rec, f, args, node, this):
    from .interp import Rec, LV
    I.clear_below(st, this.loc)
    p = ZERO
    if args:
        at = arg_type(I, args[0])
        ar = I.P.rec_of(at) if at is not None else None
        if ar and ar['bare'] == rec['bare']:
            v = rv(I, st, args[0], at)
            p = v.get(('f', 'p')) if isinstance(v, Rec) else p
            if isinstance(args[0], LV):
                I.write(st, args[0].loc + (('f', 'p'),), ZERO)
        else:
            p = rv(I, st, args[0])
            if isinstance(p, Rec):
                p = ZERO      # nullptr_t
    st.mem[this.loc] = ('base', ('own',))
    I.write(st, this.loc + (('f', 'p'),), p)
    return [st]


def up_get(I, st, lv):
    v = I.read(st, lv.loc + (('f', 'p'),))
    if is_lin(v):
        i = T.single_id(v)
        if i is not None:
            T.NONNEG.add(i)
    return v


@model('std::unique_ptr::get', 'std::shared_ptr::get', 'std::unique_ptr::operator->', 'std::shared_ptr::operator->',
       'std::__shared_ptr_access::operator->', 'std::__shared_ptr::get', 'std::__shared_ptr_access::get')
def m_up_get(I, st, f, this, args, node):
    v = up_get(I, st, this)
    if f['name'] == 'operator->':
        I.event(st, 'deref', node, ptr=v)
    if v[0] == 'ptr' or not I.P.pointee(f['ret']) is not None:
        return [(st, v)]
    if is_lin(v) and not is_const(v):
        d = I.deref(st, v, I.P.pointee(f['ret']))
        if f['name'] == 'operator->':
            return [(st, ('ptr', d))]
    return [(st, v)]


@model('std::unique_ptr::operator*', 'std::shared_ptr::operator*', 'std::__shared_ptr_access::operator*')
def m_up_star(I, st, f, this, args, node):
    v = up_get(I, st, this)
    I.event(st, 'deref', node, ptr=v)
    return [(st, I.deref(st, v, I.P.strip_ref(f['ret'])))]


@model('std::__shared_ptr::use_count', 'std::shared_ptr::use_count')
def m_use_count(I, st, f, this, args, node):
    return [(st, atom(('usecount', I.canon(st, this.loc)), nonneg=True))]


@model('std::unique_ptr::operator[]')
def m_up_idx(I, st, f, this, args, node):
    v = up_get(I, st, this)
    out = []
    rec = owner(I, f)
    et = I.P.strip_ref(f['ret'])
    if v[0] == 'ptr' and v[1].loc[-1][0] == 'i':
        return [(st, mkLV(v[1].loc[:-1] + (('i', add(v[1].loc[-1][1], lin(I, st, args[0]))),), v[1].gens, et))]
    return [(st, mkLV((('p', I.to_lin(v)), ('i', lin(I, st, args[0]))), (), et))]


@model('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool')
def m_up_bool(I, st, f, this, args, node):
    v = up_get(I, st, this)
    if v[0] == 'ptr':
        return [(st, ('B', True))]
    return [(st, ('cmp', '!=', v))]


@model('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def m_up_assign(I, st, f, this, args, node):
    from .interp import Rec, LV
    old = up_get(I, st, this)
    v = rv(I, st, args[0], ptype(I, f, 0))
    p = v.get(('f', 'p')) if isinstance(v, Rec) else ZERO
    if isinstance(args[0], LV) and isinstance(v, Rec):
        I.write(st, args[0].loc + (('f', 'p'),), ZERO, node)
    I.event(st, 'udelete', node, ptr=old)
    I.write(st, this.loc + (('f', 'p'),), p, node)
    return [(st, this)]


@model('std::unique_ptr::reset', 'std::shared_ptr::reset')
def m_up_reset(I, st, f, this, args, node):
    I.event(st, 'udelete', node, ptr=up_get(I, st, this))
    p = rv(I, st, args[0]) if args else ZERO
    I.write(st, this.loc + (('f', 'p'),), p, node)
    return [(st, ('void',))]


@model('std::unique_ptr::release')
def m_up_release(I, st, f, this, args, node):
    v = up_get(I, st, this)
    I.write(st, this.loc + (('f', 'p'),), ZERO, node)
    return [(st, v)]


@ctor('std::reference_wrapper')
def c_refwrap(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    t = elem_type(I, rec)
    a = as_lv(I, st, args[0], t)
    st.mem[this.loc] = ('base', ('zero',))
    I.write(st, this.loc + (('f', 'r'),), ('ptr', mkLV(a.loc, a.gens, a.t if a.t is not None else t)))
    return [st]


@model('std::ref', 'std::cref')
def m_ref(I, st, f, this, args, node):
    a = as_lv(I, st, args[0], ptype(I, f, 0))
    return [(st, mkRec(('zero',), {(('f', 'r'),): ('ptr', mkLV(a.loc, a.gens, a.t if a.t is not None else ptype(I, f, 0)))}, f['ret']))]


@model('std::reference_wrapper::get', 'std::reference_wrapper::operator()')
def m_refget(I, st, f, this, args, node):
    v = I.read(st, this.loc + (('f', 'r'),))
    return [(st, I.deref(st, v, I.P.strip_ref(f['ret'])))]


# ------------------------------------------------------------------------- optional
@ctor('std::optional')
def c_optional(I, st, rec, f, args, node, this):
    from .interp import LV, Rec
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    t = elem_type(I, rec)
    at = arg_type(I, args[0]) if args else None
    ar = I.P.rec_of(at) if at is not None else None
    if not args or (ar and ar['bare'] == 'std::nullopt_t'):
        I.write(st, this.loc + (('s', 'has'),), ZERO)
        return [st]
    if ar and ar['bare'] == 'std::optional':
        return None
    st.mem[this.loc + (('s', 'has'),)] = ONE
    if ar and ar['bare'] == 'std::in_place_t':
        args = args[1:]
    return construct_at(I, st, this.sub(('f', 'val'), t=t), t, args, node)


def opt_has(I, st, loc):
    v = I.read(st, loc + (('s', 'has'),))
    if is_lin(v) and not is_const(v):
        i = T.single_id(v)
        if i is not None:
            T.BOOL.add(i)
            T.NONNEG.add(i)
        return ('cmp', '!=', v)
    if is_const(v):
        return ('B', v[1] != 0)
    return v


@model('std::optional::operator bool', 'std::optional::has_value')
def m_opt_bool(I, st, f, this, args, node):
    return [(st, opt_has(I, st, this.loc))]


@model('std::optional::operator->', 'std::optional::operator*', 'std::optional::value')
def m_opt_star(I, st, f, this, args, node):
    rec = owner(I, f)
    t = elem_type(I, rec) if rec and rec['bare'] == 'std::optional' else None
    lv = this.sub(('f', 'val'), t=t)
    if f['name'] == 'operator->':
        return [(st, ('ptr', lv))]
    return [(st, lv)]


@model('std::optional::value_or')
def m_opt_value_or(I, st, f, this, args, node):
    out = []
    t = f['ret']
    for s, b in I.branch(st, opt_has(I, st, this.loc), node):
        if b:
            out.append((s, rv(I, s, this.sub(('f', 'val'), t=t), t)))
        else:
            out.append((s, rv(I, s, args[0], t)))
    return out


@model('std::optional::reset')
def m_opt_reset(I, st, f, this, args, node):
    I.write(st, this.loc + (('s', 'has'),), ZERO, node)
    return [(st, ('void',))]


@model('std::optional::emplace')
def m_opt_emplace(I, st, f, this, args, node):
    t = elem_type(I, owner(I, f))
    st.mem[this.loc + (('s', 'has'),)] = ONE
    return [(s, this.sub(('f', 'val'), t=t)) for s in construct_at(I, st, this.sub(('f', 'val'), t=t), t, args, node)]


@model('std::optional::operator=')
def m_opt_assign(I, st, f, this, args, node):
    from .interp import LV, Rec
    rec = owner(I, f)
    at = ptype(I, f, 0)
    ar = I.P.rec_of(at)
    if ar and ar['bare'] == 'std::nullopt_t':
        I.write(st, this.loc + (('s', 'has'),), ZERO, node)
        return [(st, this)]
    if ar and ar['bare'] == 'std::optional':
        v = rv(I, st, args[0], at)
        I.write(st, this.loc, v, node)
        return [(st, this)]
    t = elem_type(I, rec)
    I.write(st, this.loc + (('s', 'has'),), ONE, node)
    return [(s, this) for s in construct_at(I, st, this.sub(('f', 'val'), t=t), t, [args[0]], node)]


@model('std::make_optional')
def m_make_optional(I, st, f, this, args, node):
    t = rec_targs(I, f['ret'])[0]['t']
    lv = I.fresh_loc('t', f['ret'])
    st.mem[lv.loc] = ('base', ('zero',))
    st.mem[lv.loc + (('s', 'has'),)] = ONE
    return [(s, I.read_rec(s, lv.loc, f['ret'])) for s in construct_at(I, st, lv.sub(('f', 'val'), t=t), t, args, node)]


@model('std::operator!=', 'std::operator==')
def m_std_eq(I, st, f, this, args, node):
    from .interp import LV, negate
    neg = f['name'] == 'operator!='
    ta, tb = ptype(I, f, 0), ptype(I, f, 1)
    ra, rb = I.P.rec_of(ta), I.P.rec_of(tb)
    p = None
    if ra and ra['bare'] == 'std::optional' and not (rb and rb['bare'] == 'std::optional'):
        has = opt_has(I, st, args[0].loc)
        if rb and rb['bare'] == 'std::nullopt_t':
            p = negate(has)
        else:
            e = value_eq(I, st, as_lv(I, st, args[0]).sub(('f', 'val'), t=elem_type(I, ra)), args[1], elem_type(I, ra), node)
            p = ('and', has, e)
    elif ra and ra['bare'] in ('std::unique_ptr',):
        v = up_get(I, st, args[0])
        w = up_get(I, st, args[1]) if rb and rb['bare'] == 'std::unique_ptr' else ZERO
        p = I.compare(st, '==', v, w)
    elif ra and rb and ra['bare'] == rb['bare'] == 'std::vector' and isinstance(args[0], LV) and isinstance(args[1], LV):
        p = same_content(I, st, args[0].loc, args[1].loc, node)
    if p is None:
        return None
    return [(st, negate(p) if neg else p)]


def same_content(I, st, a, b, node):
    a, b = I.canon(st, a), I.canon(st, b)
    I.event(st, 'equal', node, a=a, b=b)
    if a == b:
        return ('B', True)
    return ('cmp', '!=', atom(('ranges_equal', atom(('addr', a)), atom(('addr', b))), nonneg=True, boolean=True))


def value_eq(I, st, a, b, t, node):
    """predicate a == b for values of type t"""
    from .interp import Rec, LV
    ty = I.P.ty(t)
    if ty.get('k') != 'rec':
        return I.compare(st, '==', rv(I, st, a, t), rv(I, st, b, t))
    rec = I.P.recs[ty['rec']]
    a, b = as_lv(I, st, a, t), as_lv(I, st, b, t)
    if a.loc == b.loc:
        return ('B', True)
    for f in I.P.funcs.values():
        if f.get('rec') == rec['id'] and f.get('op') == '==' and f.get('defaulted'):
            r = I.default_compare(st, f, a, b, node)
            return r[0][1]
    x, y = rec_key(I, st, a, t), rec_key(I, st, b, t)
    return I.compare(st, '==', x, y)


def rec_key(I, st, a, t):
    """a term standing for a whole value (for use as a container key)"""
    from .interp import Rec, LV
    ty = I.P.ty(t)
    if ty.get('k') != 'rec':
        return lin(I, st, a, t)
    rec = I.P.recs[ty['rec']]
    lv = as_lv(I, st, a, t)
    if rec['bare'] in ABSTRACT and rec['bare'] in I.abstract and rec['bare'].endswith('dynamic_bitset'):
        return set_term(I, st, lv.loc)
    fs = [f for f in I.P.all_fields(rec)]
    if len(fs) == 1 and not rec['bare'].startswith('std::'):
        return rec_key(I, st, lv.sub(('f', fs[0]['n'])), fs[0]['t'])
    if fs and all(I.P.ty(f['t']).get('k') != 'rec' for f in fs) and not rec['bare'].startswith('std::'):
        return atom(('recval',) + tuple(lin(I, st, lv.sub(('f', f['n']), t=f['t']), f['t']) for f in fs), nonneg=True)
    v = I.read_rec(st, lv.loc, t)
    if v.base is not None and v.base[0] in ('init', 'fld', 'unk', 'hv') and not v.ov:
        return atom(('whole', v.base), nonneg=True)
    return T.fresh('unk', 'recval', nonneg=True)


# ------------------------------------------------------------------------- vector / deque
@ctor('std::vector', 'std::deque')
def c_vector(I, st, rec, f, args, node, this):
    from .interp import Rec
    et = elem_type(I, rec)
    I.clear_below(st, this.loc)
    w = st.notes.get('writes')
    if w is not None:
        w.add(this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    st.mem[this.loc + (SIZE,)] = ZERO
    ats = [arg_type(I, a) for a in args]
    if not args:
        return [st]
    r0 = I.P.rec_of(ats[0]) if ats[0] is not None else None
    if r0 and 'allocator' in r0['bare']:
        return [st]
    p0 = I.P.ty(ptype(I, f, 0)) if f.get('params') else {}
    if p0.get('k') == 'int':
        st.mem[this.loc + (SIZE,)] = lin(I, st, args[0])
        if len(args) > 1 and I.P.ty(ptype(I, f, 1)).get('k') != 'rec':
            st.mem[this.loc] = ('base', ('unk', T.fresh_n()))
        return [st]
    st.mem[this.loc] = ('base', ('unk', T.fresh_n()))
    st.mem[this.loc + (SIZE,)] = T.fresh('unk', nonneg=True)
    return [st]


def alloc_may_throw(I, st, node, what):
    if getattr(I, 'alloc_throw', False):
        from .interp import Exc
        b = st.copy()
        I.event(b, 'alloc_threw', node, what=what)
        I.throw(b, Exc('std::bad_alloc', where=I.where(node), implicit=True))


@model('std::vector::emplace_back', 'std::vector::push_back', 'std::deque::emplace_back', 'std::deque::push_back')
def m_emplace_back(I, st, f, this, args, node):
    from .interp import LV, Rec
    rec = owner(I, f)
    et = elem_type(I, rec)
    loc = I.canon(st, this.loc)
    deq = rec['bare'] == 'std::deque'
    n = size_of(I, st, loc)
    er = I.P.rec_of(et)
    val = None
    if len(args) == 1 and er is not None and er['bare'] in ('std::unique_ptr', 'std::shared_ptr'):
        val = up_get(I, st, args[0]) if isinstance(args[0], LV) else args[0].get(('f', 'p')) if isinstance(args[0], Rec) else args[0]
        if er['bare'] == 'std::shared_ptr' and isinstance(args[0], LV) and f['params'] and I.P.ty(f['params'][0]['t']).get('k') != 'rref':
            args = [rv(I, st, args[0], et)]       # a copy: the source keeps its share
    elif len(args) == 1 and I.P.ty(et).get('k') == 'ptr':
        val = rv(I, st, args[0], et)
    I.event(st, 'push', node, cont=loc, index=n, args=args, val=val)
    alloc_may_throw(I, st, node, 'push')
    e = loc + (('i', add(start_of(I, st, loc), n)),)
    outs = []
    if len(args) == 1 and f['name'] == 'push_back' and f['params']:
        pass
    for s in construct_at(I, st, mkLV(e, (), et), et, args, node):
        set_size(I, s, loc, add(n, ONE), node)
        element_lives(I, s, loc, e[-1][1])
        if not deq:
            I.invalidate(s, loc, node, 'push')
        outs.append((s, elem_lv(I, s, mkLV(loc, this.gens), add(start_of(I, s, loc), n), et)))
    return outs


@model('std::vector::pop_back', 'std::deque::pop_back')
def m_pop_back(I, st, f, this, args, node):
    rec = owner(I, f)
    et = elem_type(I, rec)
    loc = I.canon(st, this.loc)
    n = size_of(I, st, loc)
    I.event(st, 'pop', node, cont=loc, index=sub(n, ONE))
    e = loc + (('i', sub(add(start_of(I, st, loc), n), ONE)),)
    outs = []
    for s in I.destroy(st, mkLV(e, (), et), et, node) if I.needs_dtor(et) else [st]:
        set_size(I, s, loc, sub(n, ONE), node)
        element_dies(I, s, loc, e[-1][1])
        outs.append((s, ('void',)))
    return outs


def element_dies(I, st, loc, idx):
    """references to this element must not be used any more"""
    if is_lin(idx):
        st.gens[('dead', loc)] = st.gens.get(('dead', loc), ()) + (idx,)


def element_lives(I, st, loc, idx):
    d = st.gens.get(('dead', loc))
    if d:
        st.gens[('dead', loc)] = tuple(x for x in d if is_lin(idx) and st.facts.eq(sub(x, idx)) is False)


@model('std::deque::pop_front')
def m_pop_front(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    n = size_of(I, st, loc)
    s0 = start_of(I, st, loc)
    I.event(st, 'pop_front', node, cont=loc, index=s0)
    I.write(st, loc + (START,), add(s0, ONE), node)
    set_size(I, st, loc, sub(n, ONE), node)
    element_dies(I, st, loc, s0)
    return [(st, ('void',))]


@model('std::deque::push_front', 'std::deque::emplace_front')
def m_push_front(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    et = elem_type(I, owner(I, f))
    n = size_of(I, st, loc)
    s0 = sub(start_of(I, st, loc), ONE)
    I.event(st, 'push_front', node, cont=loc, index=s0)
    outs = []
    for s in construct_at(I, st, mkLV(loc + (('i', s0),), (), et), et, args, node):
        I.write(s, loc + (START,), s0, node)
        element_lives(I, s, loc, s0)
        set_size(I, s, loc, add(n, ONE), node)
        outs.append((s, elem_lv(I, s, mkLV(loc), s0, et)))
    return outs


@model('std::vector::size', 'std::deque::size', 'std::array::size')
def m_size(I, st, f, this, args, node):
    rec = owner(I, f)
    if rec['bare'] == 'std::array':
        return [(st, const(int(rec_targs(I, rec)[1]['v'])))]
    return [(st, size_of(I, st, this.loc))]


@model('std::size', 'std::ranges::__cust_access::_Size::operator()', 'std::ssize')
def m_fsize(I, st, f, this, args, node):
    r = I.P.rec_of(ptype(I, f, 0))
    if is_container_rec(r):
        return [(st, size_of(I, st, args[0].loc))]
    return None


@model('std::vector::empty', 'std::deque::empty')
def m_empty(I, st, f, this, args, node):
    return [(st, ('cmp', '==', size_of(I, st, this.loc)))]


@model('std::vector::capacity', 'std::vector::max_size')
def m_cap(I, st, f, this, args, node):
    if f['name'] == 'capacity':
        v = T.fresh('any', 'capacity', nonneg=True)        # any value, but room for what is there
        st.facts.assume_le(sub(size_of(I, st, I.canon(st, this.loc)), v))
        return [(st, v)]
    v = T.fresh('unk', 'capacity', nonneg=True)
    return [(st, v)]


@model('std::vector::operator[]', 'std::deque::operator[]', 'std::array::operator[]')
def m_index(I, st, f, this, args, node):
    rec = owner(I, f)
    et = elem_type(I, rec)
    loc = I.canon(st, this.loc)
    i = lin(I, st, args[0])
    I.event(st, 'index', node, cont=loc, index=i, size=None if rec['bare'] == 'std::array' else size_of(I, st, loc))
    i = add(i, start_of(I, st, loc))
    out = []
    for s, j in I.resolve_index(st, loc, i):
        out.append((s, elem_lv(I, s, mkLV(loc, this.gens), j, et)))
    return out


@model('std::vector::at', 'std::deque::at', 'std::array::at')
def m_at(I, st, f, this, args, node):
    from .interp import Exc
    rec = owner(I, f)
    et = elem_type(I, rec)
    loc = I.canon(st, this.loc)
    i = lin(I, st, args[0])
    n = size_of(I, st, loc)
    out = []
    for s, b in I.branch(st, ('cmp', '<=', add(sub(i, n), ONE)), node):
        if b:
            out.append((s, elem_lv(I, s, mkLV(loc, this.gens), add(i, start_of(I, s, loc)), et)))
        else:
            I.throw(s, Exc('std::out_of_range', where=I.where(node)))
    return out


@model('std::vector::back', 'std::deque::back')
def m_back(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    loc = I.canon(st, this.loc)
    n = size_of(I, st, loc)
    I.event(st, 'back', node, cont=loc, size=n)
    i = sub(add(start_of(I, st, loc), n), ONE)
    return [(s, elem_lv(I, s, mkLV(loc, this.gens), j, et)) for s, j in I.resolve_index(st, loc, i)]


@model('std::vector::front', 'std::deque::front')
def m_front(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    loc = I.canon(st, this.loc)
    I.event(st, 'front', node, cont=loc, size=size_of(I, st, loc))
    return [(st, elem_lv(I, st, mkLV(loc, this.gens), start_of(I, st, loc), et))]


@model('std::vector::data', 'std::array::data')
def m_data(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    return [(st, ('ptr', elem_lv(I, st, this, ZERO, et)))]


@model('std::vector::clear', 'std::deque::clear')
def m_clear(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    I.event(st, 'clear', node, cont=loc)
    et = elem_type(I, owner(I, f))
    set_size(I, st, loc, ZERO, node)
    I.invalidate(st, loc, node, 'clear')
    return [(st, ('void',))]


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def m_reserve(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    alloc_may_throw(I, st, node, 'reserve')
    I.invalidate(st, loc, node, 'reserve')
    return [(st, ('void',))]


@model('std::vector::resize', 'std::deque::resize')
def m_resize(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    n = lin(I, st, args[0])
    old = size_of(I, st, loc)
    if st.facts.eq(sub(add(n, ONE), old)) is True:
        return m_pop_back(I, st, f, this, [], node)
    I.event(st, 'resize', node, cont=loc, n=n, old=old)
    alloc_may_throw(I, st, node, 'resize')
    set_size(I, st, loc, n, node)
    I.invalidate(st, loc, node, 'resize')
    return [(st, ('void',))]


@model('std::vector::assign')
def m_assign(I, st, f, this, args, node):
    loc = I.canon(st, this.loc)
    I.event(st, 'resize', node, cont=loc, n=None, old=None)
    I.invalidate(st, loc, node, 'assign')
    if len(args) == 2 and I.P.ty(ptype(I, f, 0)).get('k') == 'int':
        havoc_elems(I, st, loc)
        set_size(I, st, loc, lin(I, st, args[0]), node)
        return [(st, ('void',))]
    I.havoc(st, loc)
    return [(st, ('void',))]


@model('std::vector::begin', 'std::vector::cbegin', 'std::deque::begin')
def m_begin(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    return [(st, make_it(I, st, this, start_of(I, st, this.loc), et, f['ret']))]


@model('std::vector::end', 'std::vector::cend', 'std::deque::end')
def m_end(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    n = add(start_of(I, st, this.loc), size_of(I, st, this.loc))
    return [(st, make_it(I, st, this, n, et, f['ret']))]


@model('std::vector::operator=', 'std::deque::operator=')
def m_vassign(I, st, f, this, args, node):
    from .interp import LV
    src = args[0]
    t = I.rec_type(owner(I, f))
    I.event(st, 'assign', node, loc=this.loc, src=src, t=t)
    if isinstance(src, LV) and I.canon(st, src.loc) == I.canon(st, this.loc):
        return [(st, this)]
    v = I.read_rec(st, src.loc, t) if isinstance(src, LV) else src
    I.write(st, this.loc, v, node)
    I.invalidate(st, I.canon(st, this.loc), node, 'assign')
    if isinstance(src, LV) and I.P.ty(f['params'][0]['t']).get('k') == 'rref':
        moved_from_type(I, st, src.loc, t)
        I.invalidate(st, I.canon(st, src.loc), node, 'assign')
    return [(st, this)]


@model('std::vector::erase', 'std::deque::erase')
def m_erase(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    loc = I.canon(st, this.loc)
    p = it_ptr(I, st, args[0])
    idx = p.loc[-1][1] if p is not None and p.loc[:-1] == loc else None
    n = size_of(I, st, loc)
    if len(args) == 2:
        q = it_ptr(I, st, args[1])
        gone = getattr(I, 'removed', {}).get(sub(n, idx)) if idx is not None else None
        if gone is not None and q is not None and q.loc[:-1] == loc and st.facts.eq(sub(q.loc[-1][1], n)) is True:
            I.event(st, 'erase_if', node, cont=loc, pred=gone[0], elem=gone[1], cases=gone[2])
        else:
            I.event(st, 'erase_range', node, cont=loc, a=idx, b=q.loc[-1][1] if q is not None and q.loc[:-1] == loc else None)
        havoc_elems(I, st, loc)
        if idx is not None and q is not None and q.loc[:-1] == loc:
            set_size(I, st, loc, sub(n, sub(q.loc[-1][1], idx)), node)
        else:
            set_size(I, st, loc, T.fresh('unk', nonneg=True), node)
    elif idx is not None and st.facts.eq(sub(add(idx, ONE), add(start_of(I, st, loc), n))) is True:
        # the last element
        return [(s, make_it(I, s, this, idx, et, f['ret'])) for s, _ in m_pop_back(I, st, f, this, [], node)]
    else:
        I.event(st, 'erase', node, cont=loc, index=idx)
        havoc_elems(I, st, loc)
        set_size(I, st, loc, sub(n, ONE), node)
    I.invalidate(st, loc, node, 'erase')
    r = make_it(I, st, this, idx if idx is not None else T.fresh('unk', nonneg=True), et, f['ret'])
    return [(st, r)]


@model('std::vector::insert', 'std::vector::emplace', 'std::deque::insert')
def m_vinsert(I, st, f, this, args, node):
    et = elem_type(I, owner(I, f))
    loc = I.canon(st, this.loc)
    I.event(st, 'vinsert', node, cont=loc, args=args[1:])
    n = size_of(I, st, loc)
    havoc_elems(I, st, loc)
    if len(args) == 2:
        set_size(I, st, loc, add(n, ONE), node)
    else:
        set_size(I, st, loc, T.fresh('unk', nonneg=True), node)
    I.invalidate(st, loc, node, 'insert')
    return [(st, make_it(I, st, this, T.fresh('unk', nonneg=True), et, f['ret']))]


@model('std::erase_if', 'std::erase')
def m_erase_if(I, st, f, this, args, node):
    """the survivors are exactly the elements for which the predicate is false"""
    from .interp import LV
    loc = I.canon(st, args[0].loc)
    rec = I.P.rec_of(ptype(I, f, 0))
    et = elem_type(I, rec)
    # evaluate the predicate on an arbitrary element, for the record
    probe = st.copy()
    el = mkLV((('o', 'erase_if_elem', T.fresh_n()),), (), et)
    res = None
    if f['name'] == 'erase_if':
        save = I.sink
        I.sink = []
        r = invoke(I, probe, args[1], [el], node, arg_type(I, args[1]) if arg_type(I, args[1]) is not None else ptype(I, f, 1))
        I.sink = save
        if len(r) == 1:
            res = r[0][1]
    else:
        res = value_eq(I, probe, el, args[1], et, node)
        r = [(probe, res)]
    I.event(st, 'erase_if', node, cont=loc, pred=res, elem=el.loc, cases=r)
    n = size_of(I, st, loc)
    havoc_elems(I, st, loc)
    k = T.fresh('hv', 'erased', nonneg=True)
    set_size(I, st, loc, sub(n, k), node)
    I.invalidate(st, loc, node, 'erase_if')
    return [(st, k)]


@model('std::remove_if')
def m_remove_if(I, st, f, this, args, node):
    """the iterator stands for the end of the elements that stay; erasing from there is erase_if"""
    a, b = it_ptr(I, st, args[0]), it_ptr(I, st, args[1])
    if a is None or b is None or not a.loc or a.loc[-1] != ('i', const(0)):
        return None
    loc = a.loc[:-1]
    n = size_of(I, st, loc)
    if st.facts.eq(sub(b.loc[-1][1], n)) is not True or b.loc[:-1] != loc:
        return None
    et = a.t
    probe = st.copy()
    el = mkLV((('o', 'erase_if_elem', T.fresh_n()),), (), et)
    save = I.sink
    I.sink = []
    r = invoke(I, probe, args[2], [el], node, arg_type(I, args[2]) if arg_type(I, args[2]) is not None else ptype(I, f, 2))
    I.sink = save
    k = T.fresh('hv', 'removed', nonneg=True)
    st.facts.assume_le(sub(k, n))
    I.removed = getattr(I, 'removed', {})
    I.removed[k] = (r[0][1] if len(r) == 1 else None, el.loc, r)
    havoc_elems(I, st, loc)
    I.event(st, 'remove_if', node, cont=loc)
    return [(st, make_it(I, st, mkLV(loc, a.gens, None), sub(n, k), et, f['ret']))]


# iterators
@ctor('__gnu_cxx::__normal_iterator')
def c_it(I, st, rec, f, args, node, this):
    from .interp import Rec
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('it',))
    if args:
        p = it_ptr(I, st, args[0])
        if p is None:
            return None
        st.mem[this.loc + (IT,)] = ('ptr', p)
    return [st]


@model('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def m_it_star(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    if p is None:
        return None
    I.event(st, 'itderef', node, loc=p.loc)
    t = p.t
    rt = I.P.strip_ref(f['ret'])
    q = mkLV(I.canon(st, p.loc), p.gens, t if t is not None else rt)
    if q.loc[-1][0] == 'i':
        outs = []
        for s, j in I.resolve_index(st, q.loc[:-1], q.loc[-1][1]):
            r = mkLV(q.loc[:-1] + (('i', j),), q.gens, q.t)
            outs.append((s, ('ptr', r) if f['name'] == 'operator->' else r))
        return outs
    return [(st, ('ptr', q) if f['name'] == 'operator->' else q)]


@model('__gnu_cxx::__normal_iterator::operator[]')
def m_it_idx(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    if p is None or p.loc[-1][0] != 'i':
        return None
    return [(st, mkLV(p.loc[:-1] + (('i', add(p.loc[-1][1], lin(I, st, args[0]))),), p.gens, p.t))]


def it_shift(I, p, k):
    if p.loc[-1][0] != 'i':
        return None
    return mkLV(p.loc[:-1] + (('i', add(p.loc[-1][1], k)),), p.gens, p.t)


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def m_it_plus(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    k = lin(I, st, args[0])
    if f['name'] == 'operator-':
        k = scale(k, -1)
    q = it_shift(I, p, k) if p is not None else None
    if q is None:
        return None
    return [(st, mkRec(('it',), {(IT,): ('ptr', q)}, f['ret']))]


@model('__gnu_cxx::operator+', '__gnu_cxx::operator-')
def m_it_fplus(I, st, f, this, args, node):
    if f['name'] == 'operator-':
        p, q = it_ptr(I, st, args[0]), it_ptr(I, st, args[1])
        if p is not None and q is not None and p.loc[:-1] == q.loc[:-1]:
            return [(st, sub(p.loc[-1][1], q.loc[-1][1]))]
        return None
    p = it_ptr(I, st, args[1])
    q = it_shift(I, p, lin(I, st, args[0])) if p is not None else None
    return [(st, mkRec(('it',), {(IT,): ('ptr', q)}, f['ret']))] if q is not None else None


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def m_it_inc(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    q = it_shift(I, p, const(1 if '++' in f['name'] else -1)) if p is not None else None
    if q is None:
        return None
    old = I.read_rec(st, this.loc, this.t)
    it_set(I, st, this, q, node)
    if args:
        return [(st, old)]
    return [(st, this)]


@model('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def m_it_inc2(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    k = lin(I, st, args[0])
    q = it_shift(I, p, k if '+=' in f['name'] else scale(k, -1)) if p is not None else None
    if q is None:
        return None
    it_set(I, st, this, q, node)
    return [(st, this)]


@model('__gnu_cxx::__normal_iterator::operator=')
def m_it_assign(I, st, f, this, args, node):
    v = rv(I, st, args[0], ptype(I, f, 0))
    I.write(st, this.loc, v, node)
    return [(st, this)]


@model('__gnu_cxx::__normal_iterator::base')
def m_it_base(I, st, f, this, args, node):
    p = it_ptr(I, st, this)
    return [(st, ('ptr', p))] if p is not None else None


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', '__gnu_cxx::operator<=>')
def m_it_eq(I, st, f, this, args, node):
    p, q = it_ptr(I, st, args[0]), it_ptr(I, st, args[1])
    if p is None or q is None:
        return None
    op = f['name'].replace('operator', '')
    lp, lq = I.canon(st, p.loc), I.canon(st, q.loc)
    if lp[:-1] == lq[:-1] and lp[-1][0] == 'i' == lq[-1][0]:
        if op == '<=>':
            return None
        return [(st, I.compare(st, op, lp[-1][1], lq[-1][1]))]
    if op in ('==', '!='):
        if lp == lq:
            return [(st, ('B', op == '=='))]
        mp, mq = mend(lp), mend(lq)
        # iterator into an abstract map against its end
        if mp is not None and mq is not None and mp[0] == mq[0]:
            pass
        r = I.compare(st, op, ('ptr', p), ('ptr', q))
        return [(st, r)]
    return None


def mend(loc):
    return None


@model('std::next', 'std::prev')
def m_next(I, st, f, this, args, node):
    v = rv(I, st, args[0], ptype(I, f, 0))
    k = lin(I, st, args[1]) if len(args) > 1 else ONE
    if f['name'] == 'prev':
        k = scale(k, -1)
    if is_pit(v):
        return [(st, pit_shift(v, k))]
    p = it_ptr(I, st, v)
    q = it_shift(I, p, k) if p is not None else None
    if q is None:
        return None
    return [(st, mkRec(('it',), {(IT,): ('ptr', q)}, f['ret']))]


@model('std::distance', 'std::ranges::__distance_fn::operator()')
def m_distance(I, st, f, this, args, node):
    if len(args) == 1:
        r = range_of(I, st, args[0], ptype(I, f, 0))
        if r is None:
            return None
        return [(st, count_of(I, st, r))]
    if len(args) == 2:
        p, q = it_ptr(I, st, args[0]), it_ptr(I, st, args[1])
        if p is not None and q is not None and p.loc[:-1] == q.loc[:-1]:
            return [(st, sub(q.loc[-1][1], p.loc[-1][1]))]
    return None


@model('std::begin', 'std::end', 'std::cbegin', 'std::cend')
def m_fbegin(I, st, f, this, args, node):
    r = I.P.rec_of(ptype(I, f, 0))
    if is_container_rec(r):
        et = elem_type(I, r)
        i = start_of(I, st, args[0].loc)
        if 'end' in f['name']:
            i = add(i, size_of(I, st, args[0].loc))
        return [(st, make_it(I, st, args[0], i, et, f['ret']))]
    return None


# ------------------------------------------------------------------------- algorithms
def algo_range(I, st, args, f):
    """(range lv or iterators) leading arguments -> (range value, type, remaining args)"""
    p = it_ptr(I, st, args[0]) if arg_type(I, args[0]) is not None and \
        (I.P.rec_of(arg_type(I, args[0])) or {}).get('bare') == '__gnu_cxx::__normal_iterator' else None
    if p is not None:
        q = it_ptr(I, st, args[1])
        return ('its', p, q), None, args[2:]
    return args[0], ptype(I, f, 0), args[1:]


@model('std::for_each', 'std::ranges::__for_each_fn::operator()')
def m_for_each(I, st, f, this, args, node):
    r, t, rest = algo_range(I, st, args, f)
    fn = rest[0]
    ft = arg_type(I, fn)
    if ft is None:
        ft = ptype(I, f, len(args) - len(rest))

    def body(s, e):
        return [(s2, None) for s2, _ in invoke(I, s, fn, [e], node, ft)]
    if isinstance(r, tuple) and r and r[0] == 'its':
        o = iter_span(I, st, r[1], r[2], body, node)
    else:
        o = iterate(I, st, r, t, body, node)
    if o is None:
        return None
    return [(s, I.opaque(s, f['ret'])) for s, _ in o]


def iter_span(I, st, p, q, body, node):
    if p.loc[:-1] != q.loc[:-1]:
        return None
    cont = p.loc[:-1]
    a, b = p.loc[-1][1], q.loc[-1][1]
    return span_loop(I, st, mkLV(cont, p.gens[:-1] if p.gens else ()), a, sub(b, a), p.t, body, node)


def span_loop(I, st, lv, first, n, et, body, node, label='range'):
    cont = I.canon(st, lv.loc)
    k = T.fresh('elem', node.get('l', 0), nonneg=True)
    st0 = st
    empty = ('cmp', '<=', n)
    nonempty = ('cmp', '<=', add(scale(n, -1), ONE))

    if I.peel:
        z = st.copy()
        out = []
        if I.assume(z, empty):
            z.ev.append(I._mk('loop0', node, label=label, cont=cont))
            out.append((z, None))
        if not I.assume(st, nonempty):
            return out
        st.ev.append(I._mk('first', node, label=label))
        for s2, j in I.resolve_index(st, cont, first):
            e = mkLV(cont + (('i', j),), tuple(lv.gens) + ((cont, s2.gens.get(cont, 0)),), et)
            I.event(s2, 'iterate', node, cont=cont, index=j, first=first, n=n, k=ZERO)
            for s3, sig in body(s2, e):
                if sig is None or sig == ('continue',):
                    s3.ev.append(I._mk('endfirst', node, label=label))
                    I.peel = False
                    try:
                        out += span_loop(I, s3, lv, add(first, ONE), sub(n, ONE), et, lambda s, e: I.repeel(lambda x: body(x, e), s), node, label)
                    finally:
                        I.peel = True
                elif sig == ('break',):
                    s3.ev.append(I._mk('endloop', node, label=label, how='break', n=None))
                    out.append((s3, None))
                else:
                    s3.ev.append(I._mk('endloop', node, label=label, how='return', n=None))
                    out.append((s3, sig))
        return out

    def one(s):
        s.facts.assume_le(add(sub(k, n), ONE))       # k < n
        i = add(first, k)
        out = []
        for s2, j in I.resolve_index(s, cont, i):
            e = mkLV(cont + (('i', j),), tuple(lv.gens) + ((cont, s2.gens.get(cont, 0)),), et)
            I.event(s2, 'iterate', node, cont=cont, index=j, first=first, n=n, k=k)
            out += body(s2, e)
        return out
    return I.generic_loop(st, node, nonempty, empty, one, label, count=n, cont=cont)


@model('std::any_of', 'std::all_of', 'std::none_of', 'std::ranges::__any_of_fn::operator()',
       'std::ranges::__all_of_fn::operator()', 'std::ranges::__none_of_fn::operator()')
def m_any_of(I, st, f, this, args, node):
    """result true/false branches with the predicate's outcome on an arbitrary element recorded"""
    r, t, rest = algo_range(I, st, args, f)
    fn = rest[0]
    ft = arg_type(I, fn)
    if ft is None:
        ft = ptype(I, f, len(args) - len(rest))
    kind = 'any' if 'any' in f['q'] else 'all' if 'all' in f['q'] else 'none'
    stop_on = {'any': True, 'all': False, 'none': True}[kind]
    early = {'any': True, 'all': False, 'none': False}[kind]

    def body(s, e):
        out = []
        for s2, v in invoke(I, s, fn, [e], node, ft):
            for s3, b in I.truth(s2, v, node):
                out.append((s3, ('return', ('B', early)) if b == stop_on else None))
        return out
    if isinstance(r, tuple) and r and r[0] == 'its':
        o = iter_span(I, st, r[1], r[2], body, node)
    else:
        o = iterate(I, st, r, t, body, node)
    if o is None:
        return None
    return [(s, sig[1] if sig is not None else ('B', not early)) for s, sig in o]


@model('std::find_if', 'std::find', 'std::ranges::__find_if_fn::operator()', 'std::ranges::__find_fn::operator()')
def m_find_if(I, st, f, this, args, node):
    r, t, rest = algo_range(I, st, args, f)
    isval = 'find_if' not in f['q']
    fn = rest[0]
    ft = arg_type(I, fn)
    if ft is None:
        ft = ptype(I, f, len(args) - len(rest))
    if isinstance(r, tuple) and r and r[0] == 'its':
        p, q = r[1], r[2]
        if p.loc[:-1] != q.loc[:-1]:
            return None
    else:
        rr = I.P.rec_of(t)
        if not is_container_rec(rr):
            return None
        et = elem_type(I, rr)
        p = elem_lv(I, st, r, start_of(I, st, r.loc), et)
        q = elem_lv(I, st, r, add(start_of(I, st, r.loc), size_of(I, st, r.loc)), et)

    def body(s, e):
        out = []
        if isval:
            vs = [(s, value_eq(I, s, e, fn, e.t, node))]
        else:
            vs = invoke(I, s, fn, [e], node, ft)
        for s2, v in vs:
            for s3, b in I.truth(s2, v, node):
                out.append((s3, ('return', mkRec(('it',), {(IT,): ('ptr', e)}, f['ret'])) if b else None))
        return out
    o = iter_span(I, st, p, q, body, node)
    if o is None:
        return None
    return [(s, sig[1] if sig is not None else mkRec(('it',), {(IT,): ('ptr', q)}, f['ret'])) for s, sig in o]


@model('std::accumulate')
def m_accumulate(I, st, f, this, args, node):
    p, q = it_ptr(I, st, args[0]), it_ptr(I, st, args[1])
    t = ptype(I, f, 2)
    init = lin(I, st, args[2], t)
    if p is None or q is None:
        return None
    if p.loc[:-1] != q.loc[:-1]:
        return None
    # fold: evaluate the combination on symbolic operands; when it is acc + g(elem) the result is init + SUM g
    probe = st.copy()
    acc = atom(('accvar', T.fresh_n()), nonneg=True)
    accl = as_lv(I, probe, acc, t)
    el = mkLV((('o', 'acc_elem', T.fresh_n()),), (), p.t)
    save = I.sink
    I.sink = []
    if len(args) > 3:
        r = invoke(I, probe, args[3], [accl, el], node, arg_type(I, args[3]) if arg_type(I, args[3]) is not None else ptype(I, f, 3))
    else:
        r = [(probe, add(acc, lin(I, probe, el, p.t)))]
    I.sink = save
    ai = T.single_id(acc)
    lo, hi = p.loc[-1][1], q.loc[-1][1]
    alts = []
    for s1, v in r:
        g = sub(lin(I, s1, v, t), acc)
        if any(x == ai for x, _ in g[2]):
            alts = []
            break
        alts.append((g, s1, el.loc))
    if alts:
        g = one_of(I, [(canon_elem(I, g, el.loc), g, s1, loc) for g, s1, loc in alts])
        if len(alts) == 1:
            I.event(st, 'accumulate', node, cont=p.loc[:-1], lo=lo, hi=hi, g=alts[0][0], elem=el.loc, init=init)
        s = atom(('sum', p.loc[:-1], lo, hi, g), nonneg=T.nonneg_lin(g))
        return [(st, add(init, s))]
    return [(st, T.fresh('unk', 'accumulate'))]


def one_of(I, alts):
    """what one element contributes when that depends on the element: [(canonical form, expression, state, element)]"""
    gs = []
    for c, _, _, _ in alts:
        if c not in gs:
            gs.append(c)
    if len(gs) == 1:
        return gs[0]
    gs.sort(key=repr)
    a = atom(('oneof',) + tuple(gs), nonneg=all(T.nonneg_lin(g) for g in gs))
    I.sum_alts[T.single_id(a)] = [(g, s, loc) for _, g, s, loc in alts]
    return a


def canon_elem(I, g, eloc, index=None):
    """replace the probe element's identity by a canonical one, so equal sums get equal names"""
    n = 1 if index is None else len(eloc)

    def same(loc):
        # the storage of a container may be known under another name: the index tells elements apart
        if index is None:
            return 1 if loc[:1] == eloc[:1] else 0
        for i, x in enumerate(loc):
            if x == ('i', index):
                return i + 1
        return 0

    def rel(loc):
        k = same(loc)
        if k:
            return tuple(loc[k:])
        if loc[0][0] == 'p':
            a = T.single_atom(loc[0][1])
            if a is not None and a[0] == 'init':
                r = rel(a[1])
                if r is not None:
                    return ('*', r) + tuple(loc[1:])
        return None
    d = {}
    c = g[1]
    for a, k in g[2]:
        info = T.info(a)
        i = a
        if info[0] == 'init':
            r = rel(info[1])
            if r is not None:
                i = T.intern(('elemfld',) + r if r[:1] != ('*',) else ('elemptr', r), nonneg=a in T.NONNEG)
        d[i] = d.get(i, 0) + k
    return T.mk(c, d)


@model('std::ranges::__equal_fn::operator()', 'std::equal')
def m_equal(I, st, f, this, args, node):
    from .interp import LV
    if f['bare'] == 'std::equal':
        return None
    a, b = args[0], args[1]
    I.event(st, 'equal', node, a=a.loc, b=b.loc)
    if a.loc == b.loc:
        return [(st, ('B', True))]
    return [(st, ('cmp', '!=', atom(('ranges_equal', atom(('addr', a.loc)), atom(('addr', b.loc))), nonneg=True, boolean=True)))]


# ------------------------------------------------------------------------- ranges pipelines
VIEW = ('s', 'view')


def is_view_rec(r):
    return r is not None and (r['bare'].startswith('std::ranges::') and ('view' in r['bare'] or 'subrange' in r['bare'])
                              or r['bare'].startswith('ranges::') and 'view' in r['bare'])


def view_of(I, st, v):
    from .interp import Rec
    if isinstance(v, Rec):
        return v.ov.get((VIEW,))
    return None


def range_of(I, st, a, t):
    """('view', ...) description of a range argument"""
    from .interp import Rec, LV
    t = arg_type(I, a) if arg_type(I, a) is not None else t
    if isinstance(a, LV):
        v = st.mem.get(I.canon(st, a.loc) + (VIEW,))
        if v is not None:
            return v
    elif isinstance(a, Rec):
        v = view_of(I, st, a)
        if v is not None:
            return v
        a = as_lv(I, st, a, t)
    r = I.P.rec_of(t) if t is not None else None
    if r is None:
        return None
    return ('src', mkLV(a.loc, a.gens, t))


def view_rec(v, t):
    return mkRec(('view',), {(VIEW,): v}, t)


@model('std::ranges::views::__adaptor::operator|', 'ranges::views::operator|', 'std::ranges::operator|')
def m_pipe(I, st, f, this, args, node):
    from .interp import Rec
    # range | adaptor   or adaptor | adaptor
    t0 = ptype(I, f, 0)
    t1 = ptype(I, f, 1)
    ad1 = adaptor_of(I, st, args[1], t1)
    if ad1 is None:
        return None
    ad0 = adaptor_of(I, st, args[0], t0)
    if ad0 is not None:
        return [(st, mkRec(('adaptor',), {(('s', 'adaptor'),): ad0 + ad1}, f['ret']))]
    r = range_of(I, st, args[0], t0)
    if r is None:
        return None
    for op in ad1:
        r = ('view', r, op)
    return [(st, view_rec(r, f['ret']))]


def adaptor_of(I, st, a, t):
    """tuple of operations"""
    from .interp import LV, Rec
    r = I.P.rec_of(t) if t is not None else None
    if isinstance(a, LV):
        v = st.mem.get(I.canon(st, a.loc) + (('s', 'adaptor'),))
    elif isinstance(a, Rec):
        v = a.ov.get((('s', 'adaptor'),))
    else:
        v = None
    if v is not None:
        return v
    if r is None:
        return None
    n = r['bare']
    if n.endswith('::_Elements'):
        ta = rec_targs(I, r)
        return (('elements', int(ta[0]['v']) if ta else 1),)
    if n.endswith('::_Join'):
        return (('join',),)
    if n.endswith('::_Reverse'):
        return (('reverse',),)
    if isinstance(a, LV) and a.loc[0][0] == 'g':
        nm = str(a.loc[0][-1])
        if nm in ('values',):
            return (('elements', 1),)
        if nm == 'keys':
            return (('elements', 0),)
        if nm == 'join':
            return (('join',),)
    return None


@model('std::ranges::views::__adaptor::_RangeAdaptor::operator()', 'std::ranges::views::_Filter::operator()',
       'std::ranges::views::_Transform::operator()', 'std::ranges::views::_Drop::operator()',
       'std::ranges::views::_Take::operator()', 'std::ranges::views::_Join::operator()',
       'std::ranges::views::_Elements::operator()', 'std::ranges::views::_All::operator()',
       'std::ranges::views::__adaptor::_RangeAdaptorClosure::operator()')
def m_adaptor(I, st, f, this, args, node):
    from .interp import LV
    rec = owner(I, f)
    n = None
    if this is not None:
        tr = I.P.rec_of(this.t) if this.t is not None else None
        n = (tr or rec)['bare'].split('::')[-1]
        if n in ('_RangeAdaptor', '_RangeAdaptorClosure'):
            ta = rec_targs(I, rec)
            r2 = I.P.rec_of(ta[0]['t']) if ta and 't' in ta[0] else None
            n = r2['bare'].split('::')[-1] if r2 else n
    op = {'_Filter': 'filter', '_Transform': 'transform', '_Drop': 'drop', '_Take': 'take', '_Join': 'join',
          '_Elements': 'elements'}.get(n)
    if op is None:
        return None
    rest = list(args)
    src = None
    if op == 'join' and len(rest) == 1 or len(rest) == 2:
        src = range_of(I, st, rest[0], ptype(I, f, 0))
        rest = rest[1:]
    if op in ('filter', 'transform'):
        fn = rest[0]
        i = len(args) - 1
        ft = arg_type(I, fn) if arg_type(I, fn) is not None else ptype(I, f, i)
        # the adaptor keeps its own copy of the callable
        lv = I.fresh_loc('t', ft)
        v = rv(I, st, fn, ft)
        I.write(st, lv.loc, v)
        o = (op, mkLV(lv.loc, (), ft))
    elif op in ('drop', 'take'):
        o = (op, lin(I, st, rest[0]))
    else:
        o = (op,)
    if src is not None:
        return [(st, view_rec(('view', src, o), f['ret']))]
    return [(st, mkRec(('adaptor',), {(('s', 'adaptor'),): (o,)}, f['ret']))]


def count_of(I, st, r):
    if r[0] == 'src':
        rec = I.P.rec_of(r[1].t)
        if is_container_rec(rec):
            return size_of(I, st, r[1].loc)
    if r[0] == 'sub':
        return sub(r[3], r[2])
    return atom(('count', view_key(r)), nonneg=True)


def view_key(r):
    if r[0] == 'src':
        return ('src', r[1].loc)
    if r[0] == 'sub':
        return ('sub', view_key(r[1]), r[2], r[3])
    return ('view', view_key(r[1])) + tuple(x if not isinstance(x, LV_()) else x.loc for x in r[2])


def is_pit(v):
    from .interp import Rec
    return isinstance(v, Rec) and (('s', 'pit'),) in v.ov


def make_pit(r, pos, t=None):
    return mkRec(('pit',), {(('s', 'pit'),): ('pit', r, pos)}, t)


def pit_shift(v, k):
    _, r, pos = v.ov[(('s', 'pit'),)]
    return make_pit(r, add(pos, k), v.t)


VIEWS = ('transform_view', 'filter_view', 'join_view', 'drop_view', 'elements_view', 'ref_view', 'take_view', 'subrange',
         'owning_view', 'view_interface')


def _view_begin(I, st, f, this, args, node):
    r = range_of(I, st, this, this.t if this.t is not None else I.rec_type(owner(I, f)))
    if r is None or r[0] == 'src':
        return None
    if r[0] == 'sub':
        return [(st, make_pit(r[1], r[2] if f['name'] == 'begin' else r[3], f['ret']))]
    return [(st, make_pit(r, ZERO if f['name'] == 'begin' else count_of(I, st, r), f['ret']))]


for _v in VIEWS:
    for _n in ('begin', 'end'):
        MODELS[f'std::ranges::{_v}::{_n}'] = _view_begin


def _view_size(I, st, f, this, args, node):
    r = range_of(I, st, this, this.t if this.t is not None else I.rec_type(owner(I, f)))
    if r is None or r[0] == 'src':
        return None
    n = count_of(I, st, r)
    if f['name'] == 'empty':
        return [(st, ('cmp', '==', n))]
    return [(st, n)]


for _v in VIEWS:
    for _n in ('size', 'empty'):
        MODELS[f'std::ranges::{_v}::{_n}'] = _view_size


def _pit_op(I, st, f, this, args, node):
    v = I.read_rec(st, this.loc, this.t)
    if not is_pit(v):
        return None
    n = f['name']
    if n in ('operator++', 'operator--'):
        w = pit_shift(v, const(1 if n == 'operator++' else -1))
        I.write(st, this.loc, w, node)
        return [(st, v if args else this)]
    if n == 'operator=':
        w = rv(I, st, args[0], ptype(I, f, 0))
        I.write(st, this.loc, w, node)
        return [(st, this)]
    if n == 'operator*':
        _, r, pos = v.ov[(('s', 'pit'),)]
        I.event(st, 'pitderef', node, view=view_key(r), pos=pos)
        return [(st, I.opaque(st, f['ret'], 'pit'))]
    return None


for _v in VIEWS:
    for _c in ('_Iterator', '_Sentinel'):
        for _n in ('operator++', 'operator--', 'operator*', 'operator='):
            MODELS[f'std::ranges::{_v}::{_c}::{_n}'] = _pit_op


@model('std::ranges::operator==', 'std::ranges::transform_view::_Iterator::operator==')
def m_pit_eq(I, st, f, this, args, node):
    a = rv(I, st, args[0], ptype(I, f, 0))
    b = rv(I, st, args[1], ptype(I, f, 1)) if len(args) > 1 else None
    if b is not None and is_pit(a) and is_pit(b):
        x, y = a.ov[(('s', 'pit'),)], b.ov[(('s', 'pit'),)]
        if view_key(x[1]) == view_key(y[1]):
            return [(st, I.compare(st, '==', x[2], y[2]))]
    return None


@ctor('std::ranges::subrange')
def c_subrange(I, st, rec, f, args, node, this):
    if len(args) < 2:
        return None
    a, b = rv(I, st, args[0]), rv(I, st, args[1])
    I.clear_below(st, this.loc)
    if is_pit(a) and is_pit(b):
        x, y = a.ov[(('s', 'pit'),)], b.ov[(('s', 'pit'),)]
        if view_key(x[1]) == view_key(y[1]):
            I.event(st, 'subrange', node, view=view_key(x[1]), a=x[2], b=y[2], loc=this.loc)
            I.write(st, this.loc, view_rec(('sub', x[1], x[2], y[2]), this.t))
            return [st]
    p, q = it_ptr(I, st, a), it_ptr(I, st, b)
    if p is not None and q is not None:
        I.event(st, 'subrange', node, view=('span', p.loc[:-1]), a=p.loc[-1][1], b=q.loc[-1][1], loc=this.loc)
        I.write(st, this.loc, view_rec(('span', p, q), this.t))
        return [st]
    return None


for _v in ('transform_view', 'filter_view', 'join_view', 'drop_view', 'take_view'):
    def _mk(v):
        def c(I, st, rec, f, args, node, this):
            op = v[:-5]
            if len(args) < 1 or (op != 'join' and len(args) < 2):
                return None
            src = range_of(I, st, args[0], ptype(I, f, 0))
            if src is None:
                return None
            if op in ('filter', 'transform'):
                ft = arg_type(I, args[1]) if arg_type(I, args[1]) is not None else ptype(I, f, 1)
                lv = I.fresh_loc('t', ft)
                I.write(st, lv.loc, rv(I, st, args[1], ft))
                o = (op, mkLV(lv.loc, (), ft))
            elif op == 'join':
                o = (op,)
            else:
                o = (op, lin(I, st, args[1]))
            I.clear_below(st, this.loc)
            I.write(st, this.loc, view_rec(('view', src, o), this.t))
            return [st]
        return c
    CTORS[f'std::ranges::{_v}'] = _mk(_v)

for _v in VIEWS:
    for _c in ('_Iterator', '_Sentinel'):
        def _cc(I, st, rec, f, args, node, this):
            if args:
                v = rv(I, st, args[0])
                if is_pit(v):
                    I.clear_below(st, this.loc)
                    I.write(st, this.loc, v)
                    return [st]
                return None
            return None
        CTORS[f'std::ranges::{_v}::{_c}'] = _cc


def iterate(I, st, r, t, body, node):
    """run body on an arbitrary element of the range r -> [(st, signal)] or None"""
    from .interp import LV, Rec
    v = range_of(I, st, r, t)
    if v is None:
        return None
    return iter_view(I, st, v, body, node)


def iter_view(I, st, v, body, node):
    if v[0] == 'src':
        lv = v[1]
        rec = I.P.rec_of(lv.t)
        if is_container_rec(rec):
            et = elem_type(I, rec)
            return span_loop(I, st, lv, start_of(I, st, lv.loc), size_of(I, st, lv.loc), et, body, node)
        if rec is not None and rec['bare'] == 'std::array':
            ta = rec_targs(I, rec)
            return span_loop(I, st, lv, ZERO, const(int(ta[1]['v'])), ta[0]['t'], body, node)
        if rec is not None and rec['bare'] in ABSTRACT and rec['bare'] in I.abstract:
            return iter_map(I, st, lv, rec, body, node)
        # a class with begin()/end(): look through to the member it iterates
        m = through_begin(I, st, lv, rec)
        if m is not None:
            return iter_view(I, st, ('src', m), body, node)
        return iter_class(I, st, lv, rec, body, node)
    if v[0] == 'span':
        return iter_span(I, st, v[1], v[2], body, node)
    if v[0] == 'sub':
        I.event(st, 'iter_sub', node, view=view_key(v[1]), a=v[2], b=v[3])
        return iter_view(I, st, v[1], body, node)
    if v[0] == 'view':
        _, src, op = v
        k = op[0]
        if k == 'elements':
            def b2(s, e):
                return body(s, tuple_elem(I, s, e, e.t, op[1]))
            return iter_view(I, st, src, b2, node)
        if k == 'filter':
            def b3(s, e):
                out = []
                for s2, x in invoke(I, s, op[1], [e], node, op[1].t):
                    for s3, b in I.truth(s2, x, node):
                        if b:
                            out += body(s3, e)
                        else:
                            I.event(s3, 'filtered', node, elem=e)
                            out.append((s3, None))
                return out
            return iter_view(I, st, src, b3, node)
        if k == 'transform':
            def b4(s, e):
                out = []
                for s2, x in invoke(I, s, op[1], [e], node, op[1].t):
                    out += body(s2, x)
                return out
            return iter_view(I, st, src, b4, node)
        if k == 'join':
            def b5(s, e):
                r = iterate(I, s, e, arg_type(I, e), body, node)
                if r is None:
                    I.event(s, 'iter_unknown', node)
                    from .interp import Rec
                    return body(s, T.fresh('unk', 'join'))
                return r
            return iter_view(I, st, src, b5, node)
        if k == 'drop':
            n = op[1]
            def b6(s, e):
                last = e.loc[-1] if isinstance(e, LV_()) else None
                if last is not None and last[0] == 'i':
                    ok = s.copy()
                    out = []
                    for s2, b in I.branch(s, ('cmp', '<=', sub(n, last[1])), node):
                        if b:
                            I.event(s2, 'dropcheck', node, n=n, pos=last[1])
                            out += body(s2, e)
                        else:
                            I.event(s2, 'dropped', node, elem=e, n=n)
                            out.append((s2, None))
                    return out
                pos = T.fresh('elem', 'drop', nonneg=True)
                if last is not None and last[0] == 'k':
                    pos = atom(('pos', e.loc[:-1] and e.loc, last[1]), nonneg=True)
                h = I.hooks.get('drop')
                if h:
                    r = h(I, s, e, n, body, node)
                    if r is not None:
                        return r
                I.event(s, 'dropcheck', node, n=n, pos=pos, elem=e)
                return body(s, e)
            return iter_view(I, st, src, b6, node)
    return None


def through_begin(I, st, lv, rec):
    """container member whose begin() this class's begin() returns"""
    if rec is None:
        return None
    for f in I.P.funcs.values():
        if f.get('rec') == rec['id'] and f.get('name') == 'begin' and 'body' in f and not f['params']:
            s = st.copy()
            save = I.sink
            I.sink = []
            try:
                r = I.call(s, f['id'], lv, [], {'l': f.get('line', 0), 'k': 'call'})
            finally:
                I.sink = save
            if len(r) != 1:
                return None
            v = r[0][1]
            p = it_ptr(I, r[0][0], v) if not is_pit(v) else None
            if p is not None and p.loc[-1][0] == 'i':
                # element type's container type: find field type
                return mkLV(p.loc[:-1], (), cont_type(I, lv, p.loc[:-1], rec))
            m = v.ov.get((('s', 'mit'),)) if hasattr(v, 'ov') else None
            if m is not None:
                return mkLV(m[1], (), cont_type(I, lv, m[1], rec))
            return None
    return None


def cont_type(I, lv, loc, rec):
    t = None
    n = len(lv.loc)
    if loc[:n] != lv.loc:
        return None
    for e in loc[n:]:
        if e[0] != 'f' or rec is None:
            return None
        t = None
        for f in I.P.all_fields(rec):
            if f['n'] == e[1]:
                t = f['t']
        rec = I.P.rec_of(t) if t is not None else None
    return t


def iter_class(I, st, lv, rec, body, node):
    """iteration over a library class through its own begin()/end()/operators"""
    if rec is None:
        return None
    fb = fe = None
    for f in I.P.funcs.values():
        if f.get('rec') == rec['id'] and not f['params'] and 'body' in f:
            if f['name'] == 'begin' and (fb is None or not f.get('const')):
                fb = f
            if f['name'] == 'end' and (fe is None or not f.get('const')):
                fe = f
    if fb is None or fe is None:
        return None
    nd = {'l': node.get('l', 0), 'k': 'call'}
    outs = []
    bl, el = I.fresh_loc('t', fb['ret']), I.fresh_loc('t', fe['ret'])
    itr = I.P.rec_of(fb['ret'])
    if itr is None:
        return None
    ops = {}
    for f in I.P.funcs.values():
        if f.get('rec') == itr['id'] and f['name'] in ('operator*', 'operator++', 'operator==', 'operator!='):
            if f['name'] == 'operator++' and f['params']:
                continue
            if 'body' in f or f.get('defaulted'):
                ops[f['name']] = f
    if 'operator*' not in ops or 'operator++' not in ops or not ('operator==' in ops or 'operator!=' in ops):
        return None
    for s, v in I.call(st, fb['id'], lv, [], nd):
        I.write(s, bl.loc, v)
        for s2, w in I.call(s, fe['id'], lv, [], nd):
            I.write(s2, el.loc, w)

            def cond(x):
                out = []
                f = ops.get('operator==') or ops['operator!=']
                n = dict(nd, f=f['id'], obj={'t': fb['ret']}, a=[])
                for y, b in I.call_method(x, n, f, mkLV(bl.loc, (), fb['ret']), [mkLV(el.loc, (), fe['ret'])]):
                    for z, c in I.truth(y, b, node):
                        out.append((z, c if f['name'] == 'operator!=' else not c))
                return out

            def bod(x):
                out = []
                f = ops['operator*']
                for y, e in I.call(x, f['id'], mkLV(bl.loc, (), fb['ret']), [], nd):
                    out += body(y, e)
                return out

            def inc(x):
                f = ops['operator++']
                return [y for y, _ in I.call(x, f['id'], mkLV(bl.loc, (), fb['ret']), [], nd)]
            outs += I.loop(s2, node, cond, bod, inc, 'range')
    return outs


# ------------------------------------------------------------------------- atomics
ORDERS = {0: 'relaxed', 1: 'consume', 2: 'acquire', 3: 'release', 4: 'acq_rel', 5: 'seq_cst'}


def order(I, st, a):
    v = rv(I, st, a)
    if is_const(v):
        return ORDERS.get(v[1], '?')
    return '?'


def ord_args(I, st, f, args):
    out = []
    for p, a in zip(f['params'], args):
        s = I.P.ty(I.P.strip_ref(p['t']))['s']
        if 'memory_order' in s:
            out.append(order(I, st, a))
    return out


def atomic_type(I, f):
    rec = owner(I, f)
    if rec is None:
        return None
    ta = rec_targs(I, rec)
    return ta[0]['t'] if ta and 't' in ta[0] else None


def atomic_read(I, st, this, t, node):
    h = I.hooks.get('atomic_read')
    if h:
        v = h(I, st, this, t, node)
        if v is not None:
            return v
    if I.volatile_atomics:
        v = T.fresh('ld', this.loc, taint=False)
        if t is not None:
            I.mark_type(v, I.P.ty(t))
        return v
    return I.read(st, this.loc + (('f', 'v'),), t)


@model('std::__atomic_base::load', 'std::atomic::load', 'std::atomic::operator type-parameter-0-0',
       'std::__atomic_base::operator long', 'std::atomic_ref::load')
def m_load(I, st, f, this, args, node):
    t = f['ret']
    v = atomic_read(I, st, this, t, node)
    I.event(st, 'atomic', node, op='load', loc=I.canon(st, this.loc), order=(ord_args(I, st, f, args) or ['seq_cst'])[0], val=v)
    if I.P.ty(t).get('k') == 'rec':
        return None
    return [(st, v)]


@model('std::__atomic_base::store', 'std::atomic::store')
def m_store(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    v = rv(I, st, args[0], t)
    I.event(st, 'atomic', node, op='store', loc=I.canon(st, this.loc), order=(ord_args(I, st, f, args) or ['seq_cst'])[0], val=v)
    I.write(st, this.loc + (('f', 'v'),), v, node)
    return [(st, ('void',))]


@model('std::__atomic_base::operator=', 'std::atomic::operator=')
def m_astore(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    v = rv(I, st, args[0], t)
    I.event(st, 'atomic', node, op='store', loc=I.canon(st, this.loc), order='seq_cst', val=v)
    I.write(st, this.loc + (('f', 'v'),), v, node)
    return [(st, v)]


@model('std::__atomic_base::fetch_add', 'std::__atomic_base::fetch_sub', 'std::atomic::fetch_add', 'std::atomic::fetch_sub')
def m_rmw(I, st, f, this, args, node):
    t = f['ret']
    old = I.to_lin(atomic_read(I, st, this, t, node))
    d = lin(I, st, args[0])
    neg = 'sub' in f['name']
    nv = sub(old, d) if neg else add(old, d)
    I.event(st, 'atomic', node, op='rmw', loc=I.canon(st, this.loc), order=(ord_args(I, st, f, args) or ['seq_cst'])[0], val=old, new=nv,
            delta=scale(d, -1) if neg else d)
    I.write(st, this.loc + (('f', 'v'),), nv, node)
    return [(st, old)]


@model('std::__atomic_base::operator++', 'std::__atomic_base::operator--', 'std::__atomic_base::operator+=',
       'std::__atomic_base::operator-=')
def m_ainc(I, st, f, this, args, node):
    t = f['ret']
    old = I.to_lin(atomic_read(I, st, this, t, node))
    n = f['name']
    if n in ('operator++', 'operator--'):
        d = const(1 if n == 'operator++' else -1)
        post = bool(args)
    else:
        d = lin(I, st, args[0])
        if n == 'operator-=':
            d = scale(d, -1)
        post = False
    nv = add(old, d)
    I.event(st, 'atomic', node, op='rmw', loc=I.canon(st, this.loc), order='seq_cst', val=old, new=nv, delta=d)
    I.write(st, this.loc + (('f', 'v'),), nv, node)
    return [(st, old if post else nv)]


@model('std::__atomic_base::exchange', 'std::atomic::exchange')
def m_axchg(I, st, f, this, args, node):
    t = f['ret']
    old = atomic_read(I, st, this, t, node)
    v = rv(I, st, args[0], ptype(I, f, 0))
    I.event(st, 'atomic', node, op='xchg', loc=I.canon(st, this.loc), order=(ord_args(I, st, f, args) or ['seq_cst'])[0], val=old, new=v)
    I.write(st, this.loc + (('f', 'v'),), v, node)
    return [(st, old)]


def _atomic_conv(I, st, f, this, args, node):
    v = atomic_read(I, st, this, f['ret'], node)
    I.event(st, 'atomic', node, op='load', loc=I.canon(st, this.loc), order='seq_cst', val=v)
    return [(st, v)]


@model('std::__atomic_base::compare_exchange_strong', 'std::__atomic_base::compare_exchange_weak',
       'std::atomic::compare_exchange_strong', 'std::atomic::compare_exchange_weak')
def m_cas(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    exp = rv(I, st, args[0], t)
    des = rv(I, st, args[1], ptype(I, f, 1))
    o = ord_args(I, st, f, args)
    so = o[0] if o else 'seq_cst'
    fo = o[1] if len(o) > 1 else so
    ok, bad = st, st.copy()
    I.event(ok, 'atomic', node, op='cas', ok=True, loc=I.canon(ok, this.loc), order=so, forder=fo, exp=exp, val=exp, new=des)
    I.write(ok, this.loc + (('f', 'v'),), des, node)
    ok.path.append((I.where(node), ('cas',), True))
    cur = atomic_read(I, bad, this, t, node)
    I.event(bad, 'atomic', node, op='cas', ok=False, loc=I.canon(bad, this.loc), order=fo, exp=exp, val=cur, new=des)
    I.write(bad, args[0].loc, cur, node)
    bad.path.append((I.where(node), ('cas',), False))
    out = [(ok, ('B', True)), (bad, ('B', False))]
    if not I.volatile_atomics:
        if not I.assume(bad, ('cmp', '!=', sub(I.to_lin(cur), I.to_lin(exp)))):
            out = out[:1]
        # success means equality held
        old = I.to_lin(cur)
        if not I.assume(ok, ('cmp', '==', sub(old, I.to_lin(exp)))):
            out = out[1:]
    return out


@model('std::atomic_thread_fence')
def m_fence(I, st, f, this, args, node):
    I.event(st, 'atomic', node, op='fence', loc=None, order=order(I, st, args[0]))
    return [(st, ('void',))]


@ctor('std::atomic', 'std::__atomic_base')
def c_atomic(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    t = elem_type(I, rec)
    I.write(st, this.loc + (('f', 'v'),), rv(I, st, args[0], t) if args else ZERO, node)
    return [st]


# ------------------------------------------------------------------------- locks, functions, threads
@ctor('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
def c_lock(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    ms = tuple(I.canon(st, a.loc) for a in args if isinstance(a, LV_()) and
               'mutex' in (I.P.rec_of(a.t) or {'bare': 'mutex'})['bare'])
    st.mem[this.loc + (('f', 'mx'),)] = ('locks',) + ms
    I.event(st, 'lock', node, mutex=('locks',) + ms, how=rec['bare'])
    return [st]


@model('std::mutex::lock', 'std::shared_mutex::lock', 'std::recursive_mutex::lock')
def m_lock(I, st, f, this, args, node):
    I.event(st, 'lock', node, mutex=('locks', I.canon(st, this.loc)), how='manual')
    return [(st, ('void',))]


@model('std::mutex::unlock', 'std::shared_mutex::unlock', 'std::recursive_mutex::unlock')
def m_unlock(I, st, f, this, args, node):
    I.event(st, 'unlock', node, mutex=('locks', I.canon(st, this.loc)))
    return [(st, ('void',))]


@model('std::unique_lock::unlock')
def m_ulunlock(I, st, f, this, args, node):
    unlock(I, st, this, node)
    return [(st, ('void',))]


@model('std::unique_lock::lock')
def m_ullock(I, st, f, this, args, node):
    I.event(st, 'lock', node, mutex=I.read(st, this.loc + (('f', 'mx'),)), how='unique_lock')
    return [(st, ('void',))]


@ctor('std::function', 'std::move_only_function')
def c_function(I, st, rec, f, args, node, this):
    from .interp import LV
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    if not args:
        return [st]
    at = arg_type(I, args[0])
    if at is None and f.get('params'):
        at = ptype(I, f, 0)
    if at is not None and I.P.ty(at).get('k') == 'rec':
        if (I.P.rec_of(at) or {}).get('bare') == rec['bare']:
            I.write(st, this.loc, rv(I, st, args[0], at))
            return [st]
        lv = I.fresh_loc('h', at)
        v = rv(I, st, args[0], at)
        I.write(st, lv.loc, v)
        st.mem[this.loc + (('s', 'target'),)] = ('ptr', lv)
        return [st]
    v = rv(I, st, args[0], at)
    st.mem[this.loc + (('s', 'target'),)] = v if isinstance(v, tuple) else T.fresh('unk')
    return [st]


@model('std::function::operator()', 'std::move_only_function::operator()')
def m_function_call(I, st, f, this, args, node):
    r = call_function(I, st, this, args, node)
    if I.P.ty(f['ret']).get('k') == 'void':
        return [(s, ('void',)) for s, _ in r]
    return r


@model('std::function::operator bool')
def m_function_bool(I, st, f, this, args, node):
    return [(st, ('B', True) if I.canon(st, this.loc) + (('s', 'target'),) in st.mem else T.fresh('unk', boolean=True, nonneg=True))]


@model('std::function::operator=')
def m_function_assign(I, st, f, this, args, node):
    at = ptype(I, f, 0)
    if (I.P.rec_of(at) or {}).get('bare') == 'std::function':
        I.write(st, this.loc, rv(I, st, args[0], at), node)
        return [(st, this)]
    c_function(I, st, owner(I, f), {'params': f['params']}, args, node, this)
    return [(st, this)]


@model('std::counting_semaphore::release', 'std::counting_semaphore::try_acquire_for', 'std::counting_semaphore::acquire',
       'std::counting_semaphore::try_acquire', 'std::thread::join', 'std::thread::joinable', 'std::thread::hardware_concurrency',
       'std::this_thread::yield', 'std::this_thread::sleep_for', 'std::thread::detach', 'std::thread::get_id')
def m_thread(I, st, f, this, args, node):
    I.event(st, 'sync', node, f=f['bare'], obj=this.loc if this else None)
    return [(st, I.opaque(st, f['ret'], 'sync'))]


@ctor('std::thread', 'std::jthread')
def c_thread(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    if args:
        at = arg_type(I, args[0])
        lv = as_lv(I, st, args[0], at)
        I.event(st, 'spawn', node, fn=mkLV(lv.loc, lv.gens, at))
    return [st]


@model('std::thread::operator=')
def m_thread_assign(I, st, f, this, args, node):
    return [(st, this)]


# ------------------------------------------------------------------------- construction helpers
@model('std::construct_at', 'std::ranges::__construct_at_fn::operator()')
def m_construct_at(I, st, f, this, args, node):
    p = rv(I, st, args[0], ptype(I, f, 0))
    t = I.P.pointee(ptype(I, f, 0))
    lv = I.deref(st, p, t)
    I.event(st, 'construct_at', node, ptr=p, loc=lv.loc, t=t, args=args[1:])
    return [(s, p) for s in construct_at(I, st, mkLV(lv.loc, lv.gens, t), t, args[1:], node)]


@model('std::destroy_at')
def m_destroy_at(I, st, f, this, args, node):
    p = rv(I, st, args[0], ptype(I, f, 0))
    t = I.P.pointee(ptype(I, f, 0))
    lv = I.deref(st, p, t)
    I.event(st, 'destroy', node, loc=lv.loc, t=t)
    return [(s, ('void',)) for s in I.destroy(st, mkLV(lv.loc, lv.gens, t), t, node)]


@model('std::allocator_traits::construct')
def m_at_construct(I, st, f, this, args, node):
    p = rv(I, st, args[1], ptype(I, f, 1))
    t = I.P.pointee(ptype(I, f, 1))
    lv = I.deref(st, p, t)
    I.event(st, 'construct_at', node, ptr=p, loc=lv.loc, t=t, args=args[2:])
    return [(s, ('void',)) for s in construct_at(I, st, mkLV(lv.loc, lv.gens, t), t, args[2:], node)]


@model('std::allocator_traits::destroy')
def m_at_destroy(I, st, f, this, args, node):
    p = rv(I, st, args[1], ptype(I, f, 1))
    t = I.P.pointee(ptype(I, f, 1))
    lv = I.deref(st, p, t)
    I.event(st, 'destroy', node, loc=lv.loc, t=t)
    return [(st, ('void',))]


@model('std::allocator_traits::allocate', 'std::allocator::allocate')
def m_allocate(I, st, f, this, args, node):
    n = lin(I, st, args[-1] if f['bare'] == 'std::allocator::allocate' else args[1])
    t = I.P.pointee(f['ret'])
    alloc_may_throw(I, st, node, 'allocate')
    lv = I.fresh_loc('h', t)
    st.mem[lv.loc] = ('base', None)
    st.mem[lv.loc + (SIZE,)] = n
    I.event(st, 'allocate', node, loc=lv.loc, n=n, t=t)
    return [(st, ('ptr', mkLV(lv.loc + (('i', ZERO),), (), t)))]


@model('std::allocator_traits::deallocate', 'std::allocator::deallocate')
def m_deallocate(I, st, f, this, args, node):
    i = 0 if f['bare'] == 'std::allocator::deallocate' else 1
    p = rv(I, st, args[i], ptype(I, f, i))
    I.event(st, 'deallocate', node, ptr=p, n=lin(I, st, args[i + 1]))
    return [(st, ('void',))]


@model('operator new', 'operator new[]')
def m_opnew(I, st, f, this, args, node):
    lv = I.fresh_loc('h')
    al = [lin(I, st, a) for i, a in enumerate(args) if i and 'align_val_t' in str(I.P.ty(ptype(I, f, i)))]
    I.event(st, 'allocate', node, loc=lv.loc, n=lin(I, st, args[0]), t=None, align=al[0] if al else None)
    return [(st, atom(('addr', lv.loc), pos=True))]


@model('operator delete', 'operator delete[]')
def m_opdel(I, st, f, this, args, node):
    al = [lin(I, st, a) for i, a in enumerate(args) if i and 'align_val_t' in str(I.P.ty(ptype(I, f, i)))]
    I.event(st, 'deallocate', node, ptr=rv(I, st, args[0]), n=None, align=al[0] if al else None)
    return [(st, ('void',))]


@model('std::bit_cast')
def m_bitcast(I, st, f, this, args, node):
    if I.P.ty(f['ret']).get('k') in ('int', 'ptr', 'bool', 'enum') and I.P.ty(ptype(I, f, 0)).get('k') in ('int', 'ptr'):
        return [(st, rv(I, st, args[0], ptype(I, f, 0)))]
    return None


@model('std::align')
def m_align(I, st, f, this, args, node):
    al = lin(I, st, args[0])
    sz = lin(I, st, args[1])
    p = I.to_lin(rv(I, st, args[2], ptype(I, f, 2)))
    space = lin(I, st, args[3], ptype(I, f, 3))
    ap = atom(('alignup', p, al), pos=True)
    pad = sub(ap, p)
    I.event(st, 'align', node, al=al, size=sz, ptr=p, space=space, pad=pad)
    st.facts.assume_le(scale(pad, -1))
    st.facts.assume_le(add(sub(pad, al), ONE))
    out = []
    for s, b in I.branch(st, ('cmp', '<=', sub(add(sz, pad), space)), node):
        if b:
            I.write(s, args[2].loc, ap, node)
            I.write(s, args[3].loc, sub(space, pad), node)
            out.append((s, ap))
        else:
            out.append((s, ZERO))
    return out


@model('std::memcpy', 'std::memmove', 'memcpy', 'memmove', 'std::memset', 'memset')
def m_memcpy(I, st, f, this, args, node):
    I.event(st, 'memcpy', node, f=f['bare'], args=[rv(I, st, a) for a in args])
    p = rv(I, st, args[0])
    I.havoc(st, I.deref(st, p).loc)
    return [(st, p)]


@model('std::numeric_limits::max', 'std::numeric_limits::min')
def m_limits(I, st, f, this, args, node):
    ty = I.P.ty(f['ret'])
    if ty.get('k') == 'int':
        b = ty.get('bits', 64)
        if ty.get('signed'):
            v = (1 << (b - 1)) - 1 if f['name'] == 'max' else -(1 << (b - 1))
        else:
            v = (1 << b) - 1 if f['name'] == 'max' else 0
        return [(st, const(v))]
    return None


@model('std::hash::operator()')
def m_hash(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    if t is None:
        return None
    a = args[0]
    k = rec_key(I, st, a, t) if I.P.ty(t).get('k') == 'rec' else lin(I, st, a, t)
    return [(st, atom(('hash', k), nonneg=True))]


@model('std::equal_to::operator()', 'std::ranges::equal_to::operator()')
def m_equal_to(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    return [(st, value_eq(I, st, args[0], args[1], t, node))]


@model('std::less::operator()')
def m_less(I, st, f, this, args, node):
    t = ptype(I, f, 0)
    return [(st, I.compare(st, '<', rv(I, st, args[0], t), rv(I, st, args[1], t)))]


def _ignore(I, st, f, this, args, node):
    return [(st, I.opaque(st, f['ret'], 'str'))]


for _n in ('std::basic_ostream::operator<<', 'std::basic_string::c_str', 'std::basic_string::operator=',
           'std::basic_string_view::find_first_not_of', 'std::basic_string_view::find_first_of',
           'std::basic_string_view::find_last_of', 'std::basic_string_view::substr', 'std::basic_stringstream::str',
           'std::operator<<', 'std::uniform_int_distribution::operator()', 'std::random_device::operator()',
           'std::basic_string_view::size', 'std::basic_string_view::data', 'std::basic_string_view::empty',
           'std::basic_string::data', 'std::basic_string::size', 'std::string_view::size'):
    MODELS[_n] = _ignore


# ------------------------------------------------------------------------- abstract containers
ABSTRACT = {}


def abstract(name):
    def d(fn):
        ABSTRACT[name] = fn
        return fn
    return d


def key_of(I, st, a, t):
    t2 = arg_type(I, a) if arg_type(I, a) is not None else t
    return rec_key(I, st, a, t2) if I.P.ty(t2).get('k') == 'rec' else lin(I, st, a, t2)


def map_types(I, rec):
    ta = rec_targs(I, rec)
    return ta[0]['t'], ta[1].get('t')


def has_pred(I, st, loc, key):
    """presence predicate of key in the abstract map at loc"""
    key = st.facts.norm(key)
    h = I.hooks.get('has')
    v = st.mem.get(loc + (('has', key),))
    if v is not None:
        return v
    # base generation of this map's contents
    g = st.mem.get(loc + (('s', 'gen'),))
    b = I.base_at(st, loc)
    if b is not None and b[0] == 'zero':
        p = ('B', False)
        # keys inserted under other names
    else:
        if h:
            p = h(I, st, loc, key)
            if p is not None:
                return p
        p = ('cmp', '!=', atom(('haskey', b, key) if g is None else ('haskey', b, key, g), nonneg=True, boolean=True,
                               taint=False if b is None or b[0] not in ('unk', 'hv') else None))
    return p


def resolve_key(I, st, loc, key):
    """[(st, key')] alias-split against keys already written in the map"""
    n = len(loc)
    key = st.facts.norm(key)
    seen = []
    for k in st.mem:
        if len(k) > n and k[:n] == loc and isinstance(k[n], tuple) and k[n][0] in ('k', 'has') and k[n][1] not in seen:
            seen.append(k[n][1])
    if key in seen:
        return [(st, key)]
    outs = []
    cur = st
    for s in seen:
        if not is_lin(s) or not is_lin(key):
            continue
        d = key_eq(cur, key, s)
        if d is True:
            return outs + [(cur, s)]
        if d is None:
            a = cur.copy()
            a.facts.assume_eq(sub(key, s))
            if 'key_eq' in I.hooks and not a.facts.dead:
                I.hooks['key_eq'](I, a, loc, key, s)
            if not a.facts.dead:
                a.path.append((I.where({'l': None}) if I.frames else None, ('cmp', '==', sub(key, s)), True))
                outs.append((a, s))
            cur = cur.copy()
            cur.facts.assume_ne(sub(key, s))
            if cur.facts.dead:
                return outs
            cur.path.append((None, ('cmp', '==', sub(key, s)), False))
    return outs + [(cur, key)]


def key_eq(st, a, b):
    return st.facts.eq(sub(a, b))


def value_lv(I, st, lv, key, vt):
    loc = I.canon(st, lv.loc)
    g = tuple(lv.gens) + ((loc, st.gens.get(loc, 0)),)
    return mkLV(loc + (('k', key),), g, vt)


def entry_rec(I, key, val_lv, t):
    """pair-like element (first = key, second = value reference)"""
    return None


def map_insert_default(I, st, lv, key, vt, node, construct_args=None):
    loc = I.canon(st, lv.loc)
    I.event(st, 'mapinsert', node, map=loc, key=key, args=construct_args)
    st.mem[loc + (('has', key),)] = ('B', True)
    w = st.notes.get('writes')
    if w is not None:
        w.add(loc)
    I.write(st, loc + (SIZE,), add(size_of(I, st, loc), ONE), node)
    I.invalidate(st, loc, node, 'insert')
    v = mkLV(loc + (('k', key),), (), vt)
    I.clear_below(st, v.loc)
    return construct_at(I, st, v, vt, construct_args or [], node)


def mit(loc, key, t=None):
    return mkRec(('mit',), {(('s', 'mit'),): ('mit', loc, key)}, t)


def map_call(I, st, f, rec, this, args, node):
    n = f['name']
    kt, vt = map_types(I, rec)
    loc = I.canon(st, this.loc) if this is not None else None
    lv = mkLV(loc, this.gens if this is not None else (), this.t if this is not None else None)
    if n in ('contains', 'find', 'at', 'operator[]', 'erase', 'emplace', 'insert', 'try_emplace', 'count', 'insert_or_assign'):
        alloc = n in ('operator[]', 'emplace', 'insert', 'try_emplace', 'insert_or_assign')
        a0 = args[0]
        vals = args[1:]
        if n == 'insert':
            # insert(value_type): pair(first, second) or plain key
            at = arg_type(I, a0) if arg_type(I, a0) is not None else ptype(I, f, 0)
            if at is not None and (I.P.rec_of(at) or {}).get('bare') == 'std::pair':
                pl = as_lv(I, st, a0, at)
                a0, vals = tuple_elem(I, st, pl, at, 0), [tuple_elem(I, st, pl, at, 1)]
        elif n == 'erase':
            v = rv(I, st, a0, arg_type(I, a0))
            if hasattr(v, 'ov') and (('s', 'mit'),) in v.ov:
                key = v.ov[(('s', 'mit'),)][2]
                return map_erase(I, st, lv, key, node, f)
        key = key_of(I, st, a0, ptype(I, f, 0))
        outs = []
        for s, k in resolve_key(I, st, loc, key):
            I.event(s, 'maplookup', node, map=loc, key=k, op=n)
            p = has_pred(I, s, loc, k)
            if n in ('contains', 'count'):
                outs.append((s, p))
                continue
            for s2, b in I.branch(s, p, node):
                if n == 'at':
                    if b:
                        outs.append((s2, value_lv(I, s2, lv, k, vt)))
                    else:
                        from .interp import Exc
                        I.event(s2, 'map_at_missing', node, map=loc, key=k)
                        I.throw(s2, Exc('std::out_of_range', where=I.where(node)))
                elif n == 'find':
                    outs.append((s2, mit(loc, k if b else None, f['ret'])))
                elif n == 'operator[]':
                    if b:
                        outs.append((s2, value_lv(I, s2, lv, k, vt)))
                    else:
                        if getattr(I, 'alloc_throw', False) and not f.get('noexcept'):
                            from .interp import Exc
                            x = s2.copy()
                            I.event(x, 'alloc_threw', node, what='map insert')
                            I.throw(x, Exc('std::bad_alloc', where=I.where(node), implicit=True))
                        for s3 in map_insert_default(I, s2, lv, k, vt, node):
                            outs.append((s3, value_lv(I, s3, lv, k, vt)))
                elif n == 'erase':
                    if b:
                        outs += map_erase(I, s2, lv, k, node, f)
                    else:
                        I.event(s2, 'maperase_missing', node, map=loc, key=k)
                        outs.append((s2, ZERO if I.P.ty(f['ret']).get('k') == 'int' else mit(loc, None, f['ret'])))
                elif n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
                    def result(s3, flag):
                        pr = mkRec(('zero',), {(('f', 'first'), ('s', 'mit')): ('mit', loc, k), (('f', 'second'),): ONE if flag else ZERO}, f['ret'])
                        return (s3, pr)
                    if b:
                        outs.append(result(s2, False))
                    else:
                        if vt is not None and I.P.ty(vt).get('k') != 'void':
                            for s3 in map_insert_default(I, s2, lv, k, vt, node, vals):
                                outs.append(result(s3, True))
                        else:
                            outs.append(result(s2, True))
        return outs
    if n == 'size':
        return [(st, size_of(I, st, loc))]
    if n == 'empty':
        return [(st, ('cmp', '==', size_of(I, st, loc)))]
    if n in ('begin', 'cbegin'):
        if not hasattr(I, 'map_recs'):
            I.map_recs = {}
        I.map_recs[loc] = rec
        return [(st, mit(loc, ('first',), f['ret']))]
    if n in ('end', 'cend'):
        return [(st, mit(loc, None, f['ret']))]
    if n == 'clear':
        I.clear_below(st, loc)
        st.mem[loc] = ('base', ('zero',))
        set_size(I, st, loc, ZERO, node)
        I.event(st, 'mapclear', node, map=loc)
        return [(st, ('void',))]
    if n.startswith('reserve') or n in ('rehash',):
        I.invalidate(st, loc, node, n)
        return [(st, ('void',))]
    if f.get('special') in ('copyassign', 'moveassign'):
        return m_vassign(I, st, f, this, args, node)
    return None


def map_erase(I, st, lv, key, node, f):
    loc = lv.loc
    I.event(st, 'maperase', node, map=loc, key=key)
    st.mem[loc + (('has', key),)] = ('B', False)
    I.clear_below(st, loc + (('k', key),))
    w = st.notes.get('writes')
    if w is not None:
        w.add(loc)
    I.write(st, loc + (SIZE,), sub(size_of(I, st, loc), ONE), node)
    I.invalidate(st, loc, node, 'erase')
    return [(st, ONE if I.P.ty(f['ret']).get('k') == 'int' else mit(loc, T.fresh('unk'), f['ret']))]


ABSTRACT['co_ecs::detail::sparse_table'] = map_call
ABSTRACT['co_ecs::detail::hash_table'] = map_call


def iter_map(I, st, lv, rec, body, node):
    """arbitrary entry of an abstract map"""
    kt, vt = map_types(I, rec)
    loc = I.canon(st, lv.loc)
    k = T.fresh('mkey', loc, nonneg=True, taint=False)
    n = size_of(I, st, loc)
    pt = pair_type(I, rec)

    def one(s):
        out = []
        for s2, kk in resolve_key(I, s, loc, k):
            p = has_pred(I, s2, loc, kk)
            if not I.assume(s2, p):
                continue
            if p[0] != 'B':
                s2.mem[loc + (('has', kk),)] = ('B', True)
            # materialise the pair: key and value by reference
            e = mkLV((('e', loc, kk),), tuple(lv.gens) + ((loc, s2.gens.get(loc, 0)),), pt)
            I.event(s2, 'itermap', node, map=loc, key=kk)
            s2.notes[('entry', e.loc)] = (loc, kk)
            out += body(s2, mkLV(loc + (('entry', kk),), e.gens, pt))
        return out
    if I.exact_maps:
        ks = exact_keys(I, st, loc)
        if ks is not None:
            return each_key(I, st, lv, loc, ks, pt, body, node)
    if I.focus:
        return iter_focus(I, st, lv, loc, k, pt, body, node)
    h = I.hooks.get('nonempty')
    if h and h(I, st, loc):
        return I.generic_loop(st, node, None, ('B', False), one, 'map')
    return I.generic_loop(st, node, ('cmp', '<=', add(scale(n, -1), ONE)), ('cmp', '<=', n), one, 'map')


def exact_keys(I, st, loc):
    """the keys of a map whose whole content is known, else None"""
    b = I.base_at(st, loc)
    if b is None or b[0] != 'zero':
        return None
    n = len(loc)
    out = []
    for k, v in st.mem.items():
        if len(k) == n + 1 and k[:n] == loc and isinstance(k[n], tuple) and k[n][0] == 'has':
            if v == ('B', True):
                out.append(k[n][1])
            elif v != ('B', False):
                return None
    return out


def map_entry(st, lv, loc, kk, pt):
    return mkLV(loc + (('entry', kk),), tuple(lv.gens) + ((loc, st.gens.get(loc, 0)),), pt)


def each_key(I, st, lv, loc, keys, pt, body, node):
    cur = [st]
    exits = []
    for kk in keys:
        nxt = []
        for s in cur:
            I.event(s, 'itermap', node, map=loc, key=kk)
            for s2, sig in body(s, map_entry(s, lv, loc, kk, pt)):
                if sig is None or sig == ('continue',):
                    nxt.append(s2)
                elif sig == ('break',):
                    exits.append((s2, None))
                else:
                    exits.append((s2, sig))
        cur = nxt
    return exits + [(s, None) for s in cur]


def iter_focus(I, st, lv, loc, k, pt, body, node):
    """all entries of a map, seen from one key: its own iteration is followed, what the iterations of the other keys
    write is forgotten except at that key; an iteration of another key may also leave the loop"""
    F = I.focus[0]

    def at(s, kk):
        s.facts.norm(kk)
        p = has_pred(I, s, loc, kk)
        if not I.assume(s, p):
            return None
        s.mem[loc + (('has', kk),)] = ('B', True)
        I.event(s, 'itermap', node, map=loc, key=kk)
        return map_entry(s, lv, loc, kk, pt)
    # what does the iteration of another key write?
    p = st.copy()
    p.facts.assume_ne(sub(k, F))
    p.notes = dict(p.notes)
    col = set()
    p.notes['writes'] = col
    save = I.sink
    I.sink = []
    done = []
    mem0 = dict(p.mem)
    e = at(p, k)
    if e is not None:
        for s2, sig in body(p, e):
            if sig is None or sig == ('continue',):
                done.append(s2)
    I.sink = save
    keyed, plain = set(), set()
    for l in col:
        if l[0][0] in ('t', 'h') or (l[0][0] == 'v' and l[0][1] > I.cur.n):
            continue
        for i, x in enumerate(l):
            if isinstance(x, tuple) and x[0] in ('k', 'has') and x[1] == k:
                keyed.add(l[:i])
                break
        else:
            plain.add(l)
    plain = {l for l in plain if not any(l[:len(w)] == w for w in keyed)}
    # writes that do not survive on the paths that go on
    plain = {l for l in plain if any(s.mem.get(l) != mem0.get(l) for s in done)}

    plain = sorted(plain, key=repr)
    vals = flag_values(I, st, plain, k, F, at, body)

    def others(s):
        """states after any number of iterations of other keys"""
        for w in keyed:
            hp = has_pred(I, s, w, F)
            v = I.read(s, w + (('k', F),))
            I.clear_below(s, w)
            s.mem[w] = ('base', ('hv', T.fresh_n()))
            s.mem[w + (('has', F),)] = hp
            s.mem[w + (('k', F),)] = v
        known = vals.get(tuple(I.read(s, l) for l in plain)) if vals is not None else None
        if known is None:
            for l in plain:
                I.clear_below(s, l)
                s.mem[l] = ('base', ('hv', T.fresh_n()))
            return [s]
        out = []
        for v in known:
            s2 = s.copy()
            for l, x in zip(plain, v):
                I.write(s2, l, x)
            out.append(s2)
        return out
    exits = []
    for s in others(st.copy()):
        s.facts.assume_ne(sub(k, F))
        e = at(s, k) if not s.facts.dead else None
        if e is not None:
            for s2, sig in body(s, e):
                if sig is None or sig == ('continue',):
                    continue
                exits.append((s2, None if sig == ('break',) else sig))
    for s in others(st.copy()):
        for s2, b in I.branch(s, has_pred(I, s, loc, F), node):
            if not b:
                exits.append((s2, None))
                continue
            e = at(s2, F)
            if e is None:
                continue
            for s3, sig in body(s2, e):
                if sig is None or sig == ('continue',):
                    exits += [(s4, None) for s4 in others(s3)]
                else:
                    exits.append((s3, None if sig == ('break',) else sig))
    return exits


def flag_values(I, st, plain, k, F, at, body):
    """for each combination of values of the plain variables, those that iterations of other keys may turn it into
    (None if they do not stay within a few constants)"""
    if not plain:
        return {(): [()]}

    def const(v):
        return v in (('B', True), ('B', False)) or (is_lin(v) and T.is_const(v))
    step = {}
    start = tuple(I.read(st, l) for l in plain)
    if not all(const(v) for v in start):
        return None
    # the focused key may add further values: follow it as well
    work = [start]
    while work:
        v = work.pop()
        if v in step:
            continue
        if len(step) > 12:
            return None
        step[v] = set()
        for own in (False, True):
            s = st.copy()
            for l, x in zip(plain, v):
                I.write(s, l, x)
            if not own:
                s.facts.assume_ne(sub(k, F))
            e = at(s, F if own else k)
            if e is None:
                continue
            save = I.sink
            I.sink = []
            for s2, sig in body(s, e):
                if sig is None or sig == ('continue',):
                    w = tuple(I.read(s2, l) for l in plain)
                    if not all(const(x) for x in w):
                        I.sink = save
                        return None
                    if not own:
                        step[v].add(w)
                    work.append(w)
            I.sink = save
    out = {}
    for v in step:
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += step.get(x, ())
        out[v] = sorted(seen, key=repr)
    return out


def pair_type(I, rec):
    kt, vt = map_types(I, rec)
    for i, t in enumerate(I.P.types):
        if t.get('k') == 'rec':
            r = I.P.recs[t['rec']]
            if r['bare'] == 'std::pair':
                ta = rec_targs(I, r)
                if len(ta) == 2 and ta[0].get('t') is not None and ta[1].get('t') is not None and \
                        I.P.unqual_s(ta[0]['t']) == I.P.unqual_s(kt) and I.P.unqual_s(ta[1]['t']) == I.P.unqual_s(vt):
                    return i
    return None


# abstract map iterators
def _mit(I, st, a):
    v = rv(I, st, a, arg_type(I, a))
    return v.ov.get((('s', 'mit'),)) if hasattr(v, 'ov') else None


def mit_model(op):
    old = MODELS.get(op)

    def m(I, st, f, this, args, node):
        a = this if this is not None else args[0]
        v = _mit(I, st, a)
        if v is None:
            return old(I, st, f, this, args, node) if old else None
        n = f['name']
        _, loc, key = v
        if n in ('operator==', 'operator!='):
            b = _mit(I, st, args[-1])
            if b is None or b[1] != loc:
                return None
            neg = n == 'operator!='
            if key == b[2]:
                r = True
            elif key is None or b[2] is None:
                o = key if b[2] is None else b[2]
                if o == ('first',):
                    p = ('cmp', '==', size_of(I, st, loc))
                    from .interp import negate
                    return [(st, negate(p) if neg else p)]
                r = False
            else:
                return None
            return [(st, ('B', r != neg))]
        if n in ('operator*', 'operator->'):
            if key is None:
                I.event(st, 'enditer', node, map=loc)
                return [(st, I.opaque(st, f['ret']))]
            if key == ('first',):
                return None
            t = I.P.strip_ref(f['ret']) if n == 'operator*' else I.P.pointee(f['ret'])
            e = mkLV(loc + (('entry', key),), ((loc, st.gens.get(loc, 0)),), t)
            return [(st, e if n == 'operator*' else ('ptr', e))]
        return old(I, st, f, this, args, node) if old else None
    return m


for _n in ('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->', '__gnu_cxx::operator==',
           '__gnu_cxx::operator!=', 'co_ecs::detail::hash_table::hash_table_iterator::operator*',
           'co_ecs::detail::hash_table::hash_table_iterator::operator->'):
    MODELS[_n] = mit_model(_n)


_MIT_GENERIC = mit_model('')


def map_iterator_op(I, st, f, this, args, node):
    """operators of the iterators of an abstract map, whatever their class is called"""
    if f['name'] not in ('operator*', 'operator->', 'operator==', 'operator!='):
        return None
    a = this if this is not None else (args[0] if args else None)
    t = arg_type(I, a)
    r = I.P.rec_of(t) if t is not None else None
    if r is None or not any(r['bare'].startswith(b + '::') for b in I.abstract):
        return None
    if _mit(I, st, a) is None:
        return None
    return _MIT_GENERIC(I, st, f, this, args, node)


# abstract set of small integers
SET = ('s', 'set')


def set_term(I, st, loc):
    loc = I.canon(st, loc)
    v = st.mem.get(loc + (SET,))
    if v is not None:
        return st.facts.norm(v)
    b = I.base_at(st, loc)
    if b is not None and b[0] == 'zero':
        return atom(('emptyset',), nonneg=True)
    h = I.hooks.get('set_term')
    if h:
        r = h(I, st, loc, b)
        if r is not None:
            return st.facts.norm(r)
    return atom(('setof', b), nonneg=True, taint=None if b and b[0] in ('unk', 'hv') else False)


def set_has(I, st, term, x):
    """membership predicate"""
    term = st.facts.norm(term)
    a = T.single_atom(term)
    if a is None:
        return ('cmp', '!=', T.fresh('unk', boolean=True, nonneg=True))
    if a[0] == 'emptyset':
        return ('B', False)
    if a[0] in ('setins', 'setdel'):
        d = st.facts.eq(sub(a[2], x))
        if d is True:
            return ('B', a[0] == 'setins')
        if d is False:
            return set_has(I, st, a[1], x)
        inner = set_has(I, st, a[1], x)
        e = ('cmp', '==', sub(a[2], x))
        if a[0] == 'setins':
            return ('or', e, inner)
        from .interp import negate
        return ('and', negate(e), inner)
    h = I.hooks.get('set_has')
    if h:
        r = h(I, st, term, x)
        if r is not None:
            return r
    return ('cmp', '!=', atom(('in', term, x), nonneg=True, boolean=True))


def set_ins(I, st, term, x):
    p = I.simplify(st, set_has(I, st, term, x))
    if p is True:
        return term
    # canonical: (S - x) + x where x in S... keep syntactic, drop an enclosing deletion of the same element
    a = T.single_atom(term)
    if a and a[0] == 'setdel' and st.facts.eq(sub(a[2], x)) is True:
        q = I.simplify(st, set_has(I, st, a[1], x))
        if q is True:
            return a[1]
        term = a[1] if q is None and False else term
    return order_set(atom(('setins', term, x), nonneg=True))


def set_del(I, st, term, x):
    p = I.simplify(st, set_has(I, st, term, x))
    if p is False:
        return term
    a = T.single_atom(term)
    if a and a[0] == 'setins' and st.facts.eq(sub(a[2], x)) is True:
        q = I.simplify(st, set_has(I, st, a[1], x))
        if q is False:
            return a[1]
    return atom(('setdel', term, x), nonneg=True)


def order_set(v):
    """insertion chains in canonical order"""
    xs = []
    a = T.single_atom(v)
    while a and a[0] == 'setins':
        xs.append(a[2])
        base = a[1]
        a = T.single_atom(base)
    if len(xs) < 2:
        return v
    t = base
    for x in sorted(set(xs)):
        t = atom(('setins', t, x), nonneg=True)
    return t


def bitset_call(I, st, f, rec, this, args, node):
    n = f['name']
    loc = I.canon(st, this.loc) if this is not None else None
    if n in ('test', 'contains'):
        return [(st, set_has(I, st, set_term(I, st, loc), lin(I, st, args[0])))]
    if n in ('set', 'reset'):
        x = lin(I, st, args[0])
        val = ('B', True)
        if n == 'reset':
            val = ('B', False)
        elif len(args) > 1:
            val = rv(I, st, args[1], ptype(I, f, 1))
        outs = []
        for s, b in I.branch(st, val if isinstance(val, tuple) and val[0] in ('B', 'cmp', 'not', 'and', 'or') else ('cmp', '!=', val), node):
            t = set_term(I, s, loc)
            nt = set_ins(I, s, t, x) if b else set_del(I, s, t, x)
            I.event(s, 'setop', node, set=loc, x=x, val=b)
            I.write(s, loc + (SET,), nt, node)
            outs.append((s, this))
        return outs
    if n == 'clear':
        I.write(st, loc + (SET,), atom(('emptyset',), nonneg=True), node)
        return [(st, ('void',))]
    if n == 'operator==':
        a, b = set_term(I, st, loc), set_term(I, st, args[0].loc)
        return [(st, I.compare(st, '==', a, b))]
    if f.get('special') in ('copyassign', 'moveassign'):
        src = args[0]
        t = set_term(I, st, src.loc) if isinstance(src, LV_()) else None
        if t is not None:
            I.write(st, loc + (SET,), t, node)
            if f['special'] == 'moveassign':
                I.write(st, src.loc + (SET,), atom(('emptyset',), nonneg=True))
        return [(st, this)]
    return None


ABSTRACT['co_ecs::detail::dynamic_bitset'] = bitset_call


@ctor('co_ecs::detail::dynamic_bitset')
def c_bitset(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    st.mem[this.loc] = ('base', ('zero',))
    st.mem[this.loc + (SET,)] = atom(('emptyset',), nonneg=True)
    w = st.notes.get('writes')
    if w is not None:
        w.add(this.loc)
    return [st]


@ctor('co_ecs::detail::sparse_table', 'co_ecs::detail::hash_table')
def c_map(I, st, rec, f, args, node, this):
    I.clear_below(st, this.loc)
    w = st.notes.get('writes')
    if w is not None:
        w.add(this.loc)
    if args:
        I.write(st, this.loc, mkRec(('unk', T.fresh_n())))
        return [st]
    st.mem[this.loc] = ('base', ('zero',))
    st.mem[this.loc + (SIZE,)] = ZERO
    return [st]
