"""C20: copy, move and swap carry the whole state of a container."""
import signal
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, const, is_lin, scale
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import Anchor
from . import c17, c19

LEVEL = 'other'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Every special member (and swap) of the hash table, the chunk, the component set, the sparse table and the arenas is interpreted from '
               'arbitrary states of source and target. Field by field, down to scalars and vectors, the new owner must end with what the source '
               'had. Owning pointers are found by what the destructor releases: after a move no two objects have the same one, the source has nothing, '
               'something new, or the whole former state of the target; what the target had is released exactly once or handed to the source. '
               'Assigning an object to itself leaves all fields as they were. A copied hash table has an array of its own, and an arbitrary '
               'iteration of the copying loop copies element and metadata of an occupied slot to the same slot and counts it once. '
               'The sparse table and the arenas are additionally checked with the invariants of C17 and C19.')
HPP = 'include/co_ecs/detail/hash_table.hpp'
FILES = {'table': HPP, 'chunk': 'include/co_ecs/chunk.hpp', 'bits': 'include/co_ecs/detail/dynamic_bitset.hpp',
         'map': 'include/co_ecs/detail/sparse_table.hpp', 'stack': 'include/co_ecs/detail/allocator/stack_allocator.hpp',
         'linear': 'include/co_ecs/detail/allocator/linear_allocator.hpp'}
OPS = ('move', 'copy', 'move_assign', 'copy_assign', 'swap', 'self', 'copy_self')
SRC, DST, MEM = (('o', 's'),), (('o', 'd'),), (('o', 'mem'),)


class Und(Exception):
    pass


class Slow(BaseException):
    pass


def slow(sig, frame):
    raise Slow()


def leaves(P, t, loc, top=True):
    """the fields of an object, down to what is not a class of the library"""
    r = P.rec_of(t)
    if r is None or not top and not r['bare'].startswith('co_ecs::'):
        return [(loc, t)]
    out = []
    for b in r.get('bases') or []:
        bt = b.get('t') if isinstance(b, dict) else b
        out += leaves(P, bt, loc)
    for f in r.get('fields') or []:
        out += leaves(P, f['t'], loc + (('f', f['n']),), False)
    return out


def vector(P, t):
    r = P.rec_of(t)
    return r is not None and r['bare'] == 'std::vector'


def value(I, st, loc, t, P):
    """('int', term), ('is', loc of the object it comes from), ('zero',), ('new', root) or None"""
    if P.rec_of(t) is not None:
        b = st.mem.get(loc)
        if b is None:
            b = I.base_at(st, loc)
            if isinstance(b, tuple) and b and b[0] == 'base':
                b = b[1]
            if isinstance(b, tuple) and b and b[0] == 'init':
                return ('is', b[1])
            return ('zero',) if isinstance(b, tuple) and b and b[0] == 'zero' else None
        v = I.read(st, loc)
        if isinstance(v, Rec):
            if any(k and k[-1] not in (('s', 'size'), ('s', 'gen'), ('s', 'cap')) for k in (v.ov or {})):
                return None
            b = v.base
        elif isinstance(b, tuple) and b and b[0] == 'base':
            b = b[1]
        if isinstance(b, tuple) and b and b[0] == 'init':
            return ('is', b[1])
        if isinstance(b, tuple) and b and b[0] == 'zero':
            return ('zero',)
        return None
    v = I.read(st, loc)
    if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) and v[1].loc and v[1].loc[0][0] in ('h', 't'):
        return ('new', v[1].loc[:1])
    try:
        v = I.to_lin(v)
    except Exception:
        return None
    return ('int', v) if is_lin(v) else None


def start_value(loc, t, P):
    return ('is', loc) if P.rec_of(t) is not None else ('int', T.atom(('init', loc)))


def same(F, a, b):
    if a is None or b is None:
        return None
    if a[0] == b[0] == 'int':
        if a[1] == b[1]:
            return True
        if T.tainted(a[1]) if hasattr(T, 'tainted') else False:
            return None
        return True if F.eq(sub(a[1], b[1])) is True else False
    return a == b


class Cls:
    def __init__(self, ctx, P, name):
        self.ctx, self.P, self.name = ctx, P, name
        self.src = []
        f = next((P.driver(f'drv_{name}_{op}') for op in OPS if P.driver(f'drv_{name}_{op}')), None)
        if f is None:
            raise Und('no special members')
        t = P.strip_ref(next(p['t'] for p in f['params'] if p['n'] == 's'))
        self.t = t
        self.fields = [(l[1:], u) for l, u in leaves(P, t, SRC)]
        if not self.fields:
            raise Und('no fields')
        self.own = self.owned()
        for l, u in self.fields:
            ctx.saw('fields', name + '.' + '.'.join(x[1] for x in l))

    def owned(self):
        """fields whose pointer the destructor releases"""
        f = self.P.driver(f'drv_{self.name}_dtor')
        if f is None:
            return []
        I, res = self.go(f)
        out = set()
        for st, r in res:
            for p in released(st):
                a = T.single_atom(p) if is_lin(p) else None
                if a is not None and a[0] == 'init':
                    out.add(a[1][1:])
        if not out:
            raise Und('the destructor releases nothing')
        return [l for l, u in self.fields if l in out]

    def go(self, f):
        I = Interp(self.P, abstract=set(), user_throw=False)
        I.keep_ends = I.stores = True
        res = I.run(f)
        for fid in I.inlined:
            self.ctx.saw('functions', self.P.funcs[fid]['q'])
        return I, [(st, r) for st, r in res if not st.facts.dead and r[0] != 'throw']

    def check(self, rule, ok, msg, op, detail=''):
        if ok is None:
            m = f'{self.name}, {op}: {msg}: not known{detail}'
            if m not in self.src:
                self.src.append(m)
                self.ctx.undecide(rule, m)
        elif ok:
            self.ctx.ob(rule)
        else:
            self.ctx.fail(rule, FILES[self.name], f'{self.name}, {op}: {msg}', [], key=f'{self.name}:{op}:{rule}:{msg}')

    def run(self):
        for op in OPS:
            f = self.P.driver(f'drv_{self.name}_{op}')
            if f is None:
                continue
            old = signal.signal(signal.SIGALRM, slow)
            left = signal.alarm(60)
            try:
                I, res = self.go(f)
                if not res:
                    raise Und('no path ends normally')
                for st, r in res:
                    self.path(I, st, op)
                self.ctx.saw('paths', f'{self.name}: {op}', )
            except (Und, Analysis, Anchor) as e:
                self.ctx.undecide('operation', f'{self.name}, {op}: {e}')
            except Slow:
                self.ctx.undecide('operation', f'{self.name}, {op}: too many paths')
            finally:
                signal.signal(signal.SIGALRM, old)
                signal.alarm(left)

    def path(self, I, st, op):
        P, F = self.P, st.facts
        nm = lambda l: '.'.join(str(x[1]) for x in l)
        root = MEM if op in ('move', 'copy') else DST
        if op in ('self', 'copy_self'):
            rule = 'assigning an object to itself changes nothing'
            if op == 'copy_self' and self.own:
                self.copied(I, st, op, SRC)
                return
            for l, t in self.fields:
                self.check(rule, same(F, value(I, st, SRC + l, t, P), start_value(SRC + l, t, P)), f'{nm(l)} changes', op)
            for l in self.own:
                gone = [p for p in released(st, self.own) if is_lin(p) and F.eq(sub(p, T.atom(('init', SRC + l)))) is True]
                self.check(rule, not gone, f'{nm(l)} is released', op)
            return
        assign = op.endswith('assign') or op == 'swap'
        if op.startswith('copy') and self.own:
            self.copied(I, st, op, root)
        else:
            for l, t in self.fields:
                self.check('the new owner has the whole state', same(F, value(I, st, root + l, t, P), start_value(SRC + l, t, P)),
                           f'{nm(l)} does not arrive', op)
        if op.startswith('copy'):
            for l, t in self.fields:
                self.check('a copied object keeps its state', same(F, value(I, st, SRC + l, t, P), start_value(SRC + l, t, P)), f'{nm(l)} changes', op)
        rel = released(st, self.own)
        for l in self.own:
            t = dict(self.fields)[l]
            init_s, init_d = start_value(SRC + l, t, P), start_value(root + l, t, P)
            if not op.startswith('copy'):
                v = value(I, st, SRC + l, t, P)
                rule = 'no two objects own the same storage'
                if v is not None and v[0] == 'int':
                    s = same(F, v, init_s)
                    self.check(rule, None if s is None else not s, f'{nm(l)} of the source stays', op)
                    if assign and same(F, v, init_d) is True or op == 'swap':
                        for l2, t2 in self.fields:
                            self.check('the source has a state of its own', same(F, value(I, st, SRC + l2, t2, P), start_value(root + l2, t2, P)),
                                       f'{nm(l2)} is not that of the storage the source has now', op)
                    elif F.eq(v[1]) is not True:
                        self.check('the source has a state of its own', None, f'{nm(l)} of the source', op)
                    else:
                        self.emptied(I, st, op, nm)
                elif v is not None and v[0] == 'new':
                    self.check(rule, True, '', op)
                    self.emptied(I, st, op, nm)
                else:
                    self.check(rule, None, f'{nm(l)} of the source', op)
                self.check(rule, not any(is_lin(p) and F.eq(sub(p, init_s[1])) is True for p in rel), f'{nm(l)} of the source is released', op)
            if assign:
                n = sum(is_lin(p) and F.eq(sub(p, init_d[1])) is True for p in rel)
                kept = same(F, value(I, st, SRC + l, t, P), init_d) is True and not op.startswith('copy')
                unknown = n + kept == 0 and any(not is_lin(p) and not (isinstance(p, tuple) and p and p[0] == 'ptr') or is_lin(p) and T.tainted(p) for p in rel)
                self.check('what the target had is released once', None if unknown else n + kept == 1, f'{nm(l)} of the target is ' +
                           ('released and still in use' if n + kept > 1 else 'lost'), op)
        if not op.startswith('copy'):
            for l, t in self.fields:
                if vector(P, t):
                    v = value(I, st, SRC + l, t, P)
                    self.check('no two objects own the same storage', None if v is None else v != ('is', SRC + l), f'{nm(l)} of the source stays', op)

    def emptied(self, I, st, op, nm):
        """the source has new storage, or none: what counts or describes elements must fit it"""
        P, F = self.P, st.facts
        if self.name != 'table':
            return
        rule = 'the source has a state of its own'
        ints = [(l, t) for l, t in self.fields if len(l) == 1 and P.ty(t).get('k') == 'int']
        for l, t in ints:
            v = value(I, st, SRC + l, t, P)
            self.check(rule, None if v is None or v[0] != 'int' else F.eq(v[1]) is True, f'{nm(l)} is not zero', op)
        a = next((e for e in reversed(list(S.flat(st.ev))) if e.kind == 'allocate'), None)
        for l, t in self.fields:
            if vector(P, t) and a is not None:
                n = I.to_lin(I.read(st, SRC + l + (('s', 'size'),)))
                self.check(rule, F.eq(sub(n, I.to_lin(a.n))) is True if is_lin(n) else None, f'{nm(l)} does not have one entry per slot', op)

    # ------------------------------------------------------------------ copies with storage of their own
    def copied(self, I, st, op, root):
        P, F = self.P, st.facts
        rule = 'a copy has storage of its own'
        nm = lambda l: '.'.join(str(x[1]) for x in l)
        h = None
        for l in self.own:
            t = dict(self.fields)[l]
            v = value(I, st, root + l, t, P)
            self.check(rule, None if v is None else v[0] == 'new', f'{nm(l)} is not new storage', op)
            if v is not None and v[0] == 'new':
                h = v[1]
            if v is not None and v[0] == 'new':
                self.check(rule, not any(isinstance(p, tuple) and p and p[0] == 'ptr' and p[1].loc[:1] == h for p in released(st, self.own)),
                           'the new storage is released', op)
        for l, t in self.fields:
            if len(l) == 1 and not vector(P, t) and P.rec_of(t) is not None:
                self.check('the new owner has the whole state', same(F, value(I, st, root + l, t, P), ('is', SRC + l)), f'{nm(l)} does not arrive', op)
        if h is None:
            return
        self.loop(I, st, op, root, h)

    def loop(self, I, st, op, root, h):
        """the loop that copies elements: one arbitrary iteration"""
        P = self.P
        rule = 'every element is copied to its slot, with its metadata'
        infos = [l for l, t in self.fields if vector(P, t)]
        if len(infos) != 1:
            raise Und('metadata not found')
        counts = [l for l, t in self.fields if len(l) == 1 and P.ty(t).get('k') == 'int']
        own = [l for l in self.own]
        loops = [e for e in st.ev if e.kind == 'loop' and any(copies(x, h) for tr in e.traces for x in tr[0])]
        empty = [e for e in st.ev if e.kind == 'loop0']
        if not loops:
            # no iteration at all: nothing to copy
            if not empty:
                self.check(rule, None, 'the loop that copies elements', op)
            return
        if len(loops) > 1:
            raise Und('elements are copied in several loops')
        L = loops[0]
        for tr, end in zip(L.traces, L.ends):
            evs, F = tr[0], tr[1].copy()
            cp = [x for y in evs for x in [copies(y, h)] if x]
            it = next((e for e in evs if e.kind == 'iterate'), None)
            occ = occupied(I, tr)
            if it is not None and is_lin(it.k):
                F.assume_eq(sub(it.k, L.n)) if hasattr(F, 'assume_eq') else (F.assume_le(sub(it.k, L.n)), F.assume_le(sub(L.n, it.k)))
            dc = []
            for c in counts:
                # which object holds the count while copying
                for r in {x[:1] for x in end.mem if x[1:] == c} & {x[:1] for x in L.start.mem if x[1:] == c}:
                    a, b = L.start.mem.get(r + c), end.mem.get(r + c)
                    a, b = num(I, L.start, r + c), num(I, end, r + c)
                    if a is not None and b is not None and r != SRC:
                        dc.append(sub(b, a))
            if occ is None:
                self.check(rule, None, 'which slots are copied', op)
                continue
            if not occ[1]:
                self.check(rule, not cp, 'a free slot is copied', op)
                for d in dc:
                    self.check(rule, F.eq(d), 'a free slot is counted', op)
                continue
            slot = occ[0]
            self.check(rule, len(cp) == 1, f'the element of an occupied slot is copied {len(cp)} times', op)
            if len(cp) != 1:
                continue
            s, d = cp[0]
            for b in own:
                base = T.atom(('init', SRC + b))
                size = elem_size(P, self, b)
                off = sub(s, base) if is_lin(s) else None
                ok = None if off is None or size is None or not is_lin(d) else F.eq(sub(off, scale(d, size)))
                self.check(rule, ok, 'an element is copied to another slot', op)
                ok = None if off is None or size is None or not is_lin(slot) else F.eq(sub(off, scale(slot, size)))
                self.check(rule, ok, 'another element than that of the slot is copied', op)
            # metadata
            found = False
            for l, v in end.mem.items():
                if len(l) == len(infos[0]) + 2 and l[-1][0] == 'i' and l[1:-1] == infos[0] and l[:1] != SRC and isinstance(v, tuple) and v and v[0] == 'base' \
                        and isinstance(v[1], tuple) and v[1] and v[1][0] == 'init':
                    w = v[1][1]
                    if w[:-1] == SRC + infos[0] and w[-1][0] == 'i' and is_lin(l[-1][1]) and F.eq(sub(l[-1][1], d)) is True:
                        found = True
                        self.check(rule, F.eq(sub(w[-1][1], slot)), 'the metadata is that of another slot', op)
            if not found:
                self.check(rule, False if is_lin(d) and metadata_known(end, infos[0], d, F) else None, 'the metadata of the slot does not arrive', op)
            for x in dc or [None]:
                self.check(rule, None if x is None else F.eq(sub(x, const(1))), 'an element is not counted once', op)


def num(I, st, loc):
    try:
        v = I.to_lin(I.read(st, loc))
    except Exception:
        return None
    return v if is_lin(v) else None


def metadata_known(end, info, d, F):
    """nothing was stored for the slot, or something that is not from the source"""
    for l, v in end.mem.items():
        if l[:1] != SRC and len(l) >= len(info) + 2 and l[1:1 + len(info)] == info and l[1 + len(info)][0] == 'i':
            i = l[1 + len(info)][1]
            if is_lin(i) and F.eq(sub(i, d)) is True:
                if len(l) > len(info) + 2:
                    return False
                if not (isinstance(v, tuple) and v and v[0] == 'base' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('init', 'zero')):
                    return False
    return True


def released(st, own=()):
    """pointers given back, those of temporaries (which end with their expression) included"""
    out, gone = [], set()
    for e in S.flat(st.ev):
        if e.kind == 'deallocate':
            out.append(e.ptr)
        elif e.kind == 'destroy':
            gone.add(e.loc)
    for l, v in st.mem.items():
        if l[0][0] == 't' and len(l) > 1 and any(l[1:] == o[len(o) - len(l) + 1:] for o in own) and l[:1] not in gone:
            out.append(v)
    return out


def elem_size(P, cls, b):
    t = dict(cls.fields)[b]
    to = P.pointee(t)
    return P.sizeof(to) if to is not None else None


def copies(e, h):
    """(source pointer, index in the new storage) of an event that copies one element into the storage h"""
    if e.kind == 'stdcall' and e.f in ('std::uninitialized_copy_n', 'std::uninitialized_copy', 'std::construct_at') or \
            e.kind == 'stdcall' and e.f.endswith('::construct'):
        ps = [a for a in e.args if isinstance(a, tuple) and a and a[0] == 'ptr' and isinstance(a[1], LV)]
        for a in ps:
            if a[1].loc[:1] == h and len(a[1].loc) == 2 and a[1].loc[1][0] == 'i':
                if e.f == 'std::uninitialized_copy_n' and not (is_lin(e.args[1]) and T.is_const(e.args[1]) and e.args[1] == const(1)):
                    return None
                return (e.args[0], a[1].loc[1][1])
    if e.kind == 'construct_at' and e.loc[:1] == h and len(e.loc) == 2 and e.loc[1][0] == 'i' and len(e.args) == 1:
        a = e.args[0]
        if isinstance(a, LV) and len(a.loc) == 1 and a.loc[0][0] == 'p':
            return (a.loc[0][1], e.loc[1][1])
        return (None, e.loc[1][1])
    if e.kind == 'construct' and e.loc[:1] == h and len(e.loc) == 2 and e.loc[1][0] == 'i':
        src = e.d.get('src')
        if isinstance(src, LV) and len(src.loc) == 1 and src.loc[0][0] == 'p':
            return (src.loc[0][1], e.loc[1][1])
        return (None, e.loc[1][1])
    return None


def occupied(I, tr):
    """(slot, whether it is occupied) from the branch taken in the iteration"""
    for where, c, pos in tr[2]:
        a = T.single_atom(c) if is_lin(c) else None
        if a is not None and a[0] == 'init' and len(a[1]) >= 3 and a[1][-1][0] == 'f' and a[1][-2][0] == 'i' and a[1][:1] == SRC:
            return a[1][-2][1], bool(pos)
    return None


def referring(ctx, P):
    """archetypes: their chunks refer to the table of blocks inside them"""
    rule = 'an object that is referred to is not moved'
    arch = next((r for r in P.recs_by_bare.get('co_ecs::archetype', []) if r.get('fields')), None)
    chunk = next((r for r in P.recs_by_bare.get('co_ecs::chunk', []) if r.get('fields')), None)
    if arch is None or chunk is None:
        raise Und('archetype or chunk not found')
    canon = lambda t: P.rec_of(t)['q'] if t is not None and P.rec_of(t) else None
    kept = {canon(P.pointee(f['t'])) for f in chunk['fields'] if P.ty(f['t']).get('k') in ('ptr', 'ref')} - {None}
    inner = [f for f in arch['fields'] if canon(f['t']) in kept]
    lists = [f for f in arch['fields'] if vector(P, f['t'])]
    if not inner:
        ctx.ob(rule)
        return
    for op, root in (('move', MEM), ('move_assign', DST)):
        f = P.driver('drv_arch_' + op)
        I = Interp(P, abstract=set(), user_throw=False)
        I.keep_ends = I.stores = True
        for st, r in I.run(f):
            moved = any(st.mem.get(root) == ('base', ('init', SRC)) or (root + (('f', x['n']),)) in st.mem for x in arch['fields'])
            if not moved:
                ctx.ob(rule)
                continue
            for x in lists:
                l = (('f', x['n']),)
                v = value(I, st, root + l, x['t'], P)
                if v == ('is', SRC + l) and not any(k[:len(root) + 1] == root + l and len(k) > len(root) + 1 for k in st.mem) and \
                        not any(e.kind in ('loop', 'loopsum', 'iterate') for e in S.flat(st.ev)):
                    ctx.fail(rule, 'include/co_ecs/archetype.hpp', f'archetype, {op}: its chunks refer to {inner[0]["n"]} of the archetype that was moved from', [],
                             key=f'archetype:{op}:{x["n"]}')
                else:
                    ctx.undecide(rule, f'archetype, {op}: whether {x["n"]} refer to the new object is not known')


class Only:
    """passes on what one rule of another check finds"""
    def __init__(self, ctx, rules):
        self.__dict__.update(ctx=ctx, rules=rules, assumptions=[])

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def ob(self, rule, *a, **k):
        if rule in self.rules:
            self.ctx.ob(rule, *a, **k)

    def fail(self, rule, *a, **k):
        if rule in self.rules:
            self.ctx.fail(rule, *a, **k)

    def undecide(self, rule, *a, **k):
        if rule in self.rules:
            self.ctx.undecide(rule, *a, **k)


def run(ctx):
    ctx.assumptions = ['allocating memory succeeds', 'copying hash and comparison objects copies their state', 'two different objects are given to swap']
    P = ctx.program('special')
    for n in FILES:
        try:
            Cls(ctx, P, n).run()
        except (Und, Analysis, Anchor) as e:
            ctx.undecide('fields', f'{n}: {e}')
    try:
        referring(ctx, P)
    except (Und, Analysis, Anchor) as e:
        ctx.undecide('fields', f'archetype: {e}')
    c19.run(Only(ctx, ('an arena has one owner',)))
    ops, c17.OPS = c17.OPS, ('init', 'move', 'copy', 'move_assign', 'copy_assign')
    try:
        c17.run(ctx)
    finally:
        c17.OPS = ops
    ctx.assumptions = ['allocating memory succeeds', 'copying hash and comparison objects copies their state', 'two different objects are given to swap',
                       'keys below 2^60, and fewer entries than that and than keys of the type']
