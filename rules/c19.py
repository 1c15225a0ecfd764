"""C19: the arena allocators hand out aligned, in-bounds, disjoint memory."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, add, const, scale, is_lin, is_const, mul
from sa.interp import Interp, Analysis, LV, St
from sa.modarith import Mod
from sa.world import Anchor

ONE, ZERO = const(1), const(0)
LEVEL = 'proof'
MIN_OBLIGATIONS = 40
TOP = 1 << 48
EXPLANATION = ('Each allocator operation is interpreted from an arbitrary state with 0 <= used <= capacity, for an arbitrary number of bytes (up to '
               '2^64 - 1) and an arbitrary power of two as alignment; 64-bit arithmetic wraps around unless the path proves that it cannot. On every '
               'path that hands out memory, the block starts at or behind what is in use, ends inside what is accounted for and inside the arena, '
               'and its address is a multiple of the alignment; bookkeeping is written into the arena outside the block. Refusals leave the state '
               'consistent; releasing the latest block gives back exactly its room; a moved-from allocator hands out nothing. The roles of the fields '
               'are derived from what the constructor stores.')
BASE = 'include/co_ecs/detail/allocator/'


class Und(Exception):
    pass


class Kind:
    """how an allocator represents its arena: per field, what the constructor stores in it"""
    def __init__(self, ctx, P, name, bare):
        f = P.driver(f'drv_{name}_init')
        if f is None:
            raise Und(f'{name}: no constructor')
        self.name, self.bare = name, bare
        rec = next(r for r in P.recs_by_bare.get(bare, []) if r.get('fields'))
        self.fields = {x['n']: x for x in rec['fields']}
        I, res = interp(P, f)
        ok = [(st, r) for st, r in res if r[0] != 'throw']
        if len(ok) != 1:
            raise Und(f'{name}: the constructor is not understood')
        st = ok[0][0]
        obj = (('o', 'mem'),)
        p, n = T.atom(('addr', (('o', 'p'),)), pos=True), T.atom(('init', (('o', 'n'),)), nonneg=True)
        self.roles = {}
        for x in self.fields:
            v = I.to_lin(I.read(st, obj + (('f', x),)))
            d = v
            for nm, y in (('start', p), ('zero', ZERO), ('size', n), ('end', add(p, n))):
                if st.facts.eq(sub(d, y)) is True:
                    self.roles[x] = nm
                    break
            else:
                raise Und(f'{name}: the constructor stores something that is not understood in {x}')
        self.moving = set()

    def values(self, I, st, root):
        return {x: I.to_lin(I.read(st, root + (('f', x),))) for x in self.fields}

    def state(self, v):
        """(start, capacity, used) from the values of the fields"""
        fixed = {r: v[x] for x, r in self.roles.items() if x not in self.moving}
        mov = [(r, v[x]) for x, r in self.roles.items() if x in self.moving]
        if len(mov) != 1:
            raise Und(f'{self.name}: {len(mov)} fields change with the memory in use')
        b, s = fixed.get('start'), fixed.get('size')
        e = fixed.get('end')
        if b is None and e is not None and s is not None:
            b = sub(e, s)
        if s is None and e is not None and b is not None:
            s = sub(e, b)
        r, x = mov[0]
        if s is None or b is None:
            raise Und(f'{self.name}: the arena is not described by fields that stay')
        u = {'start': lambda: sub(x, b), 'zero': lambda: x, 'size': lambda: sub(s, x)}.get(r)
        if u is None:
            raise Und(f'{self.name}: memory is handed out from the end')
        return b, s, u()


def interp(P, f, st=None):
    I = Interp(P, abstract=set(), user_throw=False)
    I.keep_ends = I.stores = I.wraps = I.split_minmax = True
    return I, I.run(f, st=st)


def run(ctx):
    ctx.assumptions = ['an arena lies below 2^48', 'alignments are powers of two, for the stack allocator at most 128 (asserted)',
                       'blocks are released in the reverse order']
    P = ctx.program('arena')
    kinds = {}
    for name in ('stack', 'linear'):
        try:
            k = Kind(ctx, P, name, f'co_ecs::detail::{name}_allocator')
            for op in ('allocate', 'pair', 'reset'):
                f = P.driver(f'drv_{name}_{op}')
                if f is None:
                    continue
                I, res = interp(P, f)
                for st, r in res:
                    for x in k.fields:
                        loc = (('o', 'a'), ('f', x))
                        if loc in st.mem and I.to_lin(I.read(st, loc)) != T.atom(('init', loc), nonneg=True) and op != 'reset' or \
                                loc in st.mem and op == 'reset' and k.roles[x] in ('start', 'zero', 'size') and changed(I, st, loc):
                            k.moving.add(x)
            kinds[name] = k
        except (Und, Analysis, Anchor) as e:
            ctx.undecide('representation', str(e))
    for name, k in kinds.items():
        for op, f in (('init', init), ('allocate', allocate), ('pair', pair), ('nested', pair), ('remaining', remaining), ('reset', reset),
                      ('move', moved), ('assign', moved)):
            d = P.driver(f'drv_{name}_{op}')
            if d is None:
                continue
            guard(ctx, P, d, k, f'{name}_allocator::{op}', f, (('o', 'a'),), op)
    k = kinds.get('stack')
    if k is not None:
        for d, size, align in (('8', 8, 8), ('32', 96, 32), ('1', 1, 1)):
            f = P.driver(f'drv_temp_allocate{d}')
            if f is not None:
                guard(ctx, P, f, k, f'temp_allocator::allocate<{d}>', allocate, None, 'temp', size=size, align=align)
            f = P.driver(f'drv_temp_pair{d}')
            if f is not None:
                guard(ctx, P, f, k, f'temp_allocator::deallocate<{d}>', pair, None, 'temp')


def changed(I, st, loc):
    return I.to_lin(I.read(st, loc)) != T.atom(('init', loc), nonneg=True)


def guard(ctx, P, d, k, name, f, root, op, **kw):
    try:
        f(ctx, P, d, k, name, root, op, **kw)
    except (Und, Analysis, Anchor) as e:
        ctx.undecide('operation', f'{name}: {e}')


class Path:
    def __init__(self, ctx, P, I, st, k, name, root):
        self.ctx, self.P, self.I, self.st, self.k, self.name, self.root = ctx, P, I, st, k, name, root
        self.F = st.facts.copy()

    def bad(self, rule, msg, e=None):
        w = self.P.where(e.fid, e.line) if e is not None else BASE + ('temp_allocator.hpp' if self.name.startswith('temp') else f'{self.k.name}_allocator.hpp')
        self.ctx.fail(rule, w, f'{self.name}: {msg}', S.path_of(self.st), key=f'{rule}|{self.name}|{msg}')

    def check(self, rule, d, msg, terms=(), e=None):
        if d is True:
            self.ctx.ob(rule)
        elif d is None and any(T.tainted(t) for t in terms if is_lin(t)):
            self.ctx.undecide(rule, f'{self.name}: {msg}: cannot be excluded')
        else:
            self.bad(rule, msg, e)

    def settle(self, x):
        """arithmetic that is now known not to wrap around"""
        for _ in range(4):
            y = self.sub_trunc(x)
            if y == x:
                return x
            x = y
        return x

    def sub_trunc(self, x):
        out = const(x[1])
        for i, c in x[2]:
            me = ('L', 0, ((i, 1),))
            t = T.info(i)
            if t[0] == 'trunc' and not t[2]:
                y = self.sub_trunc(t[3])
                if self.F.le(scale(y, -1)) is True and self.F.le(sub(y, const((1 << t[1]) - 1))) is True:
                    self.F.assume_eq(sub(me, y))
                    me = y
            out = add(out, me, c)
        return out

    def end(self):
        return tuple(self.settle(x) for x in self.k.state(self.k.values(self.I, self.st, self.root)))

    def le(self, x):
        return self.F.le(self.settle(x))


def begin(P, f, k, root):
    """runs a driver from an arbitrary consistent state"""
    v = {x: T.atom(('init', root + (('f', x),)), nonneg=True) for x in k.fields}
    b, s, u = k.state(v)
    st = St()
    F = st.facts
    F.assume_le(sub(ONE, b))
    F.assume_le(scale(u, -1))
    F.assume_le(sub(u, s))
    F.assume_le(scale(s, -1))
    F.assume_le(sub(add(b, s), const(TOP)))
    for p in ('al', 'am'):
        a = T.atom(('init', (('o', p),)), nonneg=True)
        F.assume_le(sub(ONE, a))
        F.assume_le(sub(a, const(128 if k.name == 'stack' else 1 << 62)))
    for p in ('n', 'm'):
        F.assume_le(sub(T.atom(('init', (('o', p),)), nonneg=True), const((1 << 64) - 1)))
    return interp(P, f, st)


def find_root(P, f, k):
    """the allocator object behind temp_allocator"""
    I = Interp(P, abstract=set(), user_throw=False)
    I.stores = I.wraps = True
    roots = set()
    for st, r in I.run(f):
        for loc in st.mem:
            if loc[-1] in [('f', x) for x in k.moving] and len(loc) > 1 and loc[0][0] != 't':
                roots.add(loc[:-1])
    if len(roots) != 1:
        raise Und('the arena used is not found')
    return roots.pop()


def paths(ctx, P, f, k, name, root):
    if root is None:
        root = find_root(P, f, k)
    I, res = begin(P, f, k, root)
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    for n, (st, r) in enumerate(res):
        if st.facts.dead:
            continue
        ctx.saw('paths', f'{name} path {n}')
        v = {x: T.atom(('init', root + (('f', x),)), nonneg=True) for x in k.fields}
        yield I, st, r, Path(ctx, P, I, st, k, name, root), k.state(v)


def init(ctx, P, f, k, name, root, op):
    rule = 'a new arena is empty'
    I, res = interp(P, f)
    for st, r in res:
        R = Path(ctx, P, I, st, k, name, (('o', 'mem'),))
        b, s, u = R.end()
        R.check(rule, R.F.eq(b if b == ZERO else u), 'memory is in use from the beginning', (u,))
        R.check(rule, R.F.le(sub(s, T.atom(('init', (('o', 'n'),)), nonneg=True))), 'the arena is larger than the memory given', (s,))


def same_arena(R, old):
    b0, s0, u0 = old
    b, s, u = R.end()
    rule = 'accounting stays consistent'
    R.check(rule, R.F.eq(sub(b, b0)), 'the start of the arena changes', (b,))
    R.check(rule, R.F.eq(sub(s, s0)), 'the size of the arena changes', (s,))
    R.check(rule, R.le(scale(u, -1)), 'less than nothing is in use', (u,))
    R.check(rule, R.le(sub(u, s)), 'more is in use than the arena holds', (u, s))
    return b, s, u


def allocate(ctx, P, f, k, name, root, op, size=1, align=None):
    for I, st, (how, v), R, old in paths(ctx, P, f, k, name, root):
        if R.root != root and root is not None:
            pass
        b0, s0, u0 = old
        b, s, u = same_arena(R, old)
        n = scale(T.atom(('init', (('o', 'n'),)), nonneg=True), size)
        al = const(align) if align else T.atom(('init', (('o', 'al'),)), nonneg=True)
        if how == 'throw':
            R.check('memory in use stays in use', R.le(sub(u0, u)), 'a refused request releases memory', (u,))
            continue
        if isinstance(v, tuple) and v and v[0] == 'ptr':
            v = I.to_lin(v)
        if not is_lin(v):
            ctx.undecide('addresses', f'{name}: the address is not understood')
            continue
        R.check('memory in use stays in use', R.le(sub(u0, u)), 'memory in use is released', (u,))
        if v == ZERO:
            if op == 'temp':
                R.bad('requests that do not fit are refused', 'a null pointer is returned instead of throwing')
            else:
                ctx.ob('requests that do not fit are refused')
            continue
        v = R.settle(v)
        R.check('blocks do not overlap', R.le(sub(add(b0, u0), v)), 'the block starts inside memory in use', (v, u0))
        R.check('blocks lie inside the arena', R.le(sub(add(v, n), add(b0, s0))), 'the block ends behind the arena', (v, n))
        R.check('blocks do not overlap', R.le(sub(add(v, n), add(b, u))), 'the end of the block is not accounted for', (v, n, u))
        d = Mod(al, R.F).aligned(v) if not (align == 1) else True
        R.check('blocks are aligned', d, 'the address is not a multiple of the alignment', (v,))
        writes(R, P, I, st, old, v, n, add(b, u))


def writes(R, P, I, st, old, v, n, end):
    rule = 'bookkeeping stays out of the blocks'
    b0, s0, u0 = old
    for e in S.flat(st.ev):
        if e.kind not in ('placement', 'store') or e.loc[0][0] != 'p':
            continue
        x = R.settle(e.loc[0][1])
        sz = P.sizeof(e.d['t']) if e.kind == 'placement' and e.d.get('t') is not None else None
        if e.kind == 'store':
            if any(w.kind == 'placement' and w.loc == e.loc[:len(w.loc)] for w in S.flat(st.ev)):
                continue
            sz = 1
        if sz is None:
            raise Und('a write is not understood')
        R.check(rule, R.F.le(sub(add(b0, u0), x)), 'memory in use is overwritten', (x,), e)
        R.check(rule, R.F.le(sub(add(x, const(sz)), end)), 'memory behind the part in use is written', (x,), e)
        a, b = R.F.le(sub(add(x, const(sz)), v)), R.F.le(sub(add(v, n), x))
        R.check(rule, True if True in (a, b) else None if None in (a, b) else False, 'the block handed out holds bookkeeping', (x, v), e)


def pair(ctx, P, f, k, name, root, op):
    rule = 'releasing the latest block gives back its room'
    for I, st, (how, v), R, old in paths(ctx, P, f, k, name, root):
        b, s, u = same_arena(R, old)
        R.check('memory in use stays in use', R.le(sub(old[2], u)), 'memory that was in use before is released', (u,))
        R.check(rule, R.le(sub(u, old[2])), 'room of the block is lost', (u,))


def remaining(ctx, P, f, k, name, root, op):
    for I, st, (how, v), R, (b, s, u) in paths(ctx, P, f, k, name, root):
        v = I.to_lin(v)
        R.check('accounting stays consistent', R.F.eq(R.settle(sub(v, sub(s, u)))), 'what remains is not what is not in use', (v,))


def reset(ctx, P, f, k, name, root, op):
    for I, st, (how, v), R, old in paths(ctx, P, f, k, name, root):
        b, s, u = same_arena(R, old)
        R.check('a reset arena is empty', R.F.eq(u), 'memory is still in use after a reset', (u,))


def moved(ctx, P, f, k, name, root, op):
    rule = 'an arena has one owner'
    dst = (('o', 'mem' if op == 'move' else 'd'),)
    for I, st, (how, v), R, (b0, s0, u0) in paths(ctx, P, f, k, name, root):
        src = R.end()
        R.root = dst
        b, s, u = R.end()
        R.check(rule, R.F.eq(sub(b, b0)), 'the new owner has another arena', (b,))
        R.check(rule, R.le(sub(s, s0)), 'the new owner has a larger arena', (s,))
        R.check(rule, R.le(sub(u0, u)), 'the new owner forgets memory in use', (u,))
        R.check(rule, R.le(sub(u, s)), 'more is in use than the arena holds', (u, s))
        R.check(rule, R.le(sub(src[1], src[2])), 'the source still hands out memory of the arena', src)
