"""C18: component sets are compared and hashed by their members."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, add, const, is_lin, is_const
from sa.interp import Interp, Analysis, LV, base_scalar
from sa.world import Anchor

ONE = const(1)
LEVEL = 'proof'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Every operation of the bitset and of the two set classes built on it is interpreted over an arbitrary set. Blocks are evaluated in '
               'a per-bit domain (the bit addressed / any other bit; each 0, 1, as before, flipped), which decides for every member, not only '
               'the one named, whether it is in the set afterwards. Blocks that are dropped are proven to be zero (loop summary with the path '
               'condition of an arbitrary iteration). Equality: a negative answer needs a proven difference, a positive one needs every block of '
               'both sets compared. The hash is a function of the blocks. Either all operations keep the number of blocks canonical, or equality '
               'and hash ignore trailing zero blocks. The list of metadata follows the bits.')
HPP = 'include/co_ecs/detail/dynamic_bitset.hpp'


class Und(Exception):
    pass


class Path:
    def __init__(self, ctx, P, I, st, name):
        self.ctx, self.P, self.I, self.st, self.name = ctx, P, I, st, name

    def where(self, e=None):
        if e is not None:
            return self.P.where(e.fid, e.line)
        return HPP

    def bad(self, rule, msg, e=None):
        self.ctx.fail(rule, self.where(e), f'{self.name}: {msg}', S.path_of(self.st), key=f'{rule}|{self.name}|{msg}')

    def check(self, rule, d, msg, e=None, unknown=False):
        if d is True:
            self.ctx.ob(rule)
        elif d is None and unknown:
            self.ctx.undecide(rule, f'{self.name}: {msg} cannot be excluded')
        else:
            self.bad(rule, msg, e)


def run(ctx):
    ctx.assumptions = ['the shift counts and block arithmetic do not depend on sizes beyond 64 bits', 'memory does not run out']
    P = ctx.program('sets')
    G = {'width': {}, 'canonical': [], 'eq_pad': [], 'hash_pad': []}
    bits = [r for r in P.recs_by_bare.get('co_ecs::detail::dynamic_bitset', []) if r.get('fields')]
    if not bits:
        ctx.undecide('anchors', 'dynamic_bitset not found')
        return
    for rec, pre in (('co_ecs::detail::dynamic_bitset', 'bits'), ('co_ecs::component_set', 'set'), ('co_ecs::component_meta_set', 'meta')):
        down = path_down(P, rec)
        if down is None:
            ctx.undecide('anchors', f'the blocks of {rec} are not found')
            continue
        for what, f in (('test', test), ('contains', test), ('set', change), ('insert', change), ('unset', change), ('erase', change),
                        ('clear', clear), ('create', clear), ('equal', equal), ('hash', hashed)):
            d = P.driver(f'drv_{pre}_{what}')
            if d is None:
                continue
            try:
                f(ctx, P, d, f'{pre}_{what}', what, down, G, rec)
            except (Und, Analysis, Anchor) as e:
                ctx.undecide(what, f'{pre}: {e}')
    finish(ctx, G)


def path_down(P, bare):
    """location suffix of the vector of blocks inside a record"""
    for r in P.recs_by_bare.get(bare, []):
        for f in r.get('fields') or ():
            t = P.rec_of(f['t'])
            if t is None:
                continue
            if t['bare'] == 'std::vector' and bare.endswith('dynamic_bitset'):
                return (('f', f['n']),)
            if t['bare'].startswith('co_ecs::'):
                d = path_down(P, t['bare'])
                if d is not None:
                    return (('f', f['n']),) + d
    return None


def go(ctx, P, f, name):
    I = Interp(P, abstract=set(), user_throw=False)
    I.keep_ends = I.split_minmax = True
    I.shifts = I.stores = True
    res = I.run(f)
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    for i, (st, (how, v)) in enumerate(res):
        ctx.saw('paths', f'{name} path {i}')
        if how != 'throw' and not st.facts.dead:
            yield I, st, v, Path(ctx, P, I, st, name)


def arg(I, f, n):
    p = f['params'][n]
    return p['n'] if 'n' in p else p.get('name')


# ---- bits ---------------------------------------------------------------------------------
AND = {('0', 'x'): '0', ('1', 'x'): 'x'}


def b_not(a):
    return {'0': '1', '1': '0', 'old': 'new', 'new': 'old'}.get(a, '?')


def b_and(a, b):
    if '0' in (a, b):
        return '0'
    if a == '1':
        return b
    if b == '1':
        return a
    if a == b and a != '?':
        return a
    if {a, b} == {'old', 'new'}:
        return '0'
    return '?'


def b_xor(a, b):
    if '?' in (a, b):
        return '?'
    if a == '0':
        return b
    if b == '0':
        return a
    if a == '1':
        return b_not(b)
    if b == '1':
        return b_not(a)
    return '0' if a == b else '1'


class Bits:
    """bits of a block, by position: at the bit addressed, and anywhere else in the same block"""
    def __init__(self, I, st, block, bp, zero):
        self.I, self.st, self.block, self.bp, self.zero = I, st, block, bp, zero

    def of(self, x):
        if not is_lin(x):
            return '?', '?'
        if is_const(x):
            c = x[1] & (2 ** 64 - 1)
            return ('0', '0') if c == 0 else ('1', '1') if c == 2 ** 64 - 1 else ('?', '?')
        if len(x[2]) == 1 and x[2][0][1] == -1 and x[1] == -1:
            # -1 - y is ~y
            return tuple(b_not(b) for b in self.of(('L', 0, ((x[2][0][0], 1),))))
        if x[1] == 0 and len(x[2]) == 2 and {k for _, k in x[2]} == {1}:
            # a sum of values without a common bit
            a, b = (self.of(('L', 0, ((i, 1),))) for i, _ in x[2])
            return tuple('?' if '?' in (p, q) or b_and(p, q) != '0' else b_not(b_and(b_not(p), b_not(q))) for p, q in zip(a, b))
        if x[1] != 0 or len(x[2]) != 1 or x[2][0][1] != 1:
            return '?', '?'
        t = T.info(x[2][0][0])
        if t[0] == 'init':
            if t[1] == self.block:
                return ('0', '0') if self.zero else ('old', 'old')
            return '?', '?'
        if t[0] == 'shl' and t[1] == ONE:
            return ('1', '0') if self.st.facts.eq(sub(t[2], self.bp)) is True else ('?', '?')
        if t[0] == '~':
            return tuple(b_not(b) for b in self.of(t[1]))
        if t[0] in ('and', 'ior', 'xor'):
            a, b = self.of(t[1]), self.of(t[2])
            f = {'and': b_and, 'xor': b_xor, 'ior': lambda p, q: b_not(b_and(b_not(p), b_not(q)))}[t[0]]
            return tuple(f(p, q) for p, q in zip(a, b))
        if t[0] == 'mod' and t[2] == const(2):
            s = T.single_atom(t[1])
            if s is not None and s[0] == 'shr' and self.st.facts.eq(sub(s[2], self.bp)) is True:
                a = self.of(s[1])[0]
                return a, '0'          # one bit, not at its place: only good for tests against zero
        return '?', '?'

    def truth(self, p):
        """'0' '1' 'old' 'new' '?': what a predicate says about the bit addressed"""
        if p == ('B', True):
            return '1'
        if p == ('B', False):
            return '0'
        if not (isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1])):
            if isinstance(p, tuple) and p and p[0] == 'not':
                return b_not(self.truth(p[1]))
            return '?'
        x = p[-1]
        op = p[1]
        if op == '<=' and len(x[2]) == 1 and x[1] == 1 and x[2][0][1] == -1:
            op, x = '!=', sub(ONE, x)                 # 1 - y <= 0: y != 0 for what is unsigned
        if op not in ('==', '!='):
            return '?'
        a, b = self.of(x)
        r = None
        if b == '0':
            r = a
        elif len(x[2]) == 2 and x[1] == 0 and sorted(k for _, k in x[2]) == [-1, 1]:
            # value == mask
            l, m = (self.of(('L', 0, ((i, 1),))) for i, _ in x[2])
            if (l[1], m[1]) == ('0', '0') and '?' not in (l[0], m[0]):
                r = b_xor(l[0], m[0])
        elif len(x[2]) == 1 and x[1] == -1 and x[2][0][1] == 1:
            l = self.of(add(x, ONE))
            s = T.single_atom(add(x, ONE))
            if s is not None and s[0] == 'mod' and l[1] == '0':
                r = b_not(l[0])
        if r is None:
            return '?'
        return r if op == '!=' else b_not(r)


def place(I, st, cont, pos, G, name):
    """(index of the block, index of the bit) used on this path, or None if no block is looked at"""
    idx = [e for e in S.flat(st.ev) if e.kind in ('index', 'resize') and e.cont == cont]
    atoms = set()
    for i, _ in [x for e in idx for x in deep(e.index if e.kind == 'index' else e.n)] + [x for w, p, b in st.path for x in pdeep(p)]:
        t = T.info(i)
        if t[0] == 'div' and is_const(t[2]) and st.facts.eq(sub(t[1], pos)) is True:
            atoms.add((i, t[2][1]))
    if not atoms:
        return None
    if len(atoms) != 1:
        raise Und('blocks are addressed in different ways')
    i, k = atoms.pop()
    G['width'].setdefault(k, name)
    return ('L', 0, ((i, 1),)), T.atom(('mod', pos, const(k)), nonneg=True), k


def deep(x):
    out = {}

    def walk(y):
        if is_lin(y):
            for i, k in y[2]:
                if i not in out:
                    out[i] = k
                    for z in T.info(i)[1:]:
                        walk(z)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, tuple):
                    walk(z)
    walk(x)
    return list(out.items())


def pdeep(p):
    return deep(p[-1]) if isinstance(p, tuple) and p and p[0] == 'cmp' else []


def shifts(R, P, st):
    rule = 'shifts stay within the block'
    for e in S.flat(st.ev):
        if e.kind == 'shift':
            t = T.single_atom(e.amount)
            bits = (P.ty(e.t).get('size') or 0) * 8 or P.ty(e.t).get('bits') or 0
            if not bits:
                continue
            F = st.facts.copy()
            if t is not None and t[0] == 'mod' and is_const(t[2]):
                F.assume_le(add(sub(e.amount, t[2]), ONE))
            d = F.le(add(sub(e.amount, const(bits)), ONE))
            R.check(rule, d, 'a bit is shifted out of the type it is shifted in', e, unknown=T.tainted(e.amount) or t is None)


def size_of(I, st, cont):
    return I.to_lin(I.read(st, cont + (('s', 'size'),)))


def first_size(cont):
    return T.atom(('init', cont + (('s', 'size'),)), nonneg=True)


def test(ctx, P, f, name, what, down, G, rec):
    rule = 'membership follows the bit of the element'
    for I, st, v, R in go(ctx, P, f, name):
        cont = (('o', arg(I, f, 0)),) + down
        pos = T.atom(('init', (('o', arg(I, f, 1)),)), nonneg=True)
        shifts(R, P, st)
        pl = place(I, st, cont, pos, G, name)
        if pl is None:
            R.bad(rule, 'the answer does not depend on the element')
            continue
        bi, bp, k = pl
        out = st.facts.le(sub(size_of(I, st, cont), bi))       # size <= block
        B = Bits(I, st, cont + (('i', bi),), bp, out is True)
        known = set()
        for w, p, b in st.path:
            t = B.truth(p)
            if t in ('old', 'new'):
                known.add(t if b else b_not(t))
        r = B.truth(v) if isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'B', 'and', 'or') else '?'
        if r == '?' and is_lin(v):
            r = {('old', '0'): 'old', ('new', '0'): 'new'}.get(B.of(v), '?')
        if r == '?':
            ctx.undecide(rule, f'{name}: the answer is not understood')
        elif out is True:
            R.check(rule, r in ('0', 'old'), 'an element behind the last block is reported as a member')
        elif r == 'old' or r == '1' and 'old' in known or r == '0' and 'new' in known:
            ctx.ob(rule)
        else:
            R.bad(rule, 'the answer is not the bit of the element')


def change(ctx, P, f, name, what, down, G, rec):
    """set / unset one element: every other one stays as it is"""
    on = what in ('set', 'insert')
    rule = 'insertion adds its element and no other' if on else 'erasure removes its element and no other'
    for I, st, v, R in go(ctx, P, f, name):
        root = (('o', arg(I, f, 0)),)
        cont = root + down
        p1 = (('o', arg(I, f, 1)),)
        if rec.endswith('meta_set') and on:
            rid = next((x['n'] for r in P.recs_by_bare.get('co_ecs::component_meta', []) for x in r.get('fields') or ()
                        if P.ty(x['t']).get('k') == 'int'), 'id')
            p1 += (('f', rid),)
        pos = T.atom(('init', p1), nonneg=True)
        shifts(R, P, st)
        pl = place(I, st, cont, pos, G, name)
        if pl is None:
            R.bad(rule, 'nothing is changed')
            continue
        bi, bp, k = pl
        s0, s1 = first_size(cont), size_of(I, st, cont)
        grown = st.facts.le(sub(s0, bi)) is True
        blk = cont + (('i', bi),)
        B = Bits(I, st, blk, bp, grown)
        inside = st.facts.le(add(sub(bi, s1), ONE))            # block < size at the end
        known = set()
        for w, p, b in st.path:
            t = B.truth(p)
            if t in ('old', 'new'):
                known.add(t if b else b_not(t))
        stores = [e for e in S.flat(st.ev) if e.kind == 'store' and e.loc[:-1] == cont]
        top = [e for e in S.strip_loop_copies(st.ev) if e.kind == 'store' and e.loc[:-1] == cont]
        if len(stores) != len(top):
            raise Und('blocks are written in a loop')
        mine = [e for e in top if e.loc == blk or st.facts.eq(sub(e.loc[-1][1], bi)) is True]
        val = I.to_lin(mine[-1].val) if mine else T.atom(('init', blk), nonneg=True)
        a, o = B.of(val)
        if T.tainted(val) or a == '?' or o == '?':
            ctx.undecide(rule, f'{name}: the block is not understood')
        else:
            if a == 'old' and 'old' in known:
                a = '1'
            if a == 'old' and 'new' in known:
                a = '0'
            zero_block = grown and is_const(val)
            if on:
                R.check(rule, inside, 'the block of the element does not exist afterwards', unknown=T.tainted(s1))
                R.check(rule, a == '1', 'the element is not in the set afterwards')
                R.check(rule, o == 'old' or grown and o == '0', 'other elements are changed')
            else:
                R.check(rule, a == '0' or zero_block or not mine and grown, 'the element is still in the set afterwards')
                R.check(rule, o == 'old' or grown and o == '0', 'other elements are changed')
        # other blocks
        for e in top:
            if e in mine:
                continue
            x = I.to_lin(e.val)
            if T.tainted(x) or T.tainted(e.loc[-1][1]):
                ctx.undecide(rule, f'{name}: another block is not understood')
            elif x != T.atom(('init', e.loc), nonneg=True):
                R.bad(rule, 'another block is changed', e)
        dropped(ctx, R, I, st, cont, B, rule)
        canonical(I, st, cont, R, G, B, s1, bi, name)
        if rec.endswith('meta_set'):
            metas(ctx, R, P, I, st, root, p1, pos, on, known, out=grown)


def is_zero(I, F, st, loc):
    x = I.to_lin(I.read(st, loc))
    return F.eq(x)


def dropped(ctx, R, I, st, cont, B, rule):
    """blocks that are given up hold no element"""
    evs = list(S.strip_loop_copies(st.ev))
    msg = 'blocks that still hold elements are dropped'
    for n, e in enumerate(evs):
        if e.kind == 'pop' and e.cont == cont:
            R.check(rule, zero_at(I, st, st.facts, cont, e.index), msg, e, unknown=True)
        elif e.kind == 'resize' and e.cont == cont:
            n1, n0 = e.n, e.old
            if st.facts.le(sub(n0, n1)) is True:
                ctx.ob(rule)
                continue
            d = walked_down(I, st, cont, evs[:n], n1, n0)
            R.check(rule, d, msg, e, unknown=d is None)
        elif e.kind == 'clear' and e.cont == cont:
            R.bad(rule, 'all elements are dropped', e)
        elif e.kind in ('loop', 'loopsum'):
            for tr, fin in zip(e.d.get('traces') or (), e.d.get('ends') or ()):
                for x in S.flat(tr[0]):
                    if x.kind == 'pop' and x.cont == cont:
                        R.check(rule, zero_at(I, fin, fin.facts, cont, x.index), msg, x, unknown=True)
                    elif x.kind == 'resize' and x.cont == cont:
                        R.check(rule, None, msg, x, unknown=True)


def zero_at(I, st, F, cont, idx):
    """the path has found this block to be zero"""
    loc = cont + (('i', idx),)
    d = None
    w = [e for e in S.flat(st.ev) if e.kind == 'store' and e.loc[:-1] == cont and F.eq(sub(e.loc[-1][1], idx)) is True]
    d = F.eq(I.to_lin(w[-1].val)) if w else F.eq(I.to_lin(I.read(st, loc)))
    if d is True:
        return True
    for w, p, b in st.path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]) and (p[1] == '!=' and not b or p[1] == '==' and b):
            for i, k in p[-1][2]:
                t = T.info(i)
                if t[0] == 'init' and t[1][:len(cont)] == cont and len(p[-1][2]) == 1 and p[-1][1] == 0 and \
                        t[1][-1][0] == 'i' and F.eq(sub(t[1][-1][1], idx)) is True:
                    return True
    return False if d is False else None


def walked_down(I, st, cont, evs, n1, n0):
    """blocks n1 .. n0-1 are zero: found by a loop that walks down from the last one, or tested one by one"""
    if st.facts.eq(sub(sub(n0, n1), ONE)) is True:
        return zero_at(I, st, st.facts, cont, n1)
    loops = [e for e in evs if e.kind == 'loop']
    for e in reversed(loops):
        ok = True
        starts, last = set(), None
        if not is_lin(e.d.get('n')):
            continue
        it = T.single_id(e.n)
        for tr, fin in zip(e.traces, e.ends):
            h = next((x for x in tr[0] if x.kind == 'index' and x.cont == cont), None)
            if h is None:
                ok = False
                break
            k = [c for i, c in h.index[2] if i == it]
            if k != [-1] or not tested_zero(cont, h.index, tr[2]):
                ok = False
                break
            starts.add(add(h.index, e.n))
            last = h.index
        if not ok or len(starts) != 1:
            continue
        top = starts.pop()
        F = st.facts
        # the blocks visited are top, top-1, ..., last: all of them zero
        if F.le(sub(sub(n0, ONE), top)) is True and (F.eq(sub(n1, last)) is True or F.le(sub(last, n1)) is True or reach(F, n1, top, evs, e, cont, I, st)):
            return True
        if F.eq(sub(n0, ONE)) is True:
            return True
    if not loops:
        return None if T.tainted(n1) or T.tainted(n0) else False
    return False if any(skips(e, cont) for e in loops) else None


def skips(e, cont):
    """the loop looks at blocks, but does not go from one to the one before it"""
    for tr, fin in zip(e.traces, e.ends):
        for x in tr[0]:
            if x.kind != 'index' or x.cont != cont or len(x.index[2]) != 1 or x.index[2][0][1] != 1:
                continue
            i = x.index[2][0][0]
            if T.info(i)[0] != 'hv':
                continue
            for l, v in e.start.mem.items():
                if l in fin.mem and scal(v) == ('L', 0, ((i, 1),)):
                    n = scal(fin.mem[l])
                    if is_lin(n) and not [1 for j, _ in deep(n) if T.info(j)[0] in ('unk', 'opaque')] and n != scal(v) and \
                            tr[1].le(sub(sub(x.index, ONE), n)) is not True:
                        return True
    return False


def tested_zero(cont, idx, path):
    for w, p, b in path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]) and (p[1] == '!=' and not b or p[1] == '==' and b) and p[-1][1] == 0:
            ts = [T.info(i) for i, _ in p[-1][2]]
            if len(ts) == 1:
                if ts[0][0] == 'init' and ts[0][1] == cont + (('i', idx),):
                    return True
                if any(x[0] == 'init' and x[1][:len(cont)] == cont for x in [T.info(i) for i, _ in deep(p[-1])]):
                    return True            # the block as written before
    return False


def canonical(I, st, cont, R, G, B, s1, bi, name):
    """is the last block not zero, or the only one?"""
    F = st.facts
    if F.le(sub(s1, ONE)) is True:
        G['canonical'].append((name, True, R))
        return
    last = sub(s1, ONE)
    unchanged = F.eq(sub(s1, first_size(cont))) is True
    if unchanged and not any(e.kind == 'store' and e.loc[:-1] == cont for e in S.flat(st.ev)):
        G['canonical'].append((name, True, R))
        return
    v = I.to_lin(I.read(st, cont + (('i', last),)))
    d = F.eq(v)
    ok = d is False
    if not ok:
        for w, p, b in st.path:
            if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]) and (p[1] == '!=' and b or p[1] == '==' and not b) and \
                    F.eq(sub(p[-1], v)) is True:
                ok = True
    at_bi = F.eq(sub(last, bi))
    if not ok and at_bi is True:
        ok = B.of(v)[0] == '1'
    if not ok and unchanged:
        # the last block is the one addressed, with more bits than before, or another one
        w = B.of(I.to_lin(I.read(st, cont + (('i', bi),))))
        ok = w[0] in ('1', 'old') and w[1] == 'old'
    G['canonical'].append((name, True if ok else None if T.tainted(v) else False, R))


def metas(ctx, R, P, I, st, root, p1, pos, on, known, out):
    rule = 'the list of metadata follows the members'
    vec = None
    for r in P.recs_by_bare.get('co_ecs::component_meta_set', []):
        for x in r.get('fields') or ():
            t = P.rec_of(x['t'])
            if t is not None and t['bare'] == 'std::vector':
                vec = root + (('f', x['n']),)
    if vec is None:
        raise Und('list of metadata not found')
    evs = [e for e in S.flat(st.ev) if e.d.get('cont') == vec]
    push = [e for e in evs if e.kind == 'push']
    rem = [e for e in evs if e.kind in ('erase_if', 'pop', 'erase', 'clear', 'resize')]
    was = 'old' in known and not out
    if on:
        if was:
            R.check(rule, not push, 'a member is listed twice', push[0] if push else None)
        else:
            if len(push) != 1:
                R.bad(rule, 'an inserted element is not listed' if not push else 'an inserted element is listed twice', push[0] if push else None)
            else:
                e = push[0]
                a = (e.d.get('args') or [None])[0]
                same = isinstance(a, LV) and a.loc == p1[:-1]
                R.check(rule, True if same else None, 'other metadata is listed', e, unknown=True)
        R.check(rule, not rem, 'metadata of a member is dropped', rem[0] if rem else None)
    else:
        R.check(rule, not push, 'an erased element is listed', push[0] if push else None)
        if not was:
            R.check(rule, not rem or all(e.kind == 'erase_if' for e in rem), 'metadata of a member is dropped', rem[0] if rem else None)
            return
        if not rem:
            if any(e.d.get('cont') == vec for e in S.flat(st.ev)) or any(vec in x[:1] for x in ()):
                ctx.undecide(rule, 'the way metadata is removed is not understood')
            else:
                R.bad(rule, 'an erased element stays listed')
            return
        for e in rem:
            if e.kind != 'erase_if':
                ctx.undecide(rule, 'the way metadata is removed is not understood')
                continue
            ok = pred_is(e.pred, e.elem, pos)
            R.check(rule, ok, 'other metadata than that of the erased element is dropped', e, unknown=ok is None)


def pred_is(p, elem, pos):
    """the predicate holds exactly for the entry with this id"""
    if not (isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1])):
        return None
    x = p[-1]
    ids = [i for i, _ in x[2] if T.info(i)[0] == 'init' and T.info(i)[1][:1] == elem[:1]]
    if len(ids) != 1:
        return None
    want = sub(pos, ('L', 0, ((ids[0], 1),)))
    if x == want or x == T.scale(want, -1):
        return True if p[1] == '==' else False
    return None if T.tainted(x) else False


def clear(ctx, P, f, name, what, down, G, rec):
    rule = 'an empty set has no members'
    for I, st, v, R in go(ctx, P, f, name):
        cont = (('o', arg(I, f, 0)),) + down
        s1 = size_of(I, st, cont)
        if is_const(s1):
            for j in range(s1[1]):
                x = I.to_lin(I.read(st, cont + (('i', const(j)),)))
                d = st.facts.eq(x)
                if d is not True and T.single_atom(x) and T.single_atom(x)[0] == 'init' and what == 'create' and \
                        any(e.kind == 'resize' and e.cont == cont and e.old == const(0) for e in st.ev):
                    d = True
                R.check(rule, d, 'members are left', unknown=T.tainted(x))
            G['canonical'].append((name, s1[1] <= 1, R))
        else:
            ctx.undecide(rule, f'{name}: the blocks left are not known')


def block_of(i, conts):
    t = T.info(i)
    if t[0] == 'init' and t[1][:-1] in conts and t[1][-1][0] == 'i':
        return conts.index(t[1][:-1]), t[1][-1][1]
    return None


def differs(p, b, F, conts):
    """what a path condition says about the two sets: 'blocks' (a block differs), 'sizes' (only the number of blocks), None"""
    if not (isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1])):
        return None
    ne = p[1] == '!=' and b or p[1] == '==' and not b
    x = p[-1]
    if len(x[2]) == 1 and T.info(x[2][0][0])[0] == 'ranges_equal' and x[1] == 0:
        return 'content' if not ne else None
    if not ne:
        return None
    bl = [(block_of(i, conts), k) for i, k in x[2]]
    if bl and all(k[0] is not None for k in bl) and x[1] == 0:
        if len(bl) == 2 and {bl[0][0][0], bl[1][0][0]} == {0, 1} and bl[0][1] == -bl[1][1] and F.eq(sub(bl[0][0][1], bl[1][0][1])) is True:
            return 'blocks'
        if len(bl) == 1:
            n, idx = bl[0][0]
            other = first_size(conts[1 - n])
            if F.le(sub(other, idx)) is True:
                return 'blocks'
            return 'one'
    s = [first_size(c) for c in conts]
    d = sub(s[0], s[1])
    if x == d or x == T.scale(d, -1):
        return 'sizes'
    return None


def equal(ctx, P, f, name, what, down, G, rec):
    rule = 'equality compares the members'
    for I, st, v, R in go(ctx, P, f, name):
        conts = [(('o', arg(I, f, n)),) + down for n in (0, 1)]
        F = st.facts.copy()
        for w, p, b in st.path:
            for i, _ in pdeep(p):
                t = T.info(i)
                if t[0] in ('max', 'min'):
                    m = ('L', 0, ((i, 1),))
                    for y in t[1:]:
                        if is_lin(y):
                            F.assume_le(sub(y, m) if t[0] == 'max' else sub(m, y))
        said = [differs(p, b, F, conts) for w, p, b in st.path]
        exprs = []
        r = v
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            # the answer is a comparison itself: both outcomes
            outs = [(True, [(None, v, True)]), (False, [(None, v, False)])]
        elif v in (('B', True), ('B', False)):
            outs = [(v[1], [])]
        else:
            ctx.undecide(rule, f'{name}: the answer is not understood')
            continue
        for res, extra in outs:
            sd = list(said)
            F1 = F.copy()
            for w, p, b in extra:
                d = differs(p, b, F, conts)
                if d is None and isinstance(p, tuple) and is_lin(p[-1]):
                    pass
                sd.append(d)
                if is_lin(p[-1]):
                    eq = (p[1] == '==') == b
                    if p[1] in ('==', '!='):
                        (F1.assume_eq if eq else F1.assume_ne)(p[-1])
            if not res:
                if 'blocks' in sd or 'content' in sd and False:
                    ctx.ob(rule)
                elif 'sizes' in sd or content(sd, extra, st, True):
                    G['eq_pad'].append((name, False, R))
                    ctx.ob(rule)
                elif any(x == 'one' for x in sd):
                    R.bad(rule, 'sets are told apart by a block the other set may have as well')
                else:
                    unknown = any(T.tainted(p[-1]) for w, p, b in st.path + extra if isinstance(p, tuple) and p and is_lin(p[-1]))
                    R.check(rule, None if unknown else False, 'two sets are told apart although no block was found to differ', unknown=unknown)
            else:
                if content_equal(st, extra):
                    ctx.ob(rule)
                    continue
                d = compared(I, st, F1, conts)
                R.check(rule, d, 'two sets are equal although not all blocks were compared', unknown=d is None)
                ctx.saw('comparisons', name)
    G['eq_pad'].append((name, True, None))


def content(sd, extra, st, ne):
    """a difference found by comparing the vectors as a whole"""
    for w, p, b in list(st.path) + extra:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]) and p[-1][1] == 0 and len(p[-1][2]) == 1 and \
                T.info(p[-1][2][0][0])[0] == 'ranges_equal' and (p[1] == '!=') != b:
            return True
    return False


def content_equal(st, extra):
    for w, p, b in list(st.path) + extra:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]) and p[-1][1] == 0 and len(p[-1][2]) == 1 and \
                T.info(p[-1][2][0][0])[0] == 'ranges_equal' and (p[1] == '!=') == b:
            return True
    return False


def compared(I, st, F, conts):
    """every block of both sets was found equal on this path (missing blocks count as zero)"""
    pos = const(0)
    sizes = [first_size(c) for c in conts]

    def done():
        return all(F.le(sub(s, pos)) is True for s in sizes)
    if done():
        return True
    unknown = False
    for e in S.strip_loop_copies(st.ev):
        if e.kind not in ('loop', 'loopsum') or not is_lin(e.d.get('n')):
            continue
        it = T.single_id(e.n)
        starts = set()
        last = None
        for tr, fin in zip(e.traces, e.ends):
            G = tr[1].copy()
            for w, p, b in tr[2]:
                for i, _ in pdeep(p):
                    t = T.info(i)
                    if t[0] in ('max', 'min'):
                        m = ('L', 0, ((i, 1),))
                        for y in t[1:]:
                            if is_lin(y):
                                G.assume_le(sub(y, m) if t[0] == 'max' else sub(m, y))
            idx = [x.index for x in tr[0] if x.kind in ('index', 'iterate') and x.cont in conts]
            if any(x.kind == 'iterate' for x in tr[0]):
                unknown = True
            idx = [x for n, x in enumerate(idx) if x not in idx[:n]]
            if len(idx) > 1:
                return None
            ix = idx[0] if idx else None
            if ix is None:
                # neither set has this block, or nothing is compared
                base = add(e.n, const(0))
                if all(G.le(sub(s, base)) is True for s in sizes):
                    continue
                return None
            k = [c for i, c in ix[2] if i == it]
            if k != [1]:
                return None
            vals = []
            for n, c in enumerate(conts):
                if G.le(sub(sizes[n], ix)) is True:
                    vals.append(const(0))
                else:
                    vals.append(T.atom(('init', c + (('i', ix),)), nonneg=True))
            eq = G.eq(sub(vals[0], vals[1]))
            if eq is not True:
                return None if any(T.tainted(p[-1]) for w, p, b in tr[2] if isinstance(p, tuple) and p and is_lin(p[-1])) else False
            starts.add(sub(ix, e.n))
            last = ix
        if len(starts) != 1:
            return None
        s = starts.pop()
        if F.eq(sub(s, pos)) is not True:
            return None if not is_const(sub(s, pos)) else False
        pos = add(last, ONE)
        if done():
            return True
    if unknown:
        return None
    return None if any(T.tainted(p[-1]) for w, p, b in st.path if isinstance(p, tuple) and p and is_lin(p[-1])) else False


def put_zero(x, ids):
    """the term with the given atoms replaced by zero"""
    out = const(x[1])
    for i, k in x[2]:
        out = add(out, zero_atom(i, ids), k)
    return out


def zero_atom(i, ids):
    me = ('L', 0, ((i, 1),))
    if i in ids:
        return const(0)
    t = T.info(i)
    if t[0] in ('xor', 'ior', 'and', 'shl', 'shr', 'mod', 'div', 'mul'):
        a, b = put_zero(t[1], ids), put_zero(t[2], ids)
        z = const(0)
        if t[0] in ('xor', 'ior'):
            if a == z:
                return b
            if b == z:
                return a
        elif t[0] in ('and', 'mul'):
            if z in (a, b):
                return z
        elif a == z:
            return z
        elif b == z and t[0] in ('shl', 'shr'):
            return a
        if (a, b) == (t[1], t[2]):
            return me
        return T.atom((t[0], a, b), nonneg=i in T.NONNEG)
    return me


def hashed(ctx, P, f, name, what, down, G, rec):
    rule = 'the hash is a function of the members'
    pad = True
    why = None
    for I, st, v, R in go(ctx, P, f, name):
        cont = (('o', arg(I, f, 0)),) + down
        if not is_lin(v):
            raise Und('the hash is not understood')
        loops = [e for e in S.strip_loop_copies(st.ev) if e.kind in ('loop', 'loopsum')]
        for i, _ in deep(v):
            t = T.info(i)
            if t[0] == 'init' and t[1] == cont + (('s', 'size'),):
                pad, why = False, 'the number of blocks'
            elif t[0] == 'init' and t[1][:len(cont)] != cont or t[0] == 'addr':
                R.bad(rule, 'the hash depends on something that is not a member of the set')
            elif t[0] == 'unk' or t[0] == 'opaque':
                raise Und('the hash is not understood')
        if not loops:
            if v[2] and any(T.info(i)[0] == 'init' for i, _ in deep(v)):
                pad = False
            ctx.ob(rule)
            continue
        for e in loops:
            for tr, fin in zip(e.traces, e.ends):
                hs = [x for x in tr[0] if x.kind in ('iterate', 'index') and x.cont == cont]
                if not hs:
                    raise Und('an iteration is not understood')
                idx = hs[0].index
                if hs[0].kind == 'iterate' and S.covers(hs[0].first, hs[0].n, cont) is not True:
                    pad, why = False, 'only some blocks are hashed'
                blk = T.single_id(T.atom(('init', cont + (('i', idx),)), nonneg=True))
                carried = [l for l in e.start.mem if same_var(e.start.mem[l])]
                for l in carried:
                    h0 = scal(e.start.mem[l])
                    h1 = fin.mem.get(l)
                    h1 = scal(h1) if isinstance(h1, tuple) and h1 and h1[0] == 'base' else h1
                    if not is_lin(h1) or h1 == h0 or T.single_id(h0) not in dict(deep(v)) and not any(i == T.single_id(h0) for i, _ in deep(h1)):
                        continue
                    if l[0][0] == 'o' and h1 == add(h0, ONE):
                        continue           # a counter
                    for i, _ in deep(h1):
                        t = T.info(i)
                        if t[0] == 'init' and (t[1][:len(cont)] != cont or t[1][-1] != ('i', idx) and t[1][-1][0] == 'i') and i != T.single_id(h0):
                            if t[1][-1][0] == 's':
                                pad, why = False, 'the number of blocks'
                            else:
                                R.bad(rule, 'the hash depends on something that is not a member of the set', e)
                        if t[0] == 'opaque' or t[0] == 'unk':
                            raise Und('the hash is not understood')
                    if put_zero(h1, {blk}) != h0:
                        pad, why = False, 'blocks that are zero change the hash'
            ctx.ob(rule)
    G['hash_pad'].append((name, pad, None))


def same_var(v):
    return isinstance(v, tuple) and v and v[0] == 'base' and is_lin(scal(v)) and T.single_id(scal(v)) is not None and \
        T.info(T.single_id(scal(v)))[0] in ('hv', 'iter')


def scal(v):
    return base_scalar(v[1]) if isinstance(v, tuple) and v and v[0] == 'base' else v


def finish(ctx, G):
    rule = 'equal sets have equal hashes'
    if len(G['width']) == 1:
        ctx.ob('all operations find the bit of an element in the same place')
    elif len(G['width']) > 1:
        ctx.fail('all operations find the bit of an element in the same place', HPP, f'blocks of {sorted(G["width"])} bits are used by different operations', [],
                 key='width')
    pad = all(d for n, d, R in G['eq_pad']) and all(d for n, d, R in G['hash_pad'])
    if pad:
        ctx.ob(rule)
        return
    open_ = [n for n, d, R in G['canonical'] if d is None]
    for n, d, R in G['canonical']:
        if d is True:
            ctx.ob(rule)
    bad = [(n, R) for n, d, R in G['canonical'] if d is False]
    if bad:
        which = 'equality' if not all(d for n, d, R in G['eq_pad']) else 'the hash'
        for n, R in bad[:1]:
            R.bad(rule, f'blocks that are zero may be left at the end, and {which} takes them into account')
    elif open_:
        ctx.undecide(rule, f'{open_[0]}: zero blocks at the end cannot be excluded')
