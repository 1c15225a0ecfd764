"""C17: the index and the dense storage of the sparse containers stay in step."""
import itertools
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, add, const, scale, is_lin, is_const
from sa.interp import Interp, Analysis, LV, Rec, St, base_scalar
from sa.world import Anchor

ONE, ZERO = const(1), const(0)
LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Inductive invariant over an arbitrary map: every dense entry j has its key inside the index, and the index refers from that key to j. '
               'Every operation is interpreted from an arbitrary map with an arbitrary key; on every exit the invariant is re-established for an '
               'arbitrary entry (case split over the entries written, congruence over index and dense contents), the keys present are exactly the old '
               'ones plus or minus the one named, values travel with their keys, and lookups answer presence. Auxiliary size fields are matched to the '
               'two vectors by searching for an assignment that is inductive.')
HPP = 'include/co_ecs/detail/sparse_table.hpp'


class Und(Exception):
    pass


class Shape:
    """which fields are the dense storage and the index, and what the integer fields count"""
    def __init__(self, P, t):
        rec = P.rec_of(t)
        self.ints = []
        self.dense = self.sparse = None
        for x in rec['fields']:
            r = P.rec_of(x['t'])
            if r is not None and r['bare'] == 'std::vector':
                el = P.rec_of(r['targs'][0]['t']) if isinstance(r.get('targs', [{}])[0], dict) and 't' in r['targs'][0] else None
                if el is None:
                    el = self.elem(P, r)
                if el is not None and el['bare'] == 'std::pair':
                    self.dense = x['n']
                else:
                    self.sparse = x['n']
            elif P.ty(x['t']).get('k') == 'int':
                self.ints.append(x['n'])
        if self.dense is None or self.sparse is None:
            raise Und('dense storage and index not found')

    @staticmethod
    def elem(P, r):
        from sa import models
        class X:
            pass
        x = X()
        x.P = P
        try:
            t = models.elem_type(x, r)
        except Exception:
            return None
        return P.rec_of(t) if t is not None else None


class Map:
    """the container at a location: where its parts are, and what is assumed of it"""
    def __init__(self, shape, root, roles):
        self.shape, self.root, self.roles = shape, root, roles
        self.D = root + (('f', shape.dense),)
        self.X = root + (('f', shape.sparse),)
        self.size = T.atom(('init', self.D + (('s', 'size'),)), nonneg=True)
        self.xsize = T.atom(('init', self.X + (('s', 'size'),)), nonneg=True)

    def field(self, n):
        return self.root + (('f', n),)

    def key(self, t):
        return T.atom(('init', self.D + (('i', t), ('f', 'first'))), nonneg=True)

    def idx(self, k):
        return T.atom(('init', self.X + (('i', k),)), nonneg=True)

    def bound(self):
        """keys below this are inside the index"""
        for n, r in self.roles.items():
            if r == 'index':
                return T.atom(('init', self.field(n)), nonneg=True)
        return self.xsize

    def assume(self, F, bits):
        F.assume_le(scale(self.size, -1))
        F.assume_le(scale(self.xsize, -1))
        F.assume_le(sub(self.size, const(min(1 << 60, (1 << bits) - 1))))
        F.assume_le(sub(self.xsize, const(1 << 60)))
        for n, r in self.roles.items():
            v = T.atom(('init', self.field(n)), nonneg=True)
            F.assume_eq(sub(v, self.size)) if r == 'entries' else F.assume_le(sub(v, self.xsize))


def atoms_of(F, more=()):
    out = set()

    def walk(x):
        if not is_lin(x):
            return
        for i, _ in x[2]:
            if i not in out:
                out.add(i)
                for y in T.info(i)[1:]:
                    if is_lin(y):
                        walk(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and len(z) == 2 and is_lin(z[1]):
                                walk(z[1])
    for x in list(F.les) + list(F.nes) + list(F.eqs.values()) + list(more):
        walk(x)
    for i in F.eqs:
        out.add(i)
        walk(('L', 0, ((i, 1),)))
    return out


def close(F, m, more=()):
    """everything the invariant and congruence give for the entries and keys in sight"""
    seen_t = set()
    for _ in range(4):
        if F.dead:
            return
        D, X = [], []
        for i in atoms_of(F, more):
            t = T.info(i)
            if t[0] != 'init':
                continue
            l = t[1]
            if l[:len(m.D)] == m.D and len(l) == len(m.D) + 2 and l[-2][0] == 'i' and l[-1] == ('f', 'first'):
                D.append((l[-2][1], ('L', 0, ((i, 1),))))
            elif l[:-1] == m.X and l[-1][0] == 'i':
                X.append((l[-1][1], ('L', 0, ((i, 1),))))
        n0 = (len(F.eqs), len(F.les))
        for L in (D, X):
            for (a, x), (b, y) in itertools.combinations(L, 2):
                if F.eq(sub(a, b)) is True and F.eq(sub(x, y)) is not True:
                    F.assume_eq(sub(x, y))
                    if F.dead:
                        return
        for a, x in D:
            if a in seen_t or F.le(add(sub(a, m.size), ONE)) is not True or F.le(scale(a, -1)) is not True:
                continue
            seen_t.add(a)
            F.assume_le(add(sub(x, m.bound()), ONE))
            F.assume_eq(sub(m.idx(x), a))
            if F.dead:
                return
        # entries the index refers to
        for k, x in X:
            if F.le(add(sub(x, m.size), ONE)) is True and F.le(scale(x, -1)) is True and x not in seen_t:
                more = list(more) + [m.key(x)]
        if (len(F.eqs), len(F.les)) == n0 and _:
            break


class Path:
    def __init__(self, out, P, I, st, m, name):
        self.out, self.P, self.I, self.st, self.m, self.name = out, P, I, st, m, name

    def check(self, rule, d, msg, terms=(), unknown=False):
        if d is True:
            self.out.append(('ok', rule, None, None, None))
        elif d is None and (unknown or any(T.tainted(t) for t in terms if is_lin(t))):
            self.out.append(('und', rule, f'{self.name}: {msg}: cannot be excluded', None, None))
        else:
            self.out.append(('bad', rule, f'{self.name}: {msg}', S.path_of(self.st), f'{rule}|{self.name}|{msg}'))


def run(ctx):
    ctx.assumptions = ['keys below 2^60, and fewer entries than that and than keys of the type', 'no out-of-memory']
    P = ctx.program('sparse')
    for fam in ('map', 'smap', 'tmap'):
        f0 = P.driver(f'drv_{fam}_emplace')
        if f0 is None:
            continue
        try:
            t = P.strip_ref(f0['params'][0]['t'])
            shape = Shape(P, t)
        except (Und, Analysis, Anchor, StopIteration) as e:
            ctx.undecide('anchors', f'{fam}: {e}')
            continue
        best = None
        for roles in itertools.product(('entries', 'index'), repeat=len(shape.ints)):
            out = []
            saw = []
            run_all(ctx, P, fam, shape, dict(zip(shape.ints, roles)), out, saw)
            n = (sum(o[0] == 'bad' for o in out), sum(o[0] == 'und' for o in out))
            if best is None or n < best[0]:
                best = (n, out, saw)
            if n == (0, 0):
                break
        for k, w in best[2]:
            ctx.saw(k, w)
        for kind, rule, msg, path, key in best[1]:
            if kind == 'ok':
                ctx.ob(rule)
            elif kind == 'und':
                ctx.undecide(rule, msg)
            else:
                ctx.fail(rule, HPP, msg, path, key=key)


OPS = ('init', 'emplace', 'insert', 'index', 'erase', 'find', 'cfind', 'contains', 'at', 'cat', 'size', 'empty', 'clear', 'reserve',
       'reserve_dense', 'move', 'copy', 'move_assign', 'copy_assign')
ADD = ('emplace', 'insert', 'index')


def run_all(ctx, P, fam, shape, roles, out, saw):
    for op in OPS:
        f = P.driver(f'drv_{fam}_{op}')
        if f is None:
            continue
        name = f'{fam}::{op}'
        try:
            one(P, f, op, name, shape, roles, out, saw)
        except (Und, Analysis, Anchor) as e:
            out.append(('und', 'operation', f'{name}: {e}', None, None))


def one(P, f, op, name, shape, roles, out, saw):
    m = Map(shape, (('o', 'm'),), roles)
    st0 = St()
    bits = 64
    for p in f['params']:
        if p['n'] == 'key':
            bits = P.ty(p['t']).get('bits', 64)
    m.assume(st0.facts, bits)
    if op.endswith('_assign'):
        Map(shape, (('o', 'd'),), roles).assume(st0.facts, bits)
    for l in (('o', 'key'),), (('o', 'v'), ('f', 'first')):
        st0.facts.assume_le(sub(T.atom(('init', l), nonneg=True), const(1 << 60)))
    I = Interp(P, abstract=set(), user_throw=name.startswith('tmap'))
    I.stores = I.wraps = I.keep_ends = True
    res = I.run(f, st=st0)
    for fid in I.inlined:
        saw.append(('functions', P.funcs[fid]['q']))
    key = None
    if any(p['n'] == 'key' for p in f['params']):
        key = T.atom(('init', (('o', 'key'),)), nonneg=True)
    elif op == 'insert':
        key = T.atom(('init', (('o', 'v'), ('f', 'first'))), nonneg=True)
    for n, (st, r) in enumerate(res):
        F = st.facts
        m.assume(F, bits)
        close(F, m, [key] if key is not None else ())
        if F.dead:
            continue
        saw.append(('paths', f'{name} path {n}'))
        R = Path(out, P, I, st, m, name)
        accesses(R)
        if op == 'init':
            m1 = Map(shape, (('o', 'mem'),), roles)
            fresh(R, m1, True)
            continue
        if op in ('move', 'copy', 'move_assign', 'copy_assign'):
            m1 = Map(shape, (('o', 'd' if op.endswith('assign') else 'mem'),), roles)
            end(R, m1, op)
            rule = 'copies and moves carry all entries'
            s1 = I.to_lin(I.read(st, m1.D + (('s', 'size'),)))
            R.check(rule, F.eq(sub(s1, m.size)), 'not all entries arrive', (s1,))
            every_entry(R, m1, rule, lambda F2, k, v, t: True if t is not None and k == m.key(t) else F2.eq(sub(k, m.key(t))) if t is not None else False,
                        'an entry is not the one of the source')
            end(R, m, op)
            continue
        end(R, m, op)
        if op == 'clear':
            R.check('keys present are those inserted and not erased', F.eq(I.to_lin(I.read(st, m.D + (('s', 'size'),)))), 'entries are left')
            continue
        change(R, m, op, key, r)
        answer(R, m, op, key, r)


def accesses(R):
    """no lookup outside the two vectors"""
    for e in S.flat(R.st.ev):
        if e.kind != 'index' or e.cont not in (R.m.D, R.m.X):
            continue
        # sizes at the time of the access
        close(R.st.facts, R.m, [e.index])
        d = R.st.facts.le(add(sub(e.index, R.I.to_lin(e.size)), ONE))
        R.check('lookups stay inside the vectors', d, f'an element behind the end of {e.cont[-1][1]} is used', (e.index, R.I.to_lin(e.size)))


def fresh(R, m1, empty):
    I, st = R.I, R.st
    for n, r in m1.roles.items():
        R.check('counters match the vectors', st.facts.eq(I.to_lin(I.read(st, m1.field(n)))), f'{n} does not start at zero')


def source(v):
    """the entry a value comes from"""
    if is_lin(v):
        t = T.single_atom(v)
        l = t[1] if t is not None and t[0] == 'init' else None
    elif isinstance(v, Rec) and v.base and v.base[0] == 'init' and not v.ov:
        l = v.base[1]
    elif isinstance(v, tuple) and v and v[0] == 'init':
        l = v[1]
    else:
        return None
    return l


def content(R, st, m1, j):
    """(key, where the value comes from, index of the original entry or None)"""
    I = R.I
    k = I.to_lin(I.read(st, m1.D + (('i', j), ('f', 'first'))))
    loc = m1.D + (('i', j), ('f', 'second'))
    b = st.mem.get(loc)
    if b is None:
        b = I.base_at(st, loc)
        v = b
    else:
        v = b[1] if isinstance(b, tuple) and b and b[0] == 'base' else b
    l = source(v)
    t = None
    if l is not None and l[:len(R.m.D)] == R.m.D and l[-1] == ('f', 'second') and l[-2][0] == 'i':
        t = l[-2][1]
    return k, v, t


def entries(R, m1, lo=ZERO):
    """an arbitrary entry at the end, split by what was written: [(st, index)]"""
    I = R.I
    st = R.st.copy()
    s1 = I.to_lin(I.read(st, m1.D + (('s', 'size'),)))
    j = T.atom(('any', 'entry', T.fresh_n()), nonneg=True)
    st.facts.assume_le(add(sub(j, s1), ONE))
    if st.facts.dead:
        return
    for s, i in I.resolve_index(st, m1.D, j):
        if not s.facts.dead:
            yield s, j, i


def every_entry(R, m1, rule, ok, msg):
    for s, j, i in entries(R, m1):
        k, v, t = content(R, s, m1, i)
        close(s.facts, R.m, [k, j])
        if s.facts.dead:
            continue
        R.check(rule, ok(s.facts, k, v, t), msg, (k,), unknown=t is None and not is_const(k))


def end(R, m1, op):
    rule = 'index and entries refer to each other'
    I = R.I
    st = R.st
    F = st.facts
    s1, x1 = I.to_lin(I.read(st, m1.D + (('s', 'size'),))), I.to_lin(I.read(st, m1.X + (('s', 'size'),)))
    bound = x1
    for n, r in m1.roles.items():
        v = I.to_lin(I.read(st, m1.field(n)))
        if r == 'entries':
            R.check('counters match the vectors', F.eq(sub(v, s1)), f'{n} is not the number of entries', (v, s1))
        else:
            R.check('counters match the vectors', F.le(sub(v, x1)), f'{n} is larger than the index', (v, x1))
            bound = v
    for s, j, i in entries(R, m1):
        k, v, t = content(R, s, m1, i)
        for s2, ki in I.resolve_index(s.copy(), m1.X, k):
            x = I.to_lin(I.read(s2, m1.X + (('i', ki),)))
            close(s2.facts, R.m, [k, j, x, ki] + [R.m.key(T.atom(('init', R.m.X + (('i', y),)), nonneg=True)) for y in ()])
            if s2.facts.dead:
                continue
            R.check(rule, s2.facts.le(add(sub(k, bound), ONE)), 'the key of an entry is outside the index', (k, bound))
            R.check(rule, s2.facts.eq(sub(x, j)), 'the index does not refer from the key of an entry to that entry', (x, k))


def change(R, m, op, key, r):
    """the keys present afterwards"""
    rule = 'keys present are those inserted and not erased'
    I, st = R.I, R.st
    val = 'values stay with their keys'
    thrown = r[0] == 'throw'
    # nothing appears
    for s, j, i in entries(R, m):
        k, v, t = content(R, s, m, i)
        close(s.facts, m, [k, j] + ([key] if key is not None else []))
        if s.facts.dead:
            continue
        F = s.facts
        old = old_entry(k, m)
        if old is not None and F.le(add(sub(old, m.size), ONE)) is True:
            if op == 'erase':
                G = F.copy()
                G.assume_eq(sub(k, key))
                close(G, m, [k, key, j])
                R.check(rule, True if G.dead else False if F.eq(sub(k, key)) is not None else None, 'the erased key is still present', (k,), unknown=True)
            else:
                R.check(rule, True, '')
            R.check(val, True if t is not None and F.eq(sub(t, old)) is True else False if t is not None else None, 'an entry has the value of another key', (),
                    unknown=t is None)
        elif op in ADD and F.eq(sub(k, key)) is True:
            R.check(rule, True, '')
            R.check(val, t is None, 'a new key has the value of another one')
        else:
            R.check(rule, None if T.tainted(k) else False, 'a key appears that was not inserted', (k,))
    # nothing disappears
    base = st.copy()
    j = T.atom(('any', 'old entry', T.fresh_n()), nonneg=True)
    base.facts.assume_le(add(sub(j, m.size), ONE))
    k = m.key(j)
    if op == 'erase':
        base.facts.assume_ne(sub(k, key))
    close(base.facts, m, [k, j] + ([key] if key is not None else []))
    if not base.facts.dead:
        s1 = I.to_lin(I.read(base, m.D + (('s', 'size'),)))
        written = written_entries(st, m)
        places = [j] + written
        R.check(rule, survives(R, m, base, j, k, places, s1, 6), 'an entry that was not named disappears')
    if op in ADD and not thrown:
        # the key is present afterwards
        s1 = I.to_lin(I.read(st, m.D + (('s', 'size'),)))
        F = st.facts
        ok = False
        cands = [I.to_lin(I.read(st, m.X + (('i', key),)))] + written_entries(st, m)
        for c in cands:
            if F.le(add(sub(c, s1), ONE)) is True:
                good = True
                for s3, ci in I.resolve_index(st.copy(), m.D, c):
                    kk = content(R, s3, m, ci)[0]
                    close(s3.facts, m, [kk, key, c])
                    if not s3.facts.dead and s3.facts.eq(sub(kk, key)) is not True:
                        good = False
                ok = ok or good
        R.check(rule, ok, 'the inserted key is not present')


def survives(R, m, s, j, k, places, s1, depth):
    """some place holds key k at the end, in every case"""
    close(s.facts, m, [k, j] + places)
    if s.facts.dead:
        return True
    F = s.facts
    for c in places:
        if F.le(add(sub(c, s1), ONE)) is not True:
            continue
        for s3, ci in R.I.resolve_index(s.copy(), m.D, c):
            kk = content(R, s3, m, ci)[0]
            close(s3.facts, m, [k, j, c, kk])
            if not s3.facts.dead and s3.facts.eq(sub(kk, k)) is not True:
                break
        else:
            return True
    if depth == 0:
        return False
    last = sub(m.size, ONE)
    for x, y in [(j, c) for c in places[1:] + [last]] + list(itertools.combinations(places[1:] + [last], 2)):
        if F.eq(sub(x, y)) is None:
            a, b = s.copy(), s.copy()
            a.facts.assume_eq(sub(x, y))
            b.facts.assume_ne(sub(x, y))
            return all(survives(R, m, z, j, k, places, s1, depth - 1) for z in (a, b))
    for c in places:
        x = add(sub(c, s1), ONE)
        if F.le(x) is None:
            a, b = s.copy(), s.copy()
            a.facts.assume_le(x)
            b.facts.assume_le(add(scale(x, -1), ONE))
            return all(survives(R, m, z, j, k, places, s1, depth - 1) for z in (a, b))
    return False


def old_entry(k, m):
    t = T.single_atom(k)
    if t is not None and t[0] == 'init' and t[1][:len(m.D)] == m.D and t[1][-1] == ('f', 'first') and t[1][-2][0] == 'i':
        return t[1][-2][1]
    return None


def written_entries(st, m):
    out = []
    for l in st.mem:
        if l[:len(m.D)] == m.D and len(l) > len(m.D) and l[len(m.D)][0] == 'i' and l[len(m.D)][1] not in out:
            out.append(l[len(m.D)][1])
    return out


def witness(F, m, key):
    """an entry that has the key"""
    for i in atoms_of(F):
        t = T.info(i)
        if t[0] == 'init':
            o = old_entry(('L', 0, ((i, 1),)), m)
            if o is not None and F.le(add(sub(o, m.size), ONE)) is True and F.eq(sub(('L', 0, ((i, 1),)), key)) is True:
                return o
    return None


def absent(R, m, key):
    F = R.st.facts.copy()
    j = T.atom(('any', 'entry', T.fresh_n()), nonneg=True)
    F.assume_le(add(sub(j, m.size), ONE))
    F.assume_eq(sub(m.key(j), key))
    close(F, m, [m.key(j), j, key])
    return F.dead


def answer(R, m, op, key, r):
    rule = 'lookups answer whether the key is present'
    I, st = R.I, R.st
    how, v = r
    if op in ('size', 'empty'):
        if op == 'size':
            R.check(rule, st.facts.eq(sub(I.to_lin(v), m.size)), 'the size is not the number of entries', (I.to_lin(v),))
        else:
            for s, b in I.truth(st.copy(), v):
                d = s.facts.eq(m.size)
                R.check(rule, d is b if d is not None else None, 'empty() is wrong', (m.size,))
        return
    if op in ('reserve', 'reserve_dense', 'index') or key is None:
        return
    if how == 'throw':
        if op in ('at', 'cat'):
            R.check(rule, absent(R, m, key), 'a key that is present is reported as missing')
        return
    if op in ('at', 'cat', 'find', 'cfind'):
        if v == ZERO or v == ('B', False):
            R.check(rule, absent(R, m, key), 'a key that is present is not found')
            return
        lv = v if isinstance(v, LV) else v[1] if isinstance(v, tuple) and v and v[0] == 'ptr' else None
        if lv is None:
            R.check(rule, None, 'the answer is not understood', unknown=True)
            return
        l = I.canon(st, lv.loc)
        if l[:len(m.D)] != m.D or l[-1] != ('f', 'second'):
            R.check(rule, None, 'the answer is not understood', unknown=True)
            return
        F = st.facts.copy()
        close(F, m, [m.key(l[-2][1]), key])
        ok = F.le(add(sub(l[-2][1], m.size), ONE)) is True and F.eq(sub(m.key(l[-2][1]), key)) is True
        R.check(rule, ok, 'the entry of another key is returned')
        return
    for s, b in I.truth(st.copy(), v if not is_lin(v) else ('cmp', '!=', v)):
        R2 = Path(R.out, R.P, I, s, m, R.name)
        close(s.facts, m, [key])
        if s.facts.dead:
            continue
        was = b if op not in ADD else not b
        if was:
            R.check(rule, witness(s.facts, m, key) is not None, 'an absent key is reported as present')
        else:
            R.check(rule, absent(R2, m, key), 'a key that is present is reported as absent')
