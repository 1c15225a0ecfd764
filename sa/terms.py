"""Abstract value domain: value-numbered atoms, linear normal forms over them, and a small
relational store of branch facts (linear inequalities, disequalities, equalities) with a
syntactic entailment test.  No solver is involved."""
from math import gcd

_ids = {}
_info = []
NONNEG = set()
POS = set()
BOOL = set()
DISTINCT = set()          # atoms that are pairwise different constants (type identities)
TAINT = set()             # atoms that stand for something the analysis does not know
_bits = {}


def intern(t, nonneg=False, pos=False, taint=None, boolean=False):
    i = _ids.get(t)
    if i is None:
        i = len(_info)
        _ids[t] = i
        _info.append(t)
        if taint is None:
            taint = t[0] in ('hv', 'uninit', 'unk', 'opaque')
            if not taint:
                taint = _tainted_children(t)
        if taint:
            TAINT.add(i)
    if nonneg or pos:
        NONNEG.add(i)
    if pos:
        POS.add(i)
    if boolean:
        BOOL.add(i)
    return i


def _tainted_children(t):
    for x in t:
        if isinstance(x, tuple):
            if x and x[0] == 'L' and len(x) == 3:
                if any(a in TAINT for a, _ in x[2]):
                    return True
            elif _tainted_children(x):
                return True
    return False


def info(i):
    return _info[i]


def const(n):
    return ('L', n, ())


ZERO = const(0)
ONE = const(1)


def atom(t, **kw):
    return ('L', 0, ((intern(t, **kw), 1),))


def is_lin(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'L'


def is_const(v):
    return is_lin(v) and not v[2]


def single_atom(v):
    """atom tuple if v is exactly one atom with coefficient one."""
    if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return _info[v[2][0][0]]
    return None


def single_id(v):
    if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    return None


def mk(c, d):
    return ('L', c, tuple(sorted((a, k) for a, k in d.items() if k)))


def add(x, y, k=1):
    if not y[2]:
        return ('L', x[1] + k * y[1], x[2])
    d = dict(x[2])
    for a, c in y[2]:
        d[a] = d.get(a, 0) + k * c
    return mk(x[1] + k * y[1], d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return ('L', x[1] * k, tuple((a, c * k) for a, c in x[2]))


def mul(x, y):
    if is_const(x):
        return scale(y, x[1])
    if is_const(y):
        return scale(x, y[1])
    # distribute when small, so that a*(b+1) == a*b + a
    if len(x[2]) + (x[1] != 0) + len(y[2]) + (y[1] != 0) <= 6:
        d = {}
        c = x[1] * y[1]
        for a, k in x[2]:
            if y[1]:
                d[a] = d.get(a, 0) + k * y[1]
        for a, k in y[2]:
            if x[1]:
                d[a] = d.get(a, 0) + k * x[1]
        for a, k in x[2]:
            for b, m in y[2]:
                p = tuple(sorted((a, b)))
                i = intern(('mul', ('L', 0, ((p[0], 1),)), ('L', 0, ((p[1], 1),))),
                           nonneg=(a in NONNEG and b in NONNEG))
                d[i] = d.get(i, 0) + k * m
        return mk(c, d)
    return atom(('mul', x, y) if x <= y else ('mul', y, x))


def nonneg_lin(x):
    return x[1] >= 0 and all(k >= 0 and a in NONNEG for a, k in x[2])


def tainted(v):
    if is_lin(v):
        return any(a in TAINT for a, _ in v[2])
    if isinstance(v, tuple):
        return any(tainted(x) for x in v)
    if hasattr(v, 'taint'):
        return v.taint()
    return False


_fresh = [0]


def fresh(kind='hv', *info_, **kw):
    _fresh[0] += 1
    return atom((kind, _fresh[0]) + info_, **kw)


def fresh_n():
    _fresh[0] += 1
    return _fresh[0]


class Facts:
    __slots__ = ('les', 'nes', 'eqs', 'dead')

    def __init__(self):
        self.les = []
        self.nes = []
        self.eqs = {}
        self.dead = False

    def copy(self):
        f = Facts()
        f.les = list(self.les)
        f.nes = list(self.nes)
        f.eqs = dict(self.eqs)
        f.dead = self.dead
        return f

    def norm(self, x):
        if not self.eqs or not x[2]:
            return x
        n = 0
        while True:
            for a, c in x[2]:
                if a in self.eqs:
                    x = add(add(x, ('L', 0, ((a, 1),)), -c), self.eqs[a], c)
                    break
            else:
                return x
            n += 1
            if n > 50:
                return x

    # --- entailment -----------------------------------------------------------------
    def _le(self, x, depth=4, budget=None):
        """x <= 0 provable?"""
        if budget is None:
            budget = [4000]
        budget[0] -= 1
        if budget[0] < 0:
            return False
        c = x[1]
        posatoms = None
        ok = True
        for a, k in x[2]:
            if k > 0:
                if a in BOOL:
                    c += k
                    continue
                ok = False
                if posatoms is None:
                    posatoms = (a, k)
            else:
                if a in POS:
                    c += k
                elif a not in NONNEG:
                    ok = False
                    if posatoms is None:
                        posatoms = (a, k)
        if ok and c <= 0:
            return True
        if depth == 0:
            return False
        if ok:
            # only the lower bounds of its atoms are too weak: use facts about them
            cands = [ak for ak in x[2] if ak[1] < 0]
            if depth > 3:
                depth = 3
        else:
            cands = [posatoms]
        for a, k in cands:
            # eliminate atom a using a fact that has it with the same sign
            for f in self.les:
                for b, m in f[2]:
                    if b == a:
                        if (m > 0) == (k > 0) and k % m == 0:
                            q = k // m
                            if q > 0 and self._le(add(x, f, -q), depth - 1, budget):
                                return True
                        elif (m > 0) == (k > 0) and m % k == 0 and m // k > 0:
                            q = m // k
                            if self._le(add(scale(x, q), f, -1), depth - 1, budget):
                                return True
                        break
        # products: a*k with a known multiple structure is left alone
        return False

    def le(self, x):
        x = self.norm(x)
        if not x[2]:
            return x[1] <= 0
        if self._le(x):
            return True
        if self._le(add(scale(x, -1), ONE)):
            return False
        return None

    def eq(self, x):
        x = self.norm(x)
        if not x[2]:
            return x[1] == 0
        if len(x[2]) == 2 and x[1] == 0:
            (a, k), (b, m) = x[2]
            if k == -m and a in DISTINCT and b in DISTINCT:
                return False
            if k == -m and addr_distinct(_info[a], _info[b]):
                return False
        if len(x[2]) == 1 and x[1] == 0 and x[2][0][0] in POS:
            return False
        # gcd test
        if len(x[2]) >= 1 and all(abs(k) > 1 for _, k in x[2]):
            g = 0
            from math import gcd
            for _, k in x[2]:
                g = gcd(g, abs(k))
            if x[1] % g:
                return False
        for n in self.nes:
            n = self.norm(n)
            if n == x or n == scale(x, -1):
                return False
        if self._le(add(x, ONE)) or self._le(add(scale(x, -1), ONE)):
            return False
        if self._le(x) and self._le(scale(x, -1)):
            return True
        return None

    # --- assumption -----------------------------------------------------------------
    def assume_le(self, x):
        x = self.norm(x)
        d = self.le(x)
        if d is True:
            return True
        if d is False:
            self.dead = True
            return False
        # le both ways -> equality
        if self._le(scale(x, -1)):
            return self.assume_eq(x)
        self.les.append(x)
        # sharpen with disequalities
        for n in self.nes:
            n = self.norm(n)
            if n == x or n == scale(x, -1):
                y = add(x, ONE)
                if self.le(y) is None:
                    self.les.append(y)
        return True

    def assume_eq(self, x):
        x = self.norm(x)
        d = self.eq(x)
        if d is True and not x[2]:
            return True
        if d is False:
            self.dead = True
            return False
        cand = [(a, k) for a, k in x[2] if abs(k) == 1]
        if not cand:
            self.les.append(x)
            self.les.append(scale(x, -1))
            return True
        # substitute the youngest atom
        def prio(ak):
            return (ak[0] in TAINT, ak[0])
        a, k = max(cand, key=prio)
        rest = add(x, ('L', 0, ((a, 1),)), -k)
        self.eqs[a] = scale(rest, -k)      # a = -rest/k, k in {1,-1}
        for b in list(self.eqs):
            self.eqs[b] = self.norm(self.eqs[b])
        if a in NONNEG:
            self.les.append(scale(self.eqs[a], -1))
        if a in POS:
            self.les.append(add(scale(self.eqs[a], -1), ONE))
        old = self.les
        self.les = []
        for f in old:
            f = self.norm(f)
            if not f[2]:
                if f[1] > 0:
                    self.dead = True
                    return False
                continue
            if f not in self.les:
                self.les.append(f)
        for f in self.les:
            if self._le(add(scale(f, -1), ONE)):
                self.dead = True
                return False
        for n in self.nes:
            n = self.norm(n)
            if not n[2] and n[1] == 0:
                self.dead = True
                return False
        return True

    def assume_ne(self, x):
        x = self.norm(x)
        d = self.eq(x)
        if d is False:
            return True
        if d is True:
            self.dead = True
            return False
        if x[2]:
            g = gcd(*[abs(c) for _, c in x[2]])
            if g > 1 and x[1] % g == 0:
                x = ('L', x[1] // g, tuple((i, c // g) for i, c in x[2]))
        self.nes.append(x)
        if self._le(x):
            self.les.append(add(x, ONE))
        elif self._le(scale(x, -1)):
            self.les.append(add(scale(x, -1), ONE))
        return True


CONCRETE_ROOTS = ('v', 't', 'h', 'o', 'g')


def addr_distinct(a, b):
    """two address atoms that certainly denote different objects"""
    if a[0] != 'addr' or b[0] != 'addr':
        return False
    ra, rb = a[1][0], b[1][0]
    if ra[0] in CONCRETE_ROOTS and rb[0] in CONCRETE_ROOTS and ra != rb:
        return True
    if ra == rb:
        # same root: first differing element decides when both are plain fields
        for x, y in zip(a[1][1:], b[1][1:]):
            if x != y:
                return x[0] == 'f' and y[0] == 'f'
    return False


def show(v, depth=0):
    if depth > 6:
        return '…'
    if is_lin(v):
        parts = []
        for a, k in v[2]:
            s = show_atom(_info[a], depth + 1)
            parts.append(s if k == 1 else '-' + s if k == -1 else f'{k}*{s}')
        if v[1] or not parts:
            parts.append(str(v[1]))
        return ' + '.join(parts).replace('+ -', '- ')
    if isinstance(v, tuple) and v:
        if v[0] == 'ptr':
            return '&' + show_loc(v[1].loc, depth + 1)
        if v[0] == 'cmp':
            return f"({show(v[2], depth + 1)} {v[1]} 0)"
        if v[0] == 'B':
            return str(v[1]).lower()
        if not isinstance(v[0], str):
            return show_loc(v, depth + 1) if isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], str) else str(v)
        return v[0] + '(' + ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[1:]) + ')'
    return str(v)


def show_atom(t, depth=0):
    if t[0] == 'init':
        return show_loc(t[1], depth)
    if t[0] == 'addr':
        return '&' + show_loc(t[1], depth)
    if t[0] == 'fld':
        return show_atom(t[1], depth) + show_path(t[2], depth) if isinstance(t[1], tuple) else str(t)
    if t[0] == 'typeid':
        return 'id<' + str(t[1]) + '>'
    if t[0] == 'mul':
        return f"{show(t[1], depth)}*{show(t[2], depth)}"
    return t[0] + '(' + ','.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def show_path(p, depth=0):
    s = ''
    for e in p:
        if isinstance(e, str):
            s += '.' + e
        elif e[0] == 'f':
            s += '.' + e[1]
        elif not isinstance(e, tuple) or len(e) < 2:
            s += '.' + str(e)
        elif e[0] in ('i', 'k'):
            s += '[' + show(e[1], depth + 1) + ']'
        else:
            s += '.' + ':'.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in e)
    return s


def show_loc(loc, depth=0):
    r = loc[0]
    if not isinstance(r, tuple):
        s = str(r)
    elif r[0] == 'p':
        s = '(*' + show(r[1], depth + 1) + ')'
    elif r[0] in ('o', 'g', 'v'):
        s = str(r[-1])
    else:
        s = r[0] + str(r[1])
    return s + show_path(loc[1:], depth)
