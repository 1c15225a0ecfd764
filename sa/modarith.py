"""Arithmetic modulo an unknown power of two: terms built with &, %, /, ~ are rewritten to sums of remainders."""
from . import terms as T
from .terms import add, sub, const, scale, is_lin, is_const, mul

ONE = const(1)


class Mod:
    def __init__(self, a, facts):
        self.a = a                     # the modulus (a power of two)
        self.facts = facts.copy()
        self.mask = sub(a, ONE)
        self.ai = T.single_id(a)
        self.seen = set()
        self.facts.assume_le(sub(ONE, a))
        # what the path knows, in the same form
        for x in list(facts.les):
            self.facts.assume_le(self.norm(x))
        for x in list(facts.nes):
            self.facts.assume_ne(self.norm(x))
        for i, x in list(facts.eqs.items()):
            self.facts.assume_eq(self.norm(sub(('L', 0, ((i, 1),)), x)))

    def same(self, x, y):
        return x == y or self.facts.eq(sub(x, y)) is True

    def norm(self, x, depth=0):
        if depth > 12:
            return x
        out = const(x[1])
        for i, k in x[2]:
            out = add(out, self.atom(i, depth), k)
        return out

    def atom(self, i, depth):
        t = T.info(i)
        me = ('L', 0, ((i, 1),))
        if t[0] == 'and':
            for p, q in ((t[1], t[2]), (t[2], t[1])):
                if self.same(q, self.mask):
                    return self.rem(p, depth)
                if self.inverted(q):
                    p = self.norm(p, depth + 1)
                    return sub(p, self.rem(p, depth))
        elif t[0] == 'mod' and self.same(t[2], self.a):
            return self.rem(t[1], depth)
        elif t[0] == 'mul' and self.ai is not None:
            for p, q in ((t[1], t[2]), (t[2], t[1])):
                if p == self.a and T.single_id(q) is not None:
                    d = T.single_atom(q)
                    if d[0] == 'div' and self.same(d[2], self.a):
                        y = self.norm(d[1], depth + 1)
                        return sub(y, self.rem(y, depth))
        return me

    def inverted(self, q):
        """~(a - 1), or -a"""
        if self.same(q, scale(self.a, -1)):
            return True
        s = T.single_atom(q)
        if s is not None and s[0] == 'trunc' and s[1] == 64 and self.same(s[3], scale(self.a, -1)):
            return True
        if is_const(q) and is_const(self.a) and q[1] in (-self.a[1], 2 ** 64 - self.a[1]):
            return True
        return s is not None and s[0] == '~' and self.same(s[1], self.mask)

    def residue(self, x, depth=0):
        """x modulo a, without remainders and multiples of a inside"""
        x = self.norm(x, depth + 1)
        for _ in range(8):
            out, changed = const(x[1]), False
            for i, k in x[2]:
                t = T.info(i)
                if i == self.ai or is_const(self.a) and self.a[1] and k % self.a[1] == 0:
                    changed = True
                elif t[0] == 'mul' and (t[1] == self.a or t[2] == self.a):
                    changed = True
                elif t[0] == 'alignup' and (self.same(t[2], self.a) or is_const(self.a) and is_const(t[2]) and t[2][1] % self.a[1] == 0):
                    changed = True
                elif t[0] == 'trunc' and t[1] == 64 and not t[2]:
                    out = add(out, t[3], k)
                    changed = True
                elif t[0] == 'rem' and t[2] == self.a:
                    out = add(out, t[1], k)
                    changed = True
                else:
                    out = add(out, ('L', 0, ((i, 1),)), k)
            x = self.facts.norm(out)
            if not changed:
                return x
        return x

    def rem(self, x, depth=0):
        x = self.residue(x, depth)
        if not x[2]:
            if x[1] == 0:
                return const(0)
            if x[1] == -1:
                return self.mask
        lead = x[2][0][1] if x[2] else x[1]
        if lead < 0:
            # (-r) mod a = a - 1 - ((r - 1) mod a)
            return sub(self.mask, self.rem(sub(scale(x, -1), ONE), depth + 1))
        i = T.intern(('rem', x, self.a), nonneg=True)
        if i not in self.seen:
            self.seen.add(i)
            self.facts.assume_le(sub(('L', 0, ((i, 1),)), self.mask))
        return ('L', 0, ((i, 1),))

    def aligned(self, x):
        """True: a multiple of a on this path; False: not for every value; None: not known"""
        x = self.norm(x)
        r = self.residue(x)
        if r == const(0):
            return True
        m = self.rem(x)
        d = self.facts.eq(m)
        if d is not None:
            return d
        return None if T.tainted(r) and not self.carried(r) else False

    def carried(self, r):
        return all(T.info(i)[0] in ('hv', 'init', 'elem') for i, _ in r[2])

    def le(self, x):
        return self.facts.le(self.norm(x))
