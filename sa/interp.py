"""Forward abstract interpretation of the exported, type-checked syntax tree.

Abstract states are partitioned by trace (branch outcomes); values are linear normal forms over
value-numbered atoms; memory is a map from access paths to values; calls into the analysed
library are inlined; standard-library calls have hand-written transfer functions (models.py);
loops are summarised by: no iteration, or one arbitrary iteration from a state in which
everything the loop writes has been forgotten (counters that advance by a constant keep their
linear form).  Everything unknown becomes a tainted atom, and rules never report on tainted
terms."""
import sys
from . import terms as T
from .terms import (const, ZERO, ONE, atom, is_lin, is_const, add, sub, scale, mul, Facts)

sys.setrecursionlimit(20000)


class Analysis(Exception):
    """the analysis could not be carried out (never a verdict)"""


LOG = None      # {'checks', 'in', 'stale', 'stored'} while the use of references is recorded (C25)


def refs_in(v):
    """references and pointers in a value"""
    if isinstance(v, LV):
        yield v
    elif isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
        yield v[1]
    elif isinstance(v, Rec):
        for x in v.ov.values():
            yield from refs_in(x)


class LV:
    __slots__ = ('loc', 'gens', 't', 'xv')

    def __init__(self, loc, gens=(), t=None, xv=None):
        self.loc = loc
        self.gens = gens
        self.t = t
        self.xv = xv          # value category where known: True expiring, False not

    def sub(self, *elems, t=None):
        return LV(self.loc + elems, self.gens, t)

    def __repr__(self):
        return 'LV(' + T.show_loc(self.loc) + ')'

    def taint(self):
        return T.tainted(self.loc)

    def __eq__(self, o):
        return isinstance(o, LV) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)

    def __lt__(self, o):
        return repr(self) < repr(o)


class Rec:
    """a class value: base (symbolic origin) plus overriding entries, keyed by relative path"""
    __slots__ = ('base', 'ov', 't')

    def __init__(self, base=None, ov=None, t=None):
        self.base = base
        self.ov = ov or {}
        self.t = t

    def __repr__(self):
        return 'Rec(%s,%s)' % (self.base, {T.show_path(k): v for k, v in self.ov.items()})

    def taint(self):
        return self.base is not None and self.base[0] in ('unk', 'hv')

    def get(self, *path):
        v = self.ov.get(path)
        if v is not None:
            return v
        return base_scalar(base_sub(self._base_for(path)[0], self._base_for(path)[1]))

    def _base_for(self, path):
        for i in range(len(path) - 1, 0, -1):
            b = self.ov.get(path[:i])
            if isinstance(b, tuple) and b and b[0] == 'base':
                return b[1], path[i:]
        return self.base, path

    def subrec(self, *path):
        n = len(path)
        b, rel = self._base_for(path)
        e = self.ov.get(path)
        if isinstance(e, tuple) and e and e[0] == 'base':
            base = e[1]
        else:
            base = base_sub(b, rel)
        return Rec(base, {k[n:]: v for k, v in self.ov.items() if len(k) > n and k[:n] == path})


def base_sub(b, path):
    if not path or b is None:
        return b
    if b[0] == 'init':
        return ('init', b[1] + tuple(path))
    if b[0] == 'zero':
        return b
    if b[0] == 'fld':
        return ('fld', b[1], b[2] + tuple(path))
    return ('fld', b, tuple(path))


def base_scalar(b):
    if b is None:
        return atom(('uninit',))
    if b[0] == 'zero':
        return ZERO
    t = b[0] in ('unk', 'hv') or (b[0] == 'fld' and b[1][0] in ('unk', 'hv'))
    return atom(b, taint=True if t else None)


class St:
    __slots__ = ('mem', 'facts', 'ev', 'gens', 'path', 'notes')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ev = []
        self.gens = {}
        self.path = []
        self.notes = {}

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ev = list(self.ev)
        s.gens = dict(self.gens)
        s.path = list(self.path)
        s.notes = dict(self.notes)
        return s


class Ev:
    """an effect observed on a path"""
    __slots__ = ('kind', 'd', 'fid', 'line', 'depth')

    def __init__(self, kind, fid, line, **d):
        self.kind = kind
        self.d = d
        self.fid = fid
        self.line = line

    def __getattr__(self, n):
        if n.startswith('_') or n in ('kind', 'd', 'fid', 'line', 'depth'):
            raise AttributeError(n)
        return self.d.get(n)

    def __repr__(self):
        def s(v):
            if is_lin(v) or (isinstance(v, tuple) and v and v[0] == 'ptr'):
                return T.show(v)
            if isinstance(v, list):
                return '[' + ', '.join(s(x) for x in v) + ']'
            return str(v)
        return f"{self.kind}@{self.line}({', '.join(k + '=' + s(v) for k, v in self.d.items())})"


class Frame:
    __slots__ = ('fid', 'n', 'this', 'clo', 'f')

    def __init__(self, fid, n, this=None, clo=None, f=None):
        self.fid = fid
        self.n = n
        self.this = this
        self.clo = clo
        self.f = f


class Exc:
    def __init__(self, name, t=None, val=None, where=None, implicit=False):
        self.name = name
        self.t = t
        self.val = val
        self.where = where
        self.implicit = implicit

    def __repr__(self):
        return f"Exc({self.name}@{self.where})"


BTRUE = ('B', True)
BFALSE = ('B', False)


def negate(p):
    if p[0] == 'B':
        return BFALSE if p[1] else BTRUE
    if p[0] == 'cmp':
        if p[1] == '<=':
            return ('cmp', '<=', add(scale(p[2], -1), ONE))
        return ('cmp', '!=' if p[1] == '==' else '==', p[2])
    if p[0] == 'not':
        return p[1]
    if is_lin(p):
        return ('cmp', '==', p)
    return ('not', p)


LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')


class Interp:
    def __init__(self, prog, abstract=(), user_throw=False, hooks=None, max_paths=6000, max_depth=90):
        from . import models
        self.P = prog
        self.models = models
        self.abstract = set(abstract)
        self.user_throw = user_throw
        self.hooks = hooks or {}
        self.max_paths = max_paths
        self.sum_alts = {}
        self.shifts = False
        self.wraps = False      # 64-bit unsigned arithmetic wraps around
        self.stores = False
        self.max_depth = max_depth
        self.frames = []
        self.sink = []
        self.nframe = 0
        self.inlined = set()
        self.unknown_calls = {}
        self.steps = 0
        self.seq = 0
        self.volatile_atomics = False
        self.const_statics = False
        self.run_statics = False
        self.exact_maps = False
        self.split_minmax = False
        self.peel = False
        self.trace_locals = False
        self.keep_ends = False
        self.sums = False
        self.enum_bounds = False
        self.focus = []
        self.compress = True
        self.max_steps = 4000000
        self.stack_fids = []

    # ------------------------------------------------------------------ utilities
    @property
    def cur(self):
        return self.frames[-1]

    def event(self, st, kind, node, **d):
        fid = self.cur.fid if self.frames else None
        e = Ev(kind, fid, (node or {}).get('l', 0) if isinstance(node, dict) else (node or 0), **d)
        e.depth = len(self.frames)
        st.ev.append(e)
        return e

    def where(self, node=None):
        l = node.get('l') if isinstance(node, dict) else None
        return self.P.where(self.cur.fid, l) if self.frames else '?'

    def throw(self, st, exc):
        self.sink.append((st, exc))

    # ------------------------------------------------------------------ memory
    def canon(self, st, loc):
        """normalise the terms inside an access path under the branch facts"""
        f = st.facts
        for i in range(1, len(loc) - 1):
            if loc[i][0] == 'entry' and loc[i + 1] == ('f', 'second'):
                loc = loc[:i] + (('k', loc[i][1]),) + loc[i + 2:]
                break
        if not f.eqs:
            return loc
        out = []
        ch = False
        for e in loc:
            if isinstance(e, tuple) and e[0] in ('i', 'k', 'p') and len(e) > 1 and is_lin(e[1]):
                n = f.norm(e[1])
                if n != e[1]:
                    e = (e[0], n) + e[2:]
                    ch = True
                if e[0] == 'p':
                    a = T.single_atom(n)
                    if a and a[0] == 'addr':
                        out.extend(a[1])
                        ch = True
                        continue
            out.append(e)
        loc = tuple(out) if ch else loc
        if self.wraps and loc and loc[0][0] == 'p' and loc not in st.mem:
            # written under another name of the same address
            for k in st.mem:
                if k and k[0][0] == 'p' and k[0] != loc[0] and is_lin(k[0][1]) and f.norm(k[0][1]) == loc[0][1]:
                    return k[:1] + loc[1:]
        return loc

    def read(self, st, loc, t=None):
        loc = self.canon(st, loc)
        m = st.mem
        v = m.get(loc)
        if v is not None and not (v[0] == 'base' and len(v) == 2):
            if self.enum_bounds and t is not None and is_lin(v) and not T.is_const(v):
                ty = self.P.ty(t)
                if ty.get('max') is not None and ty.get('k') == 'enum':
                    st.facts.assume_le(T.sub(v, T.const(ty['max'])))
            return v
        if loc[-1] == ('f', 'first') and len(loc) > 2 and loc[-2][0] == 'entry' and is_lin(loc[-2][1]):
            return loc[-2][1]
        b = self.base_at(st, loc)
        h = self.hooks.get('init_read')
        if h and b is not None and b[0] == 'init':
            v = h(self, st, loc, b, t)
            if v is not None:
                return v
        v = base_scalar(b)
        if t is not None and is_lin(v):
            ty = self.P.ty(t)
            i = T.single_id(v)
            if i is not None:
                if ty.get('k') == 'bool':
                    T.NONNEG.add(i)
                    T.BOOL.add(i)
                elif ty.get('k') in ('int', 'enum') and not ty.get('signed'):
                    T.NONNEG.add(i)
                    if ty.get('max') is not None and self.enum_bounds:
                        st.facts.assume_le(T.sub(v, T.const(ty['max'])))
                elif ty.get('k') == 'ptr':
                    T.NONNEG.add(i)
                elif ty.get('k') in ('ref', 'rref'):
                    T.POS.add(i)
                    T.NONNEG.add(i)
        return v

    def base_at(self, st, loc):
        m = st.mem
        for i in range(len(loc), 0, -1):
            v = m.get(loc[:i])
            if v is not None and v[0] == 'base' and len(v) == 2:
                return base_sub(v[1], loc[i:])
        r = loc[0]
        if r[0] in ('v', 't', 'h'):
            return None
        return ('init', loc)

    def read_rec(self, st, loc, t=None):
        loc = self.canon(st, loc)
        n = len(loc)
        ov = {}
        if self.exact_maps and isinstance(loc[-1], tuple) and loc[-1][0] == 'entry' and is_lin(loc[-1][1]):
            # copy of a key/value pair
            v = loc[:-1] + (('k', loc[-1][1]),)
            ov[(('f', 'first'),)] = loc[-1][1]
            if v in st.mem or not any(k[:len(v)] == v for k in st.mem):
                r = self.P.rec_of(t) if t is not None else None
                vt = next((x['t'] for x in self.P.all_fields(r) if x['n'] == 'second'), None) if r else None
                ov[(('f', 'second'),)] = self.read(st, v, vt)
            for k, x in st.mem.items():
                if len(k) > len(v) and k[:len(v)] == v:
                    ov[(('f', 'second'),) + k[len(v):]] = x
            return Rec(self.base_at(st, loc), ov, t)
        for k, v in st.mem.items():
            if len(k) > n and k[:n] == loc:
                ov[k[n:]] = v
        return Rec(self.base_at(st, loc), ov, t)

    def clear_below(self, st, loc):
        n = len(loc)
        dead = [k for k in st.mem if len(k) >= n and k[:n] == loc]
        for k in dead:
            del st.mem[k]

    def write(self, st, loc, v, node=None):
        loc = self.canon(st, loc)
        if isinstance(v, Rec):
            self.clear_below(st, loc)
            st.mem[loc] = ('base', v.base)
            for k, x in v.ov.items():
                st.mem[loc + k] = x
        else:
            if isinstance(v, LV):
                v = ('ptr', v)
            n = len(loc)
            if any(len(k) > n and k[:n] == loc for k in st.mem):
                self.clear_below(st, loc)
            st.mem[loc] = v
        w = st.notes.get('writes')
        if w is not None:
            w.add(loc)
        if 'write' in self.hooks:
            self.hooks['write'](self, st, loc, v, node)

    def havoc(self, st, loc):
        loc = self.canon(st, loc)
        self.clear_below(st, loc)
        st.mem[loc] = ('base', ('hv', T.fresh_n()))
        w = st.notes.get('writes')
        if w is not None:
            w.add(loc)

    def fresh_loc(self, kind='t', t=None):
        return LV(((kind, T.fresh_n()),), t=t)

    def resolve_index(self, st, cont, idx, tag='i'):
        """[(st, idx')]: split on equality with the indices already written in this container"""
        n = len(cont)
        idx = st.facts.norm(idx) if is_lin(idx) else idx
        seen = []
        for k in st.mem:
            if len(k) > n and k[:n] == cont and isinstance(k[n], tuple) and k[n][0] == tag:
                if k[n][1] not in seen:
                    seen.append(k[n][1])
        if idx in seen or not is_lin(idx):
            return [(st, idx)]
        outs = []
        cur = st
        for s in seen:
            if not is_lin(s):
                continue
            d = cur.facts.eq(sub(idx, s))
            if d is True:
                return outs + [(cur, s)]
            if d is None:
                a = cur.copy()
                a.facts.assume_eq(sub(idx, s))
                if tag == 'k' and 'key_eq' in self.hooks and not a.facts.dead:
                    self.hooks['key_eq'](self, a, cont, idx, s)
                if not a.facts.dead:
                    outs.append((a, s))
                cur = cur.copy()
                cur.facts.assume_ne(sub(idx, s))
                if cur.facts.dead:
                    return outs
        return outs + [(cur, idx)]

    # pointers
    def to_lin(self, v):
        if is_lin(v):
            return v
        if v[0] == 'ptr':
            loc = v[1].loc
            if len(loc) == 1 and loc[0][0] == 'p':
                return loc[0][1]
            return atom(('addr', loc), pos=True)
        if v[0] == 'B':
            return ONE if v[1] else ZERO
        if v[0] == 'fn':
            return atom(v, pos=True)
        if v[0] in ('cmp', 'not'):
            return atom(('bool', v), nonneg=True, boolean=True)
        return atom(('val', v))

    def deref(self, st, v, t=None):
        """LV designated by pointer value v"""
        if isinstance(v, LV):
            return v
        if isinstance(v, tuple) and v and v[0] == 'ptr':
            lv = v[1]
            return LV(self.canon(st, lv.loc), lv.gens, t if t is not None else lv.t)
        if is_lin(v):
            v = st.facts.norm(v)
            a = T.single_atom(v)
            if a and a[0] == 'addr':
                return LV(a[1], (), t)
            # same opaque pointer already known under another name?
            return LV((('p', v),), (), t)
        if isinstance(v, Rec):
            lv = self.fresh_loc('t', t)
            self.write(st, lv.loc, v)
            return lv
        return LV((('p', self.to_lin(v)),), (), t)

    def gens_of(self, st, loc):
        g = []
        for i in range(1, len(loc)):
            e = loc[i]
            if isinstance(e, tuple) and e[0] == 'i':
                c = loc[:i]
                g.append((c, st.gens.get(c, 0)))
        return tuple(g)

    def check_stale(self, st, lv, node):
        if lv.gens and LOG is not None:
            LOG['checks'] += 1
            if self.frames:
                LOG['in'].add(self.cur.fid)
        for c, n in lv.gens:
            dead = LOG is not None and st.gens.get(('dead', c))
            if st.gens.get(c, 0) != n or dead and len(lv.loc) > len(c) and lv.loc[:len(c)] == c and lv.loc[len(c)][0] == 'i' \
                    and any(is_lin(lv.loc[len(c)][1]) and self.may_be_zero(st, sub(lv.loc[len(c)][1], d)) for d in dead):
                why = [st.gens.get(('why', c, i)) for i in range(n + 1, st.gens.get(c, 0) + 1)]
                self.event(st, 'stale', node, cont=c, loc=lv.loc, why=why)
                if LOG is not None and self.frames:
                    LOG['stale'].append((self.P.where(self.cur.fid, (node or {}).get('l') if isinstance(node, dict) else None) + ' ' + self.P.fname(self.cur.fid),
                                         c, [f'{w}: {"taken" if v else "not taken"}' for w, p, v in st.path if w]))
                return

    def may_be_zero(self, st, x):
        """zero, or zero in the first iteration of a loop"""
        e = st.facts.eq(x)
        if e is not None:
            return e
        x = st.facts.norm(x)
        if x[1] == 0 and len(x[2]) == 1 and T.info(x[2][0][0])[0] == 'iter':
            f = st.facts.copy()
            f.assume_eq(T.mk(0, {x[2][0][0]: 1}))
            return not f.dead
        return False

    def invalidate(self, st, loc, node, why):
        """element references of the container at loc (and of containers inside it) die"""
        n = st.gens[loc] = st.gens.get(loc, 0) + 1
        st.gens[('why', loc, n)] = why

    # ------------------------------------------------------------------ predicates
    def simplify(self, st, p):
        if p[0] == 'cmp':
            x = st.facts.norm(p[2])
            if p[1] == '<=':
                d = st.facts.le(x)
            elif p[1] == '==':
                d = st.facts.eq(x)
            else:
                d = st.facts.eq(x)
                d = None if d is None else not d
            return None if d is None else d
        if p[0] == 'B':
            return p[1]
        if is_lin(p):
            d = st.facts.eq(p)
            return None if d is None else not d
        if p[0] == 'ptr':
            return True
        if p[0] == 'fn':
            return True
        if p[0] == 'not':
            d = self.simplify(st, p[1])
            return None if d is None else not d
        if p[0] == 'or':
            ds = [self.simplify(st, x) for x in p[1:]]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return None
        if p[0] == 'and':
            ds = [self.simplify(st, x) for x in p[1:]]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        return None

    def assume(self, st, p, val=True):
        """mutates st; False when contradictory"""
        if not val:
            p = negate(p)
        if p[0] == 'B':
            if not p[1]:
                st.facts.dead = True
            return p[1]
        if p[0] == 'cmp':
            if p[1] == '<=':
                st.facts.assume_le(p[2])
            elif p[1] == '==':
                st.facts.assume_eq(p[2])
            else:
                st.facts.assume_ne(p[2])
            return not st.facts.dead
        if is_lin(p):
            i = T.single_id(p)
            if i is not None and i in T.BOOL:
                a = T.info(i)
                if a[0] == 'bool':
                    self.assume(st, a[1])
                    if st.facts.dead:
                        return False
                st.facts.assume_eq(sub(p, ONE))
            else:
                st.facts.assume_ne(p)
            return not st.facts.dead
        if p[0] == 'and':
            for x in p[1:]:
                if not self.assume(st, x):
                    return False
            return True
        if p[0] == 'not':
            q = p[1]
            if q[0] == 'or':
                for x in q[1:]:
                    if not self.assume(st, negate(x)):
                        return False
                return True
            st.notes[('pred', p)] = True
            return True
        if p[0] in ('ptr', 'fn'):
            return True
        st.notes[('pred', p)] = True
        return True

    def branch(self, st, p, node=None):
        """[(st, True/False)]"""
        if isinstance(p, Rec):
            p = T.fresh('unk')
        if p[0] == 'cmp' and p[1] in ('==', '!='):
            # (b == 0) where b encodes a comparison
            i = T.single_id(p[2])
            if i is not None and T.info(i)[0] == 'bool':
                q = T.info(i)[1]
                return self.branch(st, negate(q) if p[1] == '==' else q, node)
        i = T.single_id(p) if is_lin(p) else None
        if i is not None and T.info(i)[0] == 'bool':
            p = T.info(i)[1]
        d = self.simplify(st, p)
        if d is not None:
            return [(st, d)]
        if p[0] == 'and' or (p[0] == 'not' and p[1][0] == 'or') or p[0] == 'or' or (p[0] == 'not' and p[1][0] == 'and'):
            neg = p[0] == 'not'
            q = p[1] if neg else p
            res = self._branch_nary(st, q)
            return [(s, (not b) if neg else b) for s, b in res]
        a, b = st.copy(), st
        out = []
        w = self.where(node) if node is not None and self.frames else None
        if self.assume(a, p, True):
            a.path.append((w, p, True))
            out.append((a, True))
        if self.assume(b, p, False):
            b.path.append((w, p, False))
            out.append((b, False))
        return out

    def _branch_nary(self, st, q):
        stop = q[0] == 'or'
        out = []
        cur = [st]
        for x in q[1:]:
            nxt = []
            for s in cur:
                for s2, b in self.branch(s, x):
                    if b == stop:
                        out.append((s2, stop))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, not stop) for s in cur]

    def truth(self, st, v, node=None):
        if isinstance(v, LV):
            v = self.read(st, v.loc)
        return self.branch(st, v, node)

    # ------------------------------------------------------------------ calls
    def call(self, st, fid, this, args, node, argn=None):
        """inline a function; returns [(st, value)]"""
        f = self.P.funcs[fid]
        h = self.hooks.get('call')
        if h:
            r = h(self, st, f, this, args, node)
            if r is not None:
                return r
        recq = None
        if 'rec' in f:
            recq = self.P.recs[f['rec']]['bare']
        if f['name'] == '__invoke' and 'rec' in f and self.P.recs[f['rec']].get('lambda'):
            for g in self.P.funcs.values():
                if g.get('rec') == f['rec'] and g['name'] == 'operator()' and 'body' in g:
                    return self.call(st, g['id'], self.fresh_loc('t'), args, node)
        if recq in self.abstract or 'body' not in f:
            return self.models.call(self, st, f, this, args, node)
        if f['name'].startswith('operator'):
            r = self.models.map_iterator_op(self, st, f, this, args, node)
            if r is not None:
                return r
        if len(self.frames) >= self.max_depth or self.stack_fids.count(fid) >= 2:
            self.event(st, 'recursion', node, f=f['bare'], this=this, args=args)
            return [(st, self.opaque(st, f['ret'], 'rec'))]
        self.inlined.add(fid)
        self.nframe += 1
        fr = Frame(fid, self.nframe, this, None, f)
        rec = self.P.recs.get(f.get('rec')) if 'rec' in f else None
        if rec is not None and rec.get('lambda'):
            fr.clo = this
        self.frames.append(fr)
        self.stack_fids.append(fid)
        base = self.sink
        self.sink = []
        try:
            outs = []
            sts = self.bind_params(st, f, fr, args, node)
            for s in sts:
                if f.get('kind') == 'ctor':
                    for s2 in self.ctor_inits(s, f, this, node):
                        outs += self.exec(s2, f['body'])
                else:
                    outs += self.exec(s, f['body'])
            res = []
            for s, sig in outs:
                if sig is None:
                    res.append((s, ('void',)))
                elif sig[0] == 'return':
                    res.append((s, sig[1]))
                else:
                    raise Analysis(f"stray {sig} in {f['q']}")
            mine = self.sink
        finally:
            self.sink = base
            self.frames.pop()
            self.stack_fids.pop()
        for s, e in mine:
            if f.get('noexcept'):
                self.frames.append(fr)
                self.event(s, 'terminate', node, exc=e, f=f['q'])
                self.frames.pop()
                s.notes['terminated'] = (f['q'], e)
            self.sink.append((s, e))
        if f.get('kind') == 'dtor':
            res = self.member_dtors(res, rec, this, node)
        if len(res) > self.max_paths:
            raise Analysis(f"too many paths in {f['q']}")
        # drop the callee's locals
        for s, _ in res:
            dead = [k for k in s.mem if k[0][0] == 'v' and k[0][1] == fr.n]
            if dead and not self._escapes(s, _, fr.n):
                for k in dead:
                    del s.mem[k]
        return self.merge_dups(res)

    def merge_dups(self, res):
        return res

    def _escapes(self, st, val, n):
        return True

    def bind_params(self, st, f, fr, args, node):
        ps = f['params']
        sts = [st]
        for i, p in enumerate(ps):
            loc = (('v', fr.n, p['id'], p['n']),)
            if i >= len(args):
                st.mem[loc] = ('base', ('unk', T.fresh_n()))
                continue
            a = args[i]
            if self.P.is_ref(p['t']):
                if isinstance(a, LV):
                    lv = a
                    if lv.t is None:
                        lv = LV(lv.loc, lv.gens, self.P.strip_ref(p['t']))
                else:
                    lv = self.fresh_loc('t', self.P.strip_ref(p['t']))
                    self.write(st, lv.loc, a)
                st.mem[loc] = ('ptr', lv)
            else:
                if isinstance(a, LV):
                    a = self.load(st, a, p['t'], node)
                if isinstance(a, Rec):
                    self.write(st, loc, a)
                else:
                    st.mem[loc] = a
        return sts

    def load(self, st, lv, t, node=None):
        """value stored at lv for type t"""
        self.check_stale(st, lv, node)
        if self.P.ty(t).get('k') == 'rec':
            return self.read_rec(st, lv.loc, t)
        return self.read(st, lv.loc, t)

    def ctor_inits(self, st, f, this, node):
        sts = [st]
        for ini in f.get('inits', []):
            nxt = []
            for s in sts:
                if 'f' in ini:
                    fl = this.sub(('f', ini['f']))
                    ft = self.field_type(f['rec'], ini['f'])
                    nxt += self.init_object(s, fl.loc, ft, ini['e'], gens=this.gens)
                elif 'base' in ini or ini.get('deleg'):
                    nxt += [s2 for s2, _ in self.ev(s, ini['e'], tgt=this)]
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def field_type(self, rid, name):
        r = self.P.recs[rid]
        for f in self.P.all_fields(r):
            if f['n'] == name:
                return f['t']
        return -1

    def init_object(self, st, loc, t, e, gens=()):
        """initialise the object of type t at loc from expression e -> [st]"""
        ty = self.P.ty(t)
        if e is None:
            return [st]
        if ty.get('k') in ('ref', 'rref'):
            out = []
            for s, v in self.ev(st, e):
                if not isinstance(v, LV):
                    lv = self.fresh_loc('t', ty['to'])
                    self.write(s, lv.loc, v)
                    v = lv
                self.write(s, loc, ('ptr', v))
                out.append(s)
            return out
        if ty.get('k') == 'rec' or ty.get('k') == 'array':
            out = []
            for s, v in self.ev(st, e, tgt=LV(loc, gens, t)):
                if isinstance(v, LV):
                    if v.loc != loc:
                        self.write(s, loc, self.read_rec(s, v.loc, t), e)
                elif isinstance(v, Rec):
                    self.write(s, loc, v, e)
                out.append(s)
            return out
        out = []
        for s, v in self.ev(st, e):
            if isinstance(v, LV):
                v = self.load(s, v, t, e)
            if isinstance(v, Rec):
                v = T.fresh('unk')
            self.write(s, loc, v, e)
            out.append(s)
        return out

    def opaque(self, st, t, why='unk', node=None):
        ty = self.P.ty(t)
        k = ty.get('k')
        if k == 'void':
            return ('void',)
        if k in ('ref', 'rref'):
            return LV((('p', T.fresh('unk', why, pos=True)),), (), ty['to'])
        if k == 'rec':
            return Rec(('unk', T.fresh_n()), t=t)
        v = T.fresh('unk', why)
        self.mark_type(v, ty)
        return v

    def mark_type(self, v, ty):
        i = T.single_id(v) if is_lin(v) else None
        if i is None:
            return
        if ty.get('k') == 'bool':
            T.BOOL.add(i)
            T.NONNEG.add(i)
        elif ty.get('k') == 'ptr' or (ty.get('k') in ('int', 'enum') and not ty.get('signed')):
            T.NONNEG.add(i)

    # objects going out of scope
    def needs_dtor(self, t):
        r = self.P.rec_of(t)
        if not r:
            return False
        if r['bare'] in LOCKS:
            return True
        if r['bare'].startswith('std::'):
            return False
        if r.get('trivdtor', True) or r.get('lambda'):
            return False
        if r['bare'] in self.abstract:
            return False
        return True

    def destroy(self, st, lv, t, node):
        """run the destructor of an object -> [st]"""
        r = self.P.rec_of(t)
        if not r:
            return [st]
        if r['bare'] in LOCKS:
            self.models.unlock(self, st, lv, node)
            return [st]
        d = r.get('dtor')
        if d and 'body' in self.P.funcs.get(d, {}):
            return [s for s, _ in self.call(st, d, lv, [], node)]
        if d and not r['bare'].startswith('std::') and d in self.P.funcs and not self.P.funcs[d].get('implicit') \
                and not self.P.funcs[d].get('defaulted'):
            self.event(st, 'dtor', node, loc=lv.loc, t=t)
            return [st]
        out = [st]
        for f in reversed(r.get('fields', [])):
            if self.needs_dtor(f['t']):
                out = [s2 for s in out for s2 in self.destroy(s, lv.sub(('f', f['n'])), f['t'], node)]
        return out

    def member_dtors(self, res, rec, this, node):
        for f in reversed(rec.get('fields', [])):
            if self.needs_dtor(f['t']):
                res = [(s2, v) for s, v in res for s2 in self.destroy(s, this.sub(('f', f['n'])), f['t'], node)]
        return res

    # ------------------------------------------------------------------ statements
    def exec(self, st, n):
        """[(st, signal)]"""
        if n is None:
            return [(st, None)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Analysis("step budget exhausted")
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(st, n)
        return [(s, None) for s, _ in self.ev(st, n)]

    def x_block(self, st, n):
        return self.exec_seq(st, n['b'])

    def exec_seq(self, st, stmts):
        live = [st]
        done = []
        scope = []          # locals needing destructors, in order
        has = any(s and s['k'] == 'decl' and any(self.needs_dtor(v['t']) and not v.get('static') for v in s['v'])
                  for s in stmts)
        if has:
            outer = self.sink
            self.sink = []
        for s in stmts:
            if s is None:
                continue
            nxt = []
            for x in live:
                if has:
                    before = self.sink
                    self.sink = []
                for y, sig in self.exec(x, s):
                    if sig is None:
                        nxt.append(y)
                    else:
                        done.append((y, sig, len(scope)))
                if has:
                    thrown = self.sink
                    self.sink = before
                    for y, e in thrown:
                        before.append((y, e, len(scope)))
            if s['k'] == 'decl':
                for v in s['v']:
                    if self.needs_dtor(v['t']) and not v.get('static'):
                        scope.append((v, s))
            live = nxt
            if len(live) > self.max_paths:
                raise Analysis("too many paths")
            if not live:
                break
        if not has:
            return [(y, None) for y in live] + [(y, sig) for y, sig, _ in done]
        mine = self.sink
        self.sink = outer
        res = []
        for y, sig, depth in [(y, None, len(scope)) for y in live] + done:
            for z in self.unwind(y, scope[:depth]):
                res.append((z, sig))
        for y, e, depth in mine:
            for z in self.unwind(y, scope[:depth]):
                self.sink.append((z, e))
        return res

    def unwind(self, st, scope):
        out = [st]
        for v, s in reversed(scope):
            lv = LV((('v', self.cur.n, v['id'], v['n']),), (), v['t'])
            out = [z for y in out for z in self.destroy(y, lv, v['t'], s)]
        return out

    def x_decl(self, st, n):
        sts = [st]
        for v in n['v']:
            sts = [s2 for s in sts for s2 in self.decl_var(s, v)]
        return [(s, None) for s in sts]

    def decl_var(self, st, v):
        loc = (('v', self.cur.n, v['id'], v['n']),)
        if (v.get('static') or v.get('tls')) and self.run_statics:
            # seen for the first time, or again
            loc = (('g', v['id'], v['n']),)
            again = st.copy()
            self.event(st, 'static_init', v, loc=loc, tls=bool(v.get('tls')), t=v['t'])
            self.clear_below(st, loc)
            out = self.init_object(st, loc, v['t'], v['init']) if 'init' in v else [st]
            for s in out:
                self.event(s, 'static_done', v, loc=loc)
            return [again] + out
        if v.get('static') or v.get('tls'):
            if not self.const_statics or v.get('tls') or (('g', v['id'], v['n']),) in st.mem:
                return [st]       # static storage: symbolic initial value
            loc = (('g', v['id'], v['n']),)
        self.clear_below(st, loc)
        if self.trace_locals and (self.trace_locals == 'all' and not self.P.is_ref(v['t']) or self.P.ty(v['t']).get('k') == 'rec'):
            self.event(st, 'local', v, loc=loc, t=v['t'])
        if 'init' in v:
            sts = self.init_object(st, loc, v['t'], v['init'])
        else:
            st.mem[loc] = ('base', None)
            sts = [st]
        for b in v.get('bindings', []):
            for s in sts:
                s.notes[('bind', self.cur.n, b['id'])] = (v, b)
        return sts

    def x_null(self, st, n):
        return [(st, None)]

    def x_break(self, st, n):
        return [(st, ('break',))]

    def x_continue(self, st, n):
        return [(st, ('continue',))]

    def x_return(self, st, n):
        if not n.get('e'):
            return [(st, ('return', ('void',)))]
        f = self.cur.f
        rt = f['ret']
        out = []
        for s, v in self.ev(st, n['e']):
            if self.P.is_ref(rt):
                if not isinstance(v, LV):
                    lv = self.fresh_loc('t', self.P.strip_ref(rt))
                    self.write(s, lv.loc, v)
                    v = lv
            elif isinstance(v, LV):
                v = self.load(s, v, rt, n)
            out.append((s, ('return', v)))
        return out

    def cond_states(self, st, n):
        """init / condition variable / condition of if, while ... -> [(st, bool)]"""
        sts = [st]
        if n.get('init'):
            sts = [s for s, _ in self.exec(st, n['init'])]
        if n.get('cv'):
            sts = [s2 for s in sts for s2 in self.decl_var(s, n['cv'])]
        out = []
        for s in sts:
            out += self.cond(s, n['c'])
        return out

    def cond(self, st, c):
        """evaluate a condition -> [(st, bool)]"""
        k = c['k']
        if k == 'bin' and c['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(st, c['a']):
                if b == (c['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(s, c['b'])
            return out
        if k == 'un' and c['op'] == '!':
            return [(s, not b) for s, b in self.cond(st, c['e'])]
        if k == 'cast' and c.get('ck') in ('IntegralToBoolean', 'PointerToBoolean'):
            pass
        out = []
        for s, v in self.ev(st, c):
            out += self.truth(s, v, c)
        return out

    def x_if(self, st, n):
        out = []
        for s, b in self.cond_states(st, n):
            if b:
                out += self.exec(s, n['t'])
            else:
                out += self.exec(s, n.get('e'))
        return out

    def x_switch(self, st, n):
        out = []
        sts = [st]
        if n.get('init'):
            sts = [s for s, _ in self.exec(st, n['init'])]
        if n.get('cv'):
            sts = [s2 for s in sts for s2 in self.decl_var(s, n['cv'])]
        body = n['b']['b'] if n['b'] and n['b']['k'] == 'block' else [n['b']]
        flat = []

        def flatten(x):
            while x and x['k'] in ('case', 'default'):
                flat.append((x, None))
                x = x['b']
            flat.append((None, x))
        for x in body:
            flatten(x)
        for s0 in sts:
            for s, v in self.ev(s0, n['c']):
                v = self.rv(s, v, n['c'].get('t'))
                rest = s
                starts = []
                dflt = None
                for i, (lab, _) in enumerate(flat):
                    if lab is None:
                        continue
                    if lab['k'] == 'default':
                        dflt = i
                        continue
                    if rest is None:
                        continue
                    for s1, cv in self.ev(rest, lab['c']):
                        nr = None
                        for s2, b in self.branch(s1, ('cmp', '==', sub(self.to_lin(v), self.to_lin(cv))), n):
                            if b:
                                starts.append((s2, i))
                            else:
                                nr = s2
                        rest = nr
                if rest is not None:
                    starts.append((rest, dflt))
                for s1, i in starts:
                    if i is None:
                        out.append((s1, None))
                        continue
                    for s2, sig in self.exec_seq(s1, [x for lab, x in flat[i:] if lab is None]):
                        out.append((s2, None if sig == ('break',) else sig))
        return out

    def x_case(self, st, n):
        return self.exec(st, n['b'])

    x_default = x_case

    def x_try(self, st, n):
        outer = self.sink
        self.sink = []
        try:
            res = self.exec(st, n['b'])
            thrown = self.sink
        finally:
            self.sink = outer
        for s, e in thrown:
            done = False
            for h in n['h']:
                if self.catches(h['t'], e):
                    s.notes['current_exc'] = e
                    if 'v' in h:
                        loc = (('v', self.cur.n, h['v']['id'], h['v']['n']),)
                        lv = self.fresh_loc('t')
                        if isinstance(e.val, Rec):
                            self.write(s, lv.loc, e.val)
                        if self.P.is_ref(h['v']['t']):
                            s.mem[loc] = ('ptr', lv)
                        else:
                            s.mem[loc] = ('base', ('unk', T.fresh_n()))
                    res += self.exec(s, h['b'])
                    done = True
                    break
            if not done:
                self.sink.append((s, e))
        return res

    EXC_BASES = {
        'std::out_of_range': ['std::logic_error', 'std::exception'],
        'std::invalid_argument': ['std::logic_error', 'std::exception'],
        'std::length_error': ['std::logic_error', 'std::exception'],
        'std::logic_error': ['std::exception'],
        'std::runtime_error': ['std::exception'],
        'std::bad_alloc': ['std::exception'],
        'std::bad_optional_access': ['std::exception'],
        'std::bad_variant_access': ['std::exception'],
        'user': [],
    }

    def catches(self, t, e):
        if t is None or t < 0:
            return True
        ct = self.P.strip_ref(t)
        r = self.P.rec_of(ct)
        name = r['bare'] if r else self.P.unqual_s(ct)
        if name == e.name:
            return True
        if name in self.EXC_BASES.get(e.name, []):
            return True
        if e.t is not None and r is not None:
            er = self.P.rec_of(e.t)
            if er and self.P.derives(er['id'], r['id']):
                return True
        return False

    # ------------------------------------------------------------------ loops
    def loop(self, st, node, cond, body, inc, label):
        """cond: st -> [(st, bool)]; body: st -> [(st, signal)]; inc: st -> [st].
        returns [(st, signal)]"""
        exits = []
        # 1. the loop may not run at all
        pre = st.copy()
        zero = cond(st.copy())
        for s, b in zero:
            if not b:
                s.ev.append(self._mk('loop0', node, label=label))
                exits.append((s, None))
        if not any(b for _, b in zero):
            return exits
        if self.peel:
            return exits + self.peeled(st, pre, node, cond, body, inc, label)
        # 2. what does the loop write?
        wset, keep = self.loop_writes(pre, cond, body, inc)
        gen = pre
        n_atom = T.fresh('iter', node.get('l', 0), nonneg=True)   # completed iterations before this one
        induct = {}
        self.havoc_set(gen, wset, keep)
        # 3. induction variables
        probe = gen.copy()
        induct = self.find_induction(probe, wset, cond, body, inc, keep)
        for loc, c in induct.items():
            if loc in keep:
                old = st.mem[loc][1]
                gen.mem[loc] = ('ptr', LV(old.loc[:-1] + (('i', add(old.loc[-1][1], scale(n_atom, c))),), old.gens, old.t))
                continue
            v = self.rv_lin(self.read(st, loc))
            gen.mem[loc] = add(v, scale(n_atom, c)) if is_lin(v) else gen.mem.get(loc, v)
        if 'loop' in self.hooks:
            self.hooks['loop'](self, gen, node, n_atom)
        # 4. one arbitrary iteration
        start = gen.copy() if self.keep_ends else None
        mark = self._mk('loop', node, label=label, n=n_atom, plen=len(gen.path))
        pure = self.compress and not self.effective_writes(wset, node)
        evlen = len(gen.ev)
        sum_st = st.copy() if pure else None
        nbreak = 0
        if not pure:
            gen.ev.append(mark)
        backs = []
        broken = []
        thrown = len(self.sink)
        for s, b in cond(gen):
            if not b:
                continue
            for s2, sig in body(s):
                if sig is None or sig == ('continue',):
                    backs += inc(s2)
                elif sig == ('break',):
                    s2.ev.append(self._mk('endloop', node, label=label, how='break', n=n_atom))
                    exits.append((s2, None))
                    broken.append(s2)
                    nbreak += 1
                else:
                    s2.ev.append(self._mk('endloop', node, label=label, how='return', n=n_atom))
                    exits.append((s2, sig))
        if LOG is not None:
            self.again(st, backs, cond, body)
        mark.d['traces'] = [(s.ev[evlen if pure else evlen + 1:], s.facts.copy(), list(s.path)) for s in backs]
        if self.keep_ends:
            mark.d['start'], mark.d['ends'], mark.d['entry'] = start, [s.copy() for s in backs], st
        for s2, e in self.sink[thrown:]:
            if pure:
                s2.ev.insert(evlen, mark)
            s2.ev.append(self._mk('endloop', node, label=label, how='throw', n=n_atom))
        if pure and not nbreak and all(e is None for _, e in exits):
            # nothing but effects on the outside: one successor that carries the iteration's traces
            traces = [(s.ev[evlen:], s.facts.copy(), list(s.path)) for s in backs]
            sum_st.ev.append(self._mk('loopsum', node, label=label, n=n_atom, traces=traces, zero=bool(exits), plen=mark.plen))
            if self.keep_ends:
                sum_st.ev[-1].d['start'], sum_st.ev[-1].d['ends'] = start, list(backs)
            return [(sum_st, None)]
        if pure:
            for s in backs + broken + [x for x, e in exits if e is not None]:
                s.ev.insert(evlen, mark)
        # 5. leaving the loop normally after the arbitrary (last) iteration
        for s in backs:
            s.ev.append(self._mk('endloop', node, label=label, how='normal', n=n_atom))
            for s2, b in cond(s):
                if not b:
                    exits.append((s2, None))
        return exits

    def again(self, st, backs, cond, body):
        """the iteration after one that moved elements of a container: does it use references from before?"""
        for b in backs:
            if b.gens == st.gens:
                continue
            save, self.sink = self.sink, []
            n = len(b.ev)
            try:
                for s, v in cond(b.copy()):
                    found = list(s.ev[n:])
                    if v:
                        for s2, sig in body(s):
                            found += s2.ev[n:]
                    b.ev += [e for e in found if e.kind == 'stale' and all(x is not e for x in b.ev)]
            finally:
                self.sink = save

    def peeled(self, st, pre, node, cond, body, inc, label):
        """the first iteration is followed as it is, the others are summarised"""
        out = []
        for s, b in cond(pre):
            if not b:
                continue
            s.ev.append(self._mk('first', node, label=label))
            for s2, sig in body(s):
                if sig is None or sig == ('continue',):
                    for s3 in inc(s2):
                        s3.ev.append(self._mk('endfirst', node, label=label))
                        self.peel = False
                        try:
                            out += self.loop(s3, node, cond, lambda x: self.repeel(body, x), inc, label)
                        finally:
                            self.peel = True
                elif sig == ('break',):
                    s2.ev.append(self._mk('endloop', node, label=label, how='break', n=None))
                    out.append((s2, None))
                else:
                    s2.ev.append(self._mk('endloop', node, label=label, how='return', n=None))
                    out.append((s2, sig))
        return out

    def repeel(self, body, s):
        old = self.peel
        self.peel = True
        try:
            return body(s)
        finally:
            self.peel = old

    def _mk(self, kind, node, **d):
        e = Ev(kind, self.cur.fid, node.get('l', 0), **d)
        e.depth = len(self.frames)
        return e

    def rv_lin(self, v):
        if isinstance(v, tuple) and v and v[0] == 'base':
            return base_scalar(v[1])
        return v

    def loop_writes(self, st, cond, body, inc):
        """(locations a way round the loop may change, iterators among them that stay in their container)"""
        wset = set()
        bad = set()
        for _ in range(8):
            s = st.copy()
            keep = self.kept(st, wset) - bad
            self.havoc_set(s, wset, keep)
            s.notes = dict(s.notes)
            col = set()
            s.notes['writes'] = col
            s0 = s.copy()
            start = T.fresh_n()
            save = self.sink
            self.sink = []
            backs = []
            for s1, b in cond(s):
                if b:
                    for s2, sig in body(s1):
                        if sig is None or sig == ('continue',):
                            backs += inc(s2)
            self.sink = save
            lost = {l for l in keep if any(not self.same_iter(s0.mem[l], b.mem.get(l)) for b in backs)}
            new = set()
            for loc in col:
                w = self.widen_loc(loc, start)
                if w == loc and len(loc) == 1 and loc[0][0] == 'v' and self.unchanged(s0, backs, loc):
                    continue
                new.add(w)
            new = {l for l in new if l is not None and self._outer(l, start)}
            if not lost and (new <= wset or all(any(w == l[:len(w)] for w in wset) for l in new)):
                break
            wset |= new
            bad |= lost
        # keep only outermost
        return {l for l in wset if not any(w != l and w == l[:len(w)] for w in wset)}, keep

    @staticmethod
    def unchanged(s0, backs, loc):
        """every way round the loop leaves this variable as it was"""
        v = s0.mem.get(loc)
        if v is None or not (is_lin(v) or v[0] in ('ptr', 'B')):
            return False
        for b in backs:
            w = b.mem.get(loc)
            if w == v:
                continue
            if not (is_lin(w) and is_lin(v) and b.facts.eq(sub(w, v))):
                return False
        return True

    @staticmethod
    def is_iter(v):
        return isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr' and isinstance(v[1], LV) and v[1].loc[-1][0] == 'i' and \
            is_lin(v[1].loc[-1][1])

    def same_iter(self, v, w):
        return self.is_iter(w) and v[1].loc[:-1] == w[1].loc[:-1] and v[1].gens == w[1].gens

    def kept(self, st, wset):
        """iterators among the locations a loop writes"""
        out = set()
        for l, v in st.mem.items():
            if self.is_iter(v) and l[0][0] == 'v' and (l[-1] == ('s', 'it') or len(l) == 1) and any(w == l[:len(w)] for w in wset):
                out.add(l)
        return out

    def _outer(self, loc, start):
        """locations that exist before the loop"""
        r = loc[0]
        if r[0] in ('t', 'h'):
            return r[1] < start
        if r[0] == 'v':
            return r[1] <= self.nframe_at_loop() or True
        return True

    def nframe_at_loop(self):
        return self.cur.n

    def widen_loc(self, loc, start):
        """cut an access path before the first index created inside the loop"""
        for i, e in enumerate(loc):
            if isinstance(e, tuple) and e[0] in ('i', 'k', 'p') and len(e) > 1 and is_lin(e[1]):
                if self.newer(e[1], start):
                    return loc[:i] if i > 0 else None
        return loc

    def newer(self, lin, start):
        return any(self._atom_newer(T.info(a), start) for a, _ in lin[2])

    def _atom_newer(self, a, start):
        if a[0] in ('hv', 'iter', 'elem', 'unk', 'opaque') and isinstance(a[1], int):
            return a[1] > start
        if a[0] == 'fld' and isinstance(a[1], tuple) and len(a[1]) > 1 and isinstance(a[1][1], int):
            return a[1][1] > start
        for x in a[1:]:
            if is_lin(x) and self.newer(x, start):
                return True
            if isinstance(x, tuple) and not is_lin(x):
                for y in x:
                    if isinstance(y, tuple) and len(y) > 1 and is_lin(y[1]) and self.newer(y[1], start):
                        return True
        return False

    def effective_writes(self, wset, node):
        """what a loop writes besides its own locals"""
        inner = node.get('_decls')
        if inner is None:
            inner = {v['id'] for d in self.P.walk(node) if d.get('k') == 'decl' for v in d['v'] if 'id' in v}
            for d in self.P.walk(node):
                if d.get('k') == 'rangefor' and isinstance(d.get('var'), dict) and 'id' in d['var']:
                    inner.add(d['var']['id'])
            node['_decls'] = inner
        n = self.cur.n
        out = set()
        for loc in wset:
            r = loc[0]
            if r[0] == 'v' and (r[1] > n or (r[1] == n and r[2] in inner)):
                continue
            out.add(loc)
        return out

    def havoc_set(self, st, wset, keep=()):
        old = {l: st.mem[l][1] for l in keep}
        for loc in wset:
            if loc[0][0] == 'v' and loc[0][1] > self.cur.n:
                continue
            self.clear_below(st, loc)
            st.mem[loc] = ('base', ('hv', T.fresh_n()))
        for l, lv in old.items():
            if any(w == l[:len(w)] for w in wset):
                st.mem[l] = ('ptr', LV(lv.loc[:-1] + (('i', T.fresh('hv', 'pos')),), lv.gens, lv.t))

    def find_sums(self, st, entry, wset, body, ind):
        """locations that grow by an expression of the element looked at only: {loc: (initial value, expression, container, lo, hi)}"""
        from .models import canon_elem, one_of
        before = {}
        for loc in wset:
            if loc in ind or st.mem.get(loc, ('',))[0] != 'base':
                continue
            a, b = base_scalar(self.base_at(st, loc)), self.rv_lin(self.read(entry, loc))
            if is_lin(a) and T.single_id(a) is not None and is_lin(b):
                before[loc] = (a, b)
        if not before:
            return {}
        hidden = set()
        for loc in wset:
            v = st.mem.get(loc)
            if isinstance(v, tuple) and v and v[0] == 'base':
                x = base_scalar(self.base_at(st, loc))
                if is_lin(x) and T.single_id(x) is not None:
                    hidden.add(T.single_id(x))
        save, self.sink = self.sink, []
        n = len(st.ev)
        outs = [s for s, sig in body(st) if sig is None or sig == ('continue',)]
        self.sink = save
        res = {}
        for loc, (a, init) in before.items():
            found, alts = set(), []
            for s in outs:
                it = [e for e in s.ev[n:] if e.kind == 'iterate']
                v = s.mem.get(loc)
                if not it or not is_lin(v):
                    found.add(None)
                    continue
                g = s.facts.norm(sub(v, a))
                if T.tainted(g) or any(i in hidden for i, _ in g[2]):
                    found.add(None)
                    continue
                e = it[0]
                el = e.cont + (('i', e.index),)
                found.add((e.cont, e.first, add(e.first, e.n)))
                alts.append((canon_elem(self, g, el, e.index), g, s, el))
            if len(found) == 1 and None not in found:
                cn, lo, hi = found.pop()
                g = one_of(self, alts)
                res[loc] = (init, g, cn, lo, hi)
        return res

    def find_induction(self, st, wset, cond, body, inc, keep=()):
        """locations whose value changes by the same constant on every way round the loop"""
        if not wset:
            return {}
        st, st0 = st.copy(), st
        before = {}
        for loc in wset:
            before[loc] = base_scalar(self.base_at(st, loc)) if st.mem.get(loc, ('',))[0] == 'base' else None
        save = self.sink
        self.sink = []
        backs = []
        for s1, b in cond(st):
            if b:
                for s2, sig in body(s1):
                    if sig is None or sig == ('continue',):
                        backs += inc(s2)
        self.sink = save
        res = {}
        if not backs:
            return res
        for loc, v0 in before.items():
            # scalar locations, and the size slot of containers
            cands = [loc]
            for b in backs:
                for k in b.mem:
                    if len(k) == len(loc) + 1 and k[:len(loc)] == loc and k[-1] in (('s', 'size'),):
                        cands.append(k)
            for c in set(cands):
                ds = set()
                for b in backs:
                    nv = b.mem.get(c)
                    ov = base_scalar(self.base_at_key(st0, c, loc))
                    if nv is None:
                        ds.add(0)
                        continue
                    if not is_lin(nv):
                        ds.add(None)
                        continue
                    d = b.facts.norm(sub(nv, ov))
                    ds.add(d[1] if is_const(d) else None)
                if len(ds) == 1 and None not in ds:
                    res[c] = ds.pop()
        for l in keep:
            v = st0.mem.get(l)
            ds = set()
            for b in backs:
                w = b.mem.get(l)
                d = b.facts.norm(sub(w[1].loc[-1][1], v[1].loc[-1][1])) if self.is_iter(v) and self.is_iter(w) else None
                ds.add(d[1] if d is not None and is_const(d) else None)
            if len(ds) == 1 and None not in ds:
                res[l] = ds.pop()
        return res

    def base_at_key(self, st, c, loc):
        v = st.mem.get(loc)
        if v and v[0] == 'base':
            return base_sub(v[1], c[len(loc):])
        return None

    def x_while(self, st, n):
        def cond(s):
            return self.cond_states(s, {'c': n['c'], 'cv': n.get('cv')})
        b = n['b']
        if b.get('k') == 'block' and b['b'] and isinstance(b['b'][-1], dict) and not any(x.get('k') == 'continue' for x in self.P.walk(b)):
            r = self.map_walk(st, n, cond, dict(b, b=b['b'][:-1]), b['b'][-1])
            if r is not None:
                return r
        return self.loop(st, n, cond, lambda s: self.exec(s, n['b']), lambda s: [s], 'while')

    def x_for(self, st, n):
        sts = [st]
        if n.get('init'):
            sts = [s for s, _ in self.exec(st, n['init'])]

        def cond(s):
            if not n.get('c') and not n.get('cv'):
                return [(s, True)]
            return self.cond_states(s, {'c': n['c'], 'cv': n.get('cv')})

        def inc(s):
            if not n.get('inc'):
                return [s]
            return [s2 for s2, _ in self.ev(s, n['inc'])]
        out = []
        for s in sts:
            r = self.map_walk(s, n, cond, n['b'], n.get('inc'))
            out += r if r is not None else self.loop(s, n, cond, lambda s: self.exec(s, n['b']), inc, 'for')
        return out

    def map_walk(self, st, n, cond, body, inc):
        """a loop that steps an iterator over all entries of an abstract map, written out"""
        while isinstance(inc, dict) and inc.get('k') in ('mat', 'bind', 'load', 'cast', 'expr', 'clean') and isinstance(inc.get('e'), dict):
            inc = inc['e']
        if not isinstance(inc, dict) or inc.get('k') != 'call' or self.P.funcs.get(inc.get('f'), {}).get('name') != 'operator++':
            return None
        o = inc.get('obj')
        if not o or o.get('k') != 'var':
            return None
        loc = self.canon(st, (('v', self.cur.n, o['d'], o['n']),))
        k = loc + (('s', 'mit'),)
        v = st.mem.get(k)
        if not (isinstance(v, tuple) and v and v[0] == 'mit' and v[2] == ('first',)):
            return None
        # nothing else in the loop steps or replaces the iterator
        for x in self.P.walk(body):
            if x.get('k') == 'bin' and x.get('op') == '=' and x.get('l', None) and isinstance(x.get('a'), dict) and x['a'].get('d') == o['d']:
                return None
            if x.get('k') == 'call' and self.P.funcs.get(x.get('f'), {}).get('name') in ('operator++', 'operator--', 'operator=', 'operator+=') and \
                    isinstance(x.get('obj'), dict) and x['obj'].get('d') == o['d']:
                return None
        probe = st.copy()
        probe.mem[k] = ('mit', v[1], None)
        at_end = [b for _, b in cond(probe)]
        probe = st.copy()
        probe.mem[k] = ('mit', v[1], T.fresh('mkey', v[1], nonneg=True, taint=False))
        inside = [b for _, b in cond(probe)]
        if at_end != [False] or inside != [True]:
            return None
        rec = getattr(self, 'map_recs', {}).get(v[1])
        if rec is None:
            return None

        def one(s, e):
            s.mem[k] = ('mit', v[1], e.loc[-1][1])
            return self.exec(s, body)
        return self.models.iter_map(self, st, LV(v[1]), rec, one, n)

    def x_do(self, st, n):
        # first iteration, then a while loop
        out = []
        for s, sig in self.exec(st, n['b']):
            if sig is None or sig == ('continue',):
                for s2, b in self.cond(s, n['c']):
                    if not b:
                        out.append((s2, None))
                    else:
                        out += self.loop(s2, n, lambda x: [(x, True)] if False else self._do_cond(x, n),
                                         lambda x: self.exec(x, n['b']), lambda x: [x], 'do')
            elif sig == ('break',):
                out.append((s, None))
            else:
                out.append((s, sig))
        return out

    def _do_cond(self, st, n):
        return self.cond(st, n['c'])

    def x_rangefor(self, st, n):
        sts = [st]
        if n.get('init'):
            sts = [s for s, _ in self.exec(st, n['init'])]
        out = []
        for s in sts:
            for s2, r in self.ev(s, n['range']):
                if isinstance(r, Rec):
                    lv = self.fresh_loc('t', self.P.strip_ref(n['rt']))
                    self.write(s2, lv.loc, r)
                    r = lv
                t = self.P.strip_ref(n['rt'])

                def body(x, elem, n=n):
                    y = self.bind_loop_var(x, n['var'], elem)
                    res = []
                    for z in y:
                        res += self.exec(z, n['b'])
                    return res
                o = self.models.iterate(self, s2, r, t, body, n)
                if o is None:
                    o = self.rangefor_generic(s2, r, n)
                out += o
        return out

    def bind_loop_var(self, st, var, elem):
        """elem: LV (element) or Rec/scalar (prvalue element)"""
        loc = (('v', self.cur.n, var['id'], var['n']),)
        self.clear_below(st, loc)
        t = var['t']
        if self.P.is_ref(t):
            if not isinstance(elem, LV):
                lv = self.fresh_loc('t', self.P.strip_ref(t))
                self.write(st, lv.loc, elem)
                elem = lv
            st.mem[loc] = ('ptr', elem)
        elif isinstance(elem, LV):
            v = self.load(st, elem, t, var)
            self.write(st, loc, v)
        else:
            self.write(st, loc, elem)
        for b in var.get('bindings', []):
            st.notes[('bind', self.cur.n, b['id'])] = (var, b)
        return [st]

    def rangefor_generic(self, st, r, n):
        """desugared iteration through begin()/end()"""
        fr = self.cur.n
        st.mem[(('v', fr, n['rv'], '__range'),)] = ('ptr', r)
        out = []
        bt = n['begin'].get('t') if n.get('begin') else None
        bloc = (('v', fr, n['bv'], '__begin'),)
        eloc = (('v', fr, n.get('ev'), '__end'),)
        sts = self.init_object(st, bloc, bt, n['begin'])
        sts = [s2 for s in sts for s2 in self.init_object(s, eloc, n['end'].get('t'), n['end'])]

        def body(s):
            v = n['var']
            res = []
            for s2 in self.decl_var(s, v):
                res += self.exec(s2, n['b'])
            return res
        for s in sts:
            out += self.loop(s, n, lambda x: self.cond(x, n['cond']), body,
                             lambda x: [y for y, _ in self.ev(x, n['inc'])], 'rangefor')
        return out

    def generic_loop(self, st, node, nonempty, empty, body, label, count=None, cont=None):
        """zero iterations, or an arbitrary one followed by forgetting what the loop writes.
        nonempty/empty: predicates (or None); body: st -> [(st, signal)]"""
        exits = []
        z = st.copy()
        if self.assume(z, empty) if empty is not None else True:
            z.ev.append(self._mk('loop0', node, label=label, cont=cont))
            exits.append((z, None))
        if nonempty is not None and not self.assume(st, nonempty):
            return exits
        wset, keep = self.loop_writes(st, lambda s: [(s, True)], body, lambda s: [s])
        entry = st.copy()
        self.havoc_set(st, wset, keep)
        ind = {l: c for l, c in self.find_induction(st.copy(), wset, lambda s: [(s, True)], body, lambda s: [s], keep).items() if l not in keep}
        n_atom = T.fresh('iter', node.get('l', 0), nonneg=True)
        for loc, c in ind.items():
            v = self.rv_lin(self.read(entry, loc))
            if is_lin(v):
                st.mem[loc] = add(v, scale(n_atom, c))
        sums = self.find_sums(st.copy(), entry, wset, body, ind) if self.sums and cont is not None else {}
        for loc, (init, g, cn, lo, hi) in sums.items():
            st.mem[loc] = add(init, T.atom(('psum', n_atom, cn, g), nonneg=T.nonneg_lin(g)))
        evlen = len(st.ev)
        mark = self._mk('loop', node, label=label, n=n_atom, plen=len(st.path))
        thrown = len(self.sink)
        start = st.copy() if self.keep_ends else None
        outs = body(st)
        traces = mark.d['traces'] = [(s.ev[evlen:], s.facts.copy(), list(s.path)) for s, sig in outs if sig is None or sig == ('continue',)]
        if self.keep_ends:
            mark.d['start'], mark.d['ends'] = start, [s.copy() for s, sig in outs if sig is None or sig == ('continue',)]
            mark.d['entry'] = entry
        for s2, e in self.sink[thrown:]:
            s2.ev.insert(evlen, mark)
            s2.ev.append(self._mk('endloop', node, label=label, how='throw', n=n_atom))
        if self.compress and not self.effective_writes(wset, node) and \
                all(sig is None or sig == ('continue',) for _, sig in outs):
            entry.ev.append(self._mk('loopsum', node, label=label, n=n_atom, traces=traces, zero=bool(exits), plen=mark.plen))
            if self.keep_ends:
                entry.ev[-1].d['start'], entry.ev[-1].d['ends'], entry.ev[-1].d['entry'] = start, mark.d['ends'], entry
            return [(entry, None)]
        for s2, sig in outs:
            s2.ev.insert(evlen, mark)
            if sig is None or sig == ('continue',):
                s2.ev.append(self._mk('endloop', node, label=label, how='normal', n=n_atom))
                self.havoc_set(s2, wset, [l for l in keep if l in s2.mem])
                for loc, c in ind.items():
                    v = self.rv_lin(self.read(entry, loc))
                    if is_lin(v):
                        if count is not None:
                            s2.mem[loc] = add(v, scale(count, c))
                        else:
                            s2.mem[loc] = add(v, scale(T.fresh('iter', 'total', pos=True), c))
                for loc, (init, g, cn, lo, hi) in sums.items():
                    s2.mem[loc] = add(init, T.atom(('sum', cn, lo, hi, g), nonneg=T.nonneg_lin(g)))
                exits.append((s2, None))
            elif sig == ('break',):
                s2.ev.append(self._mk('endloop', node, label=label, how='break', n=n_atom))
                exits.append((s2, None))
            else:
                s2.ev.append(self._mk('endloop', node, label=label, how='return', n=n_atom))
                exits.append((s2, sig))
        return exits

    # ------------------------------------------------------------------ expressions
    def rv(self, st, v, t=None):
        """rvalue of an evaluation result"""
        if isinstance(v, LV):
            if t is not None and self.P.ty(t).get('k') == 'rec':
                return self.read_rec(st, v.loc, t)
            return self.read(st, v.loc, t)
        return v

    def ev(self, st, n, tgt=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Analysis("step budget exhausted")
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise Analysis(f"unsupported syntax {n['k']} {n.get('c')} at {self.where(n)}")
        if n['k'] in ('ctor', 'initlist', 'cond', 'call', 'lambda', 'cast', 'zero', 'mat', 'icall'):
            return m(st, n, tgt)
        return m(st, n)

    def ev_list(self, st, nodes):
        outs = [(st, [])]
        for x in nodes:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(s, x):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def e_int(self, st, n):
        v = n['v']
        v = const(int(v))
        if self.P.ty(n['t']).get('k') == 'bool':
            return [(st, BTRUE if v[1] else BFALSE)]
        return [(st, v)]

    def e_float(self, st, n):
        return [(st, atom(('opaque', 'float')))]

    def e_str(self, st, n):
        return [(st, LV((('o', 'str:' + str(n.get('v'))),), (), n.get('t')))]

    def e_null_p(self, st, n):
        return [(st, ZERO)]

    def e_opaque(self, st, n):
        return [(st, self.opaque(st, n['t']))]

    def e_unsupported(self, st, n):
        raise Analysis(f"unsupported syntax {n.get('c')} at {self.where(n)}")

    def e_zero(self, st, n, tgt=None):
        ty = self.P.ty(n['t'])
        if ty.get('k') in ('rec', 'array'):
            return [(st, Rec(('zero',), t=n['t']))]
        if ty.get('k') == 'bool':
            return [(st, BFALSE)]
        return [(st, ZERO)]

    def e_pdtor(self, st, n):
        return [(st, ('void',))]

    def e_this(self, st, n):
        fr = self.cur
        if fr.clo is not None:
            slot = fr.clo.loc + (('f', 'cap_this'),)
            v = self.read(st, slot)
            if isinstance(v, tuple) and v[0] == 'ptr':
                return [(st, v)]
            return [(st, v)]
        if fr.this is None:
            return [(st, T.fresh('unk', pos=True))]
        return [(st, ('ptr', LV(fr.this.loc, fr.this.gens, self.P.pointee(n['t']))))]

    def e_fn(self, st, n):
        return [(st, ('fn', n['f']))]

    def e_memfn(self, st, n):
        return [(st, ('fn', n['f']))]

    def var_lv(self, st, n):
        d = n['d']
        fr = self.cur
        if fr.clo is not None and not n.get('g'):
            slot = fr.clo.loc + (('f', f'cap{d}'),)
            if n.get('cap') and (slot in st.mem or not ((('v', fr.n, d, n['n']),) in st.mem)):
                v = st.mem.get(slot)
                if isinstance(v, tuple) and v and v[0] == 'ptr' and st.notes.get(('capref', fr.clo.loc, d), True) and \
                        self.cap_is_ref(fr, d):
                    return LV(self.canon(st, v[1].loc), v[1].gens, v[1].t)
                if self.cap_is_ref(fr, d):
                    return self.deref(st, self.read(st, slot), n.get('t'))
                return LV(slot, fr.clo.gens, n.get('t'))
        if n.get('g'):
            return LV((('g', d, n['n']),), (), n.get('t'))
        return LV((('v', fr.n, d, n['n']),), (), n.get('t'))

    def cap_is_ref(self, fr, d):
        r = self.P.recs[fr.f['rec']]
        info = r.setdefault('_caps', {})
        return info.get(d, True)

    def e_var(self, st, n):
        if n.get('bind'):
            return self.binding(st, n)
        lv = self.var_lv(st, n)
        dt = n.get('dt')
        if dt is not None and self.P.is_ref(dt):
            if lv.loc[0][0] in ('v',) or lv.loc[0][0] == 'g':
                v = self.read(st, lv.loc, dt)
                return [(st, self.deref(st, v, self.P.strip_ref(dt)))]
            # captured reference variable
            if lv.loc and lv.loc[-1] == ('f', f"cap{n['d']}"):
                v = self.read(st, lv.loc, dt)
                if isinstance(v, tuple) and v[0] == 'ptr':
                    return [(st, self.deref(st, v, self.P.strip_ref(dt)))]
        if n.get('g'):
            g = self.P.globals.get(n['d'])
            if g is not None and lv.loc not in st.mem and 'value' in (g.get('n'),) and 'targs' in g:
                ty = self.P.ty(g['t'])
                if ty.get('k') == 'int':
                    targ = g['targs'][0]
                    a = atom(('typeid', self.P.ty(targ.get('t', -1)).get('s', '?'), g.get('q')), nonneg=True)
                    T.DISTINCT.add(T.single_id(a))
                    st.mem[lv.loc] = a
            if self.const_statics and g is not None and lv.loc not in st.mem and g.get('init') is not None:
                st.mem[lv.loc] = ('base', ('zero',))
                self.init_object(st, lv.loc, g['t'], g['init'])
        return [(st, LV(lv.loc, lv.gens, n.get('t')))]

    def binding(self, st, n):
        d = n['d']
        fr = self.cur
        if n.get('cap') and fr.clo is not None:
            lv = self.var_lv(st, n)
            return [(st, lv)]
        key = ('bind', fr.n, d)
        vb = st.notes.get(key)
        if vb is None:
            raise Analysis(f"unbound structured binding {n['n']} at {self.where(n)}")
        v, b = vb
        loc = (('v', fr.n, v['id'], v['n']),)
        if b.get('tuple'):
            idx = [x['id'] for x in v['bindings']].index(d)
            if self.P.is_ref(v['t']):
                base = self.deref(st, self.read(st, loc, v['t']), self.P.strip_ref(v['t']))
            else:
                base = LV(loc, (), v['t'])
            return [(st, self.models.tuple_elem(self, st, base, self.P.strip_ref(v['t']), idx))]
        return self.ev(st, b['e'])

    def e_mem(self, st, n):
        out = []
        for s, b in self.ev(st, n['b']):
            if n.get('arrow'):
                if isinstance(b, LV):
                    b = self.read(s, b.loc, n['b'].get('t'))
                lv = self.deref(s, b)
            elif isinstance(b, LV):
                lv = b
            elif isinstance(b, Rec):
                lv = self.fresh_loc('t', n['b'].get('t'))
                self.write(s, lv.loc, b)
            else:
                lv = self.deref(s, b)
            self.check_stale(s, lv, n)
            r = lv.sub(('f', n['f']), t=n['t'])
            # reference members denote their referent
            ft = self.fid_type(n)
            if ft is not None and self.P.is_ref(ft):
                out.append((s, self.deref(s, self.read(s, r.loc, ft), self.P.strip_ref(ft))))
            else:
                out.append((s, r))
        return out

    def fid_type(self, n):
        if '_fid_types' not in self.P.__dict__:
            d = {}
            for r in self.P.recs.values():
                for f in r.get('fields', []):
                    d[f['id']] = f['t']
            self.P._fid_types = d
        return self.P._fid_types.get(n.get('fid'))

    def e_idx(self, st, n):
        out = []
        for s, b in self.ev(st, n['b']):
            for s2, i in self.ev(s, n['i']):
                i = self.rv(s2, i, n['i']['t'])
                b2 = b
                if isinstance(b2, LV) and self.P.ty(n['b']['t']).get('k') == 'ptr':
                    b2 = self.read(s2, b2.loc, n['b']['t'])
                for s3, p in self.ptr_add(s2, b2, self.to_lin(i), n['b']['t']):
                    out.append((s3, self.deref(s3, p, n['t'])))
        return out

    def e_load(self, st, n):
        out = []
        for s, v in self.ev(st, n['e']):
            if isinstance(v, LV):
                self.check_stale(s, v, n)
                if 'load' in self.hooks:
                    self.hooks['load'](self, s, v, n)
                x = self.read(s, v.loc, n['t'])
                if self.P.ty(n['t']).get('k') == 'rec':
                    x = self.read_rec(s, v.loc, n['t'])
                out.append((s, x))
            else:
                out.append((s, v))
        return out

    def e_mat(self, st, n, tgt=None):
        lv = self.fresh_loc('t', n['t'])
        out = []
        for s, v in self.ev(st, n['e'], tgt=lv):
            if isinstance(v, LV):
                out.append((s, v))
            else:
                l2 = LV(lv.loc, (), n['t'])
                self.write(s, lv.loc, v)
                out.append((s, l2))
        return out

    def e_cast(self, st, n, tgt=None):
        ck = n['ck']
        out = []
        for s, v in self.ev(st, n['e']) if ck != 'X' else []:
            out.append((s, self.cast(s, v, ck, n)))
        return out

    def cast(self, st, v, ck, n):
        ty = self.P.ty(n['t'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            if isinstance(v, LV):
                return LV(v.loc, v.gens, n['t'])
            if isinstance(v, tuple) and v[0] == 'ptr':
                return ('ptr', LV(v[1].loc, v[1].gens, ty.get('to')))
            return v
        if ck == 'ToVoid':
            return ('void',)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            v = self.rv(st, v)
            if is_lin(v):
                i = T.single_id(v)
                if i is not None and i in T.BOOL and T.info(i)[0] == 'bool':
                    return T.info(i)[1]
                return ('cmp', '!=', v)
            if v[0] in ('ptr', 'fn'):
                return BTRUE
            return v
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, LV):
                et = self.P.pointee(n['e']['t'])
                sz = self.P.sizeof(et) if et is not None else None
                if sz == 1:
                    return atom(('addr', v.loc), pos=True)
                return ('ptr', LV(v.loc + (('i', ZERO),), v.gens, et))
            return v
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return ZERO
        if ck in ('BitCast', 'LValueBitCast', 'IntegralToPointer', 'PointerToIntegral', 'AddressSpaceConversion',
                  'CPointerToObjCPointerCast'):
            if isinstance(v, LV) and ck == 'LValueBitCast':
                return LV(v.loc, v.gens, n['t'])
            v = self.rv(st, v)
            if isinstance(v, tuple) and v[0] == 'ptr':
                return ('ptr', LV(v[1].loc, v[1].gens, ty.get('to')))
            return v
        if ck == 'IntegralCast':
            v = self.rv(st, v)
            if isinstance(v, tuple) and v[0] in ('cmp', 'B', 'not', 'and', 'or'):
                return self.to_lin(v)
            fr = self.P.ty(n['e']['t'])
            if is_const(v):
                bits = ty.get('bits', 64)
                x = v[1]
                if not ty.get('signed'):
                    x &= (1 << bits) - 1
                else:
                    x &= (1 << bits) - 1
                    if x >> (bits - 1):
                        x -= 1 << bits
                # keep -1 cast to size_t as a mathematical -1 would confuse comparisons; use the real value
                return const(x)
            fb, tb = fr.get('bits', 64), ty.get('bits', 64)
            if fr.get('k') == 'bool':
                return v
            if tb < fb:
                i = T.single_id(v)
                if self.wraps and not ty.get('signed'):
                    return self.wrap(st, v, True, tb)
                r = atom(('trunc', tb, bool(ty.get('signed')), v), nonneg=not ty.get('signed'))
                return r
            if self.wraps and tb == fb == 64 and not ty.get('signed'):
                return self.wrap(st, v, True, tb)
            if 'int_cast' in self.hooks:
                self.hooks['int_cast'](self, st, v, fr, ty, n)
            return v
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            return atom(('conv', self.to_lin(self.rv(st, v))))
        if ck == 'ConstructorConversion':
            return v
        return v

    def e_stdil(self, st, n):
        return self.ev(st, n['e'])

    # --- construction ----------------------------------------------------------------
    def e_ctor(self, st, n, tgt=None):
        out = []
        rec = self.P.recs[n['rec']]
        f = self.P.funcs[n['f']]
        if n.get('elide') and len(n['a']) >= 1:
            x = n['a'][0]
            if x['k'] == 'mat' and not x['e'].get('lv'):
                x = x['e']
            return self.ev(st, x, tgt)
        this = tgt
        for s, args in self.ev_list(st, n['a']):
            out += self.construct(s, rec, f, args, n, this)
        return out

    def construct(self, st, rec, f, args, n, this=None):
        """run constructor f of rec on args; result Rec value or LV(this)"""
        made = this is None
        if made:
            this = self.fresh_loc('t', None)
        if this.t is None:
            this = LV(this.loc, this.gens, self.rec_type(rec))
        sp = f.get('special')
        r = None
        h = self.hooks.get('ctor')
        if h:
            r = h(self, st, rec, f, args, n, this)
        if r is None:
            if rec['bare'].startswith('std::') or rec['bare'] in self.abstract or rec['bare'].startswith('__gnu'):
                r = self.models.construct(self, st, rec, f, args, n, this)
            elif sp in ('copyctor', 'movector') and (f.get('defaulted') or f.get('implicit') or f.get('trivial') or
                                                      rec.get('lambda')) and args:
                src = args[0]
                v = self.read_rec(st, src.loc) if isinstance(src, LV) else src
                if isinstance(src, LV):
                    self.check_stale(st, src, n)
                if isinstance(v, Rec):
                    self.clear_below(st, this.loc)
                    self.write(st, this.loc, v, n)
                    if sp == 'movector' and isinstance(src, LV):
                        self.moved_from(st, src.loc, rec)
                self.note_component(st, rec, sp, this, args, n)
                r = [st]
            elif 'body' in f:
                self.clear_below(st, this.loc)
                st.mem[this.loc] = ('base', ('zero',) if n.get('zi') else None)
                r = [s for s, _ in self.call(st, n['f'] if n.get('k') == 'ctor' and n.get('f') == f['id'] else f['id'],
                                             this, args, n)]
            else:
                # declared elsewhere: a client type
                self.event(st, 'uctor', n, rec=rec['bare'], how=sp, loc=this.loc, args=args, nothrow=f.get('noexcept', False))
                if self.user_throw and not f.get('noexcept'):
                    b = st.copy()
                    b.ev[-1] = self._mk('uctor_threw', n, rec=rec['bare'], loc=this.loc)
                    self.throw(b, Exc('user', where=self.where(n), implicit=True))
                src = args[0] if args else None
                base = ('unk', T.fresh_n())
                if sp in ('copyctor', 'movector') and isinstance(src, LV):
                    self.write(st, this.loc, self.read_rec(st, src.loc))
                else:
                    self.clear_below(st, this.loc)
                    st.mem[this.loc] = ('base', base if args else ('zero',))
                r = [st]
        out = []
        for s in r:
            if made:
                out.append((s, self.read_rec(s, this.loc, this.t)))
            else:
                out.append((s, this))
        return out

    def rec_type(self, rec):
        m = self.P.__dict__.setdefault('_rectypes', None)
        if m is None:
            m = {}
            for i, t in enumerate(self.P.types):
                if t.get('k') == 'rec' and not t.get('const'):
                    m[t['rec']] = i
            self.P._rectypes = m
        return m.get(rec['id'])

    def note_component(self, st, rec, sp, this, args, n):
        h = self.hooks.get('component')
        if h:
            h(self, st, rec, sp, this, args, n)

    def moved_from(self, st, loc, rec):
        """state of a moved-from object: containers empty, owners null"""
        for f in self.P.all_fields(rec):
            self.models.moved_from_type(self, st, loc + (('f', f['n']),), f['t'])

    def e_initlist(self, st, n, tgt=None):
        ty = self.P.ty(n['t'])
        if ty.get('k') not in ('rec', 'array'):
            if n['a']:
                return self.ev(st, n['a'][0])
            return [(st, BFALSE if ty.get('k') == 'bool' else ZERO)]
        loc = tgt.loc if tgt is not None else self.fresh_loc('t').loc
        self.clear_below(st, loc)
        st.mem[loc] = ('base', ('zero',))
        sts = [st]
        if ty.get('k') == 'array':
            for i, e in enumerate(n['a']):
                sts = [s2 for s in sts for s2 in self.init_object(s, loc + (('i', const(i)),), ty['to'], e)]
            for s in sts:
                s.mem[loc + (('s', 'size'),)] = const(len(n['a']))
        else:
            rec = self.P.recs[ty['rec']]
            items = []
            for b in rec.get('bases', []):
                items.append(('base', b))
            for f in rec.get('fields', []):
                items.append(('f', f))
            for it, e in zip(items, n['a']):
                if it[0] == 'base':
                    sts = [s2 for s in sts for s2, _ in self.ev(s, e, tgt=LV(loc, (), self.rec_type(self.P.recs[it[1]])))]
                else:
                    f = it[1]
                    sts = [s2 for s in sts for s2 in self.init_object(s, loc + (('f', f['n']),), f['t'], e)]
        if tgt is not None:
            return [(s, LV(loc, tgt.gens, n['t'])) for s in sts]
        return [(s, self.read_rec(s, loc, n['t'])) for s in sts]

    def e_lambda(self, st, n, tgt=None):
        rec = self.P.recs[n['rec']]
        caps = rec.setdefault('_caps', {})
        sts = [(st, {})]
        for c in n['caps']:
            nxt = []
            for s, ov in sts:
                if c.get('this'):
                    for s2, v in self.e_this(s, {'t': c.get('ft', -1), 'l': n['l']}):
                        o = dict(ov)
                        o[(('f', 'cap_this'),)] = v
                        nxt.append((s2, o))
                    continue
                if 'd' not in c:
                    nxt.append((s, ov))
                    continue
                caps[c['d']] = bool(c.get('ref'))
                for s2, v in self.ev(s, c['e']) if c.get('e') else [(s, None)]:
                    o = dict(ov)
                    key = (('f', f"cap{c['d']}"),)
                    if c.get('ref'):
                        if not isinstance(v, LV):
                            lv = self.fresh_loc('t')
                            self.write(s2, lv.loc, v)
                            v = lv
                        o[key] = ('ptr', v)
                    else:
                        ft = c.get('ft', -1)
                        if isinstance(v, LV):
                            v = self.load(s2, v, ft, n)
                        if isinstance(v, Rec):
                            o[key] = ('base', v.base)
                            for k, x in v.ov.items():
                                o[key + k] = x
                        else:
                            o[key] = v
                    nxt.append((s2, o))
            sts = nxt
        return [(s, Rec(('clo', n['rec']), ov, n['t'])) for s, ov in sts]

    # --- new / delete ----------------------------------------------------------------
    def e_new(self, st, n):
        t = n['at']
        out = []
        if n['place']:
            for s, ps in self.ev_list(st, n['place']):
                p = self.rv(s, ps[0])
                lv = self.deref(s, p, t)
                self.event(s, 'placement', n, loc=lv.loc, t=t)
                for s2 in self.new_init(s, lv, t, n):
                    out.append((s2, ('ptr', lv)))
            return out
        cnt = [(st, None)]
        if n.get('n'):
            cnt = [(s, self.rv(s, v, n['n']['t'])) for s, v in self.ev(st, n['n'])]
        for s, c in cnt:
            lv = self.fresh_loc('h', t)
            self.event(s, 'new', n, loc=lv.loc, t=t, n=c)
            if c is not None:
                s.mem[lv.loc] = ('base', None)
                s.mem[lv.loc + (('s', 'size'),)] = self.to_lin(c)
                out.append((s, ('ptr', LV(lv.loc + (('i', ZERO),), (), t))))
                continue
            s.mem[lv.loc] = ('base', None)
            for s2 in self.new_init(s, lv, t, n):
                out.append((s2, ('ptr', lv)))
        return out

    def new_init(self, st, lv, t, n):
        if not n.get('init'):
            return [st]
        return self.init_object(st, lv.loc, t, n['init'])

    def e_delete(self, st, n):
        out = []
        for s, v in self.ev(st, n['e']):
            v = self.rv(s, v)
            self.event(s, 'delete', n, ptr=v, array=n.get('array', False), t=self.P.pointee(n['e']['t']))
            out.append((s, ('void',)))
        return out

    def e_throw(self, st, n):
        if not n.get('e'):
            e = st.notes.get('current_exc') or Exc('rethrow')
            self.throw(st, e)
            return []
        for s, v in self.ev(st, n['e']):
            r = self.P.rec_of(n['tt'])
            name = r['bare'] if r else self.P.unqual_s(n['tt'])
            self.event(s, 'throw', n, name=name)
            self.throw(s, Exc(name, n['tt'], v if isinstance(v, Rec) else None, self.where(n)))
        return []

    # --- operators -------------------------------------------------------------------
    def e_cond(self, st, n, tgt=None):
        out = []
        for s, b in self.cond(st, n['c']):
            out += self.ev(s, n['a'] if b else n['b'], tgt)
        return out

    def e_un(self, st, n):
        op = n['op']
        if op == '!':
            return [(s, BTRUE if not b else BFALSE) for s, b in self.cond(st, n['e'])] if self.splits(n['e']) else \
                [(s, negate(self.pred(s, v))) for s, v in self.ev(st, n['e'])]
        out = []
        for s, v in self.ev(st, n['e']):
            if op == '*':
                if isinstance(v, LV):
                    v = self.read(s, v.loc, n['e']['t'])
                out.append((s, self.deref(s, v, n['t'])))
            elif op == '&':
                if isinstance(v, LV):
                    out.append((s, ('ptr', LV(v.loc, v.gens, v.t if v.t is not None else n['e'].get('t')))))
                else:
                    out.append((s, v))
            elif op in ('++', '--'):
                lv = v
                self.check_stale(s, lv, n)
                old = self.read(s, lv.loc, n['e']['t'])
                d = 1 if op == '++' else -1
                if self.P.ty(n['e']['t']).get('k') == 'ptr':
                    for s2, nv in self.ptr_add(s, old, const(d), n['e']['t']):
                        self.write(s2, lv.loc, nv, n)
                        out.append((s2, old if n.get('post') else lv))
                    continue
                nv = add(self.to_lin(old), const(d))
                self.write(s, lv.loc, nv, n)
                out.append((s, old if n.get('post') else lv))
            elif op == '-':
                out.append((s, scale(self.to_lin(self.rv(s, v)), -1)))
            elif op == '~':
                out.append((s, atom(('~', self.to_lin(self.rv(s, v))), nonneg=not self.P.ty(n['t']).get('signed'))))
            elif op in ('+', '__extension__'):
                out.append((s, v))
            else:
                out.append((s, self.opaque(s, n['t'])))
        return out

    def splits(self, n):
        return n['k'] == 'bin' and n['op'] in ('&&', '||')

    def pred(self, st, v):
        if isinstance(v, LV):
            v = self.read(st, v.loc)
        if is_lin(v):
            i = T.single_id(v)
            if i is not None and T.info(i)[0] == 'bool':
                return T.info(i)[1]
            return ('cmp', '!=', v)
        return v

    def wrap(self, st, x, uns, bits=64):
        if not self.wraps or not uns or not is_lin(x):
            return x
        if not x[2]:
            return const(x[1] & ((1 << bits) - 1))
        if st.facts.le(scale(x, -1)) is True and st.facts.le(sub(x, const((1 << bits) - 1))) is True:
            return x
        s = T.single_atom(x)
        if s is not None and s[0] == 'trunc' and s[1] <= bits and not s[2]:
            return x
        v = atom(('trunc', bits, False, x), nonneg=True)
        st.facts.assume_le(sub(v, const((1 << bits) - 1)))
        return v

    def ptr_add(self, st, p, k, t):
        """pointer plus k elements -> [(st, ptr)]"""
        sz = None
        to = self.P.pointee(t)
        if to is not None:
            sz = self.P.sizeof(to)
        if isinstance(p, LV):
            p = ('ptr', p)
        if isinstance(p, tuple) and p[0] == 'ptr':
            lv = p[1]
            if lv.loc[-1][0] == 'i' and (lv.t is None or to is None or self.P.sizeof(lv.t) in (None, sz)):
                loc = lv.loc[:-1] + (('i', add(lv.loc[-1][1], k)),)
                return [(st, ('ptr', LV(loc, lv.gens, lv.t)))]
            if is_const(k) and k[1] == 0:
                return [(st, p)]
            return [(st, self.wrap(st, add(self.to_lin(p), scale(k, sz or 1)), True))]
        p = self.to_lin(p)
        a = T.single_atom(p)
        if a and a[0] == 'addr' and a[1][-1][0] == 'i' and sz != 1:
            loc = a[1][:-1] + (('i', add(a[1][-1][1], k)),)
            return [(st, ('ptr', LV(loc, (), to)))]
        return [(st, self.wrap(st, add(p, scale(k, sz or 1)), True))]

    def assign_scalar(self, st, lv, v, n):
        self.check_stale(st, lv, n)
        self.write(st, lv.loc, v, n)
        if self.stores and (lv.loc[-1][0] == 'i' or lv.loc[0][0] == 'p'):
            self.event(st, 'store', n, loc=self.canon(st, lv.loc), val=v)

    def e_bin(self, st, n):
        op = n['op']
        if op in ('&&', '||'):
            return [(s, BTRUE if b else BFALSE) for s, b in self.cond(st, n)]
        if op == ',':
            out = []
            for s, _ in self.ev(st, n['a']):
                out += self.ev(s, n['b'])
            return out
        if op == '=':
            out = []
            # right operand is sequenced first
            for s, v in self.ev(st, n['b']):
                for s2, lv in self.ev(s, n['a']):
                    w = self.rv(s2, v, n['b']['t'])
                    self.assign_scalar(s2, lv, w, n)
                    out.append((s2, lv))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            bop = op[:-1]
            for s, v in self.ev(st, n['b']):
                for s2, lv in self.ev(s, n['a']):
                    old = self.read(s2, lv.loc, n['a']['t'])
                    w = self.rv(s2, v, n['b']['t'])
                    for s3, nv in self.arith(s2, bop, old, w, n['a']['t'], n['b']['t'], n.get('ct', n['t']), n):
                        self.assign_scalar(s3, lv, nv, n)
                        out.append((s3, lv))
            return out
        out = []
        for s, a in self.ev(st, n['a']):
            for s2, b in self.ev(s, n['b']):
                a2 = self.rv(s2, a, n['a']['t'])
                b2 = self.rv(s2, b, n['b']['t'])
                out += self.arith(s2, op, a2, b2, n['a']['t'], n['b']['t'], n['t'], n)
        return out

    def arith(self, st, op, a, b, ta, tb, tr, n):
        pa, pb = self.P.ty(ta).get('k') in ('ptr', 'array'), self.P.ty(tb).get('k') in ('ptr', 'array')
        if op in ('+', '-') and (pa or pb) and not (pa and pb):
            if pb:
                a, b, ta = b, a, tb
            k = self.to_lin(b)
            return self.ptr_add(st, a, k if op == '+' else scale(k, -1), ta)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return [(st, self.compare(st, op, a, b))]
        if op == '-' and pa and pb:
            d = self.ptr_diff(st, a, b, ta)
            return [(st, d)]
        if op in ('|', '&') and self.P.ty(tr).get('k') in ('bool', 'int') and \
                (self._isp(a) and self._isp(b)):
            return [(st, ('or' if op == '|' else 'and', self.pred(st, a), self.pred(st, b)))]
        x, y = self.to_lin(a), self.to_lin(b)
        x, y = st.facts.norm(x), st.facts.norm(y)
        uns = not self.P.ty(tr).get('signed', False)
        if op == '+':
            return [(st, self.wrap(st, add(x, y), uns))]
        if op == '-':
            if 'sub' in self.hooks:
                self.hooks['sub'](self, st, x, y, tr, n)
            return [(st, self.wrap(st, sub(x, y), uns))]
        if op == '*':
            return [(st, self.wrap(st, mul(x, y), uns))]
        if self.shifts and op in ('<<', '>>') and not is_const(y):
            self.event(st, 'shift', n, amount=y, t=tr)
        if is_const(x) and is_const(y):
            c, d = x[1], y[1]
            r = None
            try:
                if op == '/':
                    r = abs(c) // abs(d) * (1 if (c < 0) == (d < 0) else -1)
                elif op == '%':
                    r = c - d * (abs(c) // abs(d) * (1 if (c < 0) == (d < 0) else -1))
                elif op == '<<':
                    r = c << d
                elif op == '>>':
                    r = c >> d
                elif op == '&':
                    r = c & d
                elif op == '|':
                    r = c | d
                elif op == '^':
                    r = c ^ d
            except (ZeroDivisionError, ValueError):
                r = None
            if r is not None:
                return [(st, const(r))]
        if op == '<<' and is_const(y) and 0 <= y[1] < 64:
            return [(st, scale(x, 1 << y[1]))]
        if op == '>>' and is_const(y) and 0 <= y[1] < 64:
            op, y = '/', const(1 << y[1])
        # x & (2^k - 1)  and  x % 2^k are the same value for unsigned x
        if op == '&':
            if is_const(x) and not is_const(y):
                x, y = y, x
            if is_const(y) and y[1] >= 0 and (y[1] & (y[1] + 1)) == 0:
                op, y = '%', const(y[1] + 1)
        if op == '/' and is_const(y) and y[1] == 1:
            return [(st, x)]
        name = {'/': 'div', '%': 'mod', '&': 'and', '|': 'ior', '^': 'xor', '<<': 'shl', '>>': 'shr'}.get(op)
        if name is None:
            return [(st, self.opaque(st, tr))]
        if name in ('and', 'ior', 'xor') and y < x:
            x, y = y, x
        nonneg = uns or (T.nonneg_lin(x) and T.nonneg_lin(y))
        v = atom((name, x, y), nonneg=nonneg)
        if name == 'and' and self.wraps and uns:
            for y2 in (x, y):
                if T.nonneg_lin(y2) or st.facts.le(scale(y2, -1)) is True:
                    st.facts.assume_le(sub(v, y2))
        if name in ('mod', 'div') and is_const(x) and x[1] == 0:
            return [(st, const(0))]
        if name == 'mod' and nonneg:
            st.facts.assume_le(add(sub(v, y), ONE)) if (is_const(y) and y[1] > 0) else None
        if name == 'div' and nonneg and is_const(y) and y[1] > 0:
            # y*v <= x < y*v + y
            st.facts.assume_le(sub(scale(v, y[1]), x))
            st.facts.assume_le(add(sub(x, scale(v, y[1])), const(1 - y[1])))
        return [(st, v)]

    def _isp(self, v):
        return isinstance(v, tuple) and v and (v[0] in ('cmp', 'B', 'not', 'and', 'or') or
                                               (is_lin(v) and T.single_id(v) in T.BOOL))

    def ptr_diff(self, st, a, b, t):
        if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr':
            la, lb = a[1].loc, b[1].loc
            if la[:-1] == lb[:-1] and la[-1][0] == 'i' and lb[-1][0] == 'i':
                return sub(la[-1][1], lb[-1][1])
        d = sub(self.to_lin(a), self.to_lin(b))
        sz = self.P.sizeof(self.P.pointee(t)) if self.P.pointee(t) is not None else 1
        if sz in (1, None):
            return d
        if d[1] % sz == 0 and all(k % sz == 0 for _, k in d[2]):
            return ('L', d[1] // sz, tuple((x, k // sz) for x, k in d[2]))
        return atom(('div', d, const(sz)))

    def compare(self, st, op, a, b):
        if isinstance(a, Rec) or isinstance(b, Rec):
            return T.fresh('unk', boolean=True, nonneg=True)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'B' and y[0] in ('cmp', 'B', 'not', 'and', 'or'):
                    p = y if x[1] else negate(y)
                    return p if op == '==' else negate(p)
        if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr':
            la, lb = a[1].loc, b[1].loc
            if la[:-1] == lb[:-1] and la[-1] != lb[-1] and la[-1][0] == 'i' and lb[-1][0] == 'i':
                a, b = la[-1][1], lb[-1][1]
        x, y = self.to_lin(a), self.to_lin(b)
        d = sub(x, y)
        if op in ('==', '!='):
            p = ('cmp', op, d)
        elif op == '<':
            p = ('cmp', '<=', add(d, ONE))
        elif op == '<=':
            p = ('cmp', '<=', d)
        elif op == '>':
            p = ('cmp', '<=', add(scale(d, -1), ONE))
        else:
            p = ('cmp', '<=', scale(d, -1))
        s = self.simplify(st, p)
        if s is not None:
            return ('B', s)
        return p

    # --- calls -----------------------------------------------------------------------
    def e_call(self, st, n, tgt=None):
        f = self.P.funcs[n['f']]
        out = []
        if 'obj' in n:
            objs = self.ev(st, n['obj'])
            if n.get('asg'):
                # assignment operators evaluate the right operand first
                objs = None
        if 'obj' in n and objs is None:
            for s, args in self.ev_list(st, n['a']):
                for s2, o in self.ev(s, n['obj']):
                    out += self.call_method(s2, n, f, o, args, tgt)
            return out
        if 'obj' in n:
            for s, o in objs:
                for s2, args in self.ev_list(s, n['a']):
                    out += self.call_method(s2, n, f, o, args, tgt)
            return out
        for s, args in self.ev_list(st, n['a']):
            out += self.call(s, n['f'], None, args, n)
        return out

    def call_method(self, st, n, f, o, args, tgt=None):
        if n.get('arrow'):
            if isinstance(o, LV):
                o = self.read(st, o.loc, n['obj'].get('t'))
            lv = self.deref(st, o, self.P.pointee(n['obj']['t']))
        elif isinstance(o, LV):
            lv = o
        elif isinstance(o, Rec):
            lv = self.fresh_loc('t', n['obj'].get('t'))
            self.write(st, lv.loc, o)
        else:
            lv = self.deref(st, o, n['obj'].get('t'))
        self.check_stale(st, lv, n)
        if f.get('static'):
            return self.call(st, n['f'], None, args, n)
        if f.get('kind') == 'dtor':
            self.event(st, 'destroy', n, loc=lv.loc, t=n['obj'].get('t') if not n.get('arrow') else self.P.pointee(n['obj']['t']))
            if 'body' in f:
                return self.call(st, n['f'], lv, [], n)
            return [(st, ('void',))]
        if f.get('special') in ('copyassign', 'moveassign') and (f.get('defaulted') or f.get('implicit') or f.get('trivial')) \
                and not self.P.recs[f['rec']]['bare'].startswith('std::'):
            src = args[0]
            v = self.read_rec(st, src.loc) if isinstance(src, LV) else src
            if isinstance(src, LV):
                self.check_stale(st, src, n)
            h = self.hooks.get('assign')
            if h:
                h(self, st, f, lv, src, n)
            if isinstance(v, Rec) and not (isinstance(src, LV) and self.canon(st, src.loc) == self.canon(st, lv.loc)):
                self.write(st, lv.loc, v, n)
                if f['special'] == 'moveassign' and isinstance(src, LV):
                    self.moved_from(st, src.loc, self.P.recs[f['rec']])
            return [(st, lv)]
        if n.get('virt') and f.get('virtual'):
            r = self.dispatch(st, n, f, lv, args)
            if r is not None:
                return r
        if f.get('defaulted') and f.get('op') in ('==', '<=>', '<', '>', '<=', '>=', '!=') :
            r = self.models.map_iterator_op(self, st, f, lv, args, n)
            if r is not None:
                return r
            return self.default_compare(st, f, lv, args[0], n)
        return self.call(st, n['f'], lv, args, n)

    def dispatch(self, st, n, f, lv, args):
        h = self.hooks.get('virtual')
        if h:
            r = h(self, st, f, lv, args, n)
            if r is not None:
                return r
        ov = self.all_overriders(f['id'])
        dt = st.notes.get(('dyn', lv.loc))
        if dt is not None:
            for o in ov + [f['id']]:
                if self.P.funcs[o].get('rec') == dt and 'body' in self.P.funcs[o]:
                    return self.call(st, o, lv, args, n)
        self.event(st, 'vcall', n, f=f['bare'], obj=lv, args=args)
        return [(st, self.opaque(st, f['ret'], 'vcall'))]

    def all_overriders(self, fid):
        out = []
        for o in self.P.overriders.get(fid, []):
            out.append(o)
            out += self.all_overriders(o)
        return out

    def default_compare(self, st, f, lv, other, n):
        rec = self.P.recs[f['rec']]
        if not isinstance(other, LV):
            o = self.fresh_loc('t')
            self.write(st, o.loc, other)
            other = o
        ps = []
        for fld in self.P.all_fields(rec):
            t = fld['t']
            if self.P.ty(t).get('k') in ('rec', 'array', 'ref', 'rref'):
                ps = None
                break
            a = self.read(st, lv.loc + (('f', fld['n']),), t)
            b = self.read(st, other.loc + (('f', fld['n']),), t)
            ps.append(self.compare(st, '==', a, b))
        if ps is None:
            r = self.models.iter_compare(self, st, lv, other, rec)
            if r is not None:
                eq = r
            else:
                eq = T.fresh('unk', boolean=True, nonneg=True)
        else:
            eq = ('and',) + tuple(ps) if len(ps) != 1 else ps[0]
            if len(ps) == 0:
                eq = BTRUE
        op = f.get('op')
        if op == '==':
            return [(st, eq)]
        if op == '!=':
            return [(st, negate(eq))]
        # three-way: an opaque ordering whose equality test is known
        v = Rec(('unk', T.fresh_n()))
        v.ov[(('s', 'eq'),)] = eq
        return [(st, v)]

    def e_icall(self, st, n, tgt=None):
        out = []
        for s, fv in self.ev(st, n['fn']):
            if isinstance(fv, LV):
                fv = self.read(s, fv.loc, n['fn'].get('t'))
            for s2, args in self.ev_list(s, n['a']):
                if isinstance(fv, tuple) and fv[0] == 'fn':
                    out += self.call(s2, fv[1], None, args, n)
                    continue
                h = self.hooks.get('icall')
                if h:
                    r = h(self, s2, fv, args, n)
                    if r is not None:
                        out += r
                        continue
                self.event(s2, 'icall', n, fn=fv, args=[self.rv(s2, a) for a in args])
                out.append((s2, self.opaque(s2, n['t'], 'icall')))
        return out

    # --- entry -----------------------------------------------------------------------
    def run(self, f, args=None, this=None, st=None):
        """analyse driver function f; returns [(st, ('return', v) | ('throw', Exc))]"""
        st = st or St()
        self.sink = []
        if args is None:
            args = self.symbolic_args(st, f)
        outs = self.call(st, f['id'], this, args, {'l': f.get('line', 0), 'k': 'call'})
        res = [(s, ('return', v)) for s, v in outs]
        res += [(s, ('throw', e)) for s, e in self.sink]
        self.sink = []
        if LOG is not None:
            for s, r in res:
                for lv in refs_in(r[1]) if r[0] == 'return' else ():
                    LOG['checks'] += 1
                    for c, n in lv.gens:
                        if s.gens.get(c, 0) != n:
                            LOG['stale'].append((self.P.where(f['id']) + ' ' + self.P.fname(f['id']) + ' (what it returns)', c,
                                                 [f'{w}: {"taken" if x else "not taken"}' for w, p, x in s.path if w]))
                for k, v in s.mem.items():
                    if k[0][0] in ('o', 'g') and isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) and v[1].gens:
                        LOG['stored'].append((self.P.where(f['id']) + ' ' + self.P.fname(f['id']), k, v[1], [f'{w}: {"taken" if x else "not taken"}' for w, p, x in s.path if w]))
        return res

    def symbolic_args(self, st, f):
        args = []
        for p in f['params']:
            t = p['t']
            ty = self.P.ty(t)
            if ty.get('k') in ('ref', 'rref'):
                args.append(LV((('o', p['n']),), (), ty['to']))
            elif ty.get('k') == 'rec':
                args.append(Rec(('init', (('o', p['n']),)), t=t))
            elif ty.get('k') == 'ptr':
                args.append(('ptr', LV((('o', p['n']),), (), ty['to'])))
            else:
                v = atom(('init', (('o', p['n']),)))
                self.mark_type(v, ty)
                args.append(v)
        return args
