"""The pool of entity handles: state, invariants and what every operation does to them (C01, C02).

State of a pool, found by role: N (next unused id), c (cursor: how many free slots are not reserved; negative: ids reserved
beyond the table), G (size of the generation table), F (size of the list of free ids).
Invariant: max(c, 0) <= F and N - G = max(0, -c); the first max(c, 0) entries of the list are the slots that may be handed out.
"""
from . import terms as T
from .terms import sub, add, const, scale, is_lin
from .interp import Interp, Analysis, LV, Rec
from .world import ABS
from . import schedmodel as S

ONE = const(1)
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall')


class NoModel(Exception):
    pass


class Pool:
    def __init__(self, P):
        self.P = P
        self.rec = next((r for r in P.recs.values() if r['bare'] == 'co_ecs::detail::handle_pool'), None)
        if self.rec is None:
            raise NoModel('no pool of handles')
        self.roles()

    def interp(self, volatile=False):
        I = Interp(self.P, abstract=ABS, user_throw=False)
        I.exact_maps = True
        I.volatile_atomics = volatile
        return I

    def runs(self, name, volatile=False):
        f = self.P.driver(name)
        if f is None:
            raise NoModel(f'{name} missing')
        I = self.interp(volatile)
        try:
            res = I.run(f)
        except Analysis as e:
            raise NoModel(f'{name}: {e}')
        return I, [(st, v) for st, (how, v) in res if how == 'return']

    def roles(self):
        P = self.P
        table = set()
        I, res = self.runs('drv_alive')
        for st, v in res:
            for e in st.ev:
                if e.kind in ('index', 'back') and e.cont[0] == ('o', 'p'):
                    table.add(e.cont[1])
        if len(table) != 1:
            raise NoModel('the generation table was not found')
        self.G = table.pop()
        self.c = self.N = self.F = None
        for x in self.rec['fields']:
            t = P.ty(x['t'])
            fld = ('f', x['n'])
            if fld == self.G or t.get('k') != 'rec':
                continue
            s = t.get('s', '')
            if 'vector' in s:
                if self.F:
                    raise NoModel('several lists of ids')
                self.F = fld
            elif 'atomic' in s:
                inner = s[s.find('<') + 1:]
                if inner.startswith('unsigned'):
                    if self.N:
                        raise NoModel('several counters')
                    self.N = fld
                else:
                    if self.c:
                        raise NoModel('several cursors')
                    self.c = fld
        if not (self.c and self.N and self.F):
            raise NoModel('state of the pool not found')
        self.hid = self.accessor('drv_id')
        self.hgen = self.accessor('drv_gen')

    def accessor(self, name):
        I, res = self.runs(name)
        if len(res) == 1 and is_lin(res[0][1]):
            a = T.single_atom(res[0][1])
            if a is not None and a[0] == 'init' and len(a[1]) == 2:
                return a[1][1]
        raise NoModel(f'{name}: not a field of the handle')

    # --- reading a state ------------------------------------------------------------
    def locs(self, base):
        return {'N': base + (self.N, ('f', 'v')), 'c': base + (self.c, ('f', 'v')), 'G': base + (self.G, ('s', 'size')),
                'F': base + (self.F, ('s', 'size'))}

    def now(self, I, st, base):
        return {k: I.to_lin(st.mem[l]) if l in st.mem else self.then(base)[k] for k, l in self.locs(base).items()}

    def then(self, base):
        return {k: T.atom(('init', l), nonneg=(k != 'c')) for k, l in self.locs(base).items()}

    def part(self, I, st, v, fld):
        """field of a handle value"""
        if isinstance(v, LV):
            return I.to_lin(I.read(st, v.loc + (fld,)))
        if isinstance(v, Rec):
            for k, x in v.ov.items():
                if k == (fld,):
                    return I.to_lin(x)
            if isinstance(v.base, tuple) and v.base and v.base[0] == 'init':
                return T.atom(('init', v.base[1] + (fld,)), nonneg=True)
        return None


def cases(st, z):
    """fact sets of a path under the invariant: nothing reserved beyond the table / ids reserved beyond it"""
    out = []
    for neg in (False, True):
        f = st.facts.copy()
        if neg:
            f.assume_le(add(z['c'], ONE))
            if not f.dead:
                f.assume_eq(add(sub(z['N'], z['G']), z['c']))
        else:
            f.assume_le(scale(z['c'], -1))
            if not f.dead:
                f.assume_le(sub(z['c'], z['F']))
            if not f.dead:
                f.assume_eq(sub(z['N'], z['G']))
        if not f.dead and any(f.le(x) is False for x in st.facts.les):
            f.dead = True
        if not f.dead:
            out.append((neg, f))
    return out


def vague(*xs):
    """the analysis did not keep track of a value"""
    for x in xs:
        if x is None or T.tainted(x):
            return True
        for a, k in x[2]:
            if T.info(a)[0] in ('hv', 'iter', 'ld'):
                return True
    return False


class Report:
    def __init__(self, ctx, name, pool, I, st, base):
        self.ctx, self.name, self.pool, self.I, self.st, self.base = ctx, name, pool, I, st, base
        own = [fid for fid in I.inlined if 'rec' in pool.P.funcs[fid] and pool.P.recs[pool.P.funcs[fid]['rec']]['bare'] == pool.rec['bare']]
        short = name.split('_')[-1].lstrip('r')
        fids = [fid for fid in own if pool.P.funcs[fid]['name'].endswith(short) or short.endswith(pool.P.funcs[fid]['name'])] or own or list(I.inlined)
        self.where = pool.P.where(sorted(fids, key=str)[0]) if fids else 'include/co_ecs/detail/handle.hpp'

    def ok(self, rule):
        self.ctx.ob(rule)

    def bad(self, rule, msg, ev=None):
        w = self.pool.P.where(ev.fid, ev.line) if ev is not None else self.where
        self.ctx.fail(rule, w, msg, S.path_of(self.st), key=f'{rule}|{msg}|{self.name}')

    def und(self, rule, msg):
        self.ctx.undecide(rule, f'{self.name}: {msg}')

    def le(self, rule, f, x, msg, ev=None):
        """x <= 0 under the facts"""
        if x is None:
            return self.und(rule, 'value not known')
        d = f.le(x)
        if d is True:
            return self.ok(rule)
        if d is None and vague(f.norm(x)):
            return self.und(rule, msg + ' cannot be excluded')
        self.bad(rule, msg, ev)

    def eq(self, rule, f, x, msg, ev=None):
        if x is None:
            return self.und(rule, 'value not known')
        d = f.eq(x)
        if d is True:
            return self.ok(rule)
        if d is None and vague(f.norm(x)):
            return self.und(rule, msg + ' cannot be excluded')
        self.bad(rule, msg, ev)


def element_of(x, cont):
    """index of the initial element of a container a value is, or None"""
    a = T.single_atom(x) if is_lin(x) else None
    if a is not None and a[0] == 'init' and a[1][:len(cont)] == cont and len(a[1]) == len(cont) + 1 and a[1][-1][0] == 'i':
        return a[1][-1][1]
    return None


def gen_writes(pool, st, base):
    """[(index, value)] of entries of the generation table changed on a path"""
    out = []
    tab = base + (pool.G,)
    loops = any(e.kind in ('push', 'resize') for l in st.ev if l.kind == 'loop' for tr in l.d.get('traces') or () for e in S.flat(tr[0])
                if e.d.get('cont') == tab)
    for k, v in st.mem.items():
        if k[:len(tab)] == tab and len(k) == len(tab) + 1 and k[-1][0] == 'i':
            if isinstance(v, tuple) and v and v[0] == 'base' and loops:
                continue            # entries added by a loop
            out.append((k[-1][1], v))
    return out


def effects(pool, st, base, fld):
    cont = base + (fld,)
    return [e for e in S.flat(st.ev) if e.d.get('cont') == cont]


def unknown(st):
    return [e for e in S.flat(st.ev) if e.kind in BAD]
