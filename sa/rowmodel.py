"""Row model of component storage.

Every path of a public operation is replayed on an abstract picture of the storage: which rows of which
chunk hold a component of which class, which entity each row belongs to, how many rows a chunk claims,
and where the location map says every entity is.  Keys are treated per class (the entity handle, every
component type named on the path, and one generic component standing for all others)."""
from . import terms as T
from .terms import ZERO, ONE, const, add, sub, scale, atom, is_lin
from .interp import Interp, LV, Rec, BTRUE, BFALSE, negate, Analysis, Exc
from .world import World, ABS, Anchor

SET = ('s', 'set')
SIZE = ('s', 'size')
GEN = ('class', 'any other component')


class Undecided(Exception):
    pass


class Split(Exception):
    def __init__(self, pred):
        self.pred = pred


class Choice(Exception):
    def __init__(self, key, options):
        self.key = key
        self.options = options


class Bad(Exception):
    """a rule is broken on this path"""
    def __init__(self, tag, msg, ev=None):
        self.tag = tag
        self.msg = msg
        self.ev = ev


def subst_lin(x, aid, y):
    """replace atom aid by y at the top level of x"""
    for a, c in x[2]:
        if a == aid:
            return add(add(x, ('L', 0, ((a, 1),)), -c), y, c)
    return x


def atoms_in(x, out=None):
    """all atoms, at any depth, of a term"""
    if out is None:
        out = set()
    if is_lin(x):
        for a, _ in x[2]:
            if a not in out:
                out.add(a)
                atoms_in(T.info(a), out)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                atoms_in(y, out)
    return out


def show_pred(p):
    if p[0] == 'cmp':
        return f'{T.show(p[2])} {p[1]} 0'
    return p[0] + '(' + ', '.join(show_pred(x) for x in p[1:] if isinstance(x, tuple)) + ')'


class Storage:
    """library facts shared by all path analyses of one program"""

    def congruent(self, f):
        """sizes of the same chunk under two names are equal"""
        seen = []
        terms = f.facts.les + f.facts.nes + list(f.facts.eqs.values())
        ids = {a for t in terms for a, _ in t[2]} | set(f.facts.eqs)
        for i in sorted(ids):
            a = T._info[i]
            if isinstance(a, tuple) and a and a[0] == 'init' and len(a[1]) > 2 and a[1][-1] == self.W.c_size and a[1][-2][0] == 'i':
                seen.append((i, a[1][:-2], a[1][-2][1]))
        for x, (i, A, c) in enumerate(seen):
            for j, B, d in seen[x + 1:]:
                if A == B and f.facts.eq(sub(c, d)) is True:
                    f.facts.assume_eq(sub(('L', 0, ((i, 1),)), ('L', 0, ((j, 1),))))
                    if f.facts.dead:
                        return False
        return True

    def __init__(self, P):
        self.P = P
        self.W = World(P)
        self.loc_fields()
        self.meta_roles()
        self.entity_id_field()

    # ------------------------------------------------------------------ anchors
    def loc_fields(self):
        P = self.P
        fs = self.W.loc_rec['fields']
        arch = [f['n'] for f in fs if P.ty(f['t']).get('k') == 'ptr']
        ints = [f['n'] for f in fs if P.ty(f['t']).get('k') == 'int']
        if len(arch) != 1 or len(ints) != 2:
            raise Anchor('fields of an entity location not identifiable')
        ch = [n for n in ints if 'chunk' in n]
        if len(ch) != 1:
            raise Anchor('chunk index of an entity location not identifiable')
        self.l_arch = ('f', arch[0])
        self.l_chunk = ('f', ch[0])
        self.l_row = ('f', [n for n in ints if n != ch[0]][0])

    def entity_id_field(self):
        P = self.P
        self.handle_rec = None
        for f in P.funcs.values():
            r = P.recs.get(f.get('rec'))
            if r and f['name'] == 'id' and not f['params'] and r['bare'].startswith('co_ecs::detail::handle') and \
                    'pool' not in r['bare'] and 'body' in f:
                for n in P.walk(f['body']):
                    if n.get('k') == 'return':
                        for m in P.walk(n):
                            if m.get('k') == 'mem':
                                self.handle_rec = r
                                self.id_field = ('f', m['f'])
                                return
        raise Anchor('the ID accessor of an entity handle is not readable')

    def meta_roles(self):
        """what each member of the type description does, by behaviour"""
        P = self.P
        self.roles = {}
        self.may_throw = set()
        self.meta_impl = {}
        rec = self.W.meta_rec
        sizes = {}
        for f in list(P.funcs.values()):
            if 'body' not in f:
                continue
            for n in P.walk(f['body']):
                if n.get('k') != 'initlist' or n.get('rec') != rec['id']:
                    continue
                for fld, a in zip(rec['fields'], n['a']):
                    for m in P.walk(a):
                        g = self.fn_node(m)
                        if g is not None:
                            self.meta_impl.setdefault(fld['n'], [])
                            if g['id'] in [x['id'] for x in self.meta_impl[fld['n']]]:
                                continue
                            self.meta_impl[fld['n']].append(g)
                            role, throws = self.behaviour(g)
                            if throws:
                                self.may_throw.add(fld['n'])
                            if role:
                                self.roles.setdefault(fld['n'], set()).add(role)
                            break
        nonnull = set(self.meta_impl)
        for f in list(P.funcs.values()):
            for n in P.walk(f.get('body')) if 'body' in f else ():
                if n.get('k') == 'initlist' and n.get('rec') == rec['id']:
                    for fld, a in zip(rec['fields'], n['a']):
                        if not any(self.fn_node(m) is not None for m in P.walk(a)):
                            nonnull.discard(fld['n'])
        self.W.nonnull_meta = {('f', x) for x in nonnull}
        names = {}
        for fld, rs in self.roles.items():
            rs = set(rs)
            if len(rs) == 1:
                names[fld] = rs.pop()
            elif rs:
                names[fld] = sorted(rs)[0] if not rs - {'copy', 'copy or move'} else None
        self.roles = names
        if not {'move', 'assign', 'destruct'} <= set(names.values()):
            raise Anchor(f'type-erased operations not identifiable ({names})')
        self.f_size = ('f', 'size')
        self.f_align = ('f', 'align')
        if not any(f['n'] == 'size' for f in rec['fields']):
            raise Anchor('size of a type description not identifiable')

    def fn_node(self, m):
        """function a syntax node designates"""
        P = self.P
        if m.get('k') == 'fn' and 'body' in P.funcs.get(m['f'], {}):
            return P.funcs[m['f']]
        if m.get('k') == 'lambda':
            for f in P.funcs.values():
                if f.get('rec') == m.get('rec') and f['name'] == 'operator()' and 'body' in f:
                    return f
        return None

    def behaviour(self, g):
        """(role of a type-erased operation instantiated for a client type with non-trivial operations, can it throw)"""
        I = Interp(self.P, abstract=ABS, user_throw=True)
        try:
            res = I.run(g)
        except Analysis:
            return None, not g.get('noexcept')
        out = set()
        throws = not g.get('noexcept') and any(how == 'throw' for _, (how, _v) in res)
        for st, v in res:
            for e in st.ev:
                if e.kind == 'uctor' and e.how == 'copyctor':
                    out.add('copy')
                elif e.kind == 'uctor' and e.how == 'movector':
                    out.add('move')
                elif e.kind == 'usercall' and e.f.endswith('operator='):
                    out.add('assign')
                elif e.kind in ('destroy', 'dtor') and self.user_rec(e.t):
                    out.add('destruct')
        return (out.pop() if len(out) == 1 else None), throws

    def user_rec(self, t):
        r = self.P.rec_of(t)
        return r is not None and not r['bare'].startswith(('std::', 'co_ecs::'))

    # ------------------------------------------------------------------ addresses
    def chunk_of_buf(self, a):
        """(arch loc, chunk index) of a buffer atom"""
        if a[0] == 'init' and a[1][-1] == self.W.c_buf:
            return self.W.split_chunk(a[1][:-1])
        return None

    def decode(self, st, x):
        """address -> (arch loc, chunk index, key, row) or None when it is no address in a chunk;
        row None when the offset is not a multiple of the component size"""
        if not is_lin(x):
            return None
        x = st.facts.norm(x)
        W = self.W
        ch = key = off = None
        rest = x
        for a, c in x[2]:
            i = T.info(a)
            if c == 1:
                b = self.chunk_of_buf(i)
                if b:
                    if ch:
                        return None
                    ch = b
                    rest = sub(rest, ('L', 0, ((a, 1),)))
                    continue
                if i[0] == 'init' and len(i[1]) > 3 and i[1][-1] == W.b_off and i[1][-3] == W.a_blocks and i[1][-2][0] == 'k':
                    if key is not None:
                        return None
                    key = i[1][-2][1]
                    off = i[1][:-3]
                    rest = sub(rest, ('L', 0, ((a, 1),)))
                    continue
                hb = self.heap_buf(st, a)
                if hb:
                    if ch:
                        return None
                    ch = hb
                    rest = sub(rest, ('L', 0, ((a, 1),)))
        if ch is None:
            return None
        return ch[0], ch[1], key, self.row(st, rest, key), off

    def heap_buf(self, st, a):
        i = T.info(a)
        if i[0] != 'addr' or i[1][0][0] != 'h':
            return None
        m = st.notes.get('hbuf')
        if m is None:
            m = {}
            for k, v in st.mem.items():
                if k[-1] == self.W.c_buf:
                    c = self.W.split_chunk(k[:-1])
                    if c:
                        if v[0] == 'ptr':
                            m[v[1].loc[0]] = c
                        elif is_lin(v) and T.single_atom(v) and T.single_atom(v)[0] == 'addr':
                            m[T.single_atom(v)[1][0]] = c
            st.notes['hbuf'] = m
        return m.get(i[1][0])

    def is_size(self, i, key):
        """atom i is the size in the type description of key (in whatever archetype)"""
        if i[0] != 'init' or i[1][-1] != self.f_size:
            return False
        l = i[1]
        if l[0][0] == 'p' and len(l) == 2:
            b = T.single_atom(l[0][1])
            if b and b[0] == 'init':
                l = b[1] + ((None,),)
        for j in range(len(l) - 1):
            if l[j] == self.W.a_blocks and l[j + 1][0] == 'k':
                return l[j + 1][1] == key
        return False

    def row(self, st, rest, key):
        if key is None:
            return None
        k = T.single_atom(key)
        n = self.sizeof_key(k)
        row = ZERO
        if n is not None:
            if rest[1] % n or any(c % n for _, c in rest[2]):
                # a product with the size from the type description
                pass
            else:
                return ('L', rest[1] // n, tuple((a, c // n) for a, c in rest[2]))
        if rest[1]:
            return None
        for a, c in rest[2]:
            i = T.info(a)
            if self.is_size(i, key):
                row = add(row, const(c))
            elif i[0] == 'mul':
                f1, f2 = T.single_atom(i[1]), T.single_atom(i[2])
                if f1 and self.is_size(f1, key):
                    row = add(row, i[2], c)
                elif f2 and self.is_size(f2, key):
                    row = add(row, i[1], c)
                else:
                    return None
            else:
                return None
        return row

    def sizeof_key(self, k):
        if not k or k[0] != 'typeid':
            return None
        t = k[2] if len(k) > 2 else None
        for i, ty in enumerate(self.P.types):
            if ty.get('k') == 'rec' and ty['s'].replace('const ', '') == k[1] and self.P.recs[ty['rec']].get('size'):
                return self.P.recs[ty['rec']]['size']
        return None

    def typeid_of(self, t):
        return self.P.ty(t)['s'].replace('const ', '')

    # ------------------------------------------------------------------ archetypes
    def arch_info(self, I, st, A):
        """(registry root, set term)"""
        W = self.W
        S = None
        try:
            S = W.set_of_arch(I, st, A)
        except Exception:
            pass
        reg = None
        if len(A) == 1 and A[0][0] == 'o' and A[0][1].startswith('arch#'):
            reg = st.notes['newarch'][A][0]
        elif len(A) == 1 and A[0][0] == 'p':
            a = T.single_atom(A[0][1])
            if a and a[0] == 'init':
                l = a[1]
                for j in range(len(l)):
                    if l[j] in (W.r_map, W.r_archs):
                        reg = l[:j]
                        break
        return reg, S

    def arch_eq(self, I, st, A, B):
        A, B = I.canon(st, A + (('f', '_'),))[:-1], I.canon(st, B + (('f', '_'),))[:-1]
        if A == B:
            return True
        ra, sa = self.arch_info(I, st, A)
        rb, sb = self.arch_info(I, st, B)
        if ra is not None and rb is not None and ra != rb:
            return False
        for X in (A, B):
            if X[0][0] == 'o' and X[0][1].startswith('arch#'):
                return False
        if sa is None or sb is None:
            return None
        sa, sb = st.facts.norm(sa), st.facts.norm(sb)
        if sa == sb and ra == rb and ra is not None:
            return True
        for s, t in ((sa, sb), (sb, sa)):
            a = T.single_atom(s)
            while a and a[0] in ('setins', 'setdel'):
                p = I.simplify(st, I.models.set_has(I, st, t, a[2]))
                if a[0] == 'setins' and p is False or a[0] == 'setdel' and p is True:
                    return False
                a = T.single_atom(a[1])
        return None


class Hooks:
    """abstraction of the handle pool and of archetype creation while a public operation is analysed"""

    def __init__(self, S):
        self.S = S
        self.bypass = 0
        self.count = 0

    def make(self):
        return self.S.W.hooks(call=self.call, write=self.write, icall=self.icall, key_eq=self.key_eq)

    # --- handle pool ---------------------------------------------------------------
    def call(self, I, st, f, this, args, node):
        P, W = self.S.P, self.S.W
        rec = P.recs.get(f.get('rec'))
        if rec is None:
            return None
        if rec['id'] == W.pool_rec['id'] and f.get('kind') not in ('ctor', 'dtor'):
            return self.pool(I, st, f, this, args, node)
        if rec['id'] == W.archs_rec['id'] and not self.bypass and P.ty(f['ret']).get('k') == 'ptr' and \
                (P.rec_of(P.pointee(f['ret'])) or {}).get('id') == W.arch_rec['id']:
            return self.archetype_maker(I, st, f, this, args, node)
        return None

    def handle(self, I, st, v):
        if isinstance(v, LV):
            v = I.read_rec(st, v.loc)
        return v

    def hid(self, I, st, v):
        """identity of a handle value"""
        v = self.handle(I, st, v)
        if isinstance(v, Rec):
            lv = I.fresh_loc('t')
            I.write(st, lv.loc, v)
            r = I.read(st, lv.loc + (self.S.id_field,))
            I.clear_below(st, lv.loc)
            return st.facts.norm(r) if is_lin(r) else r
        return v

    def pool(self, I, st, f, this, args, node):
        n = f['name']
        loc = I.canon(st, this.loc)
        reg = loc[:-1]
        if n in ('create', 'reserve'):
            self.count += 1
            base = ('init', (('o', f'new#{self.count}'),))
            v = Rec(base, t=f['ret'])
            h = self.hid(I, st, v)
            T.NONNEG.add(T.single_id(h))
            I.event(st, 'pool', node, op=n, reg=reg, h=h)
            st.notes[('alive', reg, h)] = (n == 'create')
            return [(st, v)]
        if n == 'alive':
            h = self.hid(I, st, args[0])
            I.event(st, 'pool', node, op=n, reg=reg, h=h)
            k = st.notes.get(('alive', reg, h))
            if k is not None and n == 'alive' and k != 'reserved':
                return [(st, BTRUE if k else BFALSE)]
            return [(st, ('cmp', '!=', atom(('alive', reg, h), nonneg=True, boolean=True, taint=False)))]
        if n == 'recycle':
            h = self.hid(I, st, args[0])
            I.event(st, 'pool', node, op=n, reg=reg, h=h)
            st.notes[('alive', reg, h)] = False
            return [(st, ('void',))]
        if n == 'flush':
            I.event(st, 'pool', node, op=n, reg=reg, h=None)
            for k in [k for k in st.notes if isinstance(k, tuple) and k[0] == 'alive' and k[1] == reg and st.notes[k] is False
                      and T.single_atom(k[2]) and T.single_atom(k[2])[0] == 'init' and
                      T.single_atom(k[2])[1][0][1].startswith('new#')]:
                st.notes[k] = True
            return [(st, ('void',))]
        if f.get('static'):
            return None
        raise Analysis('unknown operation of the handle pool: ' + n)

    # --- archetypes ----------------------------------------------------------------
    def archetype_maker(self, I, st, f, this, args, node):
        W = self.S.W
        pre = st.copy()
        self.bypass += 1
        try:
            res = I.call(st, f['id'], this, args, node)
        finally:
            self.bypass -= 1
        cont = I.canon(pre, this.loc)
        reg = cont[:-1]
        out = []
        seen = set()
        for s, v in res:
            root = None
            if isinstance(v, tuple) and v and v[0] == 'ptr':
                root = v[1].loc
            elif is_lin(v):
                a = T.single_atom(v)
                if a and a[0] == 'addr':
                    root = a[1]
            if root is None or root[0][0] != 'h' or pre.mem.get(root) is not None:
                key = ('old', v if is_lin(v) else root, tuple(s.path[len(pre.path):]))
                if key not in seen:
                    seen.add(key)
                    out.append((s, v))
                continue
            r = self.new_archetype(I, pre, s, root, cont, reg, node)
            if r[0] in seen:
                continue
            seen.add(r[0])
            out.append((r[1], r[2]))
        return out

    def new_archetype(self, I, pre, s, root, cont, reg, node):
        W, S = self.S.W, self.S
        term = I.models.set_term(I, s, root + W.a_set)
        key = None
        for k, v in s.mem.items():
            if k[:len(cont) + 1] == cont + (W.as_map,) and len(k) > len(cont) + 1 and k[len(cont) + 1][0] == 'k':
                if (v[0] == 'ptr' and v[1].loc == root) or (is_lin(v) and T.single_atom(v) and T.single_atom(v) == ('addr', root)):
                    key = k[len(cont) + 1][1]
                    kpath = k
        problems = []
        if key is None:
            problems.append(('C24', 'a new archetype is returned without being stored'))
        elif s.facts.norm(key) != s.facts.norm(term) and not T.tainted(term) and not T.tainted(key):
            problems.append(('C24', f'an archetype with the component set {T.show(term)} is stored under {T.show(key)}'))
        n = I.read(s, root + (W.a_chunks, SIZE))
        if s.facts.norm(n) != ONE if is_lin(n) else True:
            problems.append(('C04', 'a new archetype does not start with one chunk'))
        else:
            c0 = root + (W.a_chunks, ('i', ZERO))
            z = I.read(s, c0 + (W.c_size,))
            if not is_lin(z) or s.facts.norm(z) != ZERO:
                problems.append(('C04', 'the first chunk of a new archetype does not start empty'))
            m, m2 = I.read(s, c0 + (W.c_max,)), I.read(s, root + (W.a_max,))
            if is_lin(m) and is_lin(m2) and s.facts.eq(sub(m, m2)) is not True and not T.tainted(m) and not T.tainted(m2):
                problems.append(('C15', 'the capacity of a chunk differs from that of its archetype'))
            b = I.read(s, c0 + (W.c_blocks,))
            if b[0] == 'ptr' and b[1].loc != root + (W.a_blocks,):
                problems.append(('C15', 'a chunk does not use the blocks of its archetype'))
        self.count += 1
        a = (('o', f'arch#{self.count}'),)
        q = pre.copy()
        q.ev = list(pre.ev)
        for e in s.ev[len(pre.ev):]:
            if e.kind in ('terminate', 'stale', 'setop'):
                q.ev.append(e)
        # effects on the container itself
        for k, v in s.mem.items():
            if k[:len(cont)] == cont:
                if v[0] == 'ptr' and v[1].loc[:1] == root[:1]:
                    v = ('ptr', LV(a + v[1].loc[1:], (), v[1].t))
                elif is_lin(v) and T.single_atom(v) and T.single_atom(v)[0] == 'addr' and T.single_atom(v)[1][:1] == root[:1]:
                    v = ('ptr', LV(a + T.single_atom(v)[1][1:], (), None))
                q.mem[k] = v
        q.gens.update({k: v for k, v in s.gens.items() if k[:len(cont)] == cont})
        for w, p, b in s.path[len(pre.path):]:
            if any(T.info(i)[0] == 'haskey' for i in atoms_in(p)):
                I.assume(q, p, b)
                q.path.append((w, p, b))
        q.mem[a + W.a_set + (SET,)] = term
        q.mem[a + (W.a_chunks, SIZE)] = ONE
        q.mem[a + (W.a_chunks, ('i', ZERO), W.c_size)] = ZERO
        q.notes['newarch'] = dict(q.notes.get('newarch', {}))
        q.notes['newarch'][a] = (reg, term, key)
        I.event(q, 'newarch', node, arch=a, set=term, key=key, problems=problems)
        return (('new', term), q, ('ptr', LV(a, (), None)))

    # --- type-erased operations ------------------------------------------------------
    def icall(self, I, st, fv, args, n):
        a = T.single_atom(fv) if is_lin(fv) else None
        if not a or a[0] != 'init' or a[1][-1][0] != 'f':
            return None
        fld = a[1][-1][1]
        role = self.S.roles.get(fld)
        if role is None:
            return None
        av = [I.rv(st, x) for x in args]
        I.event(st, 'icall', n, fn=fv, args=av, role=role)
        if fld in self.S.may_throw and I.user_throw:
            b = st.copy()
            b.ev[-1] = I._mk('icall_threw', n, fn=fv, args=av, role=role)
            I.throw(b, Exc('user', where=I.where(n), implicit=True))
        return [(st, ('void',))]

    # --- writes ----------------------------------------------------------------------
    def write(self, I, st, loc, v, node):
        W = self.S.W
        if loc[-1] == W.c_size:
            c = W.split_chunk(loc[:-1])
            if c and is_lin(v):
                I.event(st, 'w_size', node, arch=c[0], chunk=c[1], val=v)
        elif loc[0][0] == 'p' and len(loc) == 1:
            if any(self.S.chunk_of_buf(T.info(a)) or T.info(a)[0] == 'addr' for a, _ in loc[0][1][2]):
                I.event(st, 'w_slot', node, addr=loc[0][1], val=v)

    # --- equal keys ------------------------------------------------------------------
    def key_eq(self, I, st, cont, k1, k2):
        W = self.S.W
        if cont[-1] != W.r_map:
            return
        # the state before the equality was assumed is not at hand: compare slots under the current facts
        a, b = canon_key(self.S, I, st, cont, k1), canon_key(self.S, I, st, cont, k2)
        if a[0] == 'new' and b[0] in ('new', 'slot') and a != b or b[0] == 'new' and a[0] == 'slot':
            st.facts.dead = True
            return
        if a[0] == 'slot' and b[0] == 'slot':
            e = self.S.arch_eq(I, st, a[1], b[1])
            if e is False:
                st.facts.dead = True
                return
            for x, y in ((a[2], b[2]), (a[3], b[3])):
                st.facts.assume_eq(sub(x, y))
                if st.facts.dead:
                    return
            self.S.congruent(st)


def canon_key(S, I, st, M, k, raw=False):
    """entity ID term -> ('slot', arch, chunk, row): the entity initially stored there;
    ('new', name): a fresh handle; ('absent', k); ('?', k)"""
    W = S.W
    a = T.single_atom(k) if is_lin(k) else None
    if a is None:
        return ('?', k)
    if a[0] == 'init':
        l = a[1]
        if l[0][0] == 'o' and l[0][1].startswith('new#'):
            return ('new', l[0][1])
        if len(l) == 2 and l[0][0] == 'p' and l[1] == S.id_field:
            d = S.decode(st, l[0][1])
            if d and d[3] is not None:
                return ('slot', d[0], d[1], d[3])
    if T.tainted(k):
        return ('?', k)
    h = atom(('haskey', ('init', M), k), nonneg=True, boolean=True, taint=False)
    e = st.facts.eq(h)
    if e is False:
        base = M + (('k', k),)
        al = T.atom(('init', base + (S.l_arch,)), pos=True)
        return ('slot', (('p', al),), T.atom(('init', base + (S.l_chunk,)), nonneg=True), T.atom(('init', base + (S.l_row,)), nonneg=True))
    if e is True:
        return ('absent', k)
    return ('?', k)


class PathModel:
    """replays one path"""

    def __init__(self, S, I, st, how, hook=None, extra=()):
        self.hook = hook
        self.extra = extra
        self.S = S
        self.I = I
        self.st = st
        self.how = how
        self.W = S.W

    # --- three-valued reasoning with forks -------------------------------------------
    def decide(self, p):
        d = self.I.simplify(self.fs, p)
        if d is None:
            q = p
            if p[0] in ('or', 'and'):
                for x in p[1:]:
                    self.decide(x)
                return self.decide(p)
            if p[0] == 'not':
                return not self.decide(p[1])
            if any(i in T.TAINT for i in atoms_in(p)):
                self.soft = 'unknown value: ' + show_pred(p)
            raise Split(q)
        return d

    def eq(self, x, y):
        if x == y:
            return True
        return self.decide(('cmp', '==', sub(x, y)))

    def lt(self, x, y):
        return self.decide(('cmp', '<=', add(sub(x, y), ONE)))

    def arch_eq(self, A, B):
        if A == B:
            return True
        r = self.S.arch_eq(self.I, self.fs, A, B)
        if r is None:
            raise Undecided(f'cannot tell archetypes apart: {T.show_loc(A)} / {T.show_loc(B)}')
        return r

    def slot_eq(self, s, t):
        return self.arch_eq(s[0], t[0]) and self.eq(s[1], t[1]) and self.eq(s[2], t[2])

    def choose(self, key, options):
        if key in self.choices:
            return self.choices[key]
        if len(options) == 1:
            return options[0]
        raise Choice(key, options)

    def congruent(self, f):
        return self.S.congruent(f)

    # --- initial storage -------------------------------------------------------------
    def is_new(self, A):
        return len(A) == 1 and A[0][0] == 'o' and str(A[0][1]).startswith('arch#')

    def n0(self, A):
        if self.is_new(A):
            return ONE
        return T.atom(('init', A + (self.W.a_chunks, SIZE)), pos=True)

    def size0(self, A, c):
        if self.is_new(A):
            return ZERO
        return T.atom(('init', A + (self.W.a_chunks, ('i', c), self.W.c_size)), nonneg=True)

    def amax(self, A):
        return T.atom(('init', A + (self.W.a_max,)), pos=True)

    def member(self, cls, S):
        """class cls in set term S"""
        if cls == 'entity':
            return True
        f = self.fs.facts
        S = f.norm(S)
        a = T.single_atom(S)
        if a is None:
            raise Undecided('component set not known')
        if a[0] == 'emptyset':
            return False
        if a[0] in ('setins', 'setdel'):
            if cls != GEN and f.eq(sub(a[2], cls)) is True:
                return a[0] == 'setins'
            if cls != GEN and f.eq(sub(a[2], cls)) is None:
                raise Undecided('component IDs not comparable')
            return self.member(cls, a[1])
        if cls == GEN:
            return self.choose(('mem', S), [True, False])
        return self.decide(self.I.models.set_has(self.I, self.fs, S, cls))

    def in_arch(self, cls, A):
        if cls == 'entity':
            return True
        return self.member(cls, self.W.set_of_arch(self.I, self.fs, A))

    def initially_live(self, cls, s):
        A, c, r = s
        if self.is_new(A):
            return False
        if not self.in_arch(cls, A):
            return False
        self.assume_loc(s)
        if not self.lt(c, self.n0(A)):
            return False
        self.assume_chunk(A, c)
        return self.lt(r, self.size0(A, c))

    def assume_chunk(self, A, c):
        """invariants of the initial storage for chunk c of A"""
        k = ('chunk', A, c)
        if k in self.known or self.is_new(A):
            return
        n, s, m = self.n0(A), self.size0(A, c), self.amax(A)
        f = self.fs.facts
        f.assume_le(sub(s, m))
        if self.eq(c, sub(n, ONE)):
            if not self.eq(n, ONE):
                f.assume_le(sub(ONE, s))
        elif self.lt(c, n):
            f.assume_eq(sub(s, m))
        self.known.add(k)
        if f.dead:
            raise Infeasible()

    def assume_loc(self, s):
        """a location recorded for an entity lies inside the storage"""
        A, c, r = s
        f = self.fs.facts
        x = T.single_atom(A[0][1]) if len(A) == 1 and A[0][0] == 'p' else None
        if not x or x[0] != 'init' or x[1][-1] != self.S.l_arch:
            return
        base = x[1][:-1]
        if c == T.atom(('init', base + (self.S.l_chunk,))):
            f.assume_le(add(sub(c, self.n0(A)), ONE))
        if r is not None and r == T.atom(('init', base + (self.S.l_row,))):
            c0 = T.atom(('init', base + (self.S.l_chunk,)))
            f.assume_le(add(sub(r, self.size0(A, c0)), ONE))
        if f.dead:
            raise Infeasible()

    def status(self, cls, s):
        for t, live, content in reversed(self.mods[cls]):
            if self.slot_eq(s, t):
                return live
        return self.initially_live(cls, s)

    def content(self, cls, s):
        for t, live, content in reversed(self.mods[cls]):
            if self.slot_eq(s, t):
                return content
        return ('slot',) + tuple(s)

    # --- operations on rows ----------------------------------------------------------
    def set(self, cls, s, live, content):
        self.mods[cls].append((s, live, content))

    def addr(self, x, cls, mkey, ev, what):
        """slot addressed by x when it belongs to class cls, else None"""
        d = self.S.decode(self.st, x)
        if d is None:
            return None
        A, c, key, row, off = d
        if key is None:
            if T.tainted(x):
                raise Undecided('address not decodable')
            raise Bad('C05', f'{what}: {T.show(x)} is not the address of a component', ev)
        if off is not None and not self.arch_eq(off, A):
            raise Bad('C05', f'{what}: the block offset of one archetype is used in a chunk of another', ev)
        if row is None:
            if T.tainted(x):
                raise Undecided('row not decodable')
            raise Bad('C05', f'{what}: {T.show(x)} is not the address of a row of its component', ev)
        if not self.key_is(key, cls, mkey):
            return None
        if T.tainted(row) or T.tainted(c):
            raise Undecided('row not known')
        return (A, c, row)

    def key_is(self, key, cls, mkey):
        if mkey is not None and key == mkey:
            return True
        a = T.single_atom(key)
        if a and a[0] == 'typeid':
            if cls == 'entity':
                return self.is_entity_key(a)
            return cls != GEN and key == cls
        if a and a[0] == 'mkey':
            if mkey is None:
                raise Undecided('component of an unknown key is touched')
            return False
        return key == cls

    def is_entity_key(self, a):
        return 'entity' in str(a[1])

    def do(self, e, cls, mkey=None):
        k = e.kind
        if k == 'icall' or k == 'icall_threw':
            role = e.role
            if role is None:
                return
            if k == 'icall_threw':
                return
            self.check_fn(e, mkey)
            dst = self.addr(e.args[0], cls, mkey, e, role)
            src = self.addr(e.args[1], cls, mkey, e, role) if len(e.args) > 1 else None
            if dst is None and src is None:
                return
            if role == 'destruct':
                self.destruct(cls, dst, e)
                return
            if src is None or dst is None:
                raise Bad('C05', f'{role} between different components', e)
            if not self.status(cls, src):
                raise Bad('C05', f'{role}: reads a row that holds no component', e)
            content = self.content(cls, src)
            if role in ('move', 'copy'):
                self.construct(cls, dst, content, e)
            elif role == 'assign':
                self.assign(cls, dst, content, e)
            else:
                raise Undecided('unknown operation ' + role)
        elif k == 'construct_at' or k == 'placement':
            d = self.loc_slot(e.loc, cls, mkey, e, 'construct')
            if d:
                self.type_check(e, cls)
                self.construct(cls, d, ('value', id(e), k), e)
        elif k == 'uctor_threw':
            d = self.loc_slot(e.loc, cls, mkey, e, 'construct')
            if d and self.mods[cls] and self.slot_eq(self.mods[cls][-1][0], d) and self.mods[cls][-1][2][0] == 'value':
                self.mods[cls].pop()
        elif k in ('destroy', 'dtor'):
            d = self.loc_slot(e.loc, cls, mkey, e, 'destroy')
            if d:
                self.destruct(cls, d, e)
        elif k == 'usercall' and str(e.f).endswith('operator=') and isinstance(e.fn, LV):
            d = self.loc_slot(e.fn.loc, cls, mkey, e, 'assign')
            if d:
                self.assign(cls, d, ('value', id(e), k), e)
        elif k == 'w_slot':
            d = self.addr(e.addr, cls, mkey, e, 'assign')
            if d:
                v = e.val
                c = ('value', id(e), e.kind)
                if cls == 'entity' and isinstance(v, Rec):
                    c = self.entity_content(v, d)
                self.assign(cls, d, c, e)

    def entity_content(self, v, d):
        b = v.base
        if not v.ov and b and b[0] == 'init':
            l = b[1]
            if len(l) == 1 and l[0][0] == 'p':
                x = self.S.decode(self.st, l[0][1])
                if x and x[3] is not None:
                    return ('slot', x[0], x[1], x[3])
        k = self.hook.hid(self.I, self.st, v)
        reg, _ = self.S.arch_info(self.I, self.st, d[0])
        if not is_lin(k) or reg is None:
            return ('?', k)
        return self.ckey(reg + (self.W.r_map,), k)

    def ckey(self, M, k):
        r = canon_key(self.S, self.I, self.fs, M, k)
        if r[0] == '?' and not T.tainted(k):
            h = ('cmp', '!=', atom(('haskey', ('init', M), k), nonneg=True, boolean=True, taint=False))
            self.decide(h)
            return canon_key(self.S, self.I, self.fs, M, k)
        return r

    def check_fn(self, e, mkey):
        """the operation comes from the description of the component it is applied to"""
        a = T.single_atom(e.fn)
        l = a[1]
        key = None
        if l[0][0] == 'p':
            b = T.single_atom(l[0][1])
            if b and b[0] == 'init':
                l = b[1]
        for j in range(len(l) - 1):
            if l[j] == self.W.a_blocks and l[j + 1][0] == 'k':
                key = l[j + 1][1]
        if key is None:
            return
        for x in e.args:
            d = self.S.decode(self.st, x)
            if d and d[2] is not None and d[2] != key and not T.tainted(key) and not T.tainted(d[2]):
                raise Bad('C05', 'the operation of one component type is applied to another', e)

    def type_check(self, e, cls):
        if cls in ('entity', GEN) or e.t is None:
            return
        a = T.single_atom(cls)
        if a and a[0] == 'typeid' and self.S.typeid_of(e.t) != a[1]:
            raise Bad('C05', f'a {self.S.typeid_of(e.t)} is constructed in the array of {a[1]}', e)

    def loc_slot(self, loc, cls, mkey, e, what):
        if loc[0][0] != 'p' or len(loc) != 1:
            return None
        return self.addr(loc[0][1], cls, mkey, e, what)

    def construct(self, cls, s, content, e):
        if not self.in_arch(cls, s[0]):
            raise Bad('C05', f'a component is constructed in an archetype that has no array for it', e)
        if self.status(cls, s):
            raise Bad('C05', f'a component is constructed over a live one ({self.show(cls, s)})', e)
        self.set(cls, s, True, content)
        self.touch(s)

    def assign(self, cls, s, content, e):
        if not self.status(cls, s):
            raise Bad('C05', f'a row that holds no component is assigned ({self.show(cls, s)})', e)
        self.set(cls, s, True, content)
        self.touch(s)

    def destruct(self, cls, s, e):
        if not self.status(cls, s):
            raise Bad('C05', f'a row that holds no component is destroyed ({self.show(cls, s)})', e)
        self.set(cls, s, False, None)
        self.touch(s)

    def touch(self, s):
        if not any(s == t for t in self.touched):
            self.touched.append(s)

    def show(self, cls, s):
        c = cls if cls == 'entity' else 'any component' if cls == GEN else T.show(cls)
        return f'{c}, chunk {T.show(s[1])}, row {T.show(s[2])}'

    # --- loops -----------------------------------------------------------------------
    def loop_map(self, e):
        """(arch loc, mkey) when the loop runs over the blocks of an archetype"""
        for tr in e.d.get('traces') or []:
            for x in tr[0]:
                if x.kind == 'itermap':
                    if x.map[-1] == self.W.a_blocks:
                        return x.map[:-1], x.key, x
                    return None
                if x.kind == 'maplookup' or x.kind == 'index':
                    continue
                return None
        return None

    def slot_events(self, evs):
        for x in evs:
            if x.kind in ('icall', 'icall_threw', 'construct_at', 'placement', 'destroy', 'dtor', 'w_slot', 'w_size', 'pop', 'push', 'uctor', 'erase', 'erase_range', 'clear', 'resize', 'vinsert', 'erase_if', 'insert', 'pop_front'):
                if x.kind in ('icall', 'icall_threw'):
                    if x.role is not None and any(self.S.decode(self.st, a) for a in x.args):
                        return True
                elif x.kind == 'w_slot':
                    if self.S.decode(self.st, x.addr):
                        return True
                elif x.kind in ('w_size',):
                    return True
                elif x.kind in ('pop', 'push', 'erase', 'erase_range', 'clear', 'resize', 'vinsert', 'erase_if', 'insert', 'pop_front'):
                    if x.d.get('cont') and x.cont[-1] == self.W.a_chunks:
                        return True
                elif x.loc and x.loc[0][0] == 'p' and self.S.decode(self.st, x.loc[0][1]):
                    return True
            if x.kind == 'loopsum' and any(self.slot_events(t[0]) for t in x.traces):
                return True
        return False

    def trace_for(self, e, cls, X, mkey, where):
        """the trace of the iteration for class cls, or None when cls is not iterated"""
        if not self.in_arch(cls, X):
            return None
        it = [x for t in e.traces for x in t[0] if x.kind == 'itermap']
        if cls == 'entity' and it and it[0].d.get('drop'):
            return None
        good = []
        for i, (evs, facts, path) in enumerate(e.traces):
            mk = [x.key for x in evs if x.kind == 'itermap']
            mk = mk[0] if mk else mkey
            if all(self.pred_ok(p, b, cls, mk, e) for w, p, b in path[e.plen:]):
                good.append(i)
        if not good:
            raise Infeasible()
        i = self.choose(('trace', id(e), cls, where), good)
        mk = [x.key for x in e.traces[i][0] if x.kind == 'itermap']
        return e.traces[i][0], (mk[0] if mk else mkey)

    def pred_ok(self, p, b, cls, mkey, e):
        """may predicate p have value b in the iteration for class cls?"""
        v = self.eval_pred(p, cls, mkey, e)
        if v is None:
            self.soft = 'a condition inside a loop over the blocks is not understood: ' + show_pred(p)
        return v is None or (v != 'never' and v == b)

    def eval_pred(self, p, cls, mkey, e):
        if p[0] == 'cmp':
            x = p[2]
            a = T.single_atom(x)
            if a and a[0] == 'in' and a[2] == mkey:
                m = self.member(cls, a[1])
                return m if p[1] == '!=' else not m if p[1] == '==' else None
            mi = T.single_id(mkey) if is_lin(mkey) else None
            if mi is not None and any(i == mi for i, _ in x[2]):
                o = subst_lin(x, mi, ZERO)
                oa = T.single_atom(o) or T.single_atom(scale(o, -1))
                if p[1] in ('==', '!=') and oa and oa[0] == 'typeid':
                    same = (cls == 'entity' and self.is_entity_key(oa)) or (cls not in ('entity', GEN) and T.single_atom(cls) == oa)
                    return same if p[1] == '==' else not same
                return None
            # loop counter
            n = e.d.get('n')
            ni = T.single_id(n) if is_lin(n) else None
            if ni is not None and any(i == ni for i, _ in x[2]):
                pos = self.posterm(e)
                if pos is None:
                    return None
                res = None
                for q in [pos(cls)] + [m for m, X in self.stops if self.fs.facts.le(sub(m, pos(cls))) is True]:
                    y = subst_lin(x, ni, q)
                    r = self.I.simplify(self.fs, ('cmp', p[1], y))
                    if res is None:
                        res = r
                    elif r is not None and r != res:
                        # the path predicate must hold in every earlier iteration as well
                        return 'never'
                return res
            r = self.I.simplify(self.fs, p)
            if r is None and not any(i in T.TAINT or i in (mi, ni) for i in atoms_in(p)):
                # the same in every iteration, and not known: both cases
                raise Split(p)
            return r
        if p[0] == 'not':
            v = self.eval_pred(p[1], cls, mkey, e)
            return None if v is None or v == 'never' else not v
        if p[0] in ('or', 'and'):
            vs = [self.eval_pred(q, cls, mkey, e) for q in p[1:]]
            if p[0] == 'or':
                return True if True in vs else False if all(v is False for v in vs) else None
            return False if False in vs else True if all(v is True for v in vs) else None
        return None

    def posterm(self, e):
        m = self.loop_map(e)
        if not m:
            return None
        return lambda cls: atom(('pos', m[0], cls if cls == GEN or cls == 'entity' else ('k', cls)), nonneg=True)

    # --- replay ----------------------------------------------------------------------
    def classes(self):
        out = ['entity'] + [x for x in self.extra if x is not None]
        for e in self.all_events(self.st.ev):
            xs = []
            if e.kind in ('icall', 'icall_threw') and e.role is not None:
                xs = list(e.args)
            elif e.kind == 'w_slot':
                xs = [e.addr]
            elif e.kind in ('construct_at', 'placement', 'destroy', 'dtor', 'uctor') and e.loc and e.loc[0][0] == 'p':
                xs = [e.loc[0][1]]
            elif e.kind == 'setop':
                k = T.single_atom(e.x)
                if k and k[0] == 'typeid' and e.x not in out:
                    out.append(e.x)
            for x in xs:
                d = self.S.decode(self.st, x)
                if d and d[2] is not None:
                    k = T.single_atom(d[2])
                    if k and k[0] == 'typeid' and not self.is_entity_key(k) and d[2] not in out:
                        out.append(d[2])
        return out + [GEN]

    def all_events(self, evs):
        for e in evs:
            yield e
            if 'traces' in e.d and e.kind == 'loopsum':
                for t in e.traces:
                    yield from self.all_events(t[0])

    def run(self, rules):
        """fork over everything that is not determined; rules(self) inspects the final storage.
        returns list of Bad"""
        st = self.st
        self.cls_list = self.classes()
        # decide membership facts on a private copy
        work = [(st.copy(), {}, None)]
        bad, und = {}, set()
        n = 0
        while work:
            fs, ch, self.soft = work.pop()
            n += 1
            if n > 1500:
                raise Undecided('too many cases on one path')
            self.fs = fs.copy()
            self.choices = ch
            self.known = set()
            self.mods = {c: [] for c in self.cls_list}
            self.touched = []
            self.sizes = []
            self.counts = {}
            self.stops = []
            try:
                self.same_ids()
                self.replay(st.ev)
                for rule in rules:
                    try:
                        rule(self)
                    except Bad as b:
                        if self.soft:
                            und.add(self.soft)
                        elif not self.fs.facts.dead:
                            bad.setdefault((b.tag, b.msg), b)
                    except Undecided as u:
                        und.add(str(u))
            except Split as s:
                for b in (True, False):
                    f = fs.copy()
                    if self.I.assume(f, s.pred, b) and not f.facts.dead and self.congruent(f):
                        if self.I.simplify(f, s.pred) is None:
                            raise Undecided('case distinction without effect: ' + show_pred(s.pred))
                        work.append((f, ch, self.soft))
            except Choice as c:
                for o in c.options:
                    d = dict(ch)
                    d[c.key] = o
                    work.append((fs, d, self.soft))
            except Infeasible:
                pass
            except Bad as b:
                if self.fs.facts.dead:
                    continue
                if self.soft:
                    und.add(self.soft)
                else:
                    bad.setdefault((b.tag, b.msg), b)
            except Undecided as u:
                und.add(str(u))
        self.cases = n
        return list(bad.values()), sorted(und)

    def same_ids(self):
        """two rows or handles whose IDs are equal on this path are the same entity"""
        f = self.fs.facts
        for a, y in list(f.eqs.items()):
            i, j = T.info(a), T.single_atom(y)
            if not (i[0] == 'init' and i[1][-1] == self.S.id_field and j and j[0] == 'init' and j[1][-1] == self.S.id_field):
                continue
            X, Y = self.raw_slot(i), self.raw_slot(j)
            if X is None and Y is None:
                continue
            reg = self.S.arch_info(self.I, self.fs, (X or Y)[0])[0]
            if reg is None:
                continue
            if X is None or Y is None:
                k = ('L', 0, ((a, 1),)) if X is None else y
                c = canon_key(self.S, self.I, self.fs, reg + (self.W.r_map,), k, raw=True)
                if c[0] == 'new':
                    raise Infeasible()
                if c[0] != 'slot':
                    continue
                X, Y = X or c[1:], Y or c[1:]
            if not self.slot_eq(X, Y):
                raise Infeasible()

    def raw_slot(self, i):
        l = i[1]
        if len(l) == 2 and l[0][0] == 'p':
            d = self.S.decode(self.st, l[0][1])
            if d and d[3] is not None:
                return d[0], d[1], d[3]
        return None

    def replay(self, evs):
        i = 0
        while i < len(evs):
            e = evs[i]
            if e.kind == 'loopsum':
                self.loop(e, 'normal', [])
                i += 1
                continue
            if e.kind == 'loop' and e.d.get('traces') is not None:
                j = i + 1
                while j < len(evs) and not (evs[j].kind == 'endloop' and evs[j].n == e.n):
                    j += 1
                if j < len(evs) and self.loop_map(self.loop_src(e, evs[i + 1:j])):
                    self.loop(self.loop_src(e, evs[i + 1:j]), evs[j].how, evs[i + 1:j], e)
                    i = j + 1
                    continue
                if j < len(evs) and self.slot_events(evs[i + 1:j]):
                    raise Undecided('storage is changed in a loop that is not over the blocks of an archetype')
            self.event(e)
            i += 1

    def loop_src(self, e, seg):
        if not e.traces and seg:
            return Fake(e, [(seg, None, self.st.path)])
        return e

    def event(self, e):
        if e.kind == 'w_size':
            self.sizes.append((e.arch, e.chunk, e.val))
        elif e.kind in ('push', 'pop') and e.cont[-1] == self.W.a_chunks:
            A = e.cont[:-1]
            self.chunk_event(A, e)
        elif e.kind == 'erase' and e.cont[-1] == self.W.a_chunks and e.index is not None and not T.tainted(e.index):
            A = e.cont[:-1]
            if not self.eq(e.index, sub(self.nchunks(A), ONE)):
                raise Bad('C03', 'a chunk before the last one is erased: the entities in the chunks behind it keep their recorded chunk', e)
            e.d['as'] = 'pop'
            self.chunk_event(A, e)
        elif e.kind in ('erase', 'erase_range', 'clear', 'resize', 'vinsert', 'erase_if', 'insert', 'assign', 'pop_front') and e.d.get('cont', e.loc if e.kind == 'assign' else None) and \
                (e.d.get('cont') or e.loc)[-1] == self.W.a_chunks:
            raise Undecided(f'the chunks of an archetype are changed by {e.kind}')
        elif e.kind in ('icall', 'icall_threw', 'construct_at', 'placement', 'uctor_threw', 'destroy', 'dtor', 'usercall', 'w_slot'):
            for c in self.cls_list:
                self.do(e, c)

    def chunk_event(self, A, e):
        for B in self.counts:
            if self.arch_eq(A, B):
                A = B
                break
        d = self.counts.setdefault(A, [])
        kind = e.d.get('as', e.kind)
        d.append((kind, e.index))
        if kind == 'pop':
            s = self.size(A, e.index)
            if not self.eq(s, ZERO):
                raise Bad('C04', 'a chunk that still holds entities is discarded', e)

    def nchunks(self, A):
        n = self.n0(A)
        for B, ops in self.counts.items():
            if self.arch_eq(A, B):
                for k, i in ops:
                    n = add(n, ONE if k == 'push' else const(-1))
        return n

    def size(self, A, c):
        for B, i, v in reversed(self.sizes):
            if self.arch_eq(A, B) and self.eq(c, i):
                return v
        if not self.is_new(A) and not self.lt(c, self.n0(A)):
            return ZERO
        self.assume_chunk(A, c)
        return self.size0(A, c)

    def loop(self, e, how, seg, mark=None):
        m = self.loop_map(e)
        if m is None:
            if any(self.slot_events(t[0]) for t in e.traces):
                raise Undecided('storage is changed in a loop that is not over the blocks of an archetype')
            return
        if not any(self.slot_events(t[0]) for t in e.traces) and not self.slot_events(seg):
            return
        X, mkey, _ = m
        self.check_stops(e, how, X, mark)
        for cls in self.cls_list:
            if not self.in_arch(cls, X):
                continue
            if how == 'normal':
                r = self.trace_for(e, cls, X, mkey, 'all')
                if r:
                    self.iteration(r[0], cls, r[1])
                continue
            n1 = (mark or e).n
            pos = self.posterm(e)(cls)
            order = self.choose(('order', id(mark or e), cls), ['before', 'current', 'after'])
            segkey = [x.key for x in seg if x.kind == 'itermap']
            segkey = segkey[0] if segkey else mkey
            f = self.fs.facts
            if order == 'before':
                f.assume_le(add(sub(pos, n1), ONE))
                if f.dead or not (e.traces and e is not None):
                    raise Infeasible()
                if isinstance(e, Fake):
                    raise Infeasible()
                r = self.trace_for(e, cls, X, mkey, 'before')
                if r:
                    self.iteration(r[0], cls, r[1])
            elif order == 'current':
                f.assume_eq(sub(pos, n1))
                if f.dead:
                    raise Infeasible()
                for w, p, b in self.seg_preds(mark or e):
                    if not self.pred_ok(p, b, cls, segkey, e):
                        raise Infeasible()
                self.iteration(seg, cls, segkey)
            else:
                f.assume_le(add(sub(n1, pos), ONE))
                if f.dead:
                    raise Infeasible()
        if how != 'normal':
            self.stops.append(((mark or e).n, X))
            cur = [c for c in self.cls_list if self.choices.get(('order', id(mark or e), c)) == 'current']
            if len(cur) > 1:
                raise Infeasible()

    def check_stops(self, e, how, X, mark):
        """an iteration over the same blocks at which an earlier loop stopped is passed as well"""
        n = (mark or e).n
        for m, Y in self.stops:
            if Y != X or not e.traces or isinstance(e, Fake):
                continue
            if how != 'normal' and self.fs.facts.le(add(sub(m, n), ONE)) is not True:
                continue
            ni = T.single_id(e.n)
            for evs, facts, path in e.traces:
                ok = True
                for w, p, b in path[e.plen:]:
                    if p[0] == 'cmp' and any(i == ni for i, _ in p[2][2]):
                        r = self.I.simplify(self.fs, ('cmp', p[1], subst_lin(p[2], ni, m)))
                        ok = ok and (r is None or r == b)
                if ok:
                    break
            else:
                raise Infeasible()

    def seg_preds(self, e):
        """branch conditions of the path that mention the loop's key or counter"""
        n = T.single_id(e.n) if is_lin(e.n) else None
        out = []
        for w, p, b in self.st.path[e.plen:]:
            ids = atoms_in(p)
            if n in ids:
                out.append((w, p, b))
        return out

    def iteration(self, evs, cls, mkey):
        for x in evs:
            if x.kind == 'loopsum':
                if self.slot_events_any(x):
                    raise Undecided('rows are changed in an inner loop')
                continue
            if x.kind in ('icall', 'icall_threw', 'construct_at', 'placement', 'uctor_threw', 'destroy', 'dtor', 'usercall', 'w_slot'):
                self.do(x, cls, mkey)

    def slot_events_any(self, x):
        return any(self.slot_events(t[0]) for t in x.traces)


class Fake:
    def __init__(self, e, traces):
        self.kind = e.kind
        self.d = dict(e.d)
        self.d['traces'] = traces
        self.traces = traces
        self.n = e.n
        self.plen = e.plen
        self.line = e.line
        self.fid = e.fid


class Infeasible(Exception):
    pass
