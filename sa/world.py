"""Roles of the library's data structures, found through types rather than names where the
interface does not fix them, and the representation invariants assumed between public
operations (every invariant is re-established: the rules check it on every path end)."""
from . import terms as T
from .terms import ZERO, ONE, const, add, sub, atom, is_lin
from .interp import LV, BTRUE, BFALSE, Analysis


ABS = ('co_ecs::detail::sparse_table', 'co_ecs::detail::hash_table', 'co_ecs::detail::dynamic_bitset')


class Anchor(Analysis):
    pass


class World:
    def __init__(self, P):
        self.P = P
        self.nonnull_meta = set()
        self.registry_rec = self.rec('co_ecs::base_registry')
        self.arch_rec = self.rec('co_ecs::archetype')
        self.archs_rec = self.rec('co_ecs::archetypes')
        self.chunk_rec = self.rec('co_ecs::chunk')
        self.loc_rec = self.rec('co_ecs::entity_location')
        self.pool_rec = self.rec('co_ecs::detail::handle_pool')
        self.meta_rec = self.rec('co_ecs::type_meta')
        F = self.field
        # registry
        self.r_map = F(self.registry_rec, lambda t: self.is_map_of(t, 'co_ecs::entity_location'), 'location map')
        self.r_pool = F(self.registry_rec, lambda t: self.bare(t) == 'co_ecs::detail::handle_pool', 'entity pool')
        self.r_archs = F(self.registry_rec, lambda t: self.bare(t) == 'co_ecs::archetypes', 'archetype container')
        # archetypes
        self.as_map = F(self.archs_rec, lambda t: self.bare(t) in ABS, 'archetype map')
        # archetype
        self.a_chunks = F(self.arch_rec, lambda t: self.bare(t) == 'std::vector' and self.elem_bare(t) == 'co_ecs::chunk', 'chunks')
        self.a_blocks = F(self.arch_rec, lambda t: self.is_map_of(t, 'co_ecs::block_metadata'), 'blocks')
        self.a_max = F(self.arch_rec, lambda t: P.ty(t).get('k') == 'int', 'capacity')
        self.a_set = self.path_to(self.arch_rec, 'co_ecs::detail::dynamic_bitset')
        # chunk
        self.c_buf = F(self.chunk_rec, lambda t: P.ty(t).get('k') == 'ptr' and 'byte' in P.ty(P.pointee(t))['s'], 'chunk buffer')
        self.c_blocks = F(self.chunk_rec, lambda t: P.ty(t).get('k') in ('ptr', 'ref') and
                          self.is_map_of(P.pointee(t), 'co_ecs::block_metadata'), 'chunk blocks')
        self.c_size = self.getter_field(self.chunk_rec, 'size')
        self.c_max = self.getter_field(self.chunk_rec, 'max_size')
        # block metadata
        self.b_off = F(self.rec('co_ecs::block_metadata'), lambda t: P.ty(t).get('k') == 'int', 'block offset')

    def rec(self, b):
        rs = [r for r in self.P.recs_by_bare.get(b, []) if r.get('fields')]
        if not rs:
            raise Anchor(f"class {b} not found")
        return rs[0]

    def bare(self, t):
        r = self.P.rec_of(t)
        return r['bare'] if r else None

    def elem_bare(self, t):
        r = self.P.rec_of(t)
        ta = r.get('targs') or [] if r else []
        return self.bare(ta[0]['t']) if ta and ta[0].get('t') is not None else None

    def is_map_of(self, t, b):
        r = self.P.rec_of(t)
        if not r or r['bare'] not in ABS:
            return False
        return any(x.get('t') is not None and self.bare(x['t']) == b for x in r.get('targs', []))

    def field(self, rec, pred, what):
        fs = [f['n'] for f in rec['fields'] if pred(f['t'])]
        if len(fs) != 1:
            raise Anchor(f"{what} not identifiable in {rec['q']} ({fs})")
        return ('f', fs[0])

    def path_to(self, rec, bare, seen=()):
        for f in rec['fields']:
            r = self.P.rec_of(f['t'])
            if not r:
                continue
            if r['bare'] == bare:
                return (('f', f['n']),)
            if r['bare'].startswith('co_ecs::') and r['id'] not in seen and r['bare'] not in ABS:
                p = self.path_to(r, bare, seen + (rec['id'],))
                if p:
                    return (('f', f['n']),) + p
        return None

    def getter_field(self, rec, name):
        """the data member a trivial accessor returns"""
        for f in self.P.funcs.values():
            if f.get('rec') == rec['id'] and f['name'] == name and 'body' in f and not f['params']:
                for n in self.P.walk(f['body']):
                    if n.get('k') == 'return':
                        for m in self.P.walk(n):
                            if m.get('k') == 'mem':
                                return ('f', m['f'])
        raise Anchor(f"accessor {name} of {rec['q']} not readable")

    # ------------------------------------------------------------------ access paths
    def split_chunk(self, loc):
        """(archetype loc, index) when loc denotes an element of an archetype's chunk list"""
        if len(loc) >= 3 and loc[-1][0] == 'i' and loc[-2] == self.a_chunks:
            return loc[:-2], loc[-1][1]
        return None

    def set_of_arch(self, I, st, aloc):
        return I.models.set_term(I, st, aloc + self.a_set)

    def arch_key(self, aloc):
        """key of the archetype map under which the archetype at aloc is stored, when visible"""
        if len(aloc) == 1 and aloc[0][0] == 'p':
            a = T.single_atom(aloc[0][1])
            if a and a[0] == 'init':
                l = a[1]
                for i in range(len(l) - 1):
                    if l[i] == self.as_map and l[i + 1][0] == 'k':
                        return l[:i + 1], l[i + 1][1]
        return None

    # ------------------------------------------------------------------ hooks
    def hooks(self, **extra):
        h = {'init_read': self.h_init_read, 'has': self.h_has, 'nonempty': self.h_nonempty, 'set_term': self.h_set_term,
             'missing_key': self.h_missing}
        h.update(extra)
        return h

    def h_missing(self, I, st, loc, key):
        return None

    def h_init_read(self, I, st, loc, b, t):
        l = b[1]
        last = l[-1]
        if last == self.c_blocks:
            c = self.split_chunk(l[:-1])
            if c:
                return ('ptr', LV(c[0] + (self.a_blocks,), (), None))
        if last in self.nonnull_meta:
            return T.atom(b, pos=True)
        if last == self.c_buf:
            if self.split_chunk(l[:-1]):
                return T.atom(b, pos=True)
        if last == self.c_max:
            c = self.split_chunk(l[:-1])
            if c:
                return I.read(st, c[0] + (self.a_max,), t)
        if last == self.c_size:
            c = self.split_chunk(l[:-1])
            if c:
                v = T.atom(b)
                T.NONNEG.add(T.single_id(v))
                key = ('inv', l)
                if key not in st.notes:
                    st.notes[key] = True
                    # an entity's row lies inside its chunk
                    a = T.single_atom(st.facts.norm(c[1])) or T.single_atom(c[1])
                    if a and a[0] == 'init' and a[1][-1] == ('f', 'chunk_index'):
                        e = atom(('init', a[1][:-1] + (('f', 'entry_index'),)), nonneg=True)
                        st.facts.assume_le(sub(add(e, ONE), v))
                    mx = I.read(st, c[0] + (self.a_max,), t)
                    if is_lin(mx):
                        st.facts.assume_le(sub(v, mx))
                return v
        if last == self.a_max:
            v = T.atom(b, pos=True)
            return v
        if last == ('s', 'size') and len(l) >= 2 and l[-2] == self.a_chunks:
            v = T.atom(b, pos=True)
            key = ('inv', l)
            if key not in st.notes:
                st.notes[key] = True
                # chunk_index of any location that names this archetype
                al = l[:-2]
                if len(al) == 1 and al[0][0] == 'p':
                    a = T.single_atom(al[0][1])
                    if a and a[0] == 'init' and a[1][-1] == ('f', 'archetype'):
                        e = atom(('init', a[1][:-1] + (('f', 'chunk_index'),)), nonneg=True)
                        st.facts.assume_le(sub(add(e, ONE), v))
            return v
        if last == ('f', 'archetype') and len(l) >= 3 and l[-2][0] == 'k' and l[-3] == self.r_map:
            return T.atom(b, pos=True)
        if last == ('f', 'p') and len(l) >= 3 and l[-2][0] == 'k' and l[-3] == self.as_map:
            # value of the archetype map: never null, and the archetype with that key
            key = l[-2][1]
            a = T.single_atom(key) if is_lin(key) else None
            if a and a[0] == 'setof' and a[1] and a[1][0] == 'init':
                al = a[1][1]
                n = len(self.a_set)
                if al[-n:] == self.a_set and len(al) == n + 1 and al[0][0] == 'p':
                    x = T.single_atom(al[0][1])
                    reg = l[:-3]
                    if x and x[0] == 'init' and x[1][:len(reg) - 1] == reg[:-1]:
                        return al[0][1]
            return T.atom(b, pos=True)
        return None

    def h_set_term(self, I, st, loc, b):
        if b is None or b[0] != 'init':
            return None
        l = b[1]
        n = len(self.a_set)
        if l[-n:] == self.a_set:
            k = self.arch_key(l[:-n])
            if k:
                return k[1]
        return None

    def h_nonempty(self, I, st, loc):
        b = I.base_at(st, loc)
        return loc[-1] == self.a_blocks and b is not None and b[0] != 'zero'

    def h_has(self, I, st, loc, key):
        if loc[-1] != self.a_blocks:
            return None
        b = I.base_at(st, loc)
        if b is None or b[0] == 'zero':
            return None
        a = T.single_atom(key) if is_lin(key) else None
        if a is None:
            return None
        S = self.set_of_arch(I, st, loc[:-1])
        if a[0] == 'mkey':
            src = a[2] if isinstance(a[2], tuple) else None
            if src == loc:
                return BTRUE
            if src and src[-1] == self.a_blocks:
                S0 = self.set_of_arch(I, st, src[:-1])
                return self.member(I, st, S, key, S0)
            return None
        if a[0] == 'typeid':
            if 'entity' in str(a[1]):
                return BTRUE
            return I.models.set_has(I, st, S, key)
        return None

    def member(self, I, st, S, key, S0):
        """membership of key in S given that it is a member of S0 (or the entity block)"""
        S = st.facts.norm(S)
        if S == st.facts.norm(S0):
            return BTRUE
        a = T.single_atom(S)
        if a and a[0] == 'setins':
            inner = self.member(I, st, a[1], key, S0)
            if inner == BTRUE:
                return BTRUE
            return None
        if a and a[0] == 'setdel':
            inner = self.member(I, st, a[1], key, S0)
            if inner == BTRUE:
                return ('cmp', '!=', sub(a[2], key))
            return None
        return None
