"""Conditions on the storage at the end of every path of a public operation (see rowmodel.py)."""
from . import terms as T
from .terms import ZERO, ONE, const, add, sub, atom, is_lin
from .interp import LV, Rec
from .rowmodel import Bad, Undecided, Infeasible, GEN, SIZE, canon_key


class Op:
    """what a driver does: kind, registry, entity, component types, destination"""

    def __init__(self, kind, reg='r', ent='e', types=(), dest=None, returns=None, mutates=True):
        self.kind = kind
        self.reg = reg
        self.ent = ent
        self.types = types
        self.dest = dest or reg
        self.returns = returns


def typeid(name):
    for i, t in enumerate(T._info):
        if isinstance(t, tuple) and t and t[0] == 'typeid' and t[1] == name:
            return ('L', 0, ((i, 1),))
    return None


def root(n):
    return (('o', n),)


class End:
    """derived facts of the final state"""

    def __init__(self, M, op):
        self.M = M
        self.op = op
        self.W = M.W
        self.S = M.S
        self.entries()

    # --- location maps ---------------------------------------------------------------
    def entries(self):
        st, I, M = self.M.st, self.M.I, self.M
        keys = []
        for k in st.mem:
            for j in range(len(k)):
                if k[j] == self.W.r_map and j + 1 < len(k) and isinstance(k[j + 1], tuple) and k[j + 1][0] in ('k', 'has'):
                    e = (k[:j], k[j + 1][1])
                    if e not in keys:
                        keys.append(e)
                    break
        self.ent = []
        for reg, k in keys:
            mp = reg + (self.W.r_map,)
            if T.tainted(k):
                raise Undecided('key of the location map not known')
            c = M.ckey(mp, k)
            h = st.mem.get(mp + (('has', k),))
            present = h[1] if h is not None else c[0] == 'slot'
            slot = None
            if present:
                a = I.read(st, mp + (('k', k), self.S.l_arch))
                if a[0] == 'ptr':
                    A = a[1].loc
                else:
                    x = T.single_atom(a) if is_lin(a) else None
                    A = x[1] if x and x[0] == 'addr' else (('p', a),) if is_lin(a) else None
                ch = I.read(st, mp + (('k', k), self.S.l_chunk))
                row = I.read(st, mp + (('k', k), self.S.l_row))
                if A is None or not is_lin(ch) or not is_lin(row) or T.tainted(ch) or T.tainted(row):
                    raise Undecided('recorded location not known')
                slot = (I.canon(st, A + (('f', '_'),))[:-1], ch, row)
            self.ent.append((reg, k, c, present, slot))

    def same(self, X, Y):
        if X[0] != Y[0]:
            return False
        if X[0] == 'slot':
            return self.M.slot_eq(X[1:], Y[1:])
        if X[0] == 'new':
            return X == Y
        if X[0] == 'absent':
            return self.M.eq(X[1], Y[1])
        raise Undecided('entity not identified')

    def lookup(self, reg, X):
        """final location of entity X: slot or None"""
        for r, k, c, present, slot in self.ent:
            if r == reg and self.same(c, X):
                return slot if present else None
        return tuple(X[1:]) if X[0] == 'slot' else None

    def written(self, reg, X):
        return any(r == reg and self.same(c, X) for r, k, c, p, s in self.ent)

    def reg_of(self, A):
        return self.S.arch_info(self.M.I, self.M.fs, A)[0]

    def arch_set(self, A):
        return self.W.set_of_arch(self.M.I, self.M.fs, A)

    def target(self):
        """canonical identity of the entity the operation is applied to"""
        if self.op.ent is None:
            return None
        k = atom(('init', root(self.op.ent) + (self.S.id_field,)), nonneg=True)
        return self.M.ckey(root(self.op.reg) + (self.W.r_map,), k)

    def pool(self, op, reg=None):
        return [e for e in self.M.all_events(self.M.st.ev) if e.kind == 'pool' and e.op == op and (reg is None or e.reg == reg)]

    def idle(self):
        """no effect on storage, sizes, maps"""
        return not self.M.touched and not self.M.sizes and not self.M.counts and not self.ent


def err(M, tag, msg, ev=None):
    raise Bad(tag, msg, ev)


# ---------------------------------------------------------------------------- C05
def r_lifetime(M, E):
    """rows in use hold live components, other rows none"""
    slots = list(M.touched)
    for A, c, v in M.sizes:
        if T.tainted(v):
            raise Undecided('size of a chunk not known')
        z = M.size0(A, c) if M.is_new(A) or M.lt(c, M.n0(A)) else ZERO
        f = M.size(A, c)
        d = sub(f, z)
        if T.is_const(M.fs.facts.norm(d)):
            d = M.fs.facts.norm(d)[1]
        else:
            raise Undecided('number of rows changes by an unknown amount')
        if abs(d) > 2:
            raise Undecided('number of rows changes by more than two')
        for i in range(0, d):
            slots.append((A, c, add(z, const(i))))
        for i in range(d, 0):
            slots.append((A, c, add(z, const(i))))
    for s in slots:
        A, c, r = s
        inside = M.lt(c, M.nchunks(A)) and M.lt(r, M.size(A, c))
        for cls in M.cls_list:
            if not M.in_arch(cls, A):
                continue
            live = M.status(cls, s)
            if live and not inside:
                err(M, 'C05', f'a component outlives its row: {M.show(cls, s)} is live, but the row is not in use at the end')
            if inside and not live:
                err(M, 'C05', f'a row in use holds no component: {M.show(cls, s)}')


# ---------------------------------------------------------------------------- C04
def r_dense(M, E):
    for e in M.all_events(M.st.ev):
        if e.kind == 'newarch':
            for tag, msg in e.problems:
                if tag == 'C04':
                    err(M, tag, msg, e)
    archs = []
    for A in [a for a, _, _ in M.sizes] + list(M.counts):
        if A not in archs:
            archs.append(A)
    for A in archs:
        n = M.nchunks(A)
        if not M.lt(ZERO, n):
            err(M, 'C04', 'an archetype is left without any chunk')
        last = sub(n, ONE)
        cand = [last, sub(M.n0(A), ONE)] + [c for a, c, _ in M.sizes if a == A]
        for c in cand:
            if not M.lt(c, n) or M.lt(c, ZERO):
                continue
            s = M.size(A, c)
            mx = M.amax(A)
            if M.lt(mx, s):
                err(M, 'C04', f'a chunk holds more rows than its capacity (chunk {T.show(c)})')
            if M.eq(c, last):
                if not M.eq(n, ONE) and not M.lt(ZERO, s):
                    err(M, 'C04', 'the last chunk is left empty although it is not the only one')
            elif not M.eq(s, mx):
                err(M, 'C04', f'a chunk that is not the last one is left with a free row (chunk {T.show(c)})')


# ---------------------------------------------------------------------------- C03
def r_locations(M, E):
    for s in M.touched:
        if not M.status('entity', s):
            continue
        X = M.content('entity', s)
        if X[0] == 'value' or X[0] == '?':
            raise Undecided('entity stored in a row not known')
        reg = E.reg_of(s[0])
        if reg is None:
            raise Undecided('registry of an archetype not known')
        l = E.lookup(reg, X)
        if l is None:
            err(M, 'C03', f'a row holds an entity that has no recorded location ({M.show("entity", s)})')
        if not M.slot_eq(l, s):
            err(M, 'C03', f'an entity is recorded at chunk {T.show(l[1])}, row {T.show(l[2])} but stored at chunk {T.show(s[1])}, row {T.show(s[2])}')
    for reg, k, X, present, slot in E.ent:
        if present:
            if E.reg_of(slot[0]) != reg:
                err(M, 'C03', 'an entity is recorded in an archetype of another registry')
            if not M.status('entity', slot):
                err(M, 'C03', f'the recorded location of an entity holds no entity (chunk {T.show(slot[1])}, row {T.show(slot[2])})')
            Y = M.content('entity', slot)
            if Y[0] in ('value', '?'):
                raise Undecided('entity stored in a row not known')
            if not E.same(Y, X):
                err(M, 'C03', f'the recorded location of an entity holds another entity (chunk {T.show(slot[1])}, row {T.show(slot[2])})')
            if not (M.lt(slot[1], M.nchunks(slot[0])) and M.lt(slot[2], M.size(slot[0], slot[1]))):
                err(M, 'C03', 'the recorded location of an entity lies outside the storage')
        if X[0] == 'slot':
            s0 = X[1:]
            if not present or not M.slot_eq(s0, slot):
                if M.status('entity', s0) and E.same(M.content('entity', s0), X):
                    err(M, 'C03', 'the row an entity was recorded at before still holds it')
    for s in M.touched:
        if M.initially_live('entity', s):
            X = ('slot',) + tuple(s)
            reg = E.reg_of(s[0])
            gone = not M.status('entity', s) or not E.same(M.content('entity', s), X)
            if gone and not E.written(reg, X):
                err(M, 'C03', f'an entity whose row was given up or overwritten is still recorded there ({M.show("entity", s)})')


# ---------------------------------------------------------------------------- C06
def empty_slot(M):
    """the archetype map holds a key that was inserted by the operation and has no archetype"""
    mem = M.st.mem
    for k, v in mem.items():
        if len(k) < 2 or k[-2] != M.W.as_map or not isinstance(k[-1], tuple) or k[-1][0] != 'has' or v != ('B', True):
            continue
        p = mem.get(k[:-1] + (('k', k[-1][1]), ('f', 'p')))
        if p is not None and is_lin(p) and M.st.facts.norm(p) == ZERO:
            return True
    return False


def r_nothing(M, E):
    """an operation that failed has changed nothing"""
    how = M.how
    if how[0] != 'throw':
        return
    for s in M.touched:
        for cls in M.cls_list:
            if not M.in_arch(cls, s[0]):
                continue
            a, b = M.initially_live(cls, s), M.status(cls, s)
            if a != b:
                err(M, 'C06', f'after a failed operation {M.show(cls, s)} {"is gone" if a else "is left behind"}')
            if b:
                c = M.content(cls, s)
                if c[0] == 'slot' and M.slot_eq(c[1:], s):
                    continue
                if c[0] == 'value' and c[2] in ('usercall', 'icall'):
                    continue        # the assignment of the client type itself has thrown
                err(M, 'C06', f'a failed operation has changed {M.show(cls, s)}')
    for A, c, v in M.sizes:
        z = M.size0(A, c) if M.is_new(A) or M.lt(c, M.n0(A)) else ZERO
        if M.lt(c, M.nchunks(A)) and not M.eq(M.size(A, c), z):
            err(M, 'C06', 'a failed operation has changed the number of entities in a chunk')
    for reg, k, X, present, slot in E.ent:
        if X[0] == 'slot':
            if not present:
                err(M, 'C06', 'a failed operation has dropped the location of an entity')
            if not M.slot_eq(slot, X[1:]):
                err(M, 'C06', 'a failed operation has changed the location of an entity')
        elif present:
            err(M, 'C06', 'a failed operation leaves an entity recorded')
    if empty_slot(M):
        err(M, 'C06', 'a failed operation leaves a component set recorded that has no archetype')
    made = [(e.reg, e.h) for e in E.pool('create')]
    freed = [(e.reg, e.h) for e in E.pool('recycle')]
    for h in made:
        if freed.count(h) != 1:
            err(M, 'C06', 'a failed operation consumes an entity handle' if h not in freed else 'a handle is recycled more than once')
    for h in freed:
        if h not in made:
            err(M, 'C06', 'a failed operation recycles the handle of an existing entity')


# ---------------------------------------------------------------------------- C07
DOCUMENTED = {'co_ecs::entity_not_found', 'co_ecs::component_not_found', 'co_ecs::insufficient_chunk_size', 'user', 'std::invalid_argument'}


def alive_atom(E, reg, ent):
    k = atom(('init', root(ent) + (E.S.id_field,)), nonneg=True)
    return atom(('alive', root(reg), k), nonneg=True, boolean=True, taint=False), k


def r_errors(M, E):
    op, how = E.op, M.how
    for e in M.all_events(M.st.ev):
        if e.kind == 'terminate':
            err(M, 'C07', f'{e.exc.name} meets {e.f}, which promises not to throw: the program is terminated', e)
    if M.st.notes.get('terminated'):
        err(M, 'C07', f'{M.st.notes["terminated"][1].name} meets {M.st.notes["terminated"][0]}, which promises not to throw: the program is terminated')
    if how[0] == 'throw' and how[1].name not in DOCUMENTED:
        err(M, 'C07', f'{how[1].name} escapes, which is not one of the documented errors')
    if op.ent is None or op.kind == 'alive':
        return
    a, k = alive_atom(E, op.reg, op.ent)
    alive = M.fs.facts.eq(a)
    h = atom(('haskey', ('init', root(op.reg) + (E.W.r_map,)), k), nonneg=True, boolean=True, taint=False)
    has = M.fs.facts.eq(h)
    name = how[1].name if how[0] == 'throw' else None
    if how[0] != 'throw':
        if alive is None:
            err(M, 'C07', f'the operation succeeds on a path that does not check that the entity is alive')
        if alive is True:
            err(M, 'C07', 'the operation succeeds on an entity that is not alive')
    if alive is True and name != 'co_ecs::entity_not_found':
        err(M, 'C07', f'{name} is raised for an entity that is not alive')
    if alive is False and has is True and op.kind != 'rdestroy' and name is not None and name != 'co_ecs::entity_not_found':
        err(M, 'C07', f'{name} is raised for an entity that has no location')
    if name == 'co_ecs::entity_not_found' and alive is False and has is False:
        err(M, 'C07', 'entity_not_found is raised for a live entity')
    if op.kind == 'get' and alive is False and has is False:
        X = E.target()
        missing = [t for t in op.types if not M.member(typeid(t), E.arch_set(X[1]))] if X[0] == 'slot' and all(map(typeid, op.types)) else None
        if missing is None:
            raise Undecided('component not identified')
        if missing and name != 'co_ecs::component_not_found':
            err(M, 'C07', f'access to a component the entity lacks does not raise component_not_found')
        if not missing and name is not None:
            err(M, 'C07', f'{name} is raised for an entity that has the component')


# ---------------------------------------------------------------------------- C15
def r_layout(M, E):
    """new chunks have the capacity and blocks of their archetype; no row lies at or behind the capacity"""
    W, st, I = M.W, M.st, M.I
    for e in M.all_events(M.st.ev):
        if e.kind == 'newarch':
            for tag, msg in e.problems:
                if tag == 'C15':
                    err(M, tag, msg, e)
        if e.kind == 'push' and e.cont[-1:] == (W.a_chunks,):
            a = e.cont[:-1]
            c = e.cont + (('i', e.index),)
            m, b = st.mem.get(c + (W.c_max,)), st.mem.get(c + (W.c_blocks,))
            mx = I.read(st, a + (W.a_max,))
            if is_lin(m) and is_lin(mx):
                if M.fs.facts.eq(sub(m, mx)) is not True and not T.tainted(m) and not T.tainted(mx):
                    err(M, 'C15', 'a new chunk has another capacity than its archetype', e)
            if isinstance(b, tuple) and b and b[0] == 'ptr' and b[1].loc != a + (W.a_blocks,):
                err(M, 'C15', 'a new chunk uses the blocks of another archetype', e)
    for A in dict.fromkeys([a for a, _, _ in M.sizes] + list(M.counts)):
        n = M.nchunks(A)
        for c in [sub(n, ONE), sub(M.n0(A), ONE)] + [c for a, c, _ in M.sizes if a == A]:
            if M.lt(c, n) and not M.lt(c, ZERO) and M.lt(M.amax(A), M.size(A, c)):
                err(M, 'C15', f'a row is stored behind the end of its arrays (chunk {T.show(c)})')


# ---------------------------------------------------------------------------- C25
def r_refs(M, E):
    """no reference into growable storage is used after the storage may have moved"""
    from .rowmodel import canon_key
    for n, e in enumerate(M.st.ev):
        if e.kind == 'stale':
            ins = [x for x in M.st.ev[:n] if x.kind == 'mapinsert' and x.map == e.cont]
            if ins and set(e.why) == {'insert'} and all(canon_key(M.S, M.I, M.st, x.map, x.key)[0] == 'slot' for x in ins):
                continue        # the entities of all rows are in the map: nothing is inserted
            err(M, 'C25', f'a reference into {e.cont[-1][-1]} is used after an operation that may move its elements', e)


# ---------------------------------------------------------------------------- C01, C02
def r_stale(M, E):
    """operations succeed only for entities the pool said are alive; ending a life recycles exactly that handle"""
    op, how = E.op, M.how
    name = how[1].name if how[0] == 'throw' else None
    if op.ent is not None:
        a, k = alive_atom(E, op.reg, op.ent)
        if op.kind == 'alive':
            return
        alive = M.fs.facts.eq(a)
        if name is None and alive is None:
            err(M, 'C01', 'the operation succeeds on a path that does not check that the entity is alive')
        if alive is True and name != 'co_ecs::entity_not_found':
            err(M, 'C01', f'the operation {"succeeds on" if name is None else "raises " + name + " for"} an entity that is not alive')
    made = [(e.reg, e.h) for e in E.pool('create')]
    freed = [(e.reg, e.h) for e in E.pool('recycle')]
    if op.kind in ('destroy', 'move') and name is None:
        mine = (root(op.reg), k)
        if freed.count(mine) != 1:
            err(M, 'C01', f'{op.kind} recycles the handle of the entity {freed.count(mine)} times')
        freed = [x for x in freed if x != mine]
    for x in freed:
        if name is None or x not in made:
            err(M, 'C01', f'{op.kind} recycles the handle of an entity that stays')


def r_handles(M, E):
    """what is handed out is what the pool gave out for it"""
    op, how, I, st = E.op, M.how, M.I, M.st
    if how[0] == 'throw' or op.returns != 'entity' and op.kind != 'create':
        return
    dst = root(op.dest) if op.dest else root(op.reg)
    hs = [e.h for e in E.pool('create', dst) + E.pool('reserve', dst)]
    if len(hs) != 1:
        err(M, 'C02', f'{op.kind} takes {len(hs)} handles from the pool of the destination')
    if op.returns == 'entity':
        r = M.hook.hid(I, st, how[1])
        if r != hs[0]:
            err(M, 'C02', f'{op.kind} returns a handle that is not the one taken from the pool')
    if any(e.h == hs[0] for e in E.pool('recycle', dst)):
        err(M, 'C02', f'the handle {op.kind} hands out has been recycled')
    N = canon_key(M.S, I, M.fs, dst + (M.W.r_map,), hs[0])
    if E.lookup(dst, N) is None:
        err(M, 'C02', 'the new entity is not stored under the handle handed out')


# ---------------------------------------------------------------------------- C24
def r_effect(M, E):
    op, how, I, st = E.op, M.how, M.I, M.st
    for e in M.all_events(M.st.ev):
        if e.kind == 'newarch':
            for tag, msg in e.problems:
                if tag == 'C24':
                    err(M, tag, msg, e)
    X = E.target() if op.ent else None
    reg, dst = root(op.reg), root(op.dest)
    mod = set(op.types) if op.kind in ('set', 'goi', 'remove') else set()
    # other entities keep all they have
    for s in M.touched:
        if not M.status('entity', s):
            continue
        Y = M.content('entity', s)
        if Y[0] == '?':
            raise Undecided('entity stored in a row not known')
        if Y[0] == 'slot':
            is_target = X is not None and E.same(Y, X)
            for cls in M.cls_list:
                if cls == 'entity':
                    continue
                was, now = M.in_arch(cls, Y[1]), M.in_arch(cls, s[0])
                mine = is_target and cls != GEN and T.single_atom(cls)[1] in mod
                if was != now and not mine:
                    err(M, 'C24', f'an entity {"loses" if was else "gains"} a component the operation does not name ({M.show(cls, s)})')
                if now and M.status(cls, s):
                    c = M.content(cls, s)
                    if mine and op.kind in ('set', 'goi'):
                        continue
                    if c[0] != 'slot' or not M.slot_eq(c[1:], Y[1:]):
                        err(M, 'C24', f'a component of an entity that was relocated or stayed in place has the value of another ({M.show(cls, s)})')
    if how[0] == 'throw':
        return
    created = [e.h for e in E.pool('create')]
    freed = [(e.reg, e.h) for e in E.pool('recycle')]
    if op.kind in ('get', 'has', 'visit', 'arch', 'alive'):
        if not E.idle():
            err(M, 'C24', 'an operation that only reads changes the storage')
        if created or freed:
            err(M, 'C24', 'an operation that only reads creates or destroys entities')
    v = how[1]
    if op.kind == 'has':
        b = truth(M, v)
        all_in = X[0] == 'slot' and all(M.member(typeid(t), E.arch_set(X[1])) for t in op.types) if all(map(typeid, op.types)) else None
        if all_in is None:
            raise Undecided('component not identified')
        if X[0] == 'slot' and b != all_in:
            err(M, 'C24', f'has() returns {b} for an entity that {"has" if all_in else "lacks"} the components')
    if op.kind == 'alive':
        k = atom(('init', root(op.ent) + (E.S.id_field,)), nonneg=True)
        a = atom(('alive', reg, k), nonneg=True, boolean=True, taint=False)
        if truth(M, v) == M.eq(a, ZERO):
            err(M, 'C24', 'alive() does not return whether the entity is alive')
    if op.kind == 'get' and X[0] == 'slot':
        check_refs(M, E, v, X)
    if op.kind == 'arch' and X[0] == 'slot':
        if isinstance(v, LV) and not M.arch_eq(v.loc, X[1]):
            err(M, 'C24', 'archetype() returns the archetype of another entity')
    if op.kind in ('set', 'goi', 'remove'):
        l = E.lookup(reg, X)
        if l is None:
            err(M, 'C24', f'the entity has no location after {op.kind}')
        for t in op.types:
            tid = typeid(t)
            now = M.in_arch(tid, l[0])
            was = X[0] == 'slot' and M.in_arch(tid, X[1])
            if op.kind == 'remove' and now:
                err(M, 'C24', 'the entity still has the component after remove')
            if op.kind != 'remove':
                if not now:
                    err(M, 'C24', f'the entity lacks the component after {op.kind}')
                c = M.content(tid, l)
                keep = op.kind == 'goi' and was
                if keep and not (c[0] == 'slot' and M.slot_eq(c[1:], X[1:])):
                    err(M, 'C24', 'get_or_insert changes a component that exists')
                if not keep and c[0] != 'value':
                    err(M, 'C24', f'the component does not have the given value after {op.kind}')
        if created or freed:
            err(M, 'C24', f'{op.kind} creates or destroys an entity')
        if op.kind == 'goi':
            check_refs(M, E, v, ('slot',) + tuple(l))
    if op.kind in ('destroy', 'move'):
        k = atom(('init', root(op.ent) + (E.S.id_field,)), nonneg=True)
        if E.lookup(reg, X) is not None:
            err(M, 'C24', f'the entity still has a location after {op.kind}')
        if freed.count((reg, k)) != 1 or len(freed) != 1:
            err(M, 'C24', f'{op.kind} recycles {"no handle" if not freed else "the handle more than once" if freed.count((reg, k)) > 1 else "another handle"}')
        if op.kind == 'destroy' and created:
            err(M, 'C24', 'destroy creates an entity')
    if op.kind in ('create', 'clone', 'copy', 'move'):
        if op.kind != 'move' and freed:
            err(M, 'C24', f'{op.kind} destroys an entity')
        hs = [e.h for e in E.pool('create', dst) + E.pool('reserve', dst)]
        if len(hs) != 1:
            err(M, 'C24', f'{op.kind} creates {len(hs)} entities')
        N = canon_key(M.S, I, M.fs, dst + (M.W.r_map,), hs[0])
        l = E.lookup(dst, N)
        if l is None:
            err(M, 'C24', 'the new entity has no location')
        if op.returns == 'entity':
            r = M.hook.hid(I, st, v)
            if r != hs[0]:
                err(M, 'C24', f'{op.kind} does not return the new entity')
        for cls in M.cls_list:
            if cls == 'entity':
                continue
            now = M.in_arch(cls, l[0])
            if op.kind == 'create':
                want = cls != GEN and T.single_atom(cls)[1] in op.types
            else:
                want = M.in_arch(cls, X[1])
            if now != want:
                err(M, 'C24', f'the new entity {"has a component it should not have" if now else "lacks a component"} ({M.show(cls, l)})')
            if now:
                c = M.content(cls, l)
                if op.kind == 'create':
                    if c[0] != 'value':
                        err(M, 'C24', f'a component of the new entity has not the given value ({M.show(cls, l)})')
                elif c[0] != 'slot' or not M.slot_eq(c[1:], X[1:]):
                    err(M, 'C24', f'a component of the new entity has not the value of the original ({M.show(cls, l)})')
        if op.kind == 'create':
            for t in op.types:
                if typeid(t) is None or typeid(t) not in M.cls_list:
                    err(M, 'C24', f'the new entity lacks a component ({t})')
        if op.kind in ('clone', 'copy') and X[0] == 'slot':
            l2 = E.lookup(reg, X)
            if l2 is None or not M.slot_eq(l2, X[1:]):
                err(M, 'C24', 'the original is moved by copying it')


def truth(M, v):
    if isinstance(v, LV):
        v = M.I.read(M.st, v.loc)
    if v[0] == 'B':
        return v[1]
    if is_lin(v):
        return not M.eq(v, ZERO)
    if v[0] in ('cmp', 'not', 'and', 'or'):
        return M.decide(v)
    raise Undecided('returned truth value not known')


def check_refs(M, E, v, X):
    """a returned reference (or tuple of references) denotes the component of the entity"""
    op = E.op
    refs = []
    if isinstance(v, LV):
        refs = [(v, op.types[0])]
    elif isinstance(v, Rec):
        loc = M.I.fresh_loc('t').loc
        M.I.write(M.st, loc, v)
        for i, t in enumerate(op.types):
            hit = [x for k, x in M.st.mem.items() if k[:len(loc)] == loc and x[0] == 'ptr' and len(k) > len(loc) and k[-1] in (('i', i), ('s', i), ('f', i), ('tup', i))]
            if len(hit) == 1:
                refs.append((hit[0][1], t))
        M.I.clear_below(M.st, loc)
    for r, t in refs:
        l = r.loc
        if len(l) != 1 or l[0][0] != 'p':
            if l[0][0] in ('o', 'p') and not r.taint():
                raise Undecided('returned reference not understood')
            continue
        d = M.S.decode(M.st, l[0][1])
        if d is None or d[3] is None:
            if T.tainted(l[0][1]):
                raise Undecided('returned reference not understood')
            err(M, 'C24', 'a returned reference is not the address of a component')
        a = T.single_atom(d[2])
        if a and a[0] == 'typeid' and a[1] != t:
            err(M, 'C24', f'a reference to {a[1]} is returned where {t} is asked for')
        if not M.slot_eq((d[0], d[1], d[3]), X[1:]):
            err(M, 'C24', 'a reference to a component of another entity is returned')


RULES = [r_lifetime, r_dense, r_locations, r_nothing, r_errors, r_effect]
