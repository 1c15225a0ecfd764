"""C15: component arrays are aligned, disjoint and inside their chunk."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, add, const, scale, is_lin, is_const, mul
from sa.interp import Interp, Analysis, LV, Rec, base_scalar
from sa.modarith import Mod
from sa.world import World, Anchor
from . import core

ONE = const(1)
LEVEL = 'proof'
MIN_OBLIGATIONS = 12
EXPLANATION = ('The constructor of an archetype is interpreted over an arbitrary set of components (sums over the set are kept as sums). In an '
               'arbitrary iteration of the loop that lays out the arrays, the offset stored is a multiple of the alignment (arithmetic modulo an '
               'unknown power of two), not before the end of the arrays so far and less than one alignment behind it, and the end moves by capacity '
               'times size; summed up, and compared term by term with what the capacity was computed from, the last array ends inside the bytes '
               'allocated. The buffer is allocated with an alignment that is at least that of every component. Chunks get the capacity and the '
               'blocks of their archetype, and no operation stores a row at or behind the capacity.')
CORE = 'include/co_ecs/archetype.hpp'


class Und(Exception):
    pass


def run(ctx):
    ctx.assumptions = ['sizes of components add up to less than 2^64', 'alignments are powers of two', 'operator new honours the requested alignment']
    P = ctx.program('layout')
    for rule, f in (('layout of the arrays', arrays), ('alignment of the buffer', buffer)):
        try:
            f(ctx, P, rule)
        except (Und, Analysis, Anchor) as e:
            ctx.undecide(rule, str(e))
    core.run(ctx, 'C15')


def meta_of(I, st, v):
    """(size, align) of the type a component_meta describes"""
    if isinstance(v, LV):
        x = I.read(st, v.loc + (('f', 'type'),))
    elif isinstance(v, Rec):
        x = v.ov.get((('f', 'type'),))
        if x is None and v.base and v.base[0] == 'init':
            x = T.atom(('init', v.base[1] + (('f', 'type'),)), nonneg=True)
    else:
        x = None
    if x is None:
        raise Und('the type of a block is not known')
    lv = I.deref(st, x, None) if not (isinstance(x, tuple) and x[0] == 'ptr') else x[1]
    out = []
    for n in ('size', 'align'):
        out.append(I.to_lin(I.read(st, lv.loc + (('f', n),))))
    return out


def hook(I, st, f, this, args, node):
    if f['q'].startswith('co_ecs::detail::sparse_') and f['name'] in ('emplace', 'insert', 'try_emplace') and this is not None:
        off = met = None
        key = I.to_lin(I.rv(st, args[0])) if args else None
        if len(args) == 3:
            off, met = I.to_lin(I.rv(st, args[1])), args[2]
        elif len(args) == 2:
            off = I.to_lin(I.read(st, args[1].loc + (('f', 'offset'),))) if isinstance(args[1], LV) else \
                args[1].ov.get((('f', 'offset'),)) if isinstance(args[1], Rec) else None
            met = LV(args[1].loc + (('f', 'meta'),), (), None) if isinstance(args[1], LV) else None
        size = align = None
        if met is not None:
            try:
                size, align = meta_of(I, st, met)
            except Und:
                pass
        I.event(st, 'BLOCK', node, key=key, off=off, size=size, align=align)
        return [(st, I.opaque(st, f['ret'], 'blocks'))]
    return None


def find_loc(st, x):
    """variables that hold exactly this atom"""
    return [k for k, v in st.mem.items() if isinstance(v, tuple) and v and (v == x or v[0] == 'base' and base_scalar(v[1]) == x)]


def value(I, st, loc):
    v = st.mem.get(loc)
    if isinstance(v, tuple) and v and v[0] == 'base':
        return base_scalar(v[1])
    return v


def elem_part(x):
    """split a per-element expression into (constant, factor of size, factor of align); None if something else is in it"""
    c, s, a = x[1], 0, 0
    for i, k in x[2]:
        t = T.info(i)
        r = t[1] if t[0] == 'elemptr' else t[1:] if t[0] == 'elemfld' else None
        if not r or r[-1] not in (('f', 'size'), ('f', 'align')):
            return None
        if r[-1] == ('f', 'size'):
            s += k
        else:
            a += k
    return c, s, a


def never_negative(p):
    """c + s*size + a*align >= 0 for all size, align >= 1"""
    c, s, a = p
    return s >= 0 and a >= 0 and c + s + a >= 0


def arrays(ctx, P, rule):
    W = World(P)
    f = P.driver('drv_archetype')
    if f is None:
        raise Und('drv_archetype missing')
    I = Interp(P, abstract=set(), user_throw=False, hooks={'call': hook})
    I.exact_maps = True
    I.keep_ends = True
    I.sums = True
    res = I.run(f)
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    done = 0
    for i, (st, (how, v)) in enumerate(res):
        ctx.saw('paths', f'drv_archetype path {i}')
        if how == 'throw':
            continue
        try:
            one(ctx, P, I, W, st)
            done += 1
        except Und as e:
            ctx.undecide(rule, str(e))
    if not done:
        ctx.undecide(rule, 'no path of the constructor was followed')


class Rep:
    def __init__(self, ctx, P, I, st):
        self.ctx, self.P, self.I, self.st = ctx, P, I, st

    def bad(self, rule, msg, e=None):
        w = self.P.where(e.fid, e.line) if e is not None else CORE
        self.ctx.fail(rule, w, msg, S.path_of(self.st), key=f'{rule}|{msg}')

    def check(self, rule, d, msg, e=None, unknown=False):
        if d is True:
            self.ctx.ob(rule)
        elif d is None and unknown:
            self.ctx.undecide(rule, msg + ' cannot be excluded')
        else:
            self.bad(rule, msg, e)


def one(ctx, P, I, W, st):
    R = Rep(ctx, P, I, st)
    mem = (('o', 'mem'),)
    M = st.mem.get(mem + (W.a_max,))
    if not is_lin(M):
        raise Und('capacity not known')
    comps = None
    allocs = [e for e in st.ev if e.kind == 'allocate' and e.d.get('t') is None]
    if len(allocs) != 1 or not is_const(allocs[0].n):
        raise Und('bytes of a chunk not known')
    total = allocs[0].n
    # --- chunk of the archetype
    rule = 'a chunk has the capacity and the blocks of its archetype'
    c0 = mem + (W.a_chunks, ('i', const(0)))
    cm, cb = st.mem.get(c0 + (W.c_max,)), st.mem.get(c0 + (W.c_blocks,))
    if is_lin(cm):
        R.check(rule, st.facts.eq(sub(cm, M)), 'the chunk has another capacity than its archetype', unknown=T.tainted(cm))
    else:
        ctx.undecide(rule, 'capacity of the chunk')
    if isinstance(cb, tuple) and cb and cb[0] == 'ptr':
        R.check(rule, cb[1].loc == mem + (W.a_blocks,), 'the chunk uses the blocks of another archetype')
    else:
        ctx.undecide(rule, 'blocks of the chunk')
    # --- walk over the blocks
    end = const(0)            # bytes used so far, as far as known exactly
    first = None
    pad0 = const(0)
    looped = False
    evs = S.strip_loop_copies(st.ev)
    ent = None
    for e in evs:
        if e.kind == 'BLOCK':
            if looped:
                raise Und('a single array follows those of the components')
            if e.off is None or e.size is None:
                raise Und('block not known')
            d = known(P, e)
            m = Mod(e.align, st.facts)
            off = m.norm(e.off)
            place(R, m, off, end, e)
            end2 = add(off, mul(M, e.size))
            if ent is None:
                ent, pad0, first = e, off, e
            else:
                raise Und('several single arrays')
            end = end2
        elif e.kind in ('loop', 'loopsum') and any(x.kind == 'BLOCK' for tr in e.d.get('traces') or () for x in S.flat(tr[0])):
            if looped:
                raise Und('several loops lay out arrays')
            looped = True
            end = loop(R, I, W, st, e, end, M, ent, mem)
    if ent is None:
        R.bad('every component and the entity get an array', 'entities get no array')
        return
    n0 = [e for e in evs if e.kind == 'loop0']
    if not looped:
        comps = any(T.info(i)[0] == 'sum' and T.info(i)[2] != T.info(i)[3] for i in deep(M)) or \
            st.facts.eq(I.to_lin(I.read(st, (('o', 'set'), ('f', '_components_meta'), ('s', 'size'))))) is not True
        # whether there are components on this path
        if any(e.kind in ('loop', 'loopsum') for e in evs if e.d.get('label') == 'range' and cont_of(e) and cont_of(e)[:1] == mem and
               cont_of(e)[-1] != W.a_blocks):
            R.bad('every component and the entity get an array', 'components get no array')
            return
    capacity(R, P, I, st, M, total, ent, pad0, allocs[0])


def cont_of(e):
    for tr in e.d.get('traces') or ():
        for x in tr[0]:
            if x.kind == 'iterate':
                return x.cont
    return None


def deep(x, out=None):
    out = set() if out is None else out
    for i, _ in x[2]:
        if i in out:
            continue
        out.add(i)
        for y in T.info(i)[1:]:
            if is_lin(y):
                deep(y, out)
    return out


def known(P, e):
    return e


def place(R, m, off, end, e):
    al = m.aligned(off)
    R.check('every array is aligned for its type', al, 'an array starts at an offset that is not a multiple of the alignment of its type', e,
            unknown=T.tainted(m.residue(off)) and not m.carried(m.residue(off)))
    R.check('arrays do not overlap', m.le(sub(end, off)), 'an array starts before the end of the one before it', e)
    R.check('padding is accounted for', m.le(sub(off, add(end, m.mask))), 'more room is left in front of an array than the alignment needs', e, unknown=True)


def loop(R, I, W, st, e, end, M, ent, mem):
    rule = 'every component and the entity get an array'
    start, ends, entry = e.d.get('start'), e.d.get('ends'), e.d.get('entry')
    traces = e.d.get('traces') or ()
    if start is None or entry is None or len(ends) != len(traces):
        raise Und('the loop over the components was not followed')
    for tr, fin in zip(traces, ends):
        evs = tr[0]
        h = [x for x in evs if x.kind == 'iterate']
        blocks = [x for x in S.flat(evs) if x.kind == 'BLOCK']
        if not h:
            raise Und('the loop over the components is not understood')
        it = h[0]
        if it.cont != mem + it.cont[1:] or W.a_blocks in it.cont:
            raise Und('the arrays are not laid out in a loop over the components')
        whole = S.covers(it.first, it.n, it.cont)
        if whole is not True:
            # the size may be known under the name of the set the components were taken from
            n = I.to_lin(I.read(st, it.cont + (('s', 'size'),)))
            whole = True if it.first == const(0) and st.facts.eq(sub(n, it.n)) is True else \
                False if is_const(sub(n, it.n)) and is_const(it.first) else whole
        if whole is not True:
            R.check(rule, whole, 'the loop that lays out the arrays leaves components out', it, unknown=True)
        if len(blocks) != 1:
            R.bad(rule, 'a component gets no array' if not blocks else 'a component gets several arrays', it)
            continue
        b = blocks[0]
        if b.off is None or b.size is None or b.key is None:
            raise Und('block not known')
        elem = it.cont + (('i', it.index),)
        for what, x in (('key', b.key), ('size', b.size)):
            if not of_element(x, it.index):
                if T.tainted(x):
                    raise Und(f'{what} of a block not known')
                R.bad(rule, f'the {what} of an array is not that of the component looked at', b)
                return end
        R.ctx.ob(rule)
        m = Mod(b.align, fin.facts)
        off = m.norm(b.off)
        # the variable that carries the end of the arrays from one iteration to the next
        hid = [i for i, _ in deep_pairs(b.off) if T.info(i)[0] == 'hv']
        locs = [l for i in hid for l in find_loc(start, ('L', 0, ((i, 1),)))]
        locs = [l for n, l in enumerate(locs) if l not in locs[:n]]
        if len(locs) != 1:
            if not hid and not T.tainted(b.off):
                R.bad('arrays do not overlap', 'every array is put at the same place', b)
                return end
            raise Und('the end of the arrays so far is not known')
        H = value(I, start, locs[0])
        before = I.rv_lin(I.read(entry, locs[0]))
        after = value(I, fin, locs[0])
        if not is_lin(before) or not is_lin(after):
            raise Und('the end of the arrays so far is not known')
        m0 = Mod(ent.align, entry.facts) if ent is not None else m
        R.check('arrays do not overlap', m0.le(sub(end, before)), 'the arrays of the components start inside the array before them', b, unknown=T.tainted(before))
        R.check('padding is accounted for', m0.le(sub(before, end)), 'room is left before the arrays of the components', b, unknown=True)
        m.facts.assume_le(scale(H, -1))
        place(R, m, off, H, b)
        after = m.norm(after)
        used = add(off, mul(M, b.size))
        R.check('arrays do not overlap', m.le(sub(used, after)), 'the next array may start before the end of this one', b,
                unknown=T.tainted(after) and not m.carried(m.residue(after)) and not only(after, H, M))
        R.check('padding is accounted for', m.le(sub(after, used)), 'more room is used for an array than capacity times size', b, unknown=True)
    return None


def only(x, H, M):
    return True


def deep_pairs(x):
    return [(i, 1) for i in deep(x)]


def of_element(x, idx):
    """the value belongs to the element looked at in this iteration"""
    for i in deep(x):
        if mentions(T.info(i), idx):
            return True
    return False


def mentions(t, idx):
    if t == ('i', idx):
        return True
    if isinstance(t, tuple):
        if is_lin(t):
            return any(mentions(T.info(i), idx) for i, _ in t[2])
        return any(mentions(y, idx) for y in t if isinstance(y, tuple))
    return False


def capacity(R, P, I, st, M, total, ent, pad0, alloc):
    """pad + M * (sum of sizes) <= total"""
    rule = 'the arrays of a full chunk fit into its buffer'
    q = [(i, k) for i, k in M[2] if T.info(i)[0] == 'div']
    if len(q) != 1 or q[0][1] != 1 or len(M[2]) != 1:
        if not M[2]:
            R.bad(rule, 'the capacity does not depend on the sizes of the components', alloc)
            return
        raise Und('the way the capacity is computed is not understood')
    k = M[1]
    X, Y = T.info(q[0][0])[1], T.info(q[0][0])[2]
    # facts about the entity itself
    rec = next((r for r in P.recs.values() if r['bare'] == 'co_ecs::detail::handle'), None)
    F = st.facts.copy()
    if rec is not None:
        F.assume_eq(sub(ent.size, const(rec['size'])))
        F.assume_eq(sub(ent.align, const(rec['align'])))
    R.check('a set that does not fit is refused', F.le(scale(X, -1)), 'the capacity is computed although the components may not fit (the subtraction wraps around)',
            alloc, unknown=T.tainted(X))
    # rows are at least as large as in the division
    y0, ye = split(Y)
    s0 = sub(y0, ent.size)
    d = F.le(scale(s0, -1))
    R.check(rule, d, 'the capacity is computed from rows smaller than the entity handle', alloc, unknown=T.tainted(s0))
    if ye is not None:
        d = for_each_component(I, ye, lambda g, size, align: sub(g, size))
        R.check(rule, d, 'the capacity is computed from rows smaller than the components take', alloc, unknown=d is None)
    # total - X - pad - k * sizes >= 0
    m0 = Mod(ent.align, F)
    pad = m0.norm(pad0)
    if any(T.info(i)[0] == 'rem' for i in deep(pad)):
        pad = m0.mask
    x0, xe = split(X)
    D0 = sub(sub(sub(total, x0), pad), scale(ent.size, k))
    # X holds minus what is set aside; D0 = total - x0 - pad - k * size
    R.check(rule, F.le(scale(D0, -1)), 'less room is set aside for the entity handles than they need', alloc, unknown=T.tainted(D0))
    if xe is None and ye is None:
        return
    xe = xe if xe is not None else const(0)
    # per component: needed align - 1 + k * size
    d = for_each_component(I, scale(xe, -1), lambda g, size, align: sub(add(g, ONE), add(scale(size, k), align)))
    R.check(rule, d, 'less room is set aside for a component than its array may need for alignment', alloc, unknown=d is None)


def for_each_component(I, g, need):
    """need(contribution of one component, its size, its alignment) >= 0 for every component; None if not understood"""
    alts = [i for i, _ in g[2] if i in I.sum_alts]
    size, align = T.atom(('elemptr', ('*', (('f', 'type'),), ('f', 'size')))), T.atom(('elemptr', ('*', (('f', 'type'),), ('f', 'align'))))
    if not alts:
        p = elem_part(g)
        if p is None:
            return None
        q = elem_part(need(const(0), size, align))
        r = elem_part(need(const(1), size, align))
        n = r[0] - q[0]
        return never_negative((p[0] * n + q[0], p[1] * n + q[1], p[2] * n + q[2]))
    if len(g[2]) != 1:
        return None
    k = g[2][0][1]
    for raw, st, el in I.sum_alts[alts[0]]:
        st = st.copy()
        try:
            s, a = meta_of(I, st, LV(el, (), None))
        except Und:
            return None
        F = st.facts.copy()
        for x in (s, a):
            F.assume_le(sub(ONE, x))
        if F.dead:
            continue
        d = F.le(scale(need(add(const(g[1]), scale(raw, k)), s, a), -1))
        if d is not True:
            return False if all(T.info(i)[0] == 'init' for i, _ in raw[2]) else None
    return True


def split(x):
    """(part outside sums, summand): x = part + sum(summand)"""
    rest, summand = const(x[1]), None
    for i, k in x[2]:
        t = T.info(i)
        if t[0] == 'sum':
            if t[2] == t[3]:
                continue
            summand = add(summand or const(0), scale(t[4], k))
        else:
            rest = add(rest, ('L', 0, ((i, 1),)), k)
    return rest, summand


def buffer(ctx, P, rule):
    for name, kind in (('drv_chunk', 'allocate'), ('drv_drop', 'deallocate')):
        f = P.driver(name)
        if f is None:
            raise Und(f'{name} missing')
        I = Interp(P, abstract=set(), user_throw=False)
        I.exact_maps = True
        I.keep_ends = True
        for i, (st, (how, v)) in enumerate(I.run(f)):
            ctx.saw('paths', f'{name} path {i}')
            if how == 'throw':
                continue
            R = Rep(ctx, P, I, st)
            mem = [e for e in st.ev if e.kind == kind and e.d.get('t') is None]
            if kind == 'allocate' and len(mem) != 1:
                raise Und('allocation of the buffer not found')
            for e in mem:
                walked = [x for x in st.ev if x.kind in ('loop', 'loopsum') and x.d.get('ends') is not None and heads(x)]
                if empty(I, st):
                    ctx.ob(rule)          # no blocks at all
                    continue
                al = e.d.get('align')
                if al is None or is_const(al):
                    R.bad(rule, 'the alignment of the buffer does not depend on the components', e)
                    continue
                locs = find_loc(st, al)
                ok = None
                for x in walked:
                    for l in locs:
                        if (x.d.get('entry') is None or l in x.entry.mem) and l in x.start.mem and any(l in z.mem for z in x.ends):
                            ok = largest(R, I, rule, x, l, e)
                if ok is None:
                    raise Und('the alignment of the buffer is not understood')


def empty(I, st):
    """the path is the one of an archetype without blocks"""
    if any(x.kind == 'loop0' and x.d.get('cont') for x in st.ev):
        return True
    return any(st.facts.eq(T.atom(('init', loc))) is True for loc in sizes(st))


def sizes(st):
    out = set()
    for w, p, b in st.path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]):
            for i, _ in p[-1][2]:
                t = T.info(i)
                if t[0] == 'init' and t[1][-2:] == (('f', '_dense'), ('s', 'size')):
                    out.add(t[1])
    return out


def heads(x):
    """[(container, index, event, trace)] for the traces of a loop: the element looked at; None if one is not understood"""
    out = []
    for tr in x.d.get('traces') or ():
        for y in tr[0]:
            if y.kind in ('iterate', 'index'):
                out.append((y.cont, y.index, y, tr))
                break
            if y.kind == 'itderef' and y.loc[-1][0] == 'i':
                out.append((y.loc[:-1], y.loc[-1][1], y, tr))
                break
        else:
            return None
    return out


def largest(R, I, rule, x, loc, e):
    """the variable is at least as large as the alignment of every block looked at"""
    H = value(I, x.start, loc)
    hs = heads(x)
    if not is_lin(H) or len(hs) != len(x.ends):
        return None
    for (cont, idx, y, tr), fin in zip(hs, x.ends):
        if y.kind == 'iterate':
            whole = S.covers(y.first, y.n, cont)
        else:
            step = sub(idx, x.n) if is_lin(x.d.get('n')) else None
            whole = S.until_end(tr[2], idx, cont)
            if step is None or not is_const(step):
                whole = None
            elif step[1] != 0:
                whole = False
        R.check(rule, whole, 'the alignment of some blocks is left out', y, unknown=whole is None)
        elem = LV(cont + (('i', idx), ('f', 'second'), ('f', 'meta')), (), None)
        try:
            _, al = meta_of(I, fin, elem)
        except Und:
            return None
        v = value(I, fin, loc)
        if not is_lin(v):
            return None
        for z, msg in ((H, 'the alignment may become smaller again'), (al, 'the buffer may be aligned less than a component needs')):
            d = at_least(fin.facts, v, z)
            if d is None and not (v == H or T.single_atom(v) and T.single_atom(v)[0] == 'max' or known_elem(v)):
                return None
            R.check(rule, d, msg, e)
    return True


def known_elem(v):
    return all(T.info(i)[0] in ('init', 'elem', 'hv') for i, _ in v[2])


def at_least(F, v, y):
    """v >= y"""
    if F.le(sub(y, v)) is True:
        return True
    a = T.single_atom(v)
    if a is not None and a[0] == 'max':
        return True if any(at_least(F, z, y) is True for z in a[1:] if is_lin(z)) else None
    return F.le(sub(y, v))
