"""C01: a destroyed entity is never reachable through an old handle."""
from sa import terms as T
from sa.terms import sub, add, const, scale, is_lin
from sa import poolmodel as PM
from sa.poolmodel import ONE
from sa import schedmodel as S
from . import core, c02

LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Over an arbitrary pool, every operation leaves the generation of every slot as it was or makes it larger, never forgets one, and '
               'only recycling a handle that is alive advances one, its own; a handle is alive exactly if its slot exists and has its generation; '
               'a handle given out carries the generation of its slot. Over arbitrary registries, every operation on an entity succeeds only on '
               'paths where the pool said it is alive and raises entity_not_found otherwise, and destroying or moving away an entity recycles '
               'exactly its handle.')


def run(ctx):
    ctx.assumptions = ['a slot is reused fewer than 2^32 times', 'handles are obtained from the pool, not made up']
    P = ctx.program('pool')
    try:
        pool = PM.Pool(P)
        for name, (root, kind) in c02.OPS.items():
            generations(ctx, pool, name, c02.base_of(pool, root), kind)
        for name, root in (('drv_alive', 'p'), ('drv_ralive', 'r')):
            alive(ctx, pool, name, c02.base_of(pool, root))
        same(ctx, pool)
    except PM.NoModel as e:
        ctx.undecide('pool of handles', str(e))
    core.run(ctx, 'C01')


def generations(ctx, pool, name, base, kind):
    rule = 'generations only advance, and only by recycling a live handle'
    I, res = pool.runs(name)
    for fid in I.inlined:
        ctx.saw('functions', pool.P.funcs[fid]['q'])
    for i, (st, v) in enumerate(res):
        ctx.saw('paths', f'{name} path {i}')
        R = PM.Report(ctx, name, pool, I, st, base)
        if PM.unknown(st):
            R.und(rule, str(PM.unknown(st)[0].d.get('f')))
            continue
        z, n = pool.then(base), pool.now(I, st, base)
        tab = base + (pool.G,)
        for e in PM.effects(pool, st, base, pool.G):
            if e.kind in ('pop', 'clear'):
                R.bad(rule, 'the generation of a slot is forgotten', e)
            elif e.kind == 'resize':
                for neg, f in PM.cases(st, z):
                    R.le(rule, f, sub(e.old, e.n), 'the generation of a slot is forgotten', e)
            elif e.kind == 'push':
                val = e.d.get('val')
                zero = not e.d.get('args') or is_lin(val) and T.is_const(val) and val[1] == 0
                if not zero and is_lin(val) and T.is_const(val):
                    R.bad(rule, 'a new slot starts at a generation its first handle does not have', e)
                elif not zero:
                    R.und(rule, 'generation of a new slot')
                else:
                    R.ok(rule)
            elif e.kind not in ('index', 'back', 'deref', 'front', 'reserve'):
                R.und(rule, f'{e.kind} of the generation table')
        written = PM.gen_writes(pool, st, base)
        pushed = [e for e in S.flat(st.ev) if e.kind == 'push' and e.cont == base + (pool.F,)]
        for neg, f in PM.cases(st, z):
            writes = [(i, v) for i, v in written if f.le(sub(z['G'], i)) is not True]       # entries that existed before
            if kind == 'recycle':
                recycled(R, pool, I, st, base, f, z, writes, pushed)
                continue
            for idx, val in writes:
                if not is_lin(val) or PM.vague(val):
                    R.und(rule, 'an entry of the generation table is written')
                    continue
                R.bad(rule, 'the generation of a slot changes although nothing was destroyed')
            if kind in ('create', 'reserve'):
                gen(R, pool, I, st, v, base, f, z, n, kind)


def recycled(R, pool, I, st, base, f, z, writes, pushed):
    rule = 'recycling ends the life of exactly the handle given'
    h = (('o', 'h'),)
    hid = T.atom(('init', h + (pool.hid,)), nonneg=True)
    hgen = T.atom(('init', h + (pool.hgen,)), nonneg=True)
    cur = T.atom(('init', base + (pool.G, ('i', hid))), nonneg=True)
    inside = f.le(sub(add(hid, ONE), z['G']))
    equal = f.eq(sub(cur, hgen))
    if inside is True and equal is True:
        mine = [v for i, v in writes if f.eq(sub(i, hid)) is True]
        if not mine:
            R.bad(rule, 'the generation of the slot is left as it was: the old handle stays alive')
        for v in mine:
            R.le(rule, f, add(sub(cur, v), ONE) if is_lin(v) else None, 'the generation of the slot does not advance: an old handle may be alive again')
        if len(mine) != len(writes):
            R.bad(rule, 'the generation of another slot changes')
        for e in pushed:
            val = e.d.get('val')
            if not is_lin(val):
                k = base + (pool.F, ('i', e.index))
                val = st.mem.get(k)
            if is_lin(val):
                R.eq(rule, f, sub(val, hid), 'another slot is put back into the free list', e)
            else:
                R.und(rule, 'the id put back is not known')
        return
    if inside is False or equal is False:
        if writes or pushed:
            R.bad(rule, 'a handle that is not alive is recycled')
        else:
            R.ok(rule)
        return
    if writes or pushed:
        R.bad(rule, 'a handle is recycled on a path that does not establish that it is alive')
    else:
        R.und(rule, 'cannot tell whether the handle is alive')


def gen(R, pool, I, st, v, base, f, z, n, kind):
    rule = 'a handle given out carries the generation of its slot'
    r, g = pool.part(I, st, v, pool.hid), pool.part(I, st, v, pool.hgen)
    if r is None or g is None:
        return R.und(rule, 'the handle returned is not known')
    if PM.element_of(r, base + (pool.F,)) is not None:
        j = PM.element_of(g, base + (pool.G,))
        if j is not None:
            R.eq(rule, f, sub(j, r), 'a reused slot is handed out with the generation of another slot')
        elif T.is_const(g):
            R.bad(rule, 'a reused slot is handed out with a fixed generation')
        else:
            R.und(rule, 'the generation is not known')
        return
    R.eq(rule, f, g, 'a new slot is handed out with a generation its table entry does not have')
    if kind == 'create':
        R.le(rule, f, sub(add(r, ONE), n['G']), 'the slot of a created entity is not in the table: it is not alive')


def alive(ctx, pool, name, base):
    rule = 'a handle is alive exactly if its slot has its generation'
    I, res = pool.runs(name)
    h = (('o', 'h'),)
    hid = T.atom(('init', h + (pool.hid,)), nonneg=True)
    hgen = T.atom(('init', h + (pool.hgen,)), nonneg=True)
    cur = T.atom(('init', base + (pool.G, ('i', hid))), nonneg=True)
    G = pool.then(base)['G']
    for i, (st, v) in enumerate(res):
        ctx.saw('paths', f'{name} path {i}')
        for s, b in I.truth(st.copy(), v):
            R = PM.Report(ctx, name, pool, I, s, base)
            f = s.facts
            if b:
                R.le(rule, f, sub(add(hid, ONE), G), 'a handle of a slot that does not exist is said to be alive')
                R.eq(rule, f, sub(cur, hgen), 'a handle of another generation is said to be alive')
            elif f.le(sub(add(hid, ONE), G)) is False or f.eq(sub(cur, hgen)) is False or f.le(sub(const(2 ** 32 - 1), hid)) is True:
                R.ok(rule)
            elif S.tainted_path(s.path) or T.tainted(v if is_lin(v) else const(0)):
                R.und(rule, 'cannot tell why the handle is not alive')
            else:
                R.bad(rule, 'a live handle is said not to be alive')


def same(ctx, pool):
    rule = 'handles are equal exactly if slot and generation are'
    I, res = pool.runs('drv_same')
    at = lambda o, fld: T.atom(('init', (('o', o), fld)), nonneg=True)
    for st, v in res:
        for s, b in I.truth(st.copy(), v):
            R = PM.Report(ctx, 'drv_same', pool, I, s, ())
            f = s.facts
            x, y = sub(at('a', pool.hid), at('b', pool.hid)), sub(at('a', pool.hgen), at('b', pool.hgen))
            if b:
                R.eq(rule, f, x, 'handles of different slots compare equal')
                R.eq(rule, f, y, 'handles of different generations compare equal')
            elif f.eq(x) is False or f.eq(y) is False:
                R.ok(rule)
            else:
                R.bad(rule, 'equal handles compare different')
