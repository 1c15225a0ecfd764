"""C02: handles of live and reserved entities are pairwise distinct."""
from sa import terms as T
from sa.terms import sub, add, const, scale, is_lin
from sa import poolmodel as PM
from sa.poolmodel import ONE
from . import core

LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Every path of every operation of the handle pool is interpreted over an arbitrary pool (loops summarised) that satisfies the '
               'invariant max(c,0) <= F and N - G = max(0,-c); on every exit the invariant holds again, an id taken from the free list is one of '
               'its unreserved entries and no longer one afterwards, any other id is at or above N and below the new N, and an id is put back only '
               'right behind the unreserved entries. reserve() takes its id from the value of one atomic read-modify-write and changes nothing '
               'else, so concurrent reservations behave like a sequence of them. The registry hands out exactly the handle its pool gave it.')
OPS = {'drv_create': ('p', 'create'), 'drv_recycle': ('p', 'recycle'), 'drv_reserve': ('p', 'reserve'), 'drv_flush': ('p', 'flush'),
       'drv_rreserve': ('r', 'reserve'), 'drv_rsync': ('r', 'flush')}


def base_of(pool, root):
    if root == 'p':
        return (('o', 'p'),)
    for r in pool.P.recs.values():
        if r['bare'] == 'co_ecs::base_registry':
            for x in r['fields']:
                t = pool.P.ty(x['t'])
                if t.get('k') == 'rec' and t.get('rec') == pool.rec['id']:
                    return (('o', 'r'), ('f', x['n']))
    raise PM.NoModel('no pool in the registry')


def run(ctx):
    ctx.assumptions = ['fewer than 2^32 entities exist at a time', 'only reserve() is called concurrently (documented)',
                       'handles are obtained from the pool, not made up']
    P = ctx.program('pool')
    try:
        pool = PM.Pool(P)
        for name, (root, kind) in OPS.items():
            sequential(ctx, pool, name, base_of(pool, root), kind)
        for name in ('drv_reserve', 'drv_rreserve'):
            concurrent(ctx, pool, name, base_of(pool, OPS[name][0]))
        fresh(ctx, pool)
    except PM.NoModel as e:
        ctx.undecide('pool of handles', str(e))
    core.run(ctx, 'C02')


def fresh(ctx, pool):
    rule = 'a new pool satisfies the invariant'
    I, res = pool.runs('drv_fresh')
    for st, v in res:
        b = (('o', 'mem'),)
        R = PM.Report(ctx, 'drv_fresh', pool, I, st, b)
        n = pool.now(I, st, b)
        f = st.facts
        R.eq(rule, f, n['c'], 'a new pool starts with a cursor other than zero')
        R.eq(rule, f, n['F'], 'a new pool starts with free ids')
        R.eq(rule, f, sub(n['N'], n['G']), 'a new pool hands out ids its table does not cover')


def sequential(ctx, pool, name, base, kind):
    I, res = pool.runs(name)
    for fid in I.inlined:
        ctx.saw('functions', pool.P.funcs[fid]['q'])
    if not res:
        ctx.undecide('invariant', f'{name} never returns')
    for i, (st, v) in enumerate(res):
        ctx.saw('paths', f'{name} path {i}')
        R = PM.Report(ctx, name, pool, I, st, base)
        if PM.unknown(st):
            R.und('invariant', str(PM.unknown(st)[0].d.get('f')))
            continue
        z, n = pool.then(base), pool.now(I, st, base)
        for neg, f in PM.cases(st, z):
            free = const(0) if neg else z['c']
            invariant(R, f, n)
            if kind == 'flush':
                R.le('a flush leaves no reserved id outside the table', f, scale(n['c'], -1), 'reserved ids are still pending after a flush')
            available(R, pool, st, base, f, z, n, free)
            if kind in ('create', 'reserve'):
                given(R, pool, I, st, v, base, f, z, n, free)


def invariant(R, f, n):
    rule = 'the invariant of the pool holds on exit'
    R.le(rule, f, sub(n['c'], n['F']), 'the cursor points behind the list of free ids')
    msg = 'the ids given out beyond the table do not match those reserved'
    d = f.le(scale(n['c'], -1))
    for neg in (False, True):
        if d is not None and neg == d:
            continue
        g = f.copy()
        g.assume_le(add(n['c'], ONE) if neg else scale(n['c'], -1))
        if not g.dead:
            R.eq(rule, g, add(sub(n['N'], n['G']), n['c']) if neg else sub(n['N'], n['G']), msg)


def available(R, pool, st, base, f, z, n, free):
    rule = 'only unreserved free ids stay available'
    evs = PM.effects(pool, st, base, pool.F)
    pushes = [e for e in st.ev if e.kind == 'push' and e.cont == base + (pool.F,)]
    if len([e for e in evs if e.kind == 'push']) != len(pushes):
        return R.und(rule, 'ids are put back in a loop')
    odd = [e for e in evs if e.kind not in ('push', 'pop', 'index', 'back', 'resize', 'clear', 'deref', 'front', 'reserve')]
    if odd:
        return R.und(rule, f'{odd[0].kind} of the list of free ids')
    lst = base + (pool.F,)
    for k in st.mem:
        if k[:len(lst)] == lst and len(k) > len(lst) and k[len(lst)][0] == 'i' and not any(f.eq(sub(k[len(lst)][1], e.index)) is True for e in pushes):
            return R.und(rule, 'an entry of the list of free ids is overwritten')
    if not pushes:
        R.le(rule, f, sub(n['c'], free), 'ids already given out become available again')
    elif len(pushes) == 1:
        e = pushes[0]
        R.le(rule, f, sub(e.index, free), 'an id is put back behind ids that are reserved: those become available again', e)
        R.le(rule, f, sub(sub(n['c'], e.index), ONE), 'ids already given out become available again', e)
    else:
        R.bad(rule, 'an id is put back more than once', pushes[1])


def given(R, pool, I, st, v, base, f, z, n, free):
    rule = 'the id given out is neither live nor reserved nor available again'
    r = pool.part(I, st, v, pool.hid)
    if r is None:
        return R.und(rule, 'the handle returned is not known')
    i = PM.element_of(r, base + (pool.F,))
    if i is not None:
        R.le(rule, f, scale(i, -1), 'an id is taken from in front of the list')
        R.le(rule, f, sub(add(i, ONE), free), 'an id is taken from the reserved part of the free list')
        R.le(rule, f, sub(n['c'], i), 'the id given out stays available')
    else:
        R.le(rule, f, sub(z['N'], r), 'a new id is one that was given out before')
        R.le(rule, f, sub(add(r, ONE), n['N']), 'a new id is given out again by the next operation')


def concurrent(ctx, pool, name, base):
    rule = 'a reservation is one atomic step'
    I, res = pool.runs(name, volatile=True)
    for i, (st, v) in enumerate(res):
        ctx.saw('paths', f'{name} path {i} (concurrent)')
        R = PM.Report(ctx, name, pool, I, st, base)
        if PM.unknown(st):
            R.und(rule, 'not understood')
            continue
        for e in S_flat(st.ev):
            own = e.d.get('cont') or e.d.get('loc') or ()
            if own[:len(base)] != base:
                continue
            if e.kind in ('push', 'pop', 'resize', 'insert', 'erase', 'clear', 'assign', 'swap', 'emplace'):
                R.bad(rule, 'the tables are changed by a reservation, while other threads may read them', e)
            elif e.kind == 'atomic' and e.op in ('store', 'xchg'):
                R.bad(rule, 'a value other threads may have changed in between is overwritten', e)
            else:
                R.ok(rule)
        r = pool.part(I, st, v, pool.hid)
        k = PM.element_of(r, base + (pool.F,)) if r is not None else None
        steps = [e for e in S_flat(st.ev) if e.kind == 'atomic' and (e.op == 'rmw' or e.op == 'cas' and e.ok)]
        f = st.facts
        if r is None:
            R.und(rule, 'the handle returned is not known')
        elif k is not None:
            mine = [e for e in steps if e.loc == base + (pool.c,) and f.eq(sub(e.new, k)) is True]
            if mine:
                R.ok(rule)
            else:
                R.bad(rule, 'the entry of the free list taken is not the one the cursor was moved over atomically')
        else:
            mine = [e for e in steps if e.loc == base + (pool.N,) and f.eq(sub(e.val, r)) is True]
            if mine:
                R.ok(rule)
            else:
                R.bad(rule, 'the new id is not the value that was counted up atomically')
        took = [e for e in steps if e.loc == base + (pool.c,)]
        if len(took) != 1:
            R.bad(rule, f'the cursor is moved {len(took)} times by one reservation')
        elif k is None:
            # the free list was found used up by the same step
            R.le(rule, f, took[0].val, 'a new id is taken although the cursor was moved over a free one')


def S_flat(evs):
    from sa import schedmodel as S
    return S.flat(evs)
