"""C11: stages run in order, every system exactly once, joined before the next stage and before commands are applied."""
from sa import terms as T
from sa import schedmodel as S
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import ABS

LEVEL = 'proof'
MIN_OBLIGATIONS = 80
EXPLANATION = ('Every system given to a stage is stored once; building an executor goes through all stored systems and, in an arbitrary iteration, '
               'places the system looked at exactly once or keeps it; running a stage goes through all stored executors, runs each exactly once and '
               'has joined what it submitted on return; running a schedule runs all stages in their order and applies commands last; a system '
               'executor calls its function exactly once; a task runs its function before it counts down its counter, counts its parent down '
               'exactly when its own counter reaches zero, is counted by its parent before it can be run, and wait() returns only after it saw zero.')
CALLS = ('icall', 'usercall', 'fncall')
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall')


def run(ctx):
    ctx.assumptions = ['a task handed to the pool is run exactly once (C31)', 'at most 4096 tasks at a time (size of the task pool)',
                       'systems return normally']
    P = ctx.program('sched')
    R = S.Report(ctx, 'C11')
    S.check_build(R, P)
    S.check_run(R, P, None)
    adding(ctx, P)
    schedule(ctx, P, R)
    once(ctx, P, R)
    calling(ctx, P)
    executors(ctx, P)
    tasks(ctx, P)
    taken(ctx, P)
    progress(ctx, P)


def interp(ctx, P, name, rule, I=None, f=None):
    """[(state, value)] of the normal exits of a driver; None if it cannot be analysed"""
    f = f or P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return None, None
    I = I or Interp(P, abstract=ABS, user_throw=False)
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return None, None
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    out = [(st, v) for st, (how, v) in res if how == 'return']
    for st, v in out:
        ctx.saw('paths', f'{name} {len(st.path)} {len(st.ev)}')
    if not out:
        ctx.undecide(rule, f'{name}: no path returns')
    return I, out


def where(P, I, *names):
    for n in names:
        for fid in I.inlined:
            if P.funcs[fid]['name'] == n and 'body' in P.funcs[fid]:
                return P.where(fid)
    return P.where(next(iter(I.inlined)))


def fail(ctx, rule, w, msg, st=None, key=None):
    ctx.fail(rule, w, msg, S.path_of(st) if st is not None else None, key=f'{rule}|{msg}|{key}')


# ---------------------------------------------------------------- what is given is stored
def adding(ctx, P):
    rule = 'a system or stage added is stored exactly once'
    for name in ('drv_add', 'drv_add_main', 'drv_add_init', 'drv_add_init_main', 'drv_addf_fn', 'drv_addf_fo', 'drv_addf_main', 'drv_begin'):
        I, res = interp(ctx, P, name, rule)
        for st, v in res or ():
            w = where(P, I, 'add_system', 'add_init_system', 'begin_stage')
            pushes = [e for e in S.flat(st.ev) if e.kind == 'push' and e.cont[0] == ('o', 's')]
            if any(e.kind in BAD for e in S.flat(st.ev)):
                ctx.undecide(rule, f'{name}: {[e.d.get("f") for e in st.ev if e.kind in BAD][:1]}')
                continue
            if not pushes:
                fail(ctx, rule, w, 'what is added is not stored', st, name)
                continue
            if len(pushes) > 1:
                fail(ctx, rule, w, 'what is added is stored twice', st, name)
                continue
            e = pushes[0]
            size = T.single_atom(e.index) if T.is_lin(e.index) else None
            if name == 'drv_begin':
                ok = isinstance(v, LV) and v.loc == e.cont + (('i', e.index),)
                if not ok:
                    ctx.undecide(rule, f'{name}: the stage returned is not the one stored')
                else:
                    ctx.ob(rule)
                continue
            val = e.d.get('val')
            if name.startswith('drv_addf'):
                h = val[1].loc if isinstance(val, tuple) and val and val[0] == 'ptr' and isinstance(val[1], LV) else None
                made = [x for x in st.ev if x.kind == 'new' and h is not None and x.loc == h]
                if made:
                    ctx.ob(rule)
                elif T.is_lin(val) and T.is_const(val):
                    fail(ctx, rule, w, 'a null system is stored', st, name)
                else:
                    ctx.undecide(rule, f'{name}: what is stored is not known')
                continue
            a = T.single_atom(val) if T.is_lin(val) else None
            if a is not None and a[0] == 'init' and a[1] == (('o', 'f'), ('f', 'p')):
                ctx.ob(rule)
            elif T.is_lin(val) and T.is_const(val):
                fail(ctx, rule, w, 'a null system is stored', st, name)
            else:
                ctx.undecide(rule, f'{name}: what is stored is not known')


def added_to(P, name):
    """root field of the schedule a function adds to"""
    f = P.driver(name)
    try:
        I = Interp(P, abstract=ABS, user_throw=False)
        for st, (how, v) in I.run(f):
            for e in st.ev:
                if e.kind == 'push' and e.cont[0] == ('o', 's'):
                    return e.cont[:2]
    except (Analysis, TypeError):
        pass
    return None


# ---------------------------------------------------------------- schedule
def stex(v):
    """the stage an owning pointer's executor was built from"""
    if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) and len(v[1].loc) == 1:
        o = v[1].loc[0]
        if o[0] == 'o' and isinstance(o[1], tuple) and o[1][0] == 'stexec':
            return o[1][1]
    return None


def schedule(ctx, P, R):
    rb = 'the executor of a schedule has one executor per stage, in their order'
    ri = 'initialisation systems run once, before the stages, and their commands are applied'
    I = S.run_interp(P, ('co_ecs::stage_executor::run',), build=True)
    I, res = interp(ctx, P, 'drv_sched_create', rb, I)
    init = added_to(P, 'drv_add_init')
    stages = added_to(P, 'drv_begin')
    if init is None or stages is None:
        ctx.undecide(rb, 'the stages of a schedule are not found')
        return
    for st, v in res or ():
        w = where(P, I, 'create_executor')
        W = w.rsplit(':', 1)[0]
        evs = S.strip_loop_copies(st.ev)
        path = S.path_of(st)
        bad = [e for e in S.flat(st.ev) if e.kind in BAD]
        if bad:
            ctx.undecide(rb, f'line {bad[0].line}: {bad[0].kind} {bad[0].d.get("f")}')
            continue
        ps, odd = S.passes(evs, stages, st.path)
        if odd or not ps:
            if not odd and S.none_in(st.facts, stages):
                ctx.ob(rb)
            elif odd or S.tainted_path(st.path):
                ctx.undecide(rb, 'how the stages are visited is not understood')
            else:
                fail(ctx, rb, w, 'the stages are not visited', st)
        elif len([p for p in ps if p.items]) > 1:
            fail(ctx, rb, w, 'the stages are visited twice', st)
        for p in ps:
            rng(ctx, rb, W, p, 'stages', st)
            for idx, seg, tp, _ in p.items:
                el = stages + (('i', idx),)
                built = [e for e in S.flat(seg) if e.kind == 'BUILD']
                kept = [e for e in S.flat(seg) if e.kind == 'push' and stex(e.d.get('val')) is not None]
                if len(built) == 1 and built[0].obj.loc == el and len(kept) == 1 and stex(kept[0].val) == el:
                    ctx.ob(rb)
                elif len([k for k in kept if stex(k.val) == el]) > 1:
                    fail(ctx, rb, f'{W}:{kept[-1].line}', 'the executor of a stage is stored twice', st)
                elif not kept and not [e for e in S.flat(seg) if e.kind == 'push'] and not (tp and S.tainted_path(tp)):
                    fail(ctx, rb, f'{W}:{p.line}', 'a stage is left out', st)
                else:
                    ctx.undecide(rb, f'line {p.line}: what an iteration does is not understood')
        # initialisation
        seq = [e for e in evs if e.kind in ('RUN', 'FLUSH')]
        runs = [e for e in seq if e.kind == 'RUN']
        who = [stex(('ptr', LV(e.obj.loc))) for e in runs]
        deep = [e for e in S.flat(evs) if e.kind == 'RUN']
        if len(deep) > len(runs) or any(x is None for x in who):
            x = [stex(('ptr', LV(e.obj.loc))) for e in deep]
            if any(i is not None and i != init for i in x):
                fail(ctx, ri, f'{W}:{deep[0].line}', 'a stage runs while the executor is made', st)
            else:
                ctx.undecide(ri, f'line {deep[0].line}: what runs is not understood')
        elif any(x != init for x in who):
            fail(ctx, ri, f'{W}:{runs[0].line}', 'a stage runs while the executor is made', st)
        elif not runs:
            fail(ctx, ri, w, 'the initialisation systems are not run', st)
        elif len(runs) > 1:
            fail(ctx, ri, f'{W}:{runs[1].line}', 'the initialisation systems run twice', st)
        elif seq[-1].kind != 'FLUSH':
            fail(ctx, ri, f'{W}:{seq[-1].line}', 'commands of the initialisation systems are not applied before the stages run', st)
        else:
            ctx.ob(ri)


def rng(ctx, rule, W, p, what, st):
    if p.range_ok is False:
        fail(ctx, rule, f'{W}:{p.line}', f'not all {what} are visited', st)
    elif p.range_ok is None:
        ctx.undecide(rule, f'line {p.line}: the range of {what} is not understood')
    else:
        ctx.ob(rule)


def once(ctx, P, R):
    rule = 'a run of a schedule runs its stages once, in order, and then applies their commands'
    I = S.run_interp(P, ('co_ecs::stage_executor::run',))
    I, res = interp(ctx, P, 'drv_run_once', rule, I)
    rec = [r for r in P.recs_by_bare.get('co_ecs::schedule_executor', []) if r.get('fields')]
    fields = [f['n'] for f in rec[0]['fields'] if 'unique_ptr<co_ecs::stage_executor' in P.ty(f['t'])['s'] and S.vec_depth(P, f['t']) > 0] if rec else []
    if len(fields) != 1:
        ctx.undecide(rule, 'the stage executors are not found')
        return
    C = (('o', 's'), ('f', fields[0]))
    for st, v in res or ():
        w = where(P, I, 'run_once')
        W = w.rsplit(':', 1)[0]
        evs = S.strip_loop_copies(st.ev)
        bad = [e for e in S.flat(st.ev) if e.kind in BAD]
        if bad:
            ctx.undecide(rule, f'line {bad[0].line}: {bad[0].kind} {bad[0].d.get("f")}')
            continue
        for e in S.flat(st.ev):
            if e.kind == 'endloop' and e.d.get('how') in ('break', 'return'):
                fail(ctx, rule, f'{W}:{e.line}', 'the loop over the stages is left early', st)
        ps, odd = S.passes(evs, C, st.path)
        acts = S.actions(evs)
        if odd:
            ctx.undecide(rule, 'how the stages are visited is not understood')
            continue
        if not ps:
            if not acts and S.none_in(st.facts, C):
                ctx.ob(rule)
            elif acts:
                ctx.undecide(rule, 'how the stages are visited is not understood')
            else:
                fail(ctx, rule, w, 'the stages are not run', st)
        if len([p for p in ps if p.items]) > 1:
            fail(ctx, rule, f'{W}:{ps[1].line}', 'the stages are run twice', st)
        done = []
        for p in ps:
            rng(ctx, rule, W, p, 'stages', st)
            for idx, seg, tp, _ in p.items:
                el = C + (('i', idx),)
                mine = [a for a in S.actions(seg) if a[0] == el]
                done += mine
                if len(mine) == 1 and mine[0][1] == 'direct':
                    ctx.ob(rule)
                elif len(mine) > 1:
                    fail(ctx, rule, f'{W}:{mine[1][2].line}', 'a stage is run twice', st)
                elif len(mine) == 1:
                    fail(ctx, rule, f'{W}:{mine[0][2].line}', 'a stage is run as a task, at the same time as the next', st)
                elif any(a[0] is None for a in S.actions(seg)) or tp and S.tainted_path(tp):
                    ctx.undecide(rule, f'line {p.line}: what an iteration runs is not understood')
                else:
                    fail(ctx, rule, f'{W}:{p.line}', 'a stage is not run', st)
        other = [a for a in acts if not any(a[2] is d[2] for d in done)]
        if other:
            fail(ctx, rule, f'{W}:{other[0][2].line}', 'something else than the stages is run', st)
        # commands
        top = [e.kind for e in evs if e.kind in ('FLUSH', 'loop', 'loopsum', 'loop0', 'RUN')]
        if not any(e.kind == 'FLUSH' for e in S.flat(evs)):
            fail(ctx, rule, w, 'recorded commands are not applied', st)
        elif top and top[-1] != 'FLUSH':
            fail(ctx, rule, w, 'commands recorded in the last stages are not applied', st)
        else:
            ctx.ob(rule)
        for e in evs:
            if e.kind == 'FLUSH':
                break
            if e.kind in ('loop', 'loopsum') and any(x.kind == 'FLUSH' for tr in e.traces for x in S.flat(tr[0])):
                ctx.ob(rule)


# ---------------------------------------------------------------- executors
def calling(ctx, P):
    rule = 'a system executor calls the function of the system exactly once per run'
    for name in ('drv_exec_fn', 'drv_exec_fo', 'drv_exec_fm', 'drv_exec_sf'):
        I, res = interp(ctx, P, name, rule)
        for st, v in res or ():
            w = where(P, I, 'run')
            calls = [e for e in S.flat(st.ev) if e.kind in CALLS and of_field(e)]
            loops = [e for e in st.ev if e.kind in ('loop', 'loopsum') and any(x.kind in CALLS for tr in e.traces for x in S.flat(tr[0]))]
            if loops:
                ctx.undecide(rule, f'{name}: called in a loop')
            elif len(calls) == 1:
                ctx.ob(rule)
            elif len(calls) > 1:
                fail(ctx, rule, w, 'the function of a system is called twice', st, name)
            elif any(e.kind in ('unknown', 'unsupported', 'recursion') for e in st.ev) or any(e.kind in CALLS for e in st.ev) or S.tainted_path(st.path):
                ctx.undecide(rule, f'{name}: what is called is not understood')
            else:
                fail(ctx, rule, w, 'the function of a system is not called', st, name)


def of_field(e):
    fn = e.d.get('fn')
    if isinstance(fn, LV):
        return fn.loc[0] == ('o', 'e')
    if T.is_lin(fn):
        a = T.single_atom(fn)
        return a is not None and a[0] == 'init' and a[1][0] == ('o', 'e')
    return False


def executors(ctx, P):
    rule = 'making an executor leaves the system as it is and passes its function on'
    for name in ('drv_sys_fn', 'drv_sys_fo', 'drv_sys_named'):
        I, res = interp(ctx, P, name, rule)
        for st, v in res or ():
            w = where(P, I, 'create_executor')
            p = v.ov.get((('f', 'p'),)) if isinstance(v, Rec) else None
            h = p[1].loc if isinstance(p, tuple) and p and p[0] == 'ptr' and isinstance(p[1], LV) else None
            if h is None:
                if T.is_lin(p) and T.is_const(p):
                    fail(ctx, rule, w, 'no executor is made', st, name)
                else:
                    ctx.undecide(rule, f'{name}: what is returned is not known')
                continue
            changed = [loc for loc, val in st.mem.items() if loc[0] == ('o', 's') and val != ('base', ('init', loc))]
            moved = [e for e in st.ev if e.kind in ('cmove', 'move', 'moved') and getattr(e.d.get('src'), 'loc', ((None,),))[0] == ('o', 's')]
            if changed or moved:
                fail(ctx, rule, w, 'making an executor changes the system: the next executor made from it differs', st, name)
            else:
                ctx.ob(rule)


# ---------------------------------------------------------------- tasks
def tasks(ctx, P):
    counter = None
    # the function runs, then the counter goes down
    rule = 'a task is counted down once, after its function has run; its parent exactly when it reaches zero'
    I = Interp(P, abstract=ABS, user_throw=False)
    I, res = interp(ctx, P, 'drv_task_execute', rule, I)
    for st, v in res or ():
        w = where(P, I, 'finish', 'execute')
        we = where(P, I, 'execute')
        calls = [i for i, e in enumerate(st.ev) if e.kind == 'fncall']
        downs = [(i, e) for i, e in enumerate(st.ev) if e.kind == 'atomic' and e.op in ('rmw', 'store', 'cas')]
        if any(e.kind in ('unknown', 'unsupported', 'stdcall') for e in st.ev):
            ctx.undecide(rule, 'execute is not understood')
            continue
        if len(calls) != 1:
            if calls:
                fail(ctx, rule, we, 'the function of a task runs more than once', st)
            elif not S.tainted_path(st.path):
                fail(ctx, rule, we, 'the function of a task is not run', st)
            else:
                ctx.undecide(rule, 'execute: whether the function runs is not known')
            continue
        own = [(i, e) for i, e in downs if e.loc[0] == ('o', 't')]
        if not own:
            if S.tainted_path(st.path):
                ctx.undecide(rule, 'execute: the count is not understood')
            else:
                fail(ctx, rule, w, 'a task is never counted down: waiting for it does not end', st)
            continue
        i, e = own[0]
        counter = e.loc[1:]
        if i < calls[0]:
            fail(ctx, rule, w, 'a task is counted down before its function has run', st)
        elif e.op != 'rmw':
            fail(ctx, rule, w, 'the counter is not changed in one step: counts of children may be lost', st)
        elif len(own) > 1:
            fail(ctx, rule, w, 'a task is counted down twice', st)
        elif not delta(e, -1):
            ctx.undecide(rule, f'execute: the count changes by {e.d.get("delta")}')
        else:
            ctx.ob(rule)
        if e.op == 'rmw':
            if e.order in ('release', 'acq_rel', 'seq_cst'):
                ctx.ob(rule)
            else:
                fail(ctx, rule, w, f'counting down with order {e.order} does not publish what the task wrote', st)
        # parents: follow the chain of the path
        chain(ctx, rule, w, P, st, downs, counter)
    # completion
    rule = 'a task is complete when its counter is zero, and what it wrote is then visible'
    I = Interp(P, abstract=ABS, user_throw=False)
    I.volatile_atomics = True
    I, res = interp(ctx, P, 'drv_task_done', rule, I)
    for st, v in res or ():
        w = where(P, I, 'is_completed')
        loads = [e for e in st.ev if e.kind == 'atomic' and e.op in ('load', 'rmw')]
        fences = [e for e in st.ev if e.kind == 'atomic' and e.op == 'fence' and e.order in ('acquire', 'acq_rel', 'seq_cst')]
        if len(loads) != 1 or counter is None or loads[0].loc[1:] != counter:
            ctx.undecide(rule, 'is_completed is not understood')
            continue
        if loads[0].order in ('acquire', 'acq_rel', 'seq_cst') or fences:
            ctx.ob(rule)
        else:
            fail(ctx, rule, w, f'the counter is read with order {loads[0].order}: what the task wrote need not be visible', st)
        x = loads[0].d.get('val')
        for val in (0, 1, 2):
            g = zero_test(v, x, val)
            if g is None:
                ctx.undecide(rule, f'is_completed: {S.show(v)}')
            elif g != (val == 0):
                fail(ctx, rule, w, f'a task with counter {val} is reported {"complete" if g else "not complete"}', st)
            else:
                ctx.ob(rule)
    # submission
    rule = 'a task is counted by itself and its parent before it can be taken'
    for name in ('drv_task_submit', 'drv_pool_submit'):
        I = Interp(P, abstract=ABS, user_throw=False)
        I, res = interp(ctx, P, name, rule, I)
        for st, v in res or ():
            w = where(P, I, 'allocate', 'submit')
            new = v[1].loc if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) else None
            if new is None or counter is None:
                ctx.undecide(rule, f'{name}: the task returned is not known')
                continue
            at = [(i, e) for i, e in enumerate(st.ev) if e.kind == 'atomic']
            pub = [i for i, e in at if e.op in ('store', 'cas', 'rmw') and isinstance(e.d.get('val' if e.op == 'store' else 'new'), tuple) and
                   e.d.get('val' if e.op == 'store' else 'new')[:1] == ('ptr',) and e.d.get('val' if e.op == 'store' else 'new')[1].loc == new]
            if len(pub) != 1:
                if not pub and not any(e.kind in BAD for e in st.ev):
                    fail(ctx, rule, w, 'the task is not put into a queue', st, name)
                elif len(pub) > 1:
                    fail(ctx, rule, w, 'the task is put into a queue twice', st, name)
                else:
                    ctx.undecide(rule, f'{name}: how the task is queued is not understood')
                continue
            start = [i for i, e in at if e.op == 'store' and e.loc == new + counter]
            ups = [(i, e) for i, e in at if e.op == 'rmw' and e.loc == (('o', 'parent'),) + counter]
            init = [i for i in start if st.ev[i].val == T.const(1)]
            has = parent_on(st, 'parent')
            if not start:
                ctx.undecide(rule, f'{name}: the first count of a task is not found')
            elif len(init) != len(start):
                fail(ctx, rule, w, 'a new task does not count itself once', st, name)
            elif start[0] > pub[0]:
                fail(ctx, rule, w, 'a task can be taken before it is counted', st, name)
            else:
                ctx.ob(rule)
            good = [i for i, e in ups if delta(e, 1)]
            if has is False:
                if ups:
                    ctx.undecide(rule, f'{name}: null parent')
                else:
                    ctx.ob(rule)
            elif len(good) == 1 and len(ups) == 1:
                if good[0] < pub[0]:
                    ctx.ob(rule)
                else:
                    fail(ctx, rule, w, 'a task can finish before its parent counts it', st, name)
            elif not ups and has:
                fail(ctx, rule, w, 'a task is not counted by its parent', st, name)
            elif len(ups) > 1:
                fail(ctx, rule, w, 'a task is counted twice by its parent', st, name)
            else:
                ctx.undecide(rule, f'{name}: the count of the parent is not understood')
            # the link to the parent
            links = [val for loc, val in st.mem.items() if loc[:len(new)] == new and len(loc) == len(new) + 1 and loc[-1][1] != counter[-1] and
                     isinstance(val, tuple) and val and val[0] == 'ptr' and val[1].loc == (('o', 'parent'),)]
            if has and not links:
                fail(ctx, rule, w, 'a task does not know its parent and never counts it down', st, name)
            else:
                ctx.ob(rule)
    # waiting
    rule = 'wait() returns only when it has seen the task complete'
    for name in ('drv_task_wait', 'drv_pool_wait'):
        I = Interp(P, abstract=ABS, user_throw=False)
        I.volatile_atomics = True
        I, res = interp(ctx, P, name, rule, I)
        for st, v in res or ():
            w = where(P, I, 'wait')
            loads = [e for e in st.ev if e.kind == 'atomic' and e.op == 'load' and counter is not None and e.loc == (('o', 't'),) + counter]
            if not loads:
                if any(e.kind in BAD for e in st.ev):
                    ctx.undecide(rule, f'{name}: not understood')
                else:
                    fail(ctx, rule, w, 'wait() returns without looking at the task', st, name)
                continue
            x = loads[-1].d.get('val')
            hi = known_zero(st, x)
            if hi:
                ctx.ob(rule)
            elif any(e.kind in ('unknown', 'unsupported', 'stdcall') for e in st.ev):
                ctx.undecide(rule, f'{name}: not understood')
            else:
                fail(ctx, rule, w, 'wait() may return before the task is complete', st, name)


def known_zero(st, x):
    return T.is_lin(x) and st.facts.le(x)


def delta(e, d):
    x = e.d.get('delta')
    return T.is_lin(x) and T.is_const(x) and x[1] == d


def parent_on(st, name):
    """is the pointer known to be non-null / null on this path?"""
    for w, p, b in st.path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and p[1] in ('==', '!=') and T.is_lin(p[-1]):
            a = T.single_atom(p[-1])
            if a is not None and name in str(a):
                return (p[1] == '!=') == b
    return True


def zero_test(v, x, val):
    """truth of the returned condition when the counter has this value"""
    if isinstance(v, tuple) and v and v[0] == 'B':
        return v[1]
    if isinstance(v, tuple) and v and v[0] == 'cmp' and T.is_lin(v[-1]) and T.is_lin(x):
        lin = v[-1]
        c = lin[1]
        for atom, k in lin[2]:
            if (atom, 1) in x[2]:
                c += k * val
            else:
                return None
        return {'==': c == 0, '!=': c != 0, '<=': c <= 0, '<': c < 0}.get(v[1])
    return None


def chain(ctx, rule, w, P, st, downs, counter):
    """each counter that reaches zero counts down the task's parent, and no other does"""
    own = [(i, e) for i, e in downs if e.op == 'rmw']
    for n, (i, e) in enumerate(own):
        z = reached_zero(st, e)
        nxt = own[n + 1] if n + 1 < len(own) else None
        rec = [x for x in st.ev[i + 1:] if x.kind == 'recursion']
        if z is None:
            ctx.undecide(rule, 'whether the count reached zero is not known')
            return
        if nxt is not None:
            if z is False:
                fail(ctx, rule, w, 'a parent is counted down although the task is not complete', st)
            elif nxt[1].loc[1:] == counter:
                ctx.ob(rule)
            continue
        if z and not rec:
            # last one: there must be no parent
            if null_parent(st, e):
                ctx.ob(rule)
            else:
                fail(ctx, rule, w, 'a task completes and its parent is not counted down: waiting for the parent does not end', st)
        elif not z and rec:
            fail(ctx, rule, w, 'a parent is counted down although the task is not complete', st)
        else:
            ctx.ob(rule)


def reached_zero(st, e):
    old = e.d.get('val')
    if not T.is_lin(old):
        return None
    for w, p, b in st.path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and p[1] in ('==', '!=') and T.is_lin(p[-1]):
            d = T.sub(p[-1], T.sub(old, T.const(1)))
            d2 = T.add(p[-1], T.sub(old, T.const(1)))
            if T.is_const(d) and d[1] == 0 or T.is_const(d2) and d2[1] == 0:
                return (p[1] == '==') == b
    return None


def null_parent(st, e):
    own = e.loc[:-1]
    for w, p, b in st.path:
        if isinstance(p, tuple) and p and p[0] == 'cmp' and p[1] in ('==', '!=') and T.is_lin(p[-1]):
            a = T.single_atom(p[-1])
            if a is not None and a[0] == 'init' and a[1][:len(own)] == own and len(a[1]) == len(own) + 1:
                if (p[1] == '==') == b:
                    return True
    return False


QUEUE = ('co_ecs::detail::work_stealing_queue::pop', 'co_ecs::detail::work_stealing_queue::steal')


def taken(ctx, P):
    """whoever takes a task from a queue runs it"""
    rule = 'a task taken from a queue is run exactly once'

    def hook(I, st, f, this, args, node):
        if f['bare'] == 'co_ecs::task_t::execute' and this is not None:
            I.event(st, 'EXEC', node, obj=this)
            return [(st, ('void',))]
        if f['bare'] not in QUEUE:
            return None
        e = st.copy()
        t = T.fresh('task', pos=True, nonneg=True)
        I.event(e, 'TAKE', node, task=t)
        return [(st, Rec(('opt',), {(('s', 'has'),): T.const(0)}, f['ret'])),
                (e, Rec(('opt',), {(('s', 'has'),): T.const(1), (('f', 'val'),): t}, f['ret']))]
    roots = [('drv_task_wait', P.driver('drv_task_wait'))]
    for f in P.by_bare.get('co_ecs::thread_pool::worker::run', []):
        if 'body' in f:
            roots.append(('worker::run', f))
    if len(roots) < 2:
        ctx.undecide(rule, 'the loop of the worker threads is not found')
    for name, f in roots:
        I = Interp(P, abstract=ABS, user_throw=False, hooks={'call': hook})
        I.volatile_atomics = True
        I.max_paths = 20000
        I, res = interp(ctx, P, name, rule, I, f)
        n = 0
        for st, v in res or ():
            w = where(P, I, 'wait' if name == 'drv_task_wait' else 'run')
            evs = list(S.flat(st.ev))
            for i, e in enumerate(evs):
                if e.kind != 'TAKE':
                    continue
                n += 1
                a = e.task
                runs = [x for x in evs[i:] if x.kind == 'EXEC' and x.obj.loc == (('p', a),)]
                if len(runs) == 1:
                    ctx.ob(rule)
                elif len(runs) > 1:
                    # the same iteration may show up as the summary and as the last one
                    ctx.ob(rule) if dup(st.ev, e) else fail(ctx, rule, w, 'a task taken from a queue is run twice', st, name)
                elif any(x.kind in ('unknown', 'unsupported', 'stdcall') for x in evs[i:]):
                    ctx.undecide(rule, f'{name}: what happens to a task is not understood')
                else:
                    fail(ctx, rule, w, 'a task taken from a queue is not run', st, name)
        if not n and res:
            ctx.undecide(rule, f'{name}: no task is seen to be taken')


def dup(evs, e):
    """is this event part of a loop summary as well as of the path?"""
    return sum(1 for x in S.flat(evs) if x is e) > 1


def progress(ctx, P):
    rule = 'a batch that holds no system yet accepts any system'
    I = Interp(P, abstract=ABS, user_throw=False)
    I.exact_maps = I.split_minmax = I.enum_bounds = True
    I, res = interp(ctx, P, 'drv_allows_first', rule, I)
    for st, v in res or ():
        if v == ('B', True):
            ctx.ob(rule)
        elif v == ('B', False) and not S.tainted_path(st.path):
            fail(ctx, rule, where(P, I, 'allows'), 'a system is never placed: building the executor does not end', st)
        else:
            ctx.undecide(rule, f'{S.show(v)}')
