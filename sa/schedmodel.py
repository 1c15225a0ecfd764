"""Traces of the functions that build and run stages and schedules, and the rules over them (C10, C11)."""
from . import terms as T
from .interp import Interp, LV, Rec, St, Analysis
from .terms import is_lin, const, sub, add
from .world import ABS

SUBMIT = ('co_ecs::thread_pool::submit', 'co_ecs::thread_pool::worker::submit')
WAIT = ('co_ecs::thread_pool::wait', 'co_ecs::thread_pool::worker::wait')


def show(v):
    return T.show(v) if is_lin(v) else str(v)


def path_of(st_or_path):
    p = st_or_path.path if hasattr(st_or_path, 'path') else st_or_path
    return [f'{w}: {show(q[-1]) if isinstance(q, tuple) and q and q[0] == "cmp" else q} {q[1] + " 0" if isinstance(q, tuple) and q and q[0] == "cmp" else ""} is {b}' for w, q, b in p if w]


def tainted_path(path):
    return any(T.tainted(p) for _, p, _ in path)


def ptr_loc(I, st, v):
    """location a pointer value designates"""
    if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
        return v[1].loc
    if is_lin(v) and not T.is_const(v):
        return (('p', v),)
    return None


def elem_of(loc):
    """the storage location of the owning pointer through which an object is reached"""
    if loc and loc[0][0] == 'p' and len(loc) == 1:
        a = T.single_atom(loc[0][1])
        if a is not None and a[0] == 'init' and a[1][-1] == ('f', 'p'):
            return a[1][:-1]
    return None


# ------------------------------------------------------------------------------ running
def run_interp(P, callees=(), build=False):
    """submission of tasks, waiting, applying commands and the given functions are kept as events"""
    def hook(I, st, f, this, args, node):
        b = f['bare']
        if b == 'co_ecs::thread_pool::get':
            return [(st, LV((('o', 'pool'),)))]
        if b in SUBMIT and len(args) == 2:
            task = T.fresh('task', pos=True, nonneg=True)
            runs, odd = invoke_task(I, st, args[0], node)
            refs = by_ref(I, st, args[0])
            I.event(st, 'SUBMIT', node, runs=runs, odd=odd, parent=args[1], task=task, refs=refs)
            return [(st, task)]
        if b in WAIT and len(args) == 1:
            I.event(st, 'WAIT', node, task=args[0])
            return [(st, ('void',))]
        if b == 'co_ecs::command_buffer::flush':
            I.event(st, 'FLUSH', node, reg=args[0] if args else None)
            return [(st, ('void',))]
        if build and b == 'co_ecs::stage::create_executor' and this is not None:
            I.event(st, 'BUILD', node, obj=this, args=args)
            return [(st, Rec(('own',), {(('f', 'p'),): ('ptr', LV((('o', ('stexec', this.loc)),)))}, f['ret']))]
        if b in callees and this is not None:
            I.event(st, 'RUN', node, f=b, obj=this)
            return [(st, I.opaque(st, f['ret'], b) if I.P.ty(f['ret']).get('k') != 'void' else ('void',))]
        return None

    def virt(I, st, f, this, args, node):
        if f['name'] == 'run':
            I.event(st, 'RUN', node, f=f['bare'], obj=this)
            return [(st, ('void',))]
        return None
    I = Interp(P, abstract=ABS, user_throw=False, hooks={'call': hook, 'virtual': virt})
    I.peel = True
    I.exact_maps = True
    return I


def invoke_task(I, st, clo, node):
    """what the submitted function does: [location of the object run], or None"""
    probe = st.copy()
    n = len(probe.ev)
    save, I.sink = I.sink, []
    peel, I.peel = I.peel, False
    try:
        t = clo.t if isinstance(clo, (LV, Rec)) else None
        out = I.models.invoke(I, probe, clo, [], node, t)
    except Analysis as e:
        return None, str(e)
    finally:
        I.sink = save
        I.peel = peel
    if not out or len(out) != 1:
        return None, 'several paths'
    ev = [e for e in out[0][0].ev[n:] if e.kind not in ('deref', 'index')]
    runs = [e for e in ev if e.kind == 'RUN']
    odd = [e.kind for e in ev if e.kind != 'RUN']
    return [e.obj.loc for e in runs], odd[0] if odd else None


def by_ref(I, st, clo):
    """locations captured by reference"""
    out = []
    if isinstance(clo, LV):
        for k, v in st.mem.items():
            if len(k) == len(clo.loc) + 1 and k[:len(clo.loc)] == clo.loc and isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
                out.append(v[1].loc)
    return out


class Runner:
    """walks the trace of one path: what is running, what ran, in which order"""

    def __init__(self, report):
        self.report = report            # report(kind, line, msg)
        self.ran = []                   # (element, 'task' | 'direct', line)
        self.odd = []

    def walk(self, evs, out, depth=0):
        """out: [(task, parent, element)] still running; returns what runs at the end"""
        for e in evs:
            if e.kind == 'SUBMIT':
                if e.runs is None or e.odd:
                    self.odd.append(f'line {e.line}: the submitted function is not understood ({e.odd})')
                    el = None
                elif len(e.runs) != 1:
                    self.report('once', e.line, f'the submitted task runs {len(e.runs)} systems')
                    el = None
                else:
                    el = elem_of(e.runs[0])
                    if el is None:
                        self.odd.append(f'line {e.line}: the submitted system is not a stored one')
                    else:
                        for o in out:
                            if o[2] is not None and o[2][:-1] != el[:-1]:
                                self.report('batch', e.line, 'systems are submitted while systems of another batch may still be running')
                        self.ran.append((el, 'task', e.line))
                out = out + [(e.task, e.parent, el)]
            elif e.kind == 'RUN':
                el = elem_of(e.obj.loc)
                if el is None:
                    self.odd.append(f'line {e.line}: the object run is not a stored one')
                    continue
                if out and any(o[2] is None or o[2][:-1] != el[:-1] for o in out):
                    self.report('overlap', e.line, 'is run directly while submitted systems may still be running')
                self.ran.append((el, 'direct', e.line))
            elif e.kind == 'WAIT':
                left = []
                for o in out:
                    if same(o[0], e.task) or same(o[1], e.task):
                        continue
                    left.append(o)
                out = left
            elif e.kind == 'FLUSH':
                if out:
                    self.report('flush', e.line, 'recorded commands are applied while systems may still be running')
                self.ran.append((None, 'flush', e.line))
            elif e.kind in ('loop', 'loopsum') and e.d.get('traces') is not None:
                before = list(out)
                ends = []
                for tr in e.traces:
                    o1 = self.walk_quiet(tr[0], list(before))
                    ends += [x for x in o1 if x not in before and x not in ends]
                seen = []
                for tr in e.traces:
                    r = Runner(self.report)
                    # an iteration meets what earlier iterations left running
                    outer = [x for x in ends if x[2] is None or not iterates(tr[0], x[2])]
                    o1 = r.walk(tr[0], before + outer, depth + 1)
                    seen.append((tr, r.ran, o1))
                    self.odd += r.odd
                    for x in r.ran:
                        self.ran.append(x + ('loop',))
                if e.kind == 'loopsum':
                    out = before + ends
                e.d['scan'] = seen
            elif e.kind in ('unknown', 'unsupported', 'icall', 'recursion', 'stdcall') and e.d.get('f') not in (None, 'x'):
                self.odd.append(f'line {e.line}: {e.kind} {e.d.get("f")}')
        return out

    def walk_quiet(self, evs, out):
        r = Runner(lambda *a: None)
        return r.walk(evs, out)


def iterates(evs, el):
    """does the trace iterate over the container that holds element el (rather than one level above)?"""
    return any(e.kind == 'iterate' and e.cont == el[:-1] for e in evs)


def same(a, b):
    if is_lin(a) and is_lin(b):
        return a == b
    return False


def iterations(evs, out=None):
    """every iterate event with the events of its iteration: [(event, events, path or None)]"""
    out = [] if out is None else out
    stack = []
    for i, e in enumerate(evs):
        if e.kind == 'first':
            stack.append(i)
        elif e.kind == 'endfirst' and stack:
            a = stack.pop()
            seg = evs[a + 1:i]
            it = seg[0] if seg and seg[0].kind == 'iterate' else None
            out.append((it, seg, None))
        elif e.kind in ('loop', 'loopsum') and e.d.get('traces') is not None:
            for tr in e.traces:
                it = tr[0][0] if tr[0] and tr[0][0].kind == 'iterate' else None
                out.append((it, tr[0], tr[2]))
                iterations(tr[0], out)
    return out


def flat(evs):
    """all events of a trace, those of summarised iterations included"""
    for e in evs:
        yield e
        if e.kind in ('loop', 'loopsum') and e.d.get('traces') is not None:
            for tr in e.traces:
                yield from flat(tr[0])


def strip_loop_copies(evs):
    """drop the events of the last iteration that follow a 'loop' mark: its traces stand for every iteration"""
    out = []
    skip = 0
    for e in evs:
        if e.kind == 'loop' and e.d.get('traces') is not None:
            if not skip:
                out.append(e)
            skip += 1
            continue
        if e.kind == 'endloop' and skip:
            skip -= 1
            continue
        if not skip:
            out.append(e)
    return out


# ------------------------------------------------------------------------------ building
def build_interp(P, stage_level=True):
    def is_pattern(I, rec):
        return rec is not None and rec['bare'] == 'co_ecs::access_pattern_t'

    def who(I, st, lv):
        if isinstance(lv, LV):
            v = I.read_rec(st, lv.loc, lv.t)
        else:
            v = lv
        b = getattr(v, 'base', None)
        return b[1] if b and b[0] == 'pat' and not v.ov else None

    def hook(I, st, f, this, args, node):
        b = f['bare']
        if b == 'co_ecs::access_pattern_t::allows' and len(args) == 1:
            p, q = who(I, st, this), who(I, st, args[0])
            out = []
            for s, r in I.branch(st, ('cmp', '!=', T.fresh('allowed', nonneg=True)), node):
                if p is not None and q is None:
                    I.event(s, 'ALLOWS', node, acc=args[0].loc if isinstance(args[0], LV) else None, pat=p, res=r)
                else:
                    I.event(s, 'ALLOWS', node, acc=this.loc, pat=q if p is None else None, res=r)
                out.append((s, ('B', r)))
            return out
        if b == 'co_ecs::access_pattern_t::operator&=' and len(args) == 1:
            I.event(st, 'MERGE', node, acc=this.loc, pat=who(I, st, args[0]))
            return [(st, this)]
        if b == 'co_ecs::access_pattern_t::operator=' and len(args) == 1:
            src = args[0]
            pq = who(I, st, src)
            I.event(st, 'RESET', node, acc=this.loc, pat=pq)
            return [(st, this)]
        if stage_level is False and b == 'co_ecs::stage::create_executor' and this is not None:
            I.event(st, 'BUILD', node, obj=this, args=args)
            return [(st, Rec(('own',), {(('f', 'p'),): ('ptr', LV((('o', ('stexec', this.loc)),)))}, f['ret']))]
        return None

    def virt(I, st, f, this, args, node):
        if f['name'] == 'create_executor':
            I.event(st, 'CREATE', node, sys=this.loc, args=args)
            return [(st, Rec(('own',), {(('f', 'p'),): ('ptr', LV((('o', ('exec', this.loc)),)))}, f['ret']))]
        if f['name'] == 'access_pattern':
            x = this.loc[0][1] if this.loc[0][0] == 'o' and isinstance(this.loc[0][1], tuple) and this.loc[0][1][0] == 'exec' else None
            if x is None or len(this.loc) != 1:
                return None
            return [(st, Rec(('pat', x[1]), {}, f['ret']))]
        return None
    I = Interp(P, abstract=ABS, user_throw=False, hooks={'call': hook, 'virtual': virt})
    I.trace_locals = True
    I.keep_ends = True
    I.compress = False
    return I


def exec_of(val):
    """the system whose executor an owning pointer holds"""
    if isinstance(val, tuple) and val and val[0] == 'ptr' and isinstance(val[1], LV) and len(val[1].loc) == 1:
        o = val[1].loc[0]
        if o[0] == 'o' and isinstance(o[1], tuple) and o[1][0] in ('exec', 'stexec'):
            return o[1][1]
    return None


class Iter:
    """one arbitrary iteration of a loop: own events (nested loops are separate), its end, the enclosing iteration"""

    def __init__(self, evs, facts, path, start, end, parent, mark):
        self.ev = strip_loop_copies(evs)
        self.facts, self.path, self.start, self.end = facts, path, start, end
        self.parent = parent
        self.mark = mark

    def own(self, *kinds):
        return [(i, e) for i, e in enumerate(self.ev) if e.kind in kinds]


def iters(evs, parent=None, out=None):
    out = [] if out is None else out
    for e in strip_loop_copies(evs) if parent is None else evs:
        if e.kind in ('loop', 'loopsum') and e.d.get('traces') is not None:
            ends = e.d.get('ends') or [None] * len(e.traces)
            for j, tr in enumerate(e.traces):
                it = Iter(tr[0], tr[1], tr[2], e.d.get('start'), ends[j] if j < len(ends) else None, parent, e)
                out.append(it)
                iters(it.ev, it, out)
    return out


class Report:
    """findings of the two properties, keyed by which of them they belong to"""

    def __init__(self, ctx, want):
        self.ctx, self.want = ctx, want

    def fail(self, prop, rule, where, msg, path=None):
        if prop == self.want:
            self.ctx.fail(rule, where, msg, path, key=f'{rule}|{msg}')

    def ob(self, prop, rule):
        if prop == self.want:
            self.ctx.ob(rule)

    def undecide(self, prop, rule, why):
        if prop == self.want:
            self.ctx.undecide(rule, why)


def stage_fields(P):
    """(systems, main-thread systems): the containers of a stage the two add functions fill"""
    out = []
    for d in ('drv_add', 'drv_add_main'):
        I = Interp(P, abstract=ABS, user_throw=False)
        try:
            roots = {e.cont for st, (how, _) in I.run(P.driver(d)) if how == 'return' for e in st.ev if e.kind == 'push'}
        except Analysis:
            roots = set()
        out.append(roots.pop() if len(roots) == 1 else None)
    return out


def file_of(P, I, name, default):
    for fid in I.inlined:
        if P.funcs[fid]['name'] == name and 'body' in P.funcs[fid]:
            return P.where(fid).rsplit(':', 1)[0]
    return default


def covers(first, n, cont):
    """does the iteration over a container start at its first element and end at its last?"""
    a = T.single_atom(n) if is_lin(n) else None
    if a is not None and a[0] == 'init' and a[1][:-1] == cont and T.is_const(first) and first[1] == 0:
        return True
    if is_lin(n) and len(n[2]) == 1 and T.is_const(first):
        m = T.single_atom(sub(n, const(n[1])))
        if m is not None and m[0] == 'init' and m[1][:-1] == cont:
            return False if first[1] + n[1] != 0 else None
    return None


def check_build(R, P):
    """stage::create_executor: batches hold compatible systems only, and every system is placed once"""
    rb = 'a system joins a batch only when all systems in it allow it'
    ro = 'building an executor places every system of the stage exactly once'
    fs, fm = stage_fields(P)
    I = build_interp(P)
    try:
        res = I.run(P.driver('drv_stage_create'))
    except Analysis as e:
        R.undecide('C10', rb, str(e))
        R.undecide('C11', ro, str(e))
        return None
    W = file_of(P, I, 'create_executor', 'include/co_ecs/system/stage.hpp')
    main_field = None
    seen = set()
    placed_batch = placed_main = 0
    for st, (how, v) in res:
        if how != 'return':
            continue
        R.ctx.saw('paths', f'create_executor {len(st.path)} {len(st.ev)}')
        for e in flat(st.ev):
            if e.kind == 'endloop' and e.d.get('how') in ('break', 'return') and ('brk', e.line) not in seen:
                seen.add(('brk', e.line))
                R.undecide('C11', ro, f'the loop at line {e.line} may be left early')
        its = iters(st.ev)
        # where the executors of main-thread systems end up
        for loc, val in st.mem.items():
            x = exec_of(val) if loc[0][0] == 'h' else None
            el = elem_of(x) if x is not None else None
            if el is not None and fm is not None and root_eq(el[:-1], fm) and len(loc) > 1:
                main_field = loc[1]
        # completeness: each container of systems is gone through from the first to the last
        for c, what in ((fs, 'systems'), (fm, 'main-thread systems')):
            if c is None:
                R.undecide('C11', ro, f'the container of {what} is not known')
                continue
            own = [(it, e) for it in its for _, e in it.own('iterate') if root_eq(e.cont, c)]
            zero = [e for e in st.ev if e.kind == 'loop0' and e.d.get('cont') is not None and root_eq(e.cont, c)]
            idx = [(it, e) for it in its for _, e in it.own('index') if root_eq(e.cont, c)]
            if own:
                for it, e in own:
                    ok = covers(e.first, e.n, e.cont)
                    if ok is False:
                        R.fail('C11', ro, f'{W}:{e.line}', f'not all {what} of the stage are considered', path_of(it.path))
                    elif ok is None:
                        R.undecide('C11', ro, f'line {e.line}: the range of {what} is not understood')
                    else:
                        R.ob('C11', ro)
            elif zero:
                R.ob('C11', ro)
            elif idx:
                R.undecide('C11', ro, f'{what} are visited by index')
            elif not tainted_path(st.path):
                R.fail('C11', ro, W + ':1', f'the {what} of the stage are not considered', path_of(st))
            else:
                R.undecide('C11', ro, f'{what}: not seen')
        done = set()
        for it in its:
            k = (id(it.mark), tuple(str(p) for p in it.path[-4:]))
            if k in done:
                continue
            done.add(k)
            src = [e for _, e in it.own('iterate') if fs is not None and root_eq(e.cont, fs) or fm is not None and root_eq(e.cont, fm)]
            creates = it.own('CREATE')
            pushes = [(i, e) for i, e in it.own('push') if e.d.get('val') is not None]
            placed = [(i, e) for i, e in pushes if exec_of(e.val) is not None]
            # 1. systems gathered in a list of their own
            if src and not creates:
                gather = [e for _, e in pushes if is_lin(e.val) or (isinstance(e.val, tuple) and e.val[0] == 'ptr')]
                if len(gather) == 1:
                    a = T.single_atom(gather[0].val) if is_lin(gather[0].val) else None
                    el = src[0].cont + (('i', src[0].index),)
                    if a is not None and a[0] == 'init' and a[1] == el + (('f', 'p'),):
                        R.ob('C11', ro)
                    else:
                        R.undecide('C11', ro, f'line {gather[0].line}: what is gathered is not understood')
                elif len(gather) > 1:
                    R.fail('C11', ro, f'{W}:{gather[1].line}', 'a system is listed twice', path_of(it.path))
                elif not it.ev or not any(e.kind in ('loop', 'loopsum') for e in it.ev):
                    if tainted_path(it.path) or any(e.kind in ('ALLOWS', 'unknown', 'stdcall') for e in it.ev):
                        R.undecide('C11', ro, f'line {src[0].line}: a system is passed over for an unknown reason')
                    else:
                        R.fail('C11', ro, f'{W}:{src[0].line}', 'a system of the stage is left out', path_of(it.path))
                continue
            if not creates:
                continue
            for ci, c in creates:
                mine = [(i, e) for i, e in placed if exec_of(e.val) == c.sys]
                from_main = any(fm is not None and root_eq(e.cont, fm) for e in src) or \
                    (elem_of(c.sys) is not None and fm is not None and root_eq(elem_of(c.sys)[:-1], fm))
                if len(mine) > 1:
                    R.fail('C11', ro, f'{W}:{mine[1][1].line}', 'the executor of a system is stored twice', path_of(it.path))
                for i, e in mine:
                    batch = any(x[0] == 'i' for x in e.cont[1:]) or is_nested(its, e.cont)
                    if batch and from_main:
                        R.fail('C10', rb, f'{W}:{e.line}', 'a main-thread system is put into a batch of tasks', path_of(it.path))
                    if batch:
                        placed_batch += 1
                        check_placement(R, rb, ro, W, its, it, i, e, c)
                    elif from_main:
                        placed_main += 1
                        R.ob('C10', rb)
                    else:
                        placed_batch += 1
                # conservation
                conserve(R, ro, W, I, it, ci, c, mine, src)
        # everything has been placed when the function returns
    if not placed_batch:
        R.undecide('C10', rb, 'no placement into a batch was recognised')
        R.undecide('C11', ro, 'no placement into a batch was recognised')
    return main_field


def root_eq(a, b):
    return a is not None and b is not None and a[1:] == b[1:] and len(a) == len(b)


def is_nested(its, cont):
    """is this local container itself pushed into another container?"""
    for it in its:
        for _, e in it.own('push'):
            for a in e.args:
                if isinstance(a, LV) and a.loc == cont:
                    return True
    return False


def ancestors(it):
    while it is not None:
        yield it
        it = it.parent


def check_placement(R, rb, ro, W, its, it, i, push, c):
    ok = None
    path = path_of(it.path)
    al = [(j, e) for j, e in it.own('ALLOWS') if j < i and e.pat == c.sys and e.res]
    un = [(j, e) for j, e in it.own('ALLOWS') if j < i and e.pat is None]
    other = [e for _, e in it.own('loop', 'loopsum')]
    if not al:
        if un or other:
            R.undecide('C10', rb, f'line {push.line}: the condition for joining a batch is not understood')
        else:
            R.fail('C10', rb, f'{W}:{push.line}', 'a system joins a batch without being allowed by the accesses of the batch', path)
        return
    acc = al[-1][1].acc
    merged = [(j, e) for j, e in it.own('MERGE') if e.acc == acc and e.pat == c.sys]
    mun = [(j, e) for j, e in it.own('MERGE') if e.pat is None or e.acc != acc]
    reset = [(j, e) for j, e in it.own('RESET') if e.acc == acc]
    if not merged:
        if mun or reset:
            R.undecide('C10', rb, f'line {push.line}: how the accesses of the batch grow is not understood')
        else:
            R.fail('C10', rb, f'{W}:{push.line}', 'a system joins a batch and its accesses are not added to those of the batch', path)
        return
    j0 = merged[0][0]
    lost = [(j, e) for j, e in it.own('RESET', 'local') if (e.acc if e.kind == 'RESET' else e.loc) == acc]
    if lost:
        R.fail('C10', rb, f'{W}:{lost[0][1].line}', 'the accesses of a batch are forgotten before the next system joins it', path)
        return
    # where the batch begins
    owner = None
    for a in list(ancestors(it))[1:]:
        for _, e in a.own('push'):
            if len(push.cont) > 1 and e.cont == push.cont[:-1]:
                owner = a
        for _, e in a.own('local'):
            if e.loc == push.cont:
                owner = a
        fresh = [e for _, e in a.own('RESET', 'local') if (e.acc if e.kind == 'RESET' else e.loc) == acc]
        if owner is a:
            if fresh:
                R.ob('C10', rb)
                R.ob('C11', ro)
            else:
                R.ob('C10', rb)
                R.fail('C11', ro, f'{W}:{push.line}', 'the accesses of earlier batches are held against a new one, so that a conflicting system is never placed', path)
            return
        if fresh:
            R.fail('C10', rb, f'{W}:{fresh[0].line}', 'the accesses of a batch are forgotten while it still takes systems', path)
            return
    R.undecide('C10', rb, f'line {push.line}: where a batch begins is not understood')


def conserve(R, ro, W, I, it, ci, c, mine, src):
    """the system taken from a list is either placed and gone, or kept for the next batch"""
    path = path_of(it.path)
    if src:
        # straight from the containers of the stage
        if len(mine) == 1:
            R.ob('C11', ro)
        elif not mine:
            if it.own('ALLOWS') or it.own('push'):
                R.undecide('C11', ro, f'line {c.line}: a system not placed may be kept elsewhere')
            else:
                R.fail('C11', ro, f'{W}:{c.line}', 'an executor is made and not stored: the system never runs', path)
        return
    idx = [e for j, e in it.own('index') if j < ci]
    if not idx:
        R.undecide('C11', ro, f'line {c.line}: where the system comes from is not understood')
        return
    x = idx[-1]
    erased = [e for _, e in it.own('erase') if e.cont == x.cont]
    kept = [e for _, e in it.own('push') if e.d.get('val') is not None and exec_of(e.val) is None and ptr_loc(None, None, e.val) == c.sys]
    if kept:
        if mine and not erased:
            R.fail('C11', ro, f'{W}:{kept[0].line}', 'a system that was placed is kept for another batch as well', path)
        elif mine:
            R.undecide('C11', ro, f'line {c.line}: the system is placed, erased and kept')
        else:
            R.ob('C11', ro)
        return
    step = None
    if it.start is not None and it.end is not None and is_lin(x.index):
        for loc, v in it.start.mem.items():
            v = I.read(it.start, loc) if isinstance(v, tuple) and v and v[0] == 'base' and loc[0][0] == 'v' and len(loc) == 1 else v
            if v == x.index and loc[0][0] == 'v':
                w = I.read(it.end, loc)
                if is_lin(w):
                    d = sub(w, x.index)
                    step = d[1] if T.is_const(d) else None
    at = [e for e in erased if e.index == x.index]
    if mine:
        if not erased:
            others = it.own('pop', 'erase_if', 'assign', 'swap', 'loop', 'loopsum')
            if others:
                R.undecide('C11', ro, f'line {c.line}: removal from the list is not understood')
            else:
                R.fail('C11', ro, f'{W}:{mine[0][1].line}', 'a system that was placed stays in the list of pending systems', path)
        elif not at or len(erased) > 1:
            if any(is_lin(e.index) and e.index != x.index for e in erased):
                R.fail('C11', ro, f'{W}:{erased[0].line}', 'another system than the placed one is dropped from the list', path)
            else:
                R.undecide('C11', ro, f'line {erased[0].line}: which system is removed is not known')
        elif step == 0:
            R.ob('C11', ro)
        elif step is not None:
            # the next one is skipped in this batch, not lost
            R.ob('C11', ro)
        else:
            R.undecide('C11', ro, f'line {c.line}: the next position is not known')
    else:
        if erased:
            R.fail('C11', ro, f'{W}:{erased[0].line}', 'a system is dropped from the list without being placed', path)
        elif step == 1:
            R.ob('C11', ro)
        elif step == 0:
            R.fail('C11', ro, f'{W}:{c.line}', 'a system that cannot join the batch is looked at again for ever', path)
        elif step is None:
            R.undecide('C11', ro, f'line {c.line}: the next position is not known')
        else:
            R.ob('C11', ro)


# ------------------------------------------------------------------------------ running a stage
class Pass:
    """one walk over a container: iterations [(index, events, path or None)], and what is known about its range"""

    def __init__(self, line, items=(), range_ok=True, why=None):
        self.line, self.items, self.range_ok, self.why = line, list(items), range_ok, why
        self.early = None


def passes(evs, C, path=None):
    """walks over container C among these events; second result: lines of accesses that are not understood"""
    out, odd = [], []
    evs = strip_loop_copies(evs)
    i = 0
    while i < len(evs):
        e = evs[i]
        if e.kind == 'loop0' and e.d.get('cont') == C:
            out.append(Pass(e.line))
        elif e.kind == 'first':
            depth, j = 1, i + 1
            while j < len(evs) and depth:
                depth += {'first': 1, 'endfirst': -1}.get(evs[j].kind, 0)
                j += 1
            seg = evs[i + 1:j - 1]
            rest = evs[j] if j < len(evs) and evs[j].kind in ('loop', 'loopsum', 'loop0') else None
            p = as_pass(C, e, seg, rest, path)
            if p is not None:
                out.append(p)
            else:
                inner, o = passes(seg, C)
                if inner or o or (rest is not None and any(passes(tr[0], C)[0] for tr in rest.d.get('traces') or ())):
                    odd.append(e.line)
            if rest is not None:
                j += 1
            i = j
            continue
        elif e.kind in ('loop', 'loopsum'):
            for tr in e.d.get('traces') or ():
                if head(tr[0], C) is not None or passes(tr[0], C)[0]:
                    odd.append(e.line)
        i += 1
    return out, odd


def head(seg, C):
    """(event, index): which element of C an iteration is about"""
    for e in seg:
        if e.kind == 'iterate':
            return (e, e.index) if e.cont == C else None
        if e.kind == 'index' and e.cont == C:
            return e, e.index
        if e.kind == 'itderef' and e.loc[:-1] == C and e.loc[-1][0] == 'i':
            return e, e.loc[-1][1]
        if e.kind in ('first', 'loop', 'loopsum', 'loop0'):
            return None
    return None


def until_end(path, idx, C):
    """does the iteration for position idx run whenever idx is less than the size of C?
    True / False (ends before) / None (no such test)"""
    for w, p, b in reversed(path or ()):
        if not (isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1])):
            continue
        lin = p[-1]
        for atom, k in lin[2]:
            x = T.info(atom)
            if x[0] != 'init' or x[1] != C + (('s', 'size'),) or k not in (1, -1):
                continue
            size = T.mk(0, {atom: 1})
            d = sub(lin, T.scale(sub(idx, size), -k))
            if not T.is_const(d):
                continue
            c = d[1]
            if p[1] in ('==', '!='):
                if (p[1] == '==') == b:
                    continue
                return True if c == 0 else False
            # upper bound of idx - size
            c += 1 if p[1] == '<' else 0
            if k == -1 and b:
                top = -c
            elif k == 1 and not b:
                top = c - 1
            else:
                continue
            if top == -1:
                return True
            if top < -1:
                return False
    return None


def as_pass(C, e, seg, rest, path=None):
    h = head(seg, C)
    if h is None:
        return None
    it, idx0 = h
    p = Pass(it.line, [(idx0, seg, None, None)])
    walked = it.kind == 'iterate'
    if walked:
        p.range_ok = covers(it.first, it.n, C)
    elif T.is_const(idx0):
        p.range_ok = until_end(path, idx0, C) if idx0[1] == 0 else False
        p.why = 'visited by index'
    else:
        p.range_ok = None
    if rest is not None and rest.kind != 'loop0':
        for tr in rest.d.get('traces') or ():
            h = head(tr[0], C)
            if h is None:
                p.range_ok = None
                p.why = 'an iteration is not understood'
                continue
            e1, idx = h
            if walked:
                if e1.kind != 'iterate':
                    p.range_ok = None
                elif covers(e1.first, e1.n, C) is False:
                    p.range_ok = False
            elif p.range_ok is not False:
                step = sub(idx, rest.n) if is_lin(rest.d.get('n')) else None
                ok = until_end(tr[2], idx, C)
                if step is None or not T.is_const(step) or step[1] != 1 or ok is None:
                    p.range_ok = None
                elif ok is False:
                    p.range_ok = False
            p.items.append((idx, tr[0], tr[2], tr[1]))
    return p


def actions(seg):
    """[(element, 'task' | 'direct', event)] of everything run in these events"""
    out = []
    for e in flat(strip_loop_copies(seg)):
        if e.kind == 'SUBMIT':
            for l in e.runs or ():
                out.append((elem_of(l), 'task', e))
        elif e.kind == 'RUN':
            out.append((elem_of(e.obj.loc), 'direct', e))
    return out


def vec_depth(P, t):
    return P.ty(t)['s'].split('unique_ptr')[0].count('<')


def check_run(R, P, main):
    rd = 'tasks of a batch are joined before other systems run; main-thread systems run on the calling thread'
    ro = 'running a stage runs each of its systems exactly once and returns when all have finished'
    I = run_interp(P)
    I.trace_locals = 'all'
    f = P.driver('drv_stage_run')
    rec = [r for r in P.recs_by_bare.get('co_ecs::stage_executor', []) if r.get('fields')]
    if f is None or not rec:
        R.undecide('C10', rd, 'stage_executor is not found')
        R.undecide('C11', ro, 'stage_executor is not found')
        return
    try:
        res = I.run(f)
    except Analysis as e:
        R.undecide('C10', rd, str(e))
        R.undecide('C11', ro, str(e))
        return
    for fid in I.inlined:
        R.ctx.saw('functions', P.funcs[fid]['q'])
    W = file_of(P, I, 'run', 'include/co_ecs/system/stage.hpp')
    conts = [(fl['n'], vec_depth(P, fl['t'])) for fl in rec[0]['fields'] if 'unique_ptr<co_ecs::system_executor_interface' in P.ty(fl['t'])['s']]
    if not conts:
        R.undecide('C11', ro, 'the containers of executors are not found')
    if main is None:
        R.undecide('C10', rd, 'the container of main-thread executors is not known')
    mainf = main[1] if isinstance(main, tuple) and main[0] == 'f' else None
    for st, (how, v) in res:
        if how != 'return':
            continue
        R.ctx.saw('paths', f'stage run {len(st.path)} {len(st.ev)} {[e.kind for e in st.ev][:12]}')
        path = path_of(st)
        found = []
        run = Runner(lambda kind, line, msg: found.append((kind, line, msg)))
        left = run.walk(strip_loop_copies(st.ev), [])
        for o in sorted(set(run.odd)):
            R.undecide('C10', rd, o)
            R.undecide('C11', ro, o)
        for kind, line, msg in found:
            R.fail('C11' if kind == 'once' else 'C10', ro if kind == 'once' else rd, f'{W}:{line}', msg, path)
        if left:
            line = [e.line for e in flat(st.ev) if e.kind == 'SUBMIT']
            for prop, rule in (('C10', rd), ('C11', ro)):
                R.fail(prop, rule, f'{W}:{line[0] if line else 1}', 'the stage returns while systems it submitted may still be running', path)
        if not found and not left and not run.odd:
            R.ob('C10', rd)
            R.ob('C11', ro)
        # captured by reference and gone before the task runs
        dangling(R, ro, W, strip_loop_copies(st.ev), path)
        for e in flat(st.ev):
            if e.kind == 'endloop' and e.d.get('how') == 'break' and not tainted_path(st.path):
                R.fail('C11', ro, f'{W}:{e.line}', 'a loop over systems is left before all have run', path)
        if run.odd:
            continue
        for name, depth in conts:
            C = I.canon(st, (('o', 's'), ('f', name)))
            every(R, rd, ro, W, strip_loop_copies(st.ev), C, depth, name == mainf, st.path, st.facts)


def none_in(facts, C):
    return facts is not None and facts.le(T.atom(('init', C + (('s', 'size'),)), nonneg=True))


def every(R, rd, ro, W, evs, C, depth, main, tp, facts):
    """among these events every system below container C runs exactly once"""
    ps, odd = passes(evs, C, tp)
    path = path_of(tp)
    tainted = tainted_path(tp)
    what = 'main-thread systems' if main else 'systems'
    if odd:
        R.undecide('C11', ro, f'line {odd[0]}: a container of {what} is visited in a loop')
        return
    if not ps:
        if none_in(facts, C):
            R.ob('C11', ro)
        elif tainted or any(len(a[0]) > len(C) and a[0][:len(C)] == C for a in actions(evs) if a[0]):
            R.undecide('C11', ro, f'how the {what} are visited is not understood')
        else:
            R.fail('C11', ro, W + ':1', f'{what} of the stage are not run', path)
        return
    if len(ps) > 1 and any(p.items for p in ps[1:]) and any(p.items for p in ps[:1]):
        R.fail('C11', ro, f'{W}:{ps[1].line}', f'the {what} are visited twice', path)
        return
    for p in ps:
        if p.range_ok is False:
            R.fail('C11', ro, f'{W}:{p.line}', f'not all {what} are visited', path)
        elif p.range_ok is None:
            R.undecide('C11', ro, f'line {p.line}: the range of {what} is not understood {p.why or ""}')
        else:
            R.ob('C11', ro)
        for idx, seg, ip, ifacts in p.items:
            el = C + (('i', idx),)
            if ip is None:
                ip, ifacts = tp, facts
            tn = tainted or tainted_path(ip)
            pp = path_of(ip)
            if depth > 1:
                every(R, rd, ro, W, seg, el, depth - 1, main, ip, ifacts)
                continue
            acts = actions(seg)
            mine = [a for a in acts if a[0] == el]
            if len(mine) == 1:
                R.ob('C11', ro)
            elif not mine:
                if any(a[0] is None for a in acts) or tn:
                    R.undecide('C11', ro, f'line {p.line}: what an iteration runs is not understood')
                elif null_on(ip, el):
                    R.ob('C11', ro)
                else:
                    R.fail('C11', ro, f'{W}:{p.line}', 'a system of the stage is not run', pp)
            else:
                R.fail('C11', ro, f'{W}:{mine[1][2].line}', 'a system is run twice', pp)
            if main:
                for a in mine:
                    if a[1] == 'direct':
                        R.ob('C10', rd)
                    else:
                        R.fail('C10', rd, f'{W}:{a[2].line}', 'a main-thread system is submitted to the thread pool', pp)


def null_on(tp, el):
    """does the path say that the owning pointer at el is null?"""
    for w, p, b in tp or ():
        if isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1]):
            a = T.single_atom(p[-1])
            if a is not None and a[0] == 'init' and a[1][:-1] == el:
                return True
    return False


def dangling(R, ro, W, evs, path):
    """a submitted function refers to a variable of an iteration that ends before the task is joined"""
    def scan(seg, in_iter):
        local = set()
        for e in seg:
            if e.kind == 'local':
                local.add(e.loc)
            elif e.kind == 'SUBMIT' and in_iter:
                for l in e.d.get('refs') or ():
                    if any(l[:len(x)] == x for x in local):
                        joined = any(w.kind == 'WAIT' and (same(w.task, e.task) or same(w.task, e.parent)) for w in seg)
                        if not joined:
                            R.fail('C11', ro, f'{W}:{e.line}', 'the submitted function refers to a variable that ends with the iteration', path)
                        return
            elif e.kind in ('loop', 'loopsum'):
                for tr in e.d.get('traces') or ():
                    scan(strip_loop_copies(tr[0]), True)
    scan(evs, False)
