"""C25: references into growable storage are not used after it may have moved."""
import importlib
import sa.interp as SI
from sa.interp import Interp, Analysis, LV
from sa.world import ABS
from rules import core

LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Every reference, pointer and iterator into a growable container carries the generation of that container; every operation that may '
               'move its elements (growth, insertion, removal, assignment) starts a new generation. On every path of the storage operations, of the '
               'containers, of recording and applying commands, of views and of building and running schedules, each use of such a reference is '
               'checked against the generation at that point. References the interface hands out for longer, and pointers stored in objects, are '
               'followed over a later growth of what they designate.')
# analyses of other properties whose paths are searched for uses of references
OTHERS = ['C10', 'C11', 'C13', 'C14', 'C17', 'C18', 'C21']


def run(ctx):
    ctx.assumptions = ['functions of the user do not change the storage they are given references into (documented)', 'elements of a deque stay where they are when it grows at its ends']
    for d, _ in PLAIN:
        ctx.program(d)
    begin()
    core.run(ctx, 'C25')
    SI.LOG = None
    ctx.pmap(lambda c, n: other(c, n), OTHERS)
    handed(ctx)


class Quiet:
    """a context that keeps nothing but what was analysed"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.pid, self.tier, self.seed, self.repo, self.scratch = ctx.pid, ctx.tier, ctx.seed, ctx.repo, ctx.scratch
        self.findings, self.undecided, self.obligations, self.analysed = [], [], {}, {}
        self.odd = []

    def program(self, d):
        return self.ctx.program(d)

    def saw(self, kind, what):
        if kind in ('functions', 'paths'):
            self.ctx.saw(kind, what)

    def undecide(self, rule, why):
        self.odd.append(why)

    def fail(self, *a, **k):
        pass

    def ob(self, *a, **k):
        pass

    def pmap(self, fn, items, **k):
        return [fn(self, i) for i in items]

    def compile(self, *a, **k):
        return True, ''


def show(c):
    return ''.join('.' + str(x[-1]) if x[0] == 'f' else '[]' for x in c[1:]).lstrip('.') or str(c[0][-1])


def begin():
    SI.LOG = {'checks': 0, 'in': set(), 'stale': [], 'stored': []}
    return SI.LOG


def other(ctx, name):
    rule = 'no use of a reference after its storage may have moved'
    log = begin()
    try:
        importlib.import_module('rules.' + name.lower()).run(Quiet(ctx))
    except Exception as e:
        ctx.undecide(rule, f'the paths of {name}: {type(e).__name__} {e}')
    SI.LOG = None
    used(ctx, log)
    stored(ctx, log)


def used(ctx, log):
    rule = 'no use of a reference after its storage may have moved'
    for where, c, path in log['stale']:
        ctx.fail(rule, where, f'a reference into {show(c)} is used or returned after an operation that may move its elements', path, key=f'{rule}|{where}|{show(c)}')
    if not log['stale']:
        ctx.ob(rule, True, max(1, len(log['in'])))


def stored(ctx, log, P=None):
    """pointers into elements of growing containers left in objects at the end of an operation"""
    rule = 'no object keeps a pointer into storage that grows'
    for where, k, lv, path in log['stored']:
        c = lv.gens[-1][0]
        if P is not None and kind_of(P, c) == 'std::deque':
            continue
        ctx.fail(rule, where, f'{show(k)} keeps a pointer to an element of {show(c)}, which moves when it grows', path, key=f'{rule}|{show(k)}|{show(c)}')
    if not log['stored']:
        ctx.ob(rule)


def kind_of(P, c):
    """container type of the field at the end of a location"""
    names = set()
    for r in P.recs.values():
        for f in r.get('fields') or ():
            if c[-1][0] == 'f' and f['n'] == c[-1][1]:
                q = P.rec_of(f['t'])
                names.add(q['bare'] if q else None)
    return names.pop() if len(names) == 1 else None


def plain(ctx, P, name, rule, st=None, args=None):
    f = P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return []
    I = Interp(P, abstract=ABS, user_throw=False)
    try:
        return I.run(f, st=st, args=args)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return []


PLAIN = [('core', ['drv_create0', 'drv_create', 'drv_create_copy', 'drv_remove', 'drv_set', 'drv_clone_ph', 'drv_reserve']),
         ('command', ['drv_get', 'drv_create0', 'drv_set', 'drv_seta', 'drv_destroy', 'drv_remove', 'drv_clone', 'drv_reserve']),
         ('sched', ['drv_add', 'drv_add_main', 'drv_add_init', 'drv_add_init_main', 'drv_addf_fn', 'drv_addf_fo', 'drv_begin',
                    'drv_sys_fn', 'drv_sys_fo', 'drv_sys_named', 'drv_task_submit'])]


# containers and pools: every driver
ALL = ['pool', 'sparse', 'sets']


def handed(ctx):
    for d in ALL:
        P = ctx.program(d)
        ctx.pmap(lambda c, n, d=d: keep(c, d, n), sorted(f['bare'] for f in P.funcs.values() if f['name'].startswith('drv_') and 'body' in f))
    ctx.pmap(lambda c, it: keep(c, *it), [(d, n) for d, ns in PLAIN for n in ns])
    P = ctx.program('sched')
    grows(ctx, P, 'drv_begin', ['drv_begin', 'drv_add_init'], 'the stage begin_stage returns')


def keep(ctx, d, name):
    P = ctx.program(d)
    log = begin()
    plain(ctx, P, name, 'no object keeps a pointer into storage that grows')
    SI.LOG = None
    if d not in ('core', 'command'):       # paths of those are followed elsewhere, with what is known of the storage
        used(ctx, log)
    stored(ctx, log, P)


def grows(ctx, P, name, later, what):
    rule = 'references handed out for longer survive later operations'
    seen = False
    for st, (how, val) in plain(ctx, P, name, rule):
        if how == 'throw':
            continue
        ctx.saw('paths', name)
        lv = val if isinstance(val, LV) else val[1] if isinstance(val, tuple) and val and val[0] == 'ptr' else None
        if lv is None:
            ctx.undecide(rule, f'what {name} returns is not understood')
            continue
        f1, bad = P.driver(name), False
        for n2 in later:
            f2 = P.driver(n2)
            if f2 is None or f2['params'][0]['n'] != f1['params'][0]['n']:
                continue
            for s2, (h2, v2) in plain(ctx, P, n2, rule, st=st.copy()):
                seen = True
                if any(s2.gens.get(c, 0) != n for c, n in lv.gens):
                    bad = True
        where = P.where(f1['id']) if not bad else where_of(P, name)
        if bad:
            ctx.fail(rule, where, f'{what} may move when another one is added', None, key=f'{rule}|{name}')
        else:
            ctx.ob(rule)
    if not seen:
        ctx.undecide(rule, f'{name}: nothing to decide')


def where_of(P, name):
    f = next((f for f in P.funcs.values() if f['bare'] == 'co_ecs::schedule::begin_stage'), None)
    return P.where(f['id']) if f else 'include/co_ecs/system/schedule.hpp'
