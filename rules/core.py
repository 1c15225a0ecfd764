"""Analysis of every path of every public storage operation, shared by the storage properties."""
from sa.interp import Interp, Analysis, Exc
from sa.world import ABS, Anchor
from sa.rowmodel import Storage, Hooks, PathModel, Undecided
from sa import rowrules as R
from sa.rowrules import Op

OPS = {
    'drv_create0': Op('create', ent=None),
    'drv_create': Op('create', ent=None, types=('A', 'N')),
    'drv_create_copy': Op('create', ent=None, types=('N',)),
    'drv_destroy': Op('destroy'),
    'drv_rdestroy': Op('destroy'),
    'drv_set': Op('set', types=('A',)),
    'drv_setN': Op('set', types=('N',)),
    'drv_goi': Op('goi', types=('N',)),
    'drv_remove': Op('remove', types=('A',)),
    'drv_get': Op('get', types=('A',)),
    'drv_cget': Op('get', types=('A',)),
    'drv_get2': Op('get', types=('A', 'B')),
    'drv_has': Op('has', types=('A', 'B')),
    'drv_chas': Op('has', types=('A',)),
    'drv_alive': Op('alive'),
    'drv_calive': Op('alive'),
    'drv_visit': Op('visit'),
    'drv_cvisit': Op('visit'),
    'drv_arch': Op('arch'),
    'drv_clone': Op('clone', returns='entity'),
    'drv_clone_ph': Op('clone'),
    'drv_copy': Op('copy', dest='d', returns='entity'),
    'drv_rcopy': Op('copy', dest='d', returns='entity'),
    'drv_move': Op('move', dest='d', returns='entity'),
    'drv_move_ph': Op('move', dest='d'),
}
RULES = {'C15': [R.r_layout], 'C01': [R.r_stale], 'C02': [R.r_handles], 'C03': [R.r_locations], 'C04': [R.r_dense], 'C05': [R.r_lifetime], 'C06': [R.r_nothing], 'C07': [R.r_errors], 'C24': [R.r_effect], 'C25': [R.r_refs]}
NAMES = {'r_layout': 'layout', 'r_stale': 'stale handles', 'r_handles': 'handles', 'r_locations': 'location', 'r_dense': 'density', 'r_lifetime': 'lifetime', 'r_nothing': 'failure', 'r_errors': 'errors', 'r_effect': 'effect', 'r_refs': 'references'}


def place(P, ev, st):
    """construct to report: the event itself, else the last effect on the storage of the path"""
    if ev is None:
        inside = [e for e in st.ev if P.where(e.fid).find('/include/co_ecs/') >= 0]
        eff = [e for e in inside if e.kind not in ('loop0', 'endloop')]
        ev = (eff or inside or [None])[-1]
    if ev is None:
        return 'include/co_ecs/base_registry.hpp'
    return P.where(ev.fid, ev.line) + ' ' + P.fname(ev.fid)


def analyse(ctx, item):
    """one driver, all its paths"""
    P, S, f, op, pid = item
    H = Hooks(S)
    I = Interp(P, abstract=ABS, user_throw=True, hooks=H.make())
    name = f['bare']
    rule = 'replay'
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(pid, f'{name}: {e}')
        return
    for fid in I.inlined:
        ctx.saw('functions', P.fname(fid))
    for i, (st, how) in enumerate(res):
        where = f'{name} path {i}'
        extra = [R.typeid(t) for t in op.types]
        M = PathModel(S, I, st, how, H, extra)
        ends = []

        def rules(pid):
            out = []
            for r in RULES[pid]:
                def go(M, r=r):
                    if getattr(M, '_end_of', None) is not M.mods:
                        M._end = R.End(M, op)
                        M._end_of = M.mods
                    r(M, M._end)
                out.append(go)
            return out
        try:
            bad, und = M.run(rules(pid))
        except Undecided as u:
            bad, und = [], [str(u)]
        bad = [b for b in bad if b.tag == pid]
        if und and not bad and pid == 'C25':
            try:
                R.r_refs(M, None)       # needs nothing of the replay
            except R.Bad as b:
                bad = [b]
        ctx.saw('paths', where + ' ' + (how[1].name if how[0] == 'throw' else 'returns'))
        if und and not bad:
            for u in und:
                ctx.undecide(pid, f'{where}: {u}')
        for b in bad:
            loc = place(P, b.ev, st)
            steps = [f'{w}: {"taken" if v else "not taken"}' for w, p, v in st.path if w]
            end = f'ends with {how[1].name} raised at {how[1].where}' if how[0] == 'throw' else 'returns'
            ctx.fail(pid, loc, f'{b.msg} [{op.kind}]', steps + [end], key=f'{pid}|{op.kind}|{b.msg}')
        if not bad and not und:
            ctx.ob(pid, True, max(1, M.cases))
    ctx.saw('cases', f'{name}')


def run(ctx, pid, only=None):
    P = ctx.program('core')
    S = Storage(P)
    items = []
    for f in P.funcs.values():
        if f['bare'] in OPS and 'body' in f and (only is None or OPS[f['bare']].kind in only):
            items.append((P, S, f, OPS[f['bare']], pid))
    ctx.pmap(lambda c, it: analyse(c, it), items)
    for it in items:
        ctx.saw('operations', it[2]['bare'])
