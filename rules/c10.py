"""C10: systems that conflict never run at the same time; main-thread systems run on the calling thread."""
from sa import terms as T
from sa import schedmodel as S
from sa.interp import Interp, Analysis, St
from sa.world import ABS

LEVEL = 'proof'
MIN_OBLIGATIONS = 40
EXPLANATION = ('(1) Algebra: the functions of an access pattern are interpreted over arbitrary patterns seen from one arbitrary component; on every '
               'path, if one pattern allows another then neither writes what the other reads or writes, and combining two patterns keeps every '
               'access of both. (2) Batching: in an arbitrary iteration of the loop that builds the batches, an executor is stored in a batch only '
               'after the accumulated accesses allowed its own, which are added to them, and they are kept as long as the batch takes systems. '
               '(3) Running: tasks of one batch are joined before those of another are submitted, and main-thread systems are run directly, '
               'with no task outstanding.')
ALGEBRA = {
    'drv_apart': 'a pattern that allows another conflicts with it',
    'drv_apart_all': 'a pattern with access to the whole registry is allowed next to one that conflicts',
    'drv_write_reads': 'a write is not a read',
    'drv_all_writes': 'access to the whole registry does not count as access to a component',
    'drv_all_reads': 'read access to the whole registry does not count as read of a component',
    'drv_merge_w1': 'combining loses a write', 'drv_merge_w2': 'combining loses a write of the added pattern',
    'drv_merge_r1': 'combining loses a read', 'drv_merge_r2': 'combining loses a read of the added pattern',
    'drv_merge_wa': 'combining loses write access to the registry', 'drv_merge_ra': 'combining loses read access to the registry',
    'drv_both_w1': 'combining loses a write', 'drv_both_w2': 'combining loses a write',
    'drv_both_r1': 'combining loses a read', 'drv_both_r2': 'combining loses a read',
}


def run(ctx):
    ctx.assumptions = ['declared accesses cover what systems do (C09)', 'submitted tasks may run at once and in any order until joined']
    algebra(ctx, ctx.program('access'))
    P = ctx.program('sched')
    R = S.Report(ctx, 'C10')
    field = S.check_build(R, P)
    S.check_run(R, P, field)


def algebra(ctx, P):
    rule = 'allowed patterns are free of conflicts and combining keeps every access'
    for name, msg in ALGEBRA.items():
        f = P.driver(name)
        if f is None:
            ctx.undecide(rule, f'{name} missing')
            continue
        I = Interp(P, abstract=ABS, user_throw=False)
        I.exact_maps = I.split_minmax = I.enum_bounds = True
        st = St()
        try:
            args = I.symbolic_args(st, f)
            I.focus = [x for x, p in zip(args, f['params']) if p['n'] == 'id']
            if not I.focus:
                I.focus = [T.fresh('anyid', nonneg=True)]
            res = I.run(f, args=args, st=st)
        except Analysis as e:
            ctx.undecide(rule, f'{name}: {e}')
            continue
        for fid in I.inlined:
            ctx.saw('functions', P.funcs[fid]['q'])
        for s, (how, v) in res:
            ctx.saw('paths', f'{name} {len(ctx.analysed.get("paths", ()))}')
            if how == 'return' and v == ('B', True):
                ctx.ob(rule)
            elif how == 'return' and v == ('B', False) and not S.tainted_path(s.path) and \
                    not any(e.kind in ('unknown', 'unsupported', 'recursion', 'stdcall') for e in s.ev):
                w = [fid for fid in I.inlined if P.funcs[fid]['name'] in (('allows',) if 'apart' in name else ('operator&=',) if 'merge' in name else ('writes', 'reads'))]
                ctx.fail(rule, P.where(w[0]) if w else 'include/co_ecs/system/access.hpp', msg, S.path_of(s), key=f'{rule}|{name}')
            else:
                ctx.undecide(rule, f'{name}: {S.show(v)}')
