"""C09: the accesses a system declares cover what its parameters let it do."""
from sa import terms as T
from sa.interp import Interp, Analysis
from sa.world import ABS

LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of access_pattern() of the executor of a system, from the arguments of the system down to the map of '
               'declared component accesses (component identities stay symbolic), for every kind of parameter, alone, repeated and combined in '
               'every order that matters, and every kind of callable. On every path the declaration asks for at least what the parameter list '
               'gives: view<T&> write and read of T, view<const T&> read of T, registry& write of everything, const registry& read of '
               'everything, command_writer read of the entities it reserves. The parameter kinds recognised are enumerated from the headers.')

# what each analysed parameter list lets the system do
GIVES = {
    's_none': '', 's_reg': 'wall', 's_creg': 'rall', 's_cw': 'rE', 's_A': 'wA', 's_cA': 'rA', 's_A_cB': 'wA rB', 's_cA_B': 'rA wB',
    's_ABC': 'wA wB rC', 's_E_cA': 'rE rA', 's_cA__A': 'wA', 's_A__cA': 'wA', 's_A__cB__cw': 'wA rB rE', 's_cw__cA__BC': 'rE rA wB wC',
    's_cA__creg': 'rA rall', 's_creg__A': 'rall wA', 's_A__reg': 'wall', 's_reg__cA': 'wall', 's_creg__reg': 'wall',
    's_fo': 'wA rall', 's_fm': 'wA rall', 's_sf': 'wA rall',
}
WORDS = {'w': 'written', 'r': 'read'}


def closure(s):
    have = set(s.split())
    if 'wall' in have:
        have |= {'rall', 'wA', 'wB', 'wC'}
    if 'rall' in have:
        have |= {'rA', 'rB', 'rC', 'rE'}
    have |= {'r' + x[1:] for x in have if x[0] == 'w'}
    return have


def say(q):
    what = {'all': 'the whole registry', 'E': 'entities'}.get(q[1:], 'component ' + q[1:])
    return f'{what} may be {WORDS[q[0]]}'


def run(ctx):
    ctx.assumptions = ['a system touches component data only through its parameters']
    P = ctx.program('access')
    kinds(ctx, P)
    for f in sorted(P.funcs.values(), key=lambda f: f['id']):
        b = f['bare']
        if not b.startswith('drv_') or 'body' not in f:
            continue
        q, _, name = b[4:].partition('_')
        if name not in GIVES:
            continue
        if q not in closure(GIVES[name]):
            continue
        rule = 'what a parameter list allows is declared'
        ctx.saw('parameter lists', name)
        I = Interp(P, abstract=ABS, user_throw=False)
        I.exact_maps = True
        try:
            res = I.run(f)
        except Analysis as e:
            ctx.undecide(rule, f'{b}: {e}')
            continue
        for fid in I.inlined:
            ctx.saw('functions', P.funcs[fid]['q'])
        for st, (how, v) in res:
            ctx.saw('paths', f'{b} {len(st.path)}')
            if how != 'return':
                ctx.undecide(rule, f'{b}: {how}')
            elif v == ('B', True):
                ctx.ob(rule)
            elif v == ('B', False) and not any(e.kind in ('unknown', 'unsupported', 'icall', 'recursion') for e in st.ev):
                path = [f'{w}: {T.show(p) if T.is_lin(p) else p} is {x}' for w, p, x in st.path if w]
                ctx.fail(rule, where(P, I, f), f'system({params(P, f)}): {say(q)} and is not declared', path, key=f'{rule}|{q}|{name}')
            else:
                ctx.undecide(rule, f'{b}: {T.show(v) if T.is_lin(v) else v}')


def params(P, f):
    t = P.ty(f['params'][0]['t'])
    t = P.ty(t['to']) if 'to' in t else t
    s = t['s']
    return s[s.find('(*)(') + 4:-2] if '(*)(' in s else s


def where(P, I, f):
    c = [fid for fid in I.inlined if P.funcs[fid]['name'] == 'access_pattern']
    return P.where(c[-1]) if c else P.where(f['id'])


def kinds(ctx, P):
    """every recognised parameter kind is one whose accesses are analysed"""
    rule = 'every recognised parameter kind is analysed'
    for r in P.recs.values():
        if r['bare'].split('::')[-1] != 'system_argument_state_trait' or not r.get('targs'):
            continue
        t = r['targs'][0].get('t')
        s = P.ty(t)['s'] if t is not None else '?'
        ctx.saw('parameter kinds', s)
        k = s.replace('co_ecs::', '').replace(' ', '')
        if k in ('registry&', 'constregistry&', 'command_writer') or k.startswith('view<'):
            ctx.ob(rule)
        else:
            ctx.undecide(rule, f'unknown kind of system parameter {s}')
