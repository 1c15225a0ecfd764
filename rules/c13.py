"""C13: commands can be recorded from any thread, and survive the thread that recorded them."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import const, sub, is_lin
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import ABS
from . import c14

LEVEL = 'proof'
MIN_OBLIGATIONS = 25
EXPLANATION = ('The storage a thread records into is created once per thread (storage duration of the variable that holds it), is owned by that '
               'thread and by a list, and leaves the list only after its commands were applied and no thread owns it any more (the predicate of the '
               'removal implies an owner count of one). All accesses to the list, through every function that names it, lie between lock and unlock '
               'of one mutex shared by all threads. Every write made while recording, and every registry operation used by it, goes to that storage, '
               'to atomics, or is made under a lock; the one operation on the shared registry is the reservation, which writes atomics only.')
HPP = 'include/co_ecs/command.hpp'
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall', 'icall')
RECORD = ('drv_create', 'drv_create0', 'drv_destroy', 'drv_edestroy', 'drv_set', 'drv_seta', 'drv_remove', 'drv_clone', 'drv_getent')
TOUCH = ('push', 'pop', 'pop_front', 'erase', 'erase_if', 'clear', 'resize', 'iterate', 'index', 'front', 'back', 'insert', 'cmove', 'ccopy', 'cswap', 'loop0')


def run(ctx):
    ctx.assumptions = ['no thread records while commands are applied (documented)', 'at most one registry operation other than reserve() runs at a time']
    P = ctx.program('command')
    lists = storage(ctx, P)
    applying(ctx, P, lists)
    others(ctx, P, lists)
    for name in RECORD:
        recording(ctx, P, name)
    reserving(ctx, P)


def fail(ctx, rule, msg, st=None, key=None):
    ctx.fail(rule, HPP, msg, S.path_of(st) if st is not None else None, key=f'{rule}|{msg}|{key}')


def go(ctx, I, P, name, rule):
    f = P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return []
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return []
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    out = []
    for n, (st, (how, val)) in enumerate(res):
        ctx.saw('paths', f'{name} path {n}')
        odd = [e for e in c14.everything(st.ev) if e.kind in BAD]
        if odd:
            ctx.undecide(rule, f'{name}: line {odd[0].line}: {odd[0].kind} {odd[0].d.get("f")}')
        elif how != 'throw':
            out.append((st, val))
    return out


def tls(P, loc):
    """is it a variable of which every thread has its own?"""
    g = P.globals.get(loc[0][1]) if loc[0][0] == 'g' else None
    return bool(g and g.get('tls'))


# ---------------------------------------------------------------- where a thread records
def storage(ctx, P):
    rule = 'every thread records into storage of its own'
    ro = 'recorded commands outlive the thread'
    lists = {}
    ctx.inlined = set()
    I = Interp(P, abstract=ABS, user_throw=False)
    I.run_statics = I.keep_ends = True
    seen = False
    for st, v in go(ctx, I, P, 'drv_get', rule):
        ctx.inlined |= set(I.inlined)
        inits = [e for e in st.ev if e.kind == 'static_init']
        if not isinstance(v, LV):
            ctx.undecide(rule, 'what get() returns is not understood')
            continue
        root = v.loc[0]
        if not inits:
            # later uses: the object is reached through the variable
            var = variable_of(v.loc)
            if var is None:
                ctx.undecide(rule, 'where the buffer is kept is not understood')
            elif not tls(P, var):
                fail(ctx, rule, 'all threads record into the same buffer', st)
            else:
                ctx.ob(rule)
            continue
        seen = True
        for e in inits:
            if e.tls:
                ctx.ob(rule)
        if not any(e.tls for e in inits):
            fail(ctx, rule, 'all threads record into the same buffer', st)
            continue
        holder = [e for e in inits if e.tls][0]
        pushes = [e for e in st.ev if e.kind == 'push' and e.cont[0][0] == 'g']
        if len(pushes) != 1:
            fail(ctx, ro, 'the buffer of a thread is listed twice' if pushes else 'the buffer of a thread is not listed', st)
            continue
        e = pushes[0]
        lists[e.cont] = True
        if tls(P, e.cont):
            fail(ctx, ro, 'the list of buffers is not shared: what other threads recorded is not applied', st)
            continue
        rec = P.rec_of(holder.t)
        et = elem(P, e.cont)
        if et is None:
            ctx.undecide(ro, 'the list of buffers is not understood')
            continue
        if et == 'std::weak_ptr':
            fail(ctx, ro, 'the list does not own the buffers: what a thread recorded is lost when it ends', st)
            continue
        val = e.d.get('val')
        to = val[1].loc if isinstance(val, tuple) and val and val[0] == 'ptr' and isinstance(val[1], LV) else None
        if to is None:
            ctx.undecide(ro, 'what is listed is not understood')
            continue
        if to[0][0] == 'g':
            fail(ctx, ro, 'the list refers to an object that ends with its thread', st)
            continue
        if to != v.loc:
            fail(ctx, ro, 'what is listed is not the buffer that is recorded into', st)
            continue
        if et != 'std::shared_ptr':
            ctx.undecide(ro, 'who owns the buffers is not understood')
            continue
        ctx.shared = rec is not None and rec['bare'] == 'std::shared_ptr'
        ctx.ob(ro)
        locked(ctx, P, st.ev, lists, 'get')
        ended(ctx, P, holder, lists)
    if not seen:
        ctx.undecide(rule, 'no buffer is created')
    return lists


def variable_of(loc):
    for _ in range(6):
        if loc[0][0] == 'g':
            return loc
        if loc[0][0] != 'p' or not is_lin(loc[0][1]):
            return None
        a = T.single_atom(loc[0][1])
        if a is None or a[0] != 'init':
            return None
        loc = a[1]
    return None


def elem(P, cont):
    g = P.globals.get(cont[0][1])
    rec = P.rec_of(g['t']) if g else None
    if rec is None:
        return None
    for x in rec.get('targs') or ():
        r = P.rec_of(x['t']) if x.get('t') is not None else None
        return r['bare'] if r is not None else P.ty(x['t']).get('k') if x.get('t') is not None else None
    return None


def ended(ctx, P, holder, lists):
    """nothing of this library forgets the buffer when the variable of the thread is destroyed"""
    rule = 'recorded commands outlive the thread'
    for g in P.globals.values():
        if not g.get('tls'):
            continue
        rec = P.rec_of(g['t'])
        if rec is None or rec['bare'].startswith('std::'):
            continue
        d = next((f for f in P.funcs.values() if f.get('rec') == rec['id'] and f.get('kind') == 'dtor' and 'body' in f), None)
        if d is None:
            continue
        I = Interp(P, abstract=ABS, user_throw=False)
        I.keep_ends = True
        try:
            res = I.run(d)
        except Analysis as e:
            ctx.undecide(rule, f'the end of a thread is not understood: {e}')
            continue
        ctx.inlined |= set(I.inlined)
        for st, r in res:
            if any(e.kind in ('erase', 'erase_if', 'pop', 'pop_front', 'clear') and e.d.get('cont') in lists for e in S.flat(st.ev)):
                fail(ctx, rule, 'a buffer is forgotten when its thread ends, with what is recorded in it', st)
                break
        else:
            ctx.ob(rule)


# ---------------------------------------------------------------- locks
def locked(ctx, P, evs, lists, what, held=None):
    rule = 'the list of buffers is used under its lock'
    held = set(held or ())
    for e in evs:
        if e.kind == 'lock':
            held |= {m for m in (e.mutex[1:] if isinstance(e.mutex, tuple) else ())}
        elif e.kind == 'unlock':
            held -= {m for m in (e.mutex[1:] if isinstance(e.mutex, tuple) else ())}
        if e.kind in TOUCH and e.d.get('cont') in lists:
            good = [m for m in held if m[0][0] == 'g' and not tls(P, m)]
            ctx.mutexes = getattr(ctx, 'mutexes', None)
            if not good:
                if held and any(m[0][0] == 'g' for m in held):
                    fail(ctx, rule, f'{what}: the lock is not shared by the threads', None, what)
                elif any(m[0][0] == 'p' for m in held):
                    ctx.undecide(rule, f'{what}: which lock is held is not understood')
                else:
                    fail(ctx, rule, f'{what}: the list of buffers is used without its lock (line {e.line})', None, f'{what}{e.kind}')
                continue
            ctx.mutexes = set(good) if ctx.mutexes is None else ctx.mutexes & set(good)
            if not ctx.mutexes:
                fail(ctx, rule, f'{what}: the list of buffers is protected by different locks', None, what)
            else:
                ctx.ob(rule)
        if e.kind in ('loop', 'loopsum'):
            for t in e.d.get('traces') or ():
                locked(ctx, P, t[0], lists, what, held)


def applying(ctx, P, lists):
    rule = 'a buffer is forgotten only when its thread has ended and its commands are applied'
    if not lists:
        return
    M = c14.Model(P)
    I = M.interp()
    for st, v in go(ctx, I, P, 'drv_flush', rule):
        ctx.inlined |= set(I.inlined)
        evs = S.strip_loop_copies(st.ev)
        locked(ctx, P, evs, lists, 'flush')
        walked = bool(c14.empty_list(P, I, st))
        for e in evs:
            if e.kind in ('loop', 'loopsum') and any(x.kind == 'VISIT' for t in e.traces for x in S.flat(t[0])) or \
                    e.kind == 'loop0' and e.d.get('cont') in lists:
                walked = True
            if e.kind in ('clear', 'pop', 'resize', 'cmove', 'cswap') and e.d.get('cont') in lists:
                fail(ctx, rule, 'buffers are forgotten although threads may use them', st)
            elif e.kind == 'erase' and e.d.get('cont') in lists:
                ctx.undecide(rule, 'which buffers are forgotten is not understood')
            elif e.kind == 'erase_if' and e.d.get('cont') in lists:
                if not walked:
                    fail(ctx, rule, 'buffers are forgotten before their commands are applied', st)
                elif not getattr(ctx, 'shared', False):
                    fail(ctx, rule, 'a buffer is forgotten that its thread still uses', st)
                else:
                    owners(ctx, I, e, st, rule)
        for e in evs:
            if e.kind in ('loop', 'loopsum'):
                for t in e.traces:
                    for x in S.flat(t[0]):
                        if x.kind in ('erase', 'erase_if', 'clear', 'pop') and x.d.get('cont') in lists:
                            ctx.undecide(rule, 'buffers are forgotten one by one')
        ctx.ob(rule)


def owners(ctx, I, e, st, rule):
    """the predicate of the removal implies that nobody else owns the buffer"""
    n = T.atom(('usecount', e.elem), nonneg=True)
    for s, val in e.d.get('cases') or [(None, None)]:
        if s is None or val is None:
            ctx.undecide(rule, 'which buffers are forgotten is not understood')
            continue
        for s2, b in I.truth(s.copy(), val):
            if not b or s2.facts.dead:
                continue
            if s2.facts.le(sub(n, const(1))) is True:
                ctx.ob(rule)
            elif T.tainted(val) or S.tainted_path(s2.path[len(st.path):]):
                ctx.undecide(rule, 'which buffers are forgotten is not understood')
            else:
                fail(ctx, rule, 'a buffer may be forgotten while its thread still uses it', st)


def others(ctx, P, lists):
    """every function that names the list was analysed"""
    rule = 'the list of buffers is used under its lock'
    ids = {c[0][1] for c in lists}

    def names(n):
        if isinstance(n, dict):
            if n.get('d') in ids and n.get('k') in ('ref', 'var', 'member', 'dref', 'declref'):
                return True
            return any(names(x) for x in n.values())
        if isinstance(n, list):
            return any(names(x) for x in n)
        return False
    for f in P.funcs.values():
        if f.get('body') is not None and f['id'] not in ctx.inlined and names(f['body']):
            if f.get('kind') == 'dtor' or f.get('lambda'):
                continue
            ctx.undecide(rule, f'{f["q"]} uses the list of buffers and is not analysed')


# ---------------------------------------------------------------- recording
def shared_root(P, loc):
    if loc[0][0] == 'g':
        return not tls(P, loc)
    return loc[0] == ('o', 'r')


def recording(ctx, P, name):
    rule = 'recording writes only what belongs to the thread, atomics, and what a lock protects'
    M = c14.Model(P)
    I = M.interp()

    def write(I, st, loc, v, node):
        I.event(st, 'WRITE', node, loc=loc)
    I.hooks['write'] = write
    I.run_statics = True
    for st, v in go(ctx, I, P, name, rule):
        held = 0
        init = 0
        bad = None
        for e in S.flat(st.ev):
            if e.kind == 'lock':
                held += 1
            elif e.kind == 'unlock':
                held -= 1
            elif e.kind == 'static_init':
                init += 1
            elif e.kind == 'static_done':
                init -= 1
            if held or init:
                continue
            loc = e.d.get('loc') if e.kind in ('WRITE', 'uctor', 'store') else e.d.get('cont') if e.kind in ('push', 'pop', 'pop_front', 'erase', 'erase_if', 'clear', 'resize', 'insert', 'cswap', 'cmove') else None
            if loc is not None and shared_root(P, loc):
                bad = f'{T.show_loc(loc) if hasattr(T, "show_loc") else loc} is changed without synchronisation (line {e.line})'
            elif loc is not None and loc[0][0] == 'p' and not own(P, loc):
                ctx.undecide(rule, f'{name}: what is changed at line {e.line} is not understood')
            if e.kind in ('REG', 'ENT') and e.reg == (('o', 'r'),) and e.op not in c14.NEUTRAL + ('reserve',):
                bad = f'{e.op} is called on the registry, which other threads use (line {e.line})'
        if bad:
            fail(ctx, rule, f'{name}: {bad}', st, name)
        else:
            ctx.ob(rule)


def own(P, loc):
    v = variable_of(loc)
    if v is not None:
        return tls(P, v)
    a = T.single_atom(loc[0][1]) if is_lin(loc[0][1]) else None
    return a is not None and a[0] == 'init' and a[1][0] == ('o', 'buf')


def reserving(ctx, P):
    rule = 'reserving an entity writes atomics only'
    I = Interp(P, abstract=ABS, user_throw=False, hooks={'write': lambda I, st, loc, v, node: I.event(st, 'WRITE', node, loc=loc)})
    for st, v in go(ctx, I, P, 'drv_reserve', rule):
        bad = [e for e in S.flat(st.ev) if (e.kind == 'WRITE' and e.loc[0] == ('o', 'r')) or
               (e.kind in ('push', 'pop', 'erase', 'clear', 'resize') and e.cont[0] == ('o', 'r'))]
        held = any(e.kind == 'lock' for e in st.ev)
        at = {e.loc for e in S.flat(st.ev) if e.kind == 'atomic'}
        bad = [e for e in bad if e.kind != 'WRITE' or not any(e.loc[:len(a)] == a for a in at)]
        if bad and held:
            ctx.undecide(rule, 'reserving takes a lock')
        elif bad:
            fail(ctx, rule, f'line {bad[0].line} changes the registry', st)
        else:
            ctx.ob(rule)
