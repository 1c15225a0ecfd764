"""C21: a view visits every entity that has the requested components exactly once, with its own components."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import sub, add, const, scale, is_lin
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import ABS, Anchor
from sa.rowmodel import Storage, Hooks

ONE, ZERO = const(1), const(0)
LEVEL = 'proof'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Every way of going through a view is interpreted over an arbitrary registry. Nested loop summaries give an arbitrary archetype, an '
               'arbitrary chunk and an arbitrary row: archetypes are skipped exactly when a requested component is missing, all chunks from first to '
               'last are visited, the rows visited are 0 .. size-1 once each, and every argument of the callback is the component of its type in that '
               'row. parallel_for is interpreted over an arbitrary range and number of workers: batches tile the range (each begins where the '
               'one before ended, the last ends at the end), each is submitted once, and all tasks are joined before it returns.')
HPP = 'include/co_ecs/view.hpp'
PAR = 'include/co_ecs/thread_pool/parallel_for.hpp'
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall', 'icall')
ALL = ('drv_each', 'drv_each_const', 'drv_each_mutreg', 'drv_each_entity', 'drv_each3', 'drv_range', 'drv_crange', 'drv_chunks', 'drv_par', 'drv_cpar',
       'drv_reach', 'drv_rceach', 'drv_rvieweach')
ONEOF = {'drv_single': ('A', 'B'), 'drv_csingle': ('A', 'B'), 'drv_rsingle': ('A', 'B')}
WANT = {'drv_each_entity': ('C',), 'drv_rvieweach': ('C',), 'drv_each3': ('A', 'B', 'C')}


def run(ctx):
    ctx.assumptions = ['callbacks return normally and do not change the registry', 'no out-of-memory', 'at least one worker',
                       'the archetype container iterates over all archetypes it holds (C16/C30)', 'a task handed to the pool is run exactly once (C31)']
    P = ctx.program('view')
    try:
        M = Storage(P)
    except Anchor as e:
        ctx.undecide('anchors', str(e))
        return
    for name in ALL:
        views(ctx, P, M, name, None)
    for name, types in ONEOF.items():
        views(ctx, P, M, name, types)
    parallel(ctx, P)


class V:
    def __init__(self, ctx, P, M, I, name, types):
        self.ctx, self.P, self.M, self.I, self.name = ctx, P, M, I, name
        self.types = types or WANT.get(name, ('A', 'B'))
        self.W = M.W

    def bad(self, rule, msg, path, line=None):
        self.ctx.fail(rule, HPP, f'{self.name}: {msg}', S.path_of(path), key=f'{rule}|{self.name}|{msg}')

    def und(self, rule, msg):
        self.ctx.undecide(rule, f'{self.name}: {msg}')

    def ob(self, rule):
        self.ctx.ob(rule)


def views(ctx, P, M, name, single):
    rule = 'views'
    f = P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return
    H = Hooks(M)
    hooks = H.make()
    inner = hooks['call']

    def call(I, st, f, this, args, node):
        if f['bare'] == 'co_ecs::parallel_for' and len(args) == 2:
            # every element once, finished on return: see parallel()
            return I.models.MODELS['std::for_each'](I, st, f, None, args, node)
        return inner(I, st, f, this, args, node)
    hooks['call'] = call
    I = Interp(P, abstract=ABS, user_throw=False, hooks=hooks)
    I.keep_ends = True
    I.exact_maps = True
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    v = V(ctx, P, M, I, name, single)
    for n, (st, (how, val)) in enumerate(res):
        ctx.saw('paths', f'{name} path {n}')
        odd = [e for e in S.flat(st.ev) if e.kind in BAD]
        if odd:
            v.und(rule, f'line {odd[0].line}: {odd[0].kind} {odd[0].d.get("f")}')
            continue
        if how == 'throw':
            if S.tainted_path(st.path):
                v.und(rule, 'a path that throws')
            else:
                v.bad('archetypes are skipped exactly when a component is missing', 'going through the view fails', st)
            continue
        if single is None:
            archetypes(v, st.ev, st, st.facts, True)
        else:
            has = I.to_lin(val.ov.get((('s', 'has'),), ZERO)) if isinstance(val, Rec) else None
            if has is None or not T.is_const(has):
                v.und(rule, 'the result is not understood')
            elif has == ZERO:
                archetypes(v, st.ev, st, st.facts, False)
            else:
                one_row(v, st, val)


def arch_map(v):
    return (('o', 'r'), v.W.r_archs, v.W.as_map)


def members(v, path, K):
    """what a path says of the components of the archetype with key K: {type: bool}"""
    out = {}
    for w, p, b in path or ():
        if not (isinstance(p, tuple) and p and p[0] == 'cmp' and is_lin(p[-1])):
            continue
        a = T.single_atom(p[-1])
        if a is None or a[0] != 'in' or a[1] != K:
            continue
        t = T.single_atom(a[2]) if is_lin(a[2]) else None
        if t is not None and t[0] == 'typeid':
            out[t[1]] = b if p[1] == '!=' else not b
    return out


def key_of(seg, M):
    for e in seg:
        if e.kind == 'itermap':
            return e.key if e.map == M else None
    return None


def archetypes(v, evs, st, facts, visit):
    rule = 'archetypes are skipped exactly when a component is missing'
    M = arch_map(v)
    evs = S.strip_loop_copies(evs)
    loops = [e for e in evs if e.kind in ('loop', 'loopsum') and any(key_of(t[0], M) is not None for t in e.d.get('traces') or ())]
    calls = [e for e in S.flat(evs) if e.kind == 'usercall']
    if len(loops) != 1:
        if S.tainted_path(st.path) or len(loops) > 1 and not calls:
            v.und(rule, 'how archetypes are visited is not understood')
        elif any(e.kind == 'loop0' for e in evs) and not loops:
            v.ob(rule)
        else:
            v.bad(rule, 'the archetypes are visited several times' if loops else 'the archetypes are not visited', st)
        return
    ends = [e for e in st.ev if e.kind == 'endloop' and e.d.get('n') == loops[0].d.get('n')]
    if any(e.how != 'normal' for e in ends):
        if visit:
            v.bad(rule, 'the walk over the archetypes ends early', st)
        return
    outer = [e for e in evs if e.kind == 'usercall']
    if outer:
        v.bad(rule, 'the callback is called outside of the walk over the archetypes', st)
    for evs1, facts1, path1 in loops[0].traces:
        K = key_of(evs1, M)
        if K is None:
            v.und(rule, 'an iteration over the archetypes is not understood')
            continue
        A = None
        mem = members(v, path1, K)
        missing = [t for t in v.types if mem.get(t) is False]
        unknown = [t for t in v.types if t not in mem]
        body = S.strip_loop_copies(evs1)
        chunks = chunk_loops(v, body)
        called = any(e.kind == 'usercall' for e in S.flat(body))
        if not chunks and not called:
            if missing:
                v.ob(rule)
            elif S.tainted_path(path1):
                v.und(rule, 'why an archetype is skipped is not understood')
            else:
                v.bad(rule, 'an archetype that has all components is skipped', path1)
            continue
        if missing:
            if called or visit and chunks and not all_empty(chunks):
                v.bad(rule, f'an archetype without {missing[0]} is visited', path1)
            continue
        if unknown:
            v.bad(rule, f'an archetype is visited although it may lack {unknown[0]}', path1)
            continue
        v.ob(rule)
        chunk_level(v, body, chunks, K, facts1, path1, visit)


def all_empty(chunks):
    return all(e.kind == 'loop0' for e in chunks)


def chunk_loops(v, body):
    out = []
    for e in body:
        if e.kind == 'loop0' and e.d.get('cont') and e.cont[-1] == v.W.a_chunks:
            out.append(e)
        elif e.kind in ('loop', 'loopsum') and any(h is not None for h in (chunk_head(v, t[0]) for t in e.d.get('traces') or ())):
            out.append(e)
    return out


def chunk_head(v, seg):
    for e in seg:
        if e.kind == 'iterate':
            return e if e.cont and e.cont[-1] == v.W.a_chunks else None
        if e.kind == 'index' and e.cont and e.cont[-1] == v.W.a_chunks:
            return e
    return None


def chunk_level(v, body, chunks, K, facts, path, visit):
    rule = 'all chunks of an archetype are visited once'
    want = arch_map(v) + (('k', K), ('f', 'second'), ('f', 'p'))
    if len(chunks) != 1:
        (v.bad(rule, f'the chunks of an archetype are visited {len(chunks)} times', path) if chunks else v.und(rule, 'no walk over the chunks'))
        return
    e = chunks[0]
    if e.kind == 'loop0':
        v.ob(rule)
        return
    for evs2, facts2, path2 in e.traces:
        h = chunk_head(v, evs2)
        if h is None:
            v.und(rule, 'an iteration over the chunks is not understood')
            continue
        al = h.cont[:-1]
        a = T.single_atom(al[0][1]) if len(al) == 1 and al[0][0] == 'p' and is_lin(al[0][1]) else None
        l = a[1] if a is not None and a[0] == 'init' else None
        if l is None or not (l[:len(want) - 2] == want[:-2]):
            v.bad(rule, 'the chunks visited are not those of the archetype that was matched', path2)
            continue
        if h.kind == 'iterate':
            ok = S.covers(h.first, h.n, h.cont)
        else:
            step = sub(h.index, e.n) if is_lin(e.d.get('n')) else None
            ok = S.until_end(path2, h.index, h.cont) if step is not None and T.is_const(step) else None
            if ok is True and step[1] != 0:
                ok = False if step[1] > 0 else None
        if ok is None:
            v.und(rule, 'the range of chunks visited is not understood')
        elif ok is False:
            v.bad(rule, 'not all chunks of an archetype are visited', path2)
        else:
            v.ob(rule)
        row_level(v, S.strip_loop_copies(evs2), evs2, al, h.index, facts2, path2, visit, h)


def row_level(v, body, raw, al, ci, facts, path, visit, h):
    rule = 'every row of a chunk is visited once'
    size = T.atom(('init', al + (v.W.a_chunks, ('i', ci), v.W.c_size)), nonneg=True)
    loops = [e for e in body if e.kind in ('loop', 'loopsum') and any(x.kind == 'usercall' for t in e.d.get('traces') or () for x in S.flat(t[0]))]
    direct = [e for e in body if e.kind == 'usercall']
    if not loops and not direct:
        d = facts.eq(size)
        if d is True:
            v.ob(rule)
        elif S.tainted_path(path):
            v.und(rule, 'why a chunk is skipped is not understood')
        else:
            v.bad(rule, 'a chunk that may hold entities is skipped', path)
        return
    if not visit:
        v.bad(rule, 'the callback is called', path)
        return
    if direct or len(loops) > 1:
        v.bad(rule, 'rows are visited several times', path)
        return
    L = loops[0]
    ends = [e for e in raw if e.kind == 'endloop' and e.d.get('n') == L.d.get('n')]
    if L.kind != 'loop' or not ends:
        v.und(rule, 'the walk over the rows is not understood')
        return
    if any(e.how != 'normal' for e in ends):
        v.bad(rule, 'the walk over the rows ends early', path)
        return
    it = L.n
    rows = set()
    for evs3, facts3, path3 in L.traces:
        calls = [e for e in S.flat(evs3) if e.kind == 'usercall']
        if len(calls) != 1:
            v.bad(rule, 'a row is visited several times' if calls else 'a row is skipped', path3)
            continue
        row = arguments(v, calls[0], al, ci, facts3, path3)
        if row is not None:
            rows.add(row)
    if not rows:
        return
    if len(rows) > 1:
        v.und(rule, 'which rows are visited is not understood')
        return
    row = rows.pop()
    up = sub(row, it)
    down = add(row, it)
    if facts.eq(up) is True:
        start = True
    elif facts.eq(sub(down, sub(size, ONE))) is True:
        start = True
    else:
        start = False
    if not start:
        if T.tainted(row):
            v.und(rule, 'which rows are visited is not understood')
        else:
            v.bad(rule, f'the rows visited are {T.show(row)}, not all from the first on', path)
        return
    # the last iteration is the one the exit condition refers to
    d = facts.eq(sub(add(it, ONE), size))
    if d is True:
        v.ob(rule)
    else:
        v.bad(rule, 'the walk does not end at the last row', path)


def arguments(v, e, al, ci, facts, path):
    """the row all arguments belong to"""
    rule = 'a callback gets the components of one entity'
    f = v.P.funcs.get(e.d.get('callee'))
    if f is None or len(f['params']) != len(e.args):
        v.und(rule, 'callback not found')
        return None

    class Facts:
        pass
    x = Facts()
    x.facts, x.mem, x.notes = facts, {}, {}
    rows = set()
    for p, a in zip(f['params'], e.args):
        t = v.P.strip_ref(p['t'])
        want = v.M.typeid_of(t)
        r = place(v, x, a)
        if r is None:
            v.und(rule, 'an argument is not understood') if tainted_arg(a) else v.bad(rule, f'the argument for {want} is not a component in a chunk', path)
            return None
        A, c, key, row, off = r
        k = T.single_atom(key) if is_lin(key) else None
        if A != al or facts.eq(sub(c, ci)) is not True:
            v.bad(rule, f'the argument for {want} is in another chunk', path)
            return None
        if k is None or k[0] != 'typeid' or k[1] != want or (off is not None and off != al):
            v.bad(rule, f'the argument for {want} is a component of another type', path)
            return None
        if row is None:
            v.bad(rule, f'the argument for {want} is no row of its array', path)
            return None
        rows.add(facts.norm(row))
        v.ob(rule)
    if len(rows) != 1:
        v.bad(rule, 'the arguments belong to different rows', path)
        return None
    return rows.pop()


def place(v, x, a):
    lv = a if isinstance(a, LV) else a[1] if isinstance(a, tuple) and a and a[0] == 'ptr' else None
    if lv is None or len(lv.loc) != 1 or lv.loc[0][0] != 'p':
        return None
    return v.M.decode(x, lv.loc[0][1])


def tainted_arg(a):
    lv = a if isinstance(a, LV) else a[1] if isinstance(a, tuple) and a and a[0] == 'ptr' else None
    if lv is None:
        return True
    return any(is_lin(s[1]) and T.tainted(s[1]) for s in lv.loc if len(s) > 1) or lv.loc[0][0] not in ('p', 'o')


def one_row(v, st, val):
    rule = 'a callback gets the components of one entity'
    args = [x for k, x in val.ov.items() if k[-1][0] == 'f' and isinstance(x, tuple) and x and x[0] == 'ptr']
    if len(args) != len(v.types):
        v.und(rule, 'the result is not understood')
        return
    rows = set()
    for want, a in zip(v.types, args):
        r = place(v, st, a)
        if r is None:
            (v.und if tainted_arg(a) else lambda ru, m: v.bad(ru, m, st))(rule, f'the result for {want} is not a component in a chunk')
            return
        A, c, key, row, off = r
        k = T.single_atom(key) if is_lin(key) else None
        if k is None or k[0] != 'typeid' or k[1] != want:
            v.bad(rule, f'the result for {want} is a component of another type', st)
            return
        rows.add((A, st.facts.norm(c), None if row is None else st.facts.norm(row)))
        v.ob(rule)
    if len(rows) != 1:
        v.bad(rule, 'the results belong to different entities', st)
        return
    A, c, row = rows.pop()
    size = T.atom(('init', A + (v.W.a_chunks, ('i', c), v.W.c_size)), nonneg=True)
    if row is None or st.facts.le(add(sub(row, size), ONE)) is not True:
        v.bad(rule, 'the result is no row in use', st)
    else:
        v.ob(rule)


# ------------------------------------------------------------------------------ parallel_for
def parallel(ctx, P):
    rule = 'parallel_for'
    f = P.driver('drv_pf')
    if f is None:
        ctx.undecide(rule, 'drv_pf missing')
        return
    workers = T.atom(('init', (('o', 'pool'), ('s', 'workers'))), nonneg=True, pos=True)

    def probe(I, st, clo, node):
        pr = st.copy()
        n = len(pr.ev)
        save, I.sink = I.sink, []
        try:
            out = I.models.invoke(I, pr, clo, [], node, clo.t if isinstance(clo, (LV, Rec)) else None)
        except Analysis as e:
            return None
        finally:
            I.sink = save
        return [x[0].ev[n:] for x in out]

    def hook(I, st, f, this, args, node):
        b = f['bare']
        if b == 'co_ecs::thread_pool::get':
            return [(st, LV((('o', 'pool'),)))]
        if b == 'co_ecs::thread_pool::num_workers':
            return [(st, workers)]
        if b in S.SUBMIT and len(args) == 2:
            task = T.fresh('task', pos=True, nonneg=True)
            I.event(st, 'SUBMIT', node, sub=probe(I, st, args[0], node), parent=args[1], task=task, runs=None, odd=None)
            return [(st, task)]
        if b in S.WAIT and len(args) == 1:
            I.event(st, 'WAIT', node, task=args[0])
            return [(st, ('void',))]
        if b in ('std::vector::emplace_back', 'std::vector::push_back') and this is not None and this.loc[0][0] == 'v' and \
                S_is_view(I, f):
            C = I.canon(st, this.loc)
            span = span_of(I, st, args)
            I.event(st, 'BATCH', node, cont=C, index=I.models.size_of(I, st, C), span=span)
            I.models.set_size(I, st, C, add(I.models.size_of(I, st, C), ONE), node)
            st.mem[C] = ('base', ('init', (('o', ('built', C)),)))
            return [(st, LV(C + (('i', sub(I.models.size_of(I, st, C), ONE)),)))]
        return None
    I = Interp(P, abstract=ABS, user_throw=False, hooks={'call': hook})
    I.keep_ends = I.exact_maps = I.peel = True
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(rule, f'drv_pf: {e}')
        return
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    C = (('o', 'v'),)
    for n, (st, (how, val)) in enumerate(res):
        ctx.saw('paths', f'drv_pf path {n}')
        odd = [e for e in S.flat(st.ev) if e.kind in BAD]
        if odd:
            ctx.undecide(rule, f'line {odd[0].line}: {odd[0].kind} {odd[0].d.get("f")}')
            continue
        if how == 'throw':
            ctx.undecide(rule, 'a path that throws')
            continue
        if not any(e.kind == 'SUBMIT' for e in S.flat(st.ev)):
            directly(ctx, st, C)
        else:
            batched(ctx, P, I, st, C)


def S_is_view(I, f):
    """does the vector hold ranges?"""
    r = I.P.recs.get(f.get('rec'))
    t = I.models.elem_type(I, r) if r is not None else None
    e = I.P.rec_of(t) if t is not None else None
    return e is not None and e['bare'].startswith(('std::ranges::', 'std::span'))


def span_of(I, st, args):
    """(container, begin, end) of a subrange"""
    if len(args) == 2:
        from_to = args
    elif len(args) == 1 and isinstance(args[0], LV):
        w = st.mem.get(args[0].loc + (('s', 'view'),))
        if not (isinstance(w, tuple) and w and w[0] == 'span'):
            return None
        from_to = w[1:]
    elif len(args) == 1 and isinstance(args[0], Rec):
        w = args[0].ov.get((('s', 'view'),))
        if not (isinstance(w, tuple) and w and w[0] == 'span'):
            return None
        from_to = w[1:]
    else:
        return None
    out = []
    for x in from_to:
        lv = x if isinstance(x, LV) else x[1] if isinstance(x, tuple) and x and x[0] == 'ptr' else None
        if lv is None or not lv.loc or lv.loc[-1][0] != 'i':
            return None
        out.append(lv.loc)
    if len(out) != 2 or out[0][:-1] != out[1][:-1]:
        return None
    return out[0][:-1], out[0][-1][1], out[1][-1][1]


def fail(ctx, rule, msg, path):
    ctx.fail(rule, PAR, msg, S.path_of(path), key=f'{rule}|{msg}')


def directly(ctx, st, C):
    rule = 'parallel_for calls its function once for every element'
    ps, odd = S.passes(st.ev, C, st.path)
    if odd:
        ctx.undecide(rule, f'line {odd[0]}: how the range is visited is not understood')
        return
    if not ps:
        calls = any(e.kind == 'usercall' for e in S.flat(st.ev))
        if S.none_in(st.facts, C):
            ctx.ob(rule)
        elif S.tainted_path(st.path) or calls:
            ctx.undecide(rule, 'how the range is visited is not understood')
        else:
            fail(ctx, rule, 'the elements are not visited', st)
        return
    if len(ps) > 1:
        fail(ctx, rule, 'the elements are visited several times', st)
        return
    p = ps[0]
    if p.range_ok is None:
        ctx.undecide(rule, 'the range visited is not understood')
    elif p.range_ok is False:
        fail(ctx, rule, 'not all elements are visited', st)
    else:
        ctx.ob(rule)
    for idx, seg, ip, ifacts in p.items:
        once(ctx, rule, seg, C + (('i', idx),), ip or st.path)


def once(ctx, rule, seg, el, path):
    calls = [e for e in S.flat(S.strip_loop_copies(seg)) if e.kind == 'usercall']
    if len(calls) == 1 and len(calls[0].args) == 1 and isinstance(calls[0].args[0], LV) and calls[0].args[0].loc == el:
        ctx.ob(rule)
    elif S.tainted_path(path):
        ctx.undecide(rule, 'what an iteration calls is not understood')
    else:
        fail(ctx, rule, f'the function is called {len(calls)} times for an element' if len(calls) != 1 else 'the function is called for another element', path)


def batched(ctx, P, I, st, C):
    rule = 'parallel_for calls its function once for every element'
    evs = st.ev
    first = next((i for i, e in enumerate(evs) if e.kind == 'SUBMIT' or e.kind in ('loop', 'loopsum') and
                  any(x.kind == 'SUBMIT' for x in S.flat([e]))), None)
    batches = [e for e in S.flat(evs) if e.kind == 'BATCH']
    conts = {e.cont for e in batches}
    if len(conts) != 1 or any(e.span is None or e.span[0] != C for e in batches):
        ctx.undecide(rule, 'how the range is cut into batches is not understood')
        return
    B = conts.pop()
    if any(e.kind == 'usercall' for e in S.flat(evs)):
        fail(ctx, rule, 'elements are visited outside of the batches', st)
    tiles(ctx, I, st, C, B)
    if any(e.kind == 'BATCH' for e in evs[first:]):
        ctx.undecide('batches stay in place while tasks use them', 'batches are added while tasks run')
    else:
        ctx.ob('batches stay in place while tasks use them')
    # what a task does
    for e in S.flat(evs):
        if e.kind != 'SUBMIT':
            continue
        el = None
        if e.sub is not None and len(e.sub) == 1:
            loops = [x for x in e.sub[0] if x.kind not in ('deref', 'index')]
            if len(loops) == 1 and loops[0].kind in ('stdcall', 'FOREACH') and 'for_each' in str(loops[0].f) and len(loops[0].args) >= 2:
                el = batch_of(loops[0].args[0], B)
                if el is not None and not calls_user(I, st, loops[0].args[1]):
                    el = None
        if el is None:
            e.d['odd'] = 'task'
        else:
            e.d['runs'] = [(('p', T.atom(('init', el + (('f', 'p'),)))),)]
    subs = [e for e in S.flat(evs) if e.kind == 'SUBMIT']
    if any(e.runs is None for e in subs):
        ctx.undecide(rule, 'what a task does is not understood')
    else:
        ps, odd = S.passes(evs[first_pass(evs):], B, st.path)
        if len(ps) == 1 and ps[0].range_ok is None:
            h = S.head(ps[0].items[0][1], B)
            if h is not None and h[0].kind == 'iterate' and T.is_const(h[0].first):
                d = st.facts.eq(sub(h[0].n, I.models.size_of(I, st, B)))
                if d is True and h[0].first == ZERO:
                    ps[0].range_ok = True
                elif h[0].first != ZERO or d is False:
                    ps[0].range_ok = False
        if odd or len(ps) != 1 or ps[0].range_ok is None:
            if len(ps) > 1 and not odd:
                fail(ctx, rule, 'batches are submitted several times', st)
            else:
                ctx.undecide(rule, 'how batches are submitted is not understood')
        elif ps[0].range_ok is False:
            fail(ctx, rule, 'not all batches are submitted', st)
        else:
            ctx.ob(rule)
            for idx, seg, ip, ifacts in ps[0].items:
                mine = [a for a in S.actions(seg)]
                if len(mine) == 1 and mine[0][0] == B + (('i', idx),):
                    ctx.ob(rule)
                elif S.tainted_path(ip or st.path):
                    ctx.undecide(rule, 'what is submitted for a batch is not understood')
                else:
                    fail(ctx, rule, 'a batch is submitted several times' if len(mine) > 1 else 'a batch is not submitted', ip or st)
    # joined
    rj = 'parallel_for returns after all tasks'
    told = []
    r = S.Runner(lambda kind, line, msg: told.append((kind, line, msg)))
    for e in subs:
        if e.runs is None:
            e.d['runs'] = [(('p', T.atom(('init', B + (('i', ZERO), ('f', 'p'))))),)]
        e.d['odd'] = None
    out = r.walk(evs, [])
    if out:
        fail(ctx, rj, 'tasks may still be running when parallel_for returns', st)
    else:
        ctx.ob(rj)


def first_pass(evs):
    """start of the phase that submits"""
    last = 0
    depth = 0
    for i, e in enumerate(evs):
        if e.kind == 'first':
            if depth == 0:
                start = i
            depth += 1
        elif e.kind == 'endfirst':
            depth -= 1
        if e.kind == 'SUBMIT':
            return start if depth else i
    return last


def batch_of(a, B):
    if isinstance(a, LV):
        if a.loc[:len(B)] == B and len(a.loc) == len(B) + 1:
            return a.loc
        if len(a.loc) == 1 and a.loc[0][0] == 'p':
            x = T.single_atom(a.loc[0][1])
            if x is not None and x[0] == 'init' and x[1][0] == ('o', ('built', B)) and len(x[1]) == 2:
                return B + (x[1][1],)
    return None


def calls_user(I, st, fn):
    pr = st.copy()
    n = len(pr.ev)
    save, I.sink = I.sink, []
    arg = LV((('o', 'probe'),))
    try:
        out = I.models.invoke(I, pr, fn, [arg], {'l': 0, 'k': 'call'}, fn.t if isinstance(fn, (LV, Rec)) else None)
    except Analysis:
        return False
    finally:
        I.sink = save
    if len(out) != 1:
        return False
    ev = [e for e in out[0][0].ev[n:] if e.kind not in ('deref', 'index')]
    return len(ev) == 1 and ev[0].kind == 'usercall' and len(ev[0].args) == 1 and isinstance(ev[0].args[0], LV) and ev[0].args[0].loc == arg.loc


def tiles(ctx, I, st, C, B):
    """batches cover the range without gap or overlap"""
    rule = 'batches tile the range'
    size = T.atom(('init', C + (('s', 'size'),)), nonneg=True)
    evs = st.ev
    F = st.facts
    idx = [i for i, e in enumerate(evs) if e.kind == 'BATCH']
    loops = [(i, e) for i, e in enumerate(evs) if e.kind in ('loop', 'loopsum') and any(x.kind == 'BATCH' for x in S.flat([e]))]
    if len(loops) > 1 or not idx and not loops:
        ctx.undecide(rule, 'how batches are made is not understood')
        return
    before = [i for i in idx if not loops or i < loops[0][0]]
    after = [i for i in idx if loops and i > loops[0][0]]
    cut = [evs[i].span for i in before]
    if not cut:
        ctx.undecide(rule, 'how batches are made is not understood')
        return
    chk(ctx, rule, F.eq(cut[0][1]), 'the first batch does not begin at the first element', cut[0][1], st)
    for a, b in zip(cut, cut[1:]):
        chk(ctx, rule, F.eq(sub(a[2], b[1])), 'a batch does not begin where the one before ends', sub(a[2], b[1]), st)
    last = cut[-1]
    if loops:
        L = loops[0][1]
        if L.kind != 'loop' or L.d.get('ends') is None or any(e.kind == 'endloop' and e.d.get('n') == L.d.get('n') and e.how != 'normal' for e in evs):
            ctx.undecide(rule, 'how batches are made is not understood')
            return
        spans = []
        for (tev, tf, tp), end in zip(L.traces, L.ends):
            mine = [x for x in tev if x.kind == 'BATCH']
            if len(mine) != 1:
                (fail(ctx, rule, f'an iteration makes {len(mine)} batches', tp) if not S.tainted_path(tp) else ctx.undecide(rule, 'batches of an iteration'))
                return
            spans.append((mine[0].span, tf, tp, end))
        for (c, b, e), tf, tp, end in spans:
            # the position carried over: begins where it was left, and is left at the end of the batch
            carried = [l for l, x in L.start.mem.items() if pos_of(x, C) is not None and tf.eq(sub(pos_of(x, C), b)) is True]
            good = False
            for l in carried:
                x0, x1 = pos_of(L.entry.mem.get(l), C), pos_of(end.mem.get(l), C)
                if x0 is not None and x1 is not None and F.eq(sub(x0, last[2])) is True and end.facts.eq(sub(x1, e)) is True:
                    good = True
            if not good and not carried and is_lin(L.n):
                i = T.single_id(L.n)
                nxt = subst(b, i, add(L.n, ONE))
                good = nxt is not None and tf.eq(sub(nxt, e)) is True and F.eq(sub(subst(b, i, ZERO), last[2])) is True
            chk(ctx, rule, good, 'a batch does not begin where the one before ends', ZERO if carried else b, tp)
            within(ctx, rule, tf, size, b, e, tp)
        if not after:
            ctx.undecide(rule, 'the last batch is not known')
            return
        last = evs[after[-1]].span
    chk(ctx, rule, F.eq(sub(last[2], size)), 'the last batch does not end at the last element', sub(last[2], size), st)


def within(ctx, rule, F, size, b, e, path):
    if F.eq(sub(e, size)) is True or F.le(sub(e, size)) is True:
        ctx.ob(rule)
        return
    # equal shares of the range
    n = sub(e, b)
    workers = T.atom(('init', (('o', 'pool'), ('s', 'workers'))), nonneg=True, pos=True)
    share = T.div(size, workers) if hasattr(T, 'div') else None
    a = T.single_atom(n)
    if a is not None and a[0] == 'div' and a[1] == size and a[2] == workers:
        ctx.ob(rule)
    elif any(T.tainted(x) for x in (n,)):
        ctx.undecide(rule, 'the size of a batch is not understood')
    else:
        fail(ctx, rule, f'batches of {T.show(n)} elements may end behind the last element', path)


def pos_of(x, C):
    lv = x if isinstance(x, LV) else x[1] if isinstance(x, tuple) and len(x) > 1 and x[0] in ('ptr', 'it') else None
    if isinstance(lv, LV) and lv.loc[:-1] == C and lv.loc[-1][0] == 'i':
        return lv.loc[-1][1]
    return None


def subst(x, i, y):
    if not is_lin(x):
        return None
    out = const(x[1])
    for a, c in x[2]:
        out = add(out, scale(y, c) if a == i else T.mk(0, {a: c}))
    return out


def chk(ctx, rule, d, msg, term, path):
    if d is True:
        ctx.ob(rule)
    elif is_lin(term) and T.tainted(term) and d is None:
        ctx.undecide(rule, msg)
    else:
        fail(ctx, rule, msg, path)
