"""C14: recorded commands are applied exactly once, in order, with the effect of the direct operation."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import const, sub, is_lin
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import ABS

LEVEL = 'proof'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Recording followed by applying is interpreted for every kind of command, the registry operations being events. What is recorded is put '
               'at one end of the list of the thread; applying goes through all buffers, and an arbitrary iteration takes the command at the other end '
               'off the list and executes that one once, until the list is empty. The command recorded is then executed on its own: its operations on '
               'the registries must be those of the direct operation, on the entity named, with the values given, each staged value being handed over or '
               'destroyed exactly once.')
HPP = 'include/co_ecs/command.hpp'
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall', 'icall')
NEUTRAL = ('get_entity', 'alive', 'has', 'get', 'visit', 'get_id', 'operator==', 'operator bool')
KINDS = {'drv_fcreate': ('create', ('A', 'N')), 'drv_fcreate0': ('create', ()), 'drv_fdestroy': ('destroy', ()), 'drv_fedestroy': ('destroy', ()),
         'drv_fset': ('set', ('N',)), 'drv_fseta': ('set', ('A',)), 'drv_fremove': ('remove', ('A',)), 'drv_fremoven': ('remove', ('N',)),
         'drv_fclone': ('clone', ())}
RETURNS = {'drv_create': 'reserve', 'drv_create0': 'reserve', 'drv_clone': 'reserve', 'drv_getent': 'e'}


def run(ctx):
    ctx.assumptions = ['no thread records while commands are applied (documented)', 'operations on the registry succeed and behave as C01 to C07 say',
                       'commands are applied to the registry they were recorded for']
    P = ctx.program('command')
    lp = list_path(ctx, P)
    commands(ctx, P, lp)
    for name, (kind, types) in KINDS.items():
        one(ctx, P, name, kind, types, lp)
    for name, want in RETURNS.items():
        returned(ctx, P, name, want)


def runs(ctx, P, name, rule):
    f = P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return None, []
    I = interp(P)
    try:
        res = I.run(f)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return I, []
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    out = []
    for n, (st, (how, val)) in enumerate(res):
        ctx.saw('paths', f'{name} path {n}')
        odd = [e for e in everything(st.ev) if e.kind in BAD]
        if odd:
            ctx.undecide(rule, f'{name}: line {odd[0].line}: {odd[0].kind} {odd[0].d.get("f")}')
        elif how == 'throw':
            ctx.undecide(rule, f'{name}: a path that throws')
        else:
            out.append((st, val))
    return I, out


def everything(evs):
    for e in S.flat(evs):
        yield e
        for s in e.d.get('sub') or ():
            yield from everything(s)


def fail(ctx, rule, msg, st=None, key=None):
    ctx.fail(rule, HPP, msg, S.path_of(st) if st is not None else None, key=f'{rule}|{msg}|{key}')


# ---------------------------------------------------------------- the list of commands
def list_path(ctx, P):
    """(path from a buffer to its list of commands, end at which is recorded)"""
    I, res = runs(ctx, P, 'drv_destroy', 'a command is recorded once')
    found = set()
    for st, v in res:
        for e in S.flat(st.ev):
            if e.kind == 'RECORD' and e.cont[0] == ('o', 'buf'):
                found.add((e.cont[1:], 'front' if 'front' in e.how else 'back' if 'back' in e.how else '?'))
    return found.pop() if len(found) == 1 else None


def commands(ctx, P, lp):
    rule = 'all recorded commands are applied once, in their order'
    if lp is None or lp[1] == '?':
        ctx.undecide(rule, 'where commands are recorded is not understood')
        return
    path, end = lp
    I, res = runs(ctx, P, 'drv_flush', rule)
    for st, v in res:
        evs = S.strip_loop_copies(st.ev)
        syncs = [n for n, e in enumerate(evs) if e.kind == 'REG' and e.op == 'sync' and e.reg == (('o', 'r'),)]
        walks = [(n, e) for n, e in enumerate(evs) if e.kind in ('loop', 'loopsum') and any(buffer_of(t[0]) for t in e.traces)]
        none = [e for e in evs if e.kind == 'loop0' and e.d.get('cont')] or empty_list(P, I, st)
        rs = 'reserved entities exist before commands are applied'
        if not walks:
            if none:
                ctx.ob(rule)
            elif S.tainted_path(st.path):
                ctx.undecide(rule, 'how buffers are visited is not understood')
            else:
                fail(ctx, rule, 'the buffers are not visited', st)
            continue
        if len(walks) != 1:
            ctx.undecide(rule, 'buffers are visited several times')
            continue
        n, w = walks[0]
        if syncs and syncs[0] < n:
            ctx.ob(rs)
        elif any(e.kind == 'REG' and e.op == 'sync' and e.reg == (('o', 'r'),) for t in w.traces for e in before_visit(t[0])):
            ctx.ob(rs)
        else:
            fail(ctx, rs, 'commands are applied before the entities reserved for them are made known', st)
        if any(e.kind == 'VISIT' for m, e in enumerate(evs) if m != n):
            fail(ctx, rule, 'a command is applied outside of the walk over the buffers', st)
        if [e for e in st.ev if e.kind == 'endloop' and e.d.get('n') == w.d.get('n') and e.how != 'normal']:
            fail(ctx, rule, 'the walk over the buffers ends early', st)
        ends = w.d.get('ends') or []
        if len(ends) != len(w.traces):
            ctx.undecide(rule, 'the walk over the buffers is not understood')
            continue
        for (seg, facts, p1), fin in zip(w.traces, ends):
            buffer(ctx, I, rule, w.n, w.d.get('start'), seg, facts, p1, fin, path, end)


def empty_list(P, I, st):
    """is a list of buffers known to be empty?"""
    for i, g in P.globals.items():
        loc = (('g', i, g['n']),)
        rec = P.rec_of(g['t']) if g.get('t') is not None else None
        if rec is not None and rec['bare'] in LIST and g.get('scope') and st.facts.eq(I.models.size_of(I, st, loc)) is True:
            return True
    return False


def before_visit(seg):
    for e in seg:
        if e.kind in ('loop', 'loopsum', 'VISIT'):
            return
        yield e


def buffer_of(seg):
    for e in seg:
        if e.kind in ('iterate', 'index') and e.cont[0][0] == 'g':
            return e
    return None


def buffer(ctx, I, rule, it, start, seg, facts, p1, fin, path, end):
    h = buffer_of(seg)
    if h is None:
        ctx.undecide(rule, 'an iteration over the buffers is not understood')
        return
    if h.kind == 'iterate':
        c = S.covers(h.first, h.n, h.cont)
    else:
        c = S.until_end(p1, h.index, h.cont)
        d = sub(h.index, it)
        if c is True and not (T.is_const(d) and d[1] == 0):
            c = None if not T.is_const(d) or d[1] < 0 else False
    if c is None:
        ctx.undecide(rule, 'which buffers are visited is not understood')
        return
    if c is False:
        fail(ctx, rule, 'not all buffers are visited', p1)
        return
    B = (('p', T.atom(('init', h.cont + (('i', h.index), ('f', 'p'))))),)
    C = B + path
    size = I.models.size_of(I, fin, C)
    body = S.strip_loop_copies(seg)
    plays = [e for e in body if e.kind in ('loop', 'loopsum') and any(x.kind == 'VISIT' for t in e.traces for x in S.flat(t[0]))]
    direct = [e for e in body if e.kind == 'VISIT']
    left = facts.eq(size)
    if left is not True:
        if T.tainted(size) and any(T.info(a)[0] in ('unk', 'hv') and not str(T.info(a)) for a, k in size[2]):
            ctx.undecide(rule, 'what is left in a buffer is not understood')
        else:
            fail(ctx, rule, 'commands may be left in a buffer', p1)
        return
    if direct or len(plays) > 1:
        ctx.undecide(rule, 'how the commands of a buffer are visited is not understood')
        return
    if not plays:
        z = I.models.size_of(I, start.copy(), C)
        if facts.eq(z) is True:
            ctx.ob(rule)
        elif S.tainted_path(p1):
            ctx.undecide(rule, 'why a buffer is skipped is not understood')
        else:
            fail(ctx, rule, 'the commands of a buffer are dropped', p1)
        return
    L = plays[0]
    for seg2, facts2, p2 in L.traces:
        visits = [e for e in S.flat(seg2) if e.kind == 'VISIT']
        takes = [e for e in S.flat(seg2) if e.kind in ('pop', 'pop_front', 'erase', 'clear') and e.d.get('cont') == C]
        if len(visits) != 1:
            fail(ctx, rule, 'a command is applied twice' if visits else 'a command is not applied', p2)
            continue
        val = visits[0].val
        if not (isinstance(val, tuple) and val[0] == 'init' and val[1][:-1] == C and val[1][-1][0] == 'i'):
            if isinstance(val, tuple) and val[0] == 'init':
                fail(ctx, rule, 'what is applied is no command of this buffer', p2)
            else:
                ctx.undecide(rule, 'which command is applied is not understood')
            continue
        if len(takes) != 1 or takes[0].kind not in ('pop', 'pop_front'):
            if len(takes) > 1 and all(t.kind in ('pop', 'pop_front') for t in takes):
                fail(ctx, rule, 'a command is dropped', p2)
            else:
                ctx.undecide(rule, 'how commands leave the list is not understood')
            continue
        t = takes[0]
        if facts2.eq(sub(t.index, val[1][-1][1])) is not True:
            fail(ctx, rule, 'the command applied is not the one taken off the list', p2)
        elif (t.kind == 'pop_front') != (end == 'back'):
            fail(ctx, rule, 'commands are applied in another order than they were recorded', p2)
        else:
            ctx.ob(rule)


# ---------------------------------------------------------------- one command
def returned(ctx, P, name, want):
    rule = 'a command refers to the entity it is about'
    I, res = runs(ctx, P, name, rule)
    for st, v in res:
        e = I.model.entity(I, st, v)
        if e is None:
            ctx.undecide(rule, f'{name}: the entity returned is not understood')
        elif want == 'reserve' and e[0] not in [('o', f'reserve#{x.n}') for x in S.flat(st.ev) if x.kind == 'REG' and x.op == 'reserve'] or \
                want == 'e' and e[0] != ('o', 'e'):
            fail(ctx, rule, f'{name}: the entity returned is not the one the command is about', st)
        else:
            ctx.ob(rule)


def one(ctx, P, name, kind, types, lp):
    rule = f'{kind}: applied with the effect of the direct operation'
    I, res = runs(ctx, P, name, rule)
    execs = 0
    for st, v in res:
        evs = list(S.flat(st.ev))
        recs = [e for e in evs if e.kind == 'RECORD']
        head = []
        for e in st.ev:
            if e.kind == 'REG' and e.op == 'sync' or e.kind in ('lock', 'loop', 'loopsum', 'loop0'):
                break
            head.append(e)
        rr = 'an operation is recorded as one command, and touches nothing else'
        if len(recs) != 1:
            fail(ctx, rr, f'{kind} is recorded {len(recs)} times', st)
            continue
        if recs[0].cont[0] != ('o', 'buf'):
            fail(ctx, rr, f'{kind} is not recorded in the buffer of its thread', st)
            continue
        end = 'front' if 'front' in recs[0].how else 'back' if 'back' in recs[0].how else '?'
        if lp is None or end == '?':
            ctx.undecide(rr, f'where {kind} is recorded is not understood')
        elif (recs[0].cont[1:], end) != lp:
            fail(ctx, rr, f'{kind} is not recorded behind what was recorded before', st)
            continue
        b = Book(ctx, I, name, kind, types, st)
        if not b.recording(head, rr):
            continue
        for e in evs:
            if e.kind == 'EXEC':
                if e.d.get('sub') is None:
                    ctx.undecide(rule, f'{name}: applying is not understood')
                    continue
                for s in e.sub:
                    execs += 1
                    b.applying(s, rule)
    if res and not execs:
        ctx.undecide(rule, f'{name}: applying is not understood')


class Book:
    """what was recorded, and what applying it must do"""
    def __init__(self, ctx, I, name, kind, types, st):
        self.ctx, self.I, self.name, self.kind, self.types, self.st = ctx, I, name, kind, types, st
        self.reserved = self.staged = None

    def ok(self, rule):
        self.ctx.ob(rule)

    def bad(self, rule, msg):
        fail(self.ctx, rule, f'{self.kind}: {msg}', self.st, self.name)
        return False

    def und(self, rule, msg):
        self.ctx.undecide(rule, f'{self.name}: {msg}')
        return False

    def recording(self, head, rule):
        ops = [e for e in head if e.kind in ('REG', 'ENT') and e.op not in NEUTRAL]
        on = [e for e in ops if e.reg == (('o', 'r'),)]
        stg = [e for e in ops if e.reg[0] == ('o', 'buf')]
        if len(on) + len(stg) != len(ops):
            return self.und(rule, 'an operation on another registry')
        if self.kind in ('create', 'clone'):
            if len(on) != 1 or on[0].op != 'reserve':
                if any(e.op != 'reserve' for e in on):
                    return self.bad(rule, f'the registry is changed while recording ({[e.op for e in on if e.op != "reserve"][0]})')
                return self.bad(rule, f'{len(on)} entities are reserved')
            self.reserved = ('o', f'reserve#{on[0].n}')
        elif on:
            return self.bad(rule, f'the registry is changed while recording ({on[0].op})')
        if self.kind in ('create', 'set'):
            if len(stg) != 1 or stg[0].op != 'create' or stg[0].kind != 'REG':
                return self.und(rule, 'how values are staged is not understood')
            self.staged = (('o', f'made#{stg[0].n}'),)
            self.where = stg[0].reg[1:]
            if tuple(sorted(stg[0].types)) != tuple(sorted(self.types)):
                return self.bad(rule, f'{" ".join(stg[0].types)} is staged')
            if not self.given(stg[0], head, rule):
                return False
        elif stg:
            return self.und(rule, 'values are staged')
        self.ok(rule)
        return True

    def given(self, e, head, rule):
        """are the values staged those the caller gave?"""
        for t, a, v in zip(e.types, e.args, e.vals):
            o = origin(a, head, v)
            if self.kind == 'create':
                want = {'A': 'a', 'N': 'n'}[t]
                if o == (('o', want),):
                    continue
                if o is None:
                    return self.und(rule, f'the value staged for {t} is not understood')
                return self.bad(rule, f'the value staged for {t} is not the one given')
            if t == 'N':
                made = [x for x in head if x.kind == 'uctor' and x.loc == o]
                if made and len(made[-1].args) == 1 and is_lin(made[-1].args[0]) and T.show(made[-1].args[0]) == 'i':
                    continue
                return self.und(rule, 'the value staged is not understood')
            if isinstance(v, Rec) and [T.show(x) for x in v.ov.values() if is_lin(x)] == ['i']:
                continue
            return self.und(rule, 'the value staged is not understood')
        return True

    def applying(self, evs, rule):
        ops = [(n, e) for n, e in enumerate(S.flat(evs)) if e.kind in ('REG', 'ENT') and e.op not in NEUTRAL]
        flat = list(S.flat(evs))
        dest = [(n, e) for n, e in ops if e.reg == (('o', 'r'),)]
        stg = [(n, e) for n, e in ops if e.reg != (('o', 'r'),)]
        for n, e in stg:
            if self.staged is None or e.reg[0][0] not in ('p', 'o') or e.reg[1:] != self.where:
                return self.bad(rule, 'a registry other than the one given is changed')
        if self.kind == 'create':
            if dest:
                return self.bad(rule, f'the registry is changed by {dest[0][1].op}')
            mv = [e for n, e in stg if e.kind == 'ENT' and e.op == 'move']
            if len(mv) != 1 or len(stg) != 1:
                if not mv and any(e.op == 'copy' for n, e in stg):
                    return self.bad(rule, 'the staged values are copied instead of handed over') if not any(e.op == 'destroy' for n, e in stg) \
                        else self.und(rule, 'staged values are copied')
                return self.bad(rule, 'the staged values are not handed over once')
            e = mv[0]
            if not starts(e.ent, self.staged):
                return self.bad(rule, 'another entity than the staged one is handed over')
            if len(e.args) != 2 or not (isinstance(e.args[0], LV) and e.args[0].loc == (('o', 'r'),)):
                return self.bad(rule, 'the values do not go to the reserved entity of the registry given')
            if not e.ents[1] or e.ents[1][0] != self.reserved:
                return self.bad(rule, 'the values go to another entity than the reserved one')
            self.ok(rule)
            return True
        if self.kind != 'set' and stg:
            return self.bad(rule, 'the staging registry is changed')
        if len(dest) != 1:
            return self.bad(rule, f'the registry is changed {len(dest)} times')
        n, e = dest[0]
        ent = e.ent if e.kind == 'ENT' else (e.ents[0] if e.ents else None)
        if e.op != self.kind:
            return self.bad(rule, f'{e.op} is applied')
        if ent is None:
            return self.und(rule, 'the entity is not understood')
        if ent[0] != ('o', 'e'):
            return self.bad(rule, f'{e.op} is applied to another entity')
        if self.kind == 'clone':
            if len(e.ents) != 1 or not e.ents[0] or e.ents[0][0] != self.reserved:
                return self.bad(rule, 'the clone is not the reserved entity')
        if self.kind in ('set', 'remove') and (not e.types or e.types[0] != self.types[0]):
            return self.bad(rule, f'the component is {e.types[0] if e.types else "unknown"}')
        if self.kind == 'set':
            gone = [m for m, x in stg if x.op == 'destroy']
            who = [x.ent if x.kind == 'ENT' else (x.ents[0] if x.ents else None) for m, x in stg]
            if len(stg) != len(gone) or len(gone) != 1:
                return self.bad(rule, f'the staged value is destroyed {len(gone)} times')
            if who[0] is None or not starts(who[0], self.staged):
                return self.bad(rule, 'another entity than the staged one is destroyed')
            if len(e.args) != 1:
                return self.und(rule, 'the value set is not understood')
            o, last = origin_at(e.args[0], flat, e.vals[0], n)
            if o is None:
                return self.und(rule, 'the value set is not understood')
            oo = o[0][1] if o[0][0] == 'o' and isinstance(o[0][1], tuple) else None
            if oo is None or oo[0] != 'comp' or not starts(oo[2], self.staged) or oo[3] != self.types[0]:
                return self.bad(rule, 'the value set is not the staged one')
            if last > gone[0]:
                return self.bad(rule, 'the staged value is used after it was destroyed')
        self.ok(rule)
        return True


def starts(loc, what):
    return bool(loc) and loc[:len(what)] == what


def origin(a, evs, v=None):
    return origin_at(a, evs, v, len(evs))[0]


def origin_at(a, evs, v, upto):
    """(the object a value comes from through copies and moves, when it was last read there)"""
    loc = a.loc if isinstance(a, LV) else None
    at = upto
    if loc is None:
        return None, at
    for _ in range(8):
        src = [(n, e) for n, e in enumerate(evs[:at]) if e.kind == 'uctor' and e.loc == loc and e.how in ('movector', 'copyctor')]
        if src and isinstance(src[-1][1].args[0], LV):
            at, loc = src[-1][0], src[-1][1].args[0].loc
            continue
        if loc[0][0] in ('v', 't') and isinstance(v, Rec) and v.base and v.base[0] == 'init' and not v.ov and v.base[1] != loc:
            # plain data: what was copied in
            cp = [n for n, e in enumerate(evs[:at]) if e.kind == 'ENT' and e.op == 'get']
            return v.base[1], (cp[-1] if cp else at)
        return loc, at
    return None, at


REG = ('co_ecs::registry', 'co_ecs::base_registry')
REF = ('co_ecs::entity_ref', 'co_ecs::const_entity_ref')
LIST = ('std::deque', 'std::vector', 'std::list')


class Model:
    """The registry as seen from a command: its operations are events."""
    def __init__(self, P):
        self.P, self.n = P, 0

    def interp(self):
        I = Interp(self.P, abstract=ABS, user_throw=False, hooks={'call': self.call})
        I.keep_ends = I.exact_maps = True
        I.model = self
        return I

    def entity(self, I, st, v):
        """what identifies an entity value"""
        for _ in range(8):
            if isinstance(v, tuple) and v and v[0] == 'ptr':
                v = v[1]
            if isinstance(v, LV):
                rec = self.P.rec_of(v.t) if v.t is not None else None
                if v.loc[0][0] == 'o' and isinstance(v.loc[0][1], tuple) and v.loc[0][1][0] == 'eref' and len(v.loc) == 1:
                    return v.loc[0][1][2]
                v = I.read_rec(st, v.loc, v.t)
            elif isinstance(v, Rec):
                if v.base and v.base[0] == 'init' and not v.ov:
                    loc = v.base[1]
                    if len(loc) == 1 and loc[0][0] == 'o' and isinstance(loc[0][1], tuple) and loc[0][1][0] == 'eref':
                        return loc[0][1][2]
                    return loc
                xs = [x for x in v.ov.values()]
                locs = set()
                for k, x in v.ov.items():
                    a = T.single_atom(x) if is_lin(x) else None
                    if a is None or a[0] != 'init' or a[1][-len(k):] != k:
                        return None
                    locs.add(a[1][:-len(k)])
                return locs.pop() if len(locs) == 1 else None
            else:
                return None
        return None

    def values(self, I, st, args):
        return tuple(I.read_rec(st, a.loc, a.t) if isinstance(a, LV) and a.t is not None and self.P.rec_of(a.t) is not None else a for a in args)

    def ref(self, I, st, reg, ent, t):
        return LV((('o', ('eref', reg, ent)),), (), t)

    def call(self, I, st, f, this, args, node):
        P = self.P
        b = f['bare']
        if b == 'co_ecs::command_buffer::get':
            return [(st, LV((('o', 'buf'),), (), P.strip_ref(f['ret'])))]
        if b == 'std::visit' and len(args) == 2:
            return self.visit(I, st, f, args, node)
        rec = P.recs.get(f.get('rec'))
        if rec is None or this is None or f.get('kind') in ('ctor', 'dtor'):
            return None
        if rec['bare'] in REG:
            return self.registry(I, st, f, this, args, node)
        if rec['bare'] in REF:
            return self.reference(I, st, f, this, args, node)
        if rec['bare'] in LIST and f['name'] in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'emplace', 'insert'):
            return self.pushed(I, st, f, rec, this, args, node)
        return None

    def types(self, f):
        out = []
        for x in f.get('targs') or ():
            if x.get('pack') is not None:
                out += [P_ty(self.P, y) for y in x['pack']]
            elif x.get('t') is not None:
                out.append(self.P.ty(x['t'])['s'])
        return tuple(out)

    def registry(self, I, st, f, this, args, node):
        self.n += 1
        reg = I.canon(st, this.loc)
        n = f['name']
        ents = tuple(self.entity(I, st, a) for a in args)
        I.event(st, 'REG', node, op=n, reg=reg, types=self.types(f), args=tuple(args), ents=ents, n=self.n, vals=self.values(I, st, args))
        ret = self.P.ty(f['ret'])
        rr = self.P.rec_of(self.P.strip_ref(f['ret']))
        if n == 'create':
            return [(st, self.ref(I, st, reg, (('o', f'made#{self.n}'),), f['ret']))]
        if n == 'get_entity' and args:
            return [(st, self.ref(I, st, reg, ents[0], f['ret']))]
        if rr is not None:
            return [(st, Rec(('init', (('o', f'{n}#{self.n}'),)), t=self.P.strip_ref(f['ret'])))]
        return [(st, ('void',))]

    def reference(self, I, st, f, this, args, node):
        self.n += 1
        P = self.P
        n = f['name']
        loc = I.canon(st, this.loc)
        if len(loc) == 1 and isinstance(loc[0][1], tuple) and loc[0][1][0] == 'eref':
            o = loc[0][1]
        else:
            v = I.read_rec(st, loc, this.t)
            o = None
            if v.base and v.base[0] == 'init' and len(v.base[1]) == 1 and isinstance(v.base[1][0][1], tuple):
                o = v.base[1][0][1]
        if o is None or o[0] != 'eref':
            I.event(st, 'unknown', node, f=f['q'])
            return None
        _, reg, ent = o
        rr = P.rec_of(P.strip_ref(f['ret']))
        if f.get('kind') == 'conv' or n.startswith('operator'):
            if rr is not None:
                return [(st, Rec(('init', ent), t=f['ret']))]
            return None
        I.event(st, 'ENT', node, op=n, reg=reg, ent=ent, types=self.types(f), args=tuple(args),
                ents=tuple(self.entity(I, st, a) for a in args), n=self.n, vals=self.values(I, st, args))
        if rr is not None and rr['bare'] in REF:
            if P.is_ref(f['ret']):
                return [(st, this)]
            return [(st, self.ref(I, st, reg, (('o', f'{n}#{self.n}'),), f['ret']))]
        if n == 'get' and P.is_ref(f['ret']):
            return [(st, LV((('o', ('comp', reg, ent, P.ty(P.strip_ref(f['ret']))['s'])),), (), P.strip_ref(f['ret'])))]
        return [(st, ('void',))]

    def pushed(self, I, st, f, rec, this, args, node):
        """keep what is recorded"""
        m = I.models
        et = m.elem_type(I, rec)
        er = self.P.rec_of(et) if et is not None else None
        if er is None or er['bare'] != 'std::variant':
            return None
        self.n += 1
        loc = (('o', ('cmd', self.n)),)
        s = st.copy()
        c = m.CTORS['std::variant'](I, s, er, f, args, node, LV(loc, (), et)) if len(args) == 1 else None
        if c is not None and len(c) == 1:
            for k, v in c[0].mem.items():
                if k[:1] == loc:
                    st.mem[k] = v
            st.notes['cmds'] = tuple(st.notes.get('cmds', ())) + (loc,)
        else:
            st.notes['cmds'] = tuple(st.notes.get('cmds', ())) + (None,)
        I.event(st, 'RECORD', node, cont=I.canon(st, this.loc), cmd=loc, how=f['name'])
        return None

    def visit(self, I, st, f, args, node):
        m = I.models
        for c in st.notes.get('cmds', ()):
            if c is None:
                I.event(st, 'unknown', node, f='what is recorded')
                continue
            pr = st.copy()
            n = len(pr.ev)
            save, I.sink = I.sink, []
            try:
                out = m.MODELS['std::visit'](I, pr, f, None, [args[0], LV(c, (), m.ptype(I, f, 1))], node)
                subs = [x[0].ev[n:] for x in out]
            except Analysis as e:
                subs = None
            finally:
                I.sink = save
            I.event(st, 'EXEC', node, cmd=c, sub=subs)
        v = m.as_lv(I, st, args[1], m.ptype(I, f, 1))
        val = I.read_rec(st, v.loc, m.ptype(I, f, 1)) if v is not None else None
        I.event(st, 'VISIT', node, val=val.base if isinstance(val, Rec) else None)
        return None


def P_ty(P, y):
    return P.ty(y['t'])['s'] if isinstance(y, dict) else str(y)


def interp(P):
    return Model(P).interp()
