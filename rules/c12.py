"""C12: accesses of the work-stealing queue are ordered."""
from sa import terms as T
from sa import schedmodel as S
from sa.terms import const, sub, add, scale, is_lin
from sa.interp import Interp, Analysis, LV, Rec
from sa.world import ABS

ONE = const(1)
LEVEL = 'proof'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Every path of push, pop and steal is interpreted with every atomic load returning an arbitrary value (any interference by other '
               'threads), over an arbitrary queue. The atomic accesses of the path, their orders and the conditions under which they are made are '
               'checked against the obligations of the proof of the Chase-Lev deque in the C++ memory model (Le, Pop, Cohen, Zappa Nardelli, PPoPP '
               '2013): publication of the element and of a grown array before the new bottom, the store-load barrier between bottom and top on both '
               'sides, reading the element before the exchange of top that takes it, an exchange whenever the element may be the last one. Arrays '
               'are full-sized, complete and published with release, and freed by the destructor only. The pool calls push and pop for the queue of '
               'the thread that runs only, and starts threads after all workers exist.')
HPP = 'include/co_ecs/detail/work_stealing_queue.hpp'
POOL = 'include/co_ecs/thread_pool/thread_pool.hpp'
BAD = ('unknown', 'unsupported', 'recursion', 'stdcall')
ACQ = ('acquire', 'acq_rel', 'seq_cst')
ACQC = ACQ + ('consume',)
REL = ('release', 'acq_rel', 'seq_cst')


def run(ctx):
    ctx.assumptions = ['push and pop are called by one thread at a time, which the pool guarantees (checked below)',
                       'fewer than 2^63 elements are ever pushed; the capacity given is a power of two (asserted)', 'no out-of-memory']
    P = ctx.program('wsq')
    q = Queue(ctx, P)
    if q.find():
        q.built('drv_ctor')
        q.built('drv_ctor0')
        q.push()
        q.steal()
        q.pop()
        q.freed()
    pool(ctx, P)


def fail(ctx, rule, msg, st=None, where=HPP, key=None):
    ctx.fail(rule, where, msg, S.path_of(st) if st is not None else None, key=f'{rule}|{msg}|{key}')


def interp(P, hooks=None):
    I = Interp(P, abstract=ABS, user_throw=False, hooks=hooks or {})
    I.keep_ends = I.volatile_atomics = True
    return I


def go(ctx, P, name, rule, I=None, f=None, this=None):
    f = f or P.driver(name)
    if f is None:
        ctx.undecide(rule, f'{name} missing')
        return None, []
    I = I or interp(P)
    try:
        res = I.run(f, this=this)
    except Analysis as e:
        ctx.undecide(rule, f'{name}: {e}')
        return I, []
    if name in ('drv_push', 'drv_pop', 'drv_steal'):
        rule2 = 'arrays are freed once, when the queue is destroyed'
        bad = set()
        for st, v in res:
            new = {e.loc for e in S.flat(st.ev) if e.kind == 'new'}
            for e in S.flat(st.ev):
                if e.kind in ('delete', 'udelete') and ptr(e.d.get('ptr')) not in new and e.line not in bad:
                    bad.add(e.line)
                    fail(ctx, rule2, f'{name[4:]} frees memory thieves may be using (line {e.line})', st)
        if not bad:
            ctx.ob(rule2)
    for fid in I.inlined:
        ctx.saw('functions', P.funcs[fid]['q'])
    out = []
    for n, (st, (how, val)) in enumerate(res):
        ctx.saw('paths', f'{name} path {n}')
        odd = [e for e in S.flat(st.ev) if e.kind in BAD]
        if odd:
            ctx.undecide(rule, f'{name}: line {odd[0].line}: {odd[0].kind} {odd[0].d.get("f")}')
        elif how != 'throw':
            out.append((st, val))
    return I, out


def atomics(st):
    """the atomic accesses of a path; of loops, the last iteration"""
    return [e for e in st.ev if e.kind == 'atomic']


class Queue:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P

    def find(self):
        """which variable plays which part"""
        rule = 'roles of the variables'
        I, res = go(self.ctx, self.P, 'drv_steal', rule)
        Q = (('o', 'q'),)
        tops = {e.loc for st, v in res for e in atomics(st) if e.op == 'cas'}
        if len(tops) != 1:
            if res:
                self.bad('the last element is taken by one side only', 'steal takes elements without an exchange', None)
            return False
        self.top = tops.pop()
        I, res = go(self.ctx, self.P, 'drv_push', rule)
        ints = set()
        for st, v in res:
            for e in atomics(st):
                if e.op in ('store', 'rmw') and e.loc is not None and e.loc[:1] == Q and e.loc != self.top and is_lin(self.value(e)):
                    ints.add(e.loc)
        arrs = {e.loc for st, v in res for e in atomics(st) if e.op == 'load' and e.loc is not None and e.loc[:1] == Q and e.loc != self.top}
        ptrs = {l for l in arrs if self.pointer(l)}
        bots = {l for l in ints if not self.pointer(l)}
        if len(bots) != 1 or len(ptrs) != 1:
            self.ctx.undecide(rule, 'the parts of the queue are not understood')
            return False
        self.bot, self.arr = bots.pop(), ptrs.pop()
        return self.arrays()

    def value(self, e):
        v = e.d.get('new') if e.op != 'store' else e.d.get('val')
        return v

    def pointer(self, loc):
        rec = next((r for r in self.P.recs.values() if r['bare'] == 'co_ecs::detail::work_stealing_queue'), None)
        for f in rec['fields'] if rec else ():
            if f['n'] == loc[1][1]:
                r = self.P.rec_of(f['t'])
                return r is not None and any(x.get('t') is not None and self.P.ty(x['t']).get('k') == 'ptr' for x in r.get('targs') or ())
        return False

    def arrays(self):
        """the fields of an array, relative to the number of its elements"""
        rule = 'an array is complete before it is used'
        I, res = go(self.ctx, self.P, 'drv_ctor', rule)
        self.fields = None
        for st, v in res:
            stores = [e for e in atomics(st) if e.op == 'store' and e.loc is not None and e.loc[1:] == self.arr[1:]]
            a = ptr(stores[-1].val) if stores else None
            if a is None:
                self.bad(rule, 'a queue is created without an array', st)
                return False
            d = self.layout(I, st, a)
            if d is None:
                self.ctx.undecide(rule, 'the array is not understood')
                return False
            self.fields, self.data, self.esize = d
        return self.fields is not None

    def layout(self, I, st, a):
        """({field: offset from the number of elements}, data field, size of an element)"""
        news = {e.loc: e for e in st.ev if e.kind == 'new'}
        if a not in news:
            return None
        rec = self.P.rec_of(news[a].t)
        ints, data, n = {}, None, None
        for f in rec['fields'] if rec else ():
            v = I.read(st, a + (('f', f['n']),), f['t'])
            k = self.P.ty(f['t']).get('k')
            if k == 'ptr' and isinstance(v, tuple) and v[0] == 'ptr' and v[1].loc[:1] in news:
                if v[1].loc[1:] not in ((), (('i', const(0)),)):
                    return None
                data, n = f['n'], news[v[1].loc[:1]].n
            elif is_lin(v):
                ints[f['n']] = v
        if data is None or n is None:
            return None
        offs = {}
        for f, v in ints.items():
            d = st.facts.norm(sub(v, I.to_lin(n)))
            if T.is_const(d):
                offs[f] = d[1]
        return offs, data, 8

    def und(self, rule, msg):
        self.ctx.undecide(rule, msg)

    def bad(self, rule, msg, st):
        fail(self.ctx, rule, msg, st)

    # ------------------------------------------------------------ helpers
    def size(self, A):
        """number of elements of an array"""
        f = next(iter(self.fields), None)
        if f is None or A[0][0] != 'p':
            return None
        return sub(T.atom(('init', A + (('f', f),))), const(self.fields[f]))

    def facts(self, I, st):
        """what the path says, together with what is known of arrays"""
        fs = st.facts.copy()
        for A in {e.A for e in self.slots(I, st, atomics(st)) if e.A is not None and e.A[0][0] == 'p'} | \
                {(('p', e.val),) for e in atomics(st) if e.op == 'load' and e.loc == self.arr and is_lin(e.val)}:
            n = self.size(A)
            if n is None:
                continue
            for f, o in self.fields.items():
                fs.assume_eq(sub(sub(T.atom(('init', A + (('f', f),))), const(o)), n))
            fs.assume_le(sub(ONE, n))
        return fs

    def slots(self, I, st, evs):
        """accesses to elements: the array, the index, what it is taken modulo"""
        out = []
        for n, e in enumerate(evs):
            if e.loc is None or e.loc[0] == ('o', 'q'):
                continue
            x = Slot()
            x.e, x.at, x.A, x.index, x.mod = e, n, None, None, None
            lin = None
            if e.loc[0][0] == 'p' and len(e.loc) == 1:
                lin = e.loc[0][1]
                base = [(a, k) for a, k in lin[2] if k == 1 and T.info(a)[0] == 'init' and T.info(a)[1][-1] == ('f', self.data)]
                if len(base) == 1 and lin[1] == 0:
                    x.A = T.info(base[0][0])[1][:-1]
                    lin = sub(lin, T.mk(0, {base[0][0]: 1}))
                    if lin[2] and all(k % self.esize == 0 for a, k in lin[2]):
                        lin = T.mk(0, {a: k // self.esize for a, k in lin[2]})
                    else:
                        lin = None
                else:
                    lin = None
            elif e.loc[0][0] == 'p' and len(e.loc) == 2 and e.loc[1][0] == 'i':
                a = T.single_atom(e.loc[0][1])
                if a is not None and a[0] == 'init' and a[1][-1] == ('f', self.data):
                    x.A, lin = a[1][:-1], e.loc[1][1]
            elif e.loc[0][0] == 'h' and len(e.loc) >= 2 and e.loc[1][0] == 'i':
                lin = e.loc[1][1]
                for k, v in st.mem.items():
                    if len(k) == 2 and k[1] == ('f', self.data) and isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) and v[1].loc[:1] == e.loc[:1]:
                        x.A = k[:1]
            a = T.single_atom(lin) if lin is not None else None
            if a is not None and a[0] == 'and' and len(a) == 3:
                for u, w in ((a[1], a[2]), (a[2], a[1])):
                    if self.is_mod(I, st, x.A, add(w, ONE)):
                        x.index, x.mod = u, True
            elif a is not None and a[0] in ('mod', 'rem') and len(a) == 3 and self.is_mod(I, st, x.A, a[2]):
                x.index, x.mod = a[1], True
            out.append(x)
        return out

    def is_mod(self, I, st, A, w):
        if A is None or not is_lin(w):
            return False
        if A[0][0] == 'p':
            fs = st.facts.copy()
            for f, o in self.fields.items():
                fs.assume_eq(sub(sub(T.atom(('init', A + (('f', f),))), const(o)), self.size(A)))
            return fs.eq(sub(w, self.size(A))) is True
        n = self.new_size(I, st, A)
        return n is not None and st.facts.eq(sub(w, n)) is True

    def new_size(self, I, st, A):
        v = I.read(st, A + (('f', self.data),))
        if isinstance(v, tuple) and v[0] == 'ptr':
            for e in S.flat(st.ev):
                if e.kind == 'new' and e.loc == v[1].loc[:1]:
                    return I.to_lin(e.n)
        return None

    def capacity(self, I, st, A):
        return self.size(A) if A[0][0] == 'p' else self.new_size(I, st, A)

    def on(self, evs, loc, *ops):
        return [(n, e) for n, e in enumerate(evs) if e.loc == loc and e.op in ops]

    def fence(self, evs, lo, hi, orders):
        return any(e.op == 'fence' and e.order in orders for e in evs[lo + 1:hi])

    # ------------------------------------------------------------ construction, destruction
    def built(self, name):
        rule = 'an array is complete before it is used'
        I, res = go(self.ctx, self.P, name, rule)
        for st, v in res:
            evs = atomics(st)
            val = {}
            for e in evs:
                if e.op == 'store' and e.loc is not None:
                    val[e.loc[1:]] = e.val
            a = ptr(val.get(self.arr[1:]))
            if a is None:
                self.bad(rule, 'a queue is created without an array', st)
                continue
            d = self.layout(I, st, a)
            if d is None or d[0] != self.fields:
                self.bad(rule, 'the first array does not have the size it says', st)
                continue
            t, b = val.get(self.top[1:]), val.get(self.bot[1:])
            if not (is_lin(t) and is_lin(b) and st.facts.eq(sub(t, b)) is True):
                self.bad(rule, 'a new queue is not empty', st)
                continue
            self.ctx.ob(rule, 3)

    def freed(self):
        rule = 'arrays are freed once, when the queue is destroyed'
        I, res = go(self.ctx, self.P, 'drv_dtor', rule)
        self.old = getattr(self, 'old', None)
        for st, v in res:
            dele = [e for e in S.flat(st.ev) if e.kind in ('delete', 'udelete')]
            cur = [e for e in dele if is_lin(e.ptr) and any(x.op == 'load' and x.loc == self.arr and x.val == e.ptr for x in atomics(st))]
            if len(cur) != 1:
                if len(cur) > 1:
                    self.bad(rule, 'the array in use is freed twice', st)
                elif any(not is_lin(e.ptr) for e in dele):
                    self.und(rule, 'what is freed is not understood')
                elif self.pointer_owner():
                    self.und(rule, 'the array is owned in another way')
                else:
                    self.ctx.ob(rule)       # a leak breaks nothing stated here
            else:
                self.ctx.ob(rule)

    def pointer_owner(self):
        return False

    # ------------------------------------------------------------ push
    def push(self):
        r1 = 'an element is visible before it can be stolen'
        r2 = 'elements in the queue are not overwritten'
        r3 = 'a grown array holds all elements before it is visible'
        r4 = 'arrays are freed once, when the queue is destroyed'
        I, res = go(self.ctx, self.P, 'drv_push', r1)
        for st, v in res:
            evs = atomics(st)
            bs = self.on(evs, self.bot, 'store', 'rmw')
            sl = self.slots(I, st, evs)
            mine = [s for s in sl if s.e.op == 'store' and is_param(s.e.val, 'p')]
            if len(bs) != 1 or bs[0][1].op == 'rmw' and bs[0][1].d.get('delta') != ONE:
                self.bad(r1, 'an element is announced several times' if bs else 'an element is not announced', st)
                continue
            bn, be = bs[0]
            if be.op == 'rmw':
                b = be.val
            else:
                loads = [e for n, e in self.on(evs, self.bot, 'load') if n < bn and is_lin(e.val) and is_lin(be.val) and st.facts.eq(sub(sub(be.val, e.val), ONE)) is True]
                if not loads:
                    self.bad(r1, 'bottom does not go up by one', st)
                    continue
                b = loads[-1].val
            if len(mine) != 1:
                self.bad(r1, 'the element is stored several times', st) if mine else self.und(r1, 'where the element is stored is not understood')
                continue
            s = mine[0]
            if s.A is None or s.index is None:
                self.und(r1, 'where the element is stored is not understood')
                continue
            if st.facts.eq(sub(s.index, b)) is not True:
                self.bad(r1, 'the element is not stored at the bottom', st)
                continue
            if s.at > bn:
                self.bad(r1, 'the element is announced before it is stored', st)
                continue
            if not (be.order in REL or self.fence(evs, s.at, bn, REL)):
                self.bad(r1, f'nothing orders the element before the new bottom (line {be.line})', st)
                continue
            self.ctx.ob(r1)
            # the array in use
            grown = self.on(evs, self.arr, 'store')
            loads = [e for n, e in self.on(evs, self.arr, 'load')]
            now = ptr(grown[-1][1].val) if grown else (('p', loads[-1].val),) if loads and is_lin(loads[-1].val) else None
            if now is None or now != s.A:
                self.bad(r1, 'the element is stored in another array than the one in use', st)
                continue
            # room
            fs = self.facts(I, st)
            if fs.dead:
                continue            # cannot happen: an array has at least one element
            old = (('p', loads[0].val),) if loads and is_lin(loads[0].val) else None
            cap = self.capacity(I, st, s.A)
            if cap is None:
                self.und(r2, 'the size of the array is not understood')
                continue
            tops = [(n, e) for n, e in self.on(evs, self.top, 'load') if is_lin(e.val)]
            ok = weak = False
            for n, e in tops:
                g = fs.copy()
                if old is not None:
                    g.assume_le(sub(sub(b, e.val), self.size(old)))      # as every push keeps it
                if g.le(sub(sub(b, e.val), sub(cap, ONE))) is True:
                    if e.order in ACQ or self.fence(evs, n, s.at, ACQ):
                        ok = True
                    else:
                        weak = True
            if ok:
                self.ctx.ob(r2)
            elif weak:
                self.bad(r2, 'top is read without acquire: a thief may still be reading the place', st)
            elif S.tainted_path(st.path):
                self.und(r2, 'whether there is room is not understood')
            else:
                self.bad(r2, 'an element that is still in the queue may be overwritten', st)
            for n, e in grown:
                self.grown(I, st, evs, n, e, b, [x.val for m, x in tops], bn, old, r3)

    def grown(self, I, st, evs, n, e, b, tops, bn, old, rule):
        a = ptr(e.val)
        if a is None:
            self.und(rule, 'the array that is made visible is not understood')
            return
        d = self.layout(I, st, a)
        if d is None or d[0] != self.fields:
            self.bad(rule, 'the new array does not have the size it says', st)
            return
        if n > bn:
            self.bad(rule, 'the new array is made visible after the element in it', st)
            return
        pub = [k for k, x in enumerate(evs) if x.op == 'fence' and x.order in REL and k < n]
        if e.order not in REL and not pub:
            self.bad(rule, 'the new array is made visible without release', st)
            return
        # which elements are in it
        pos = next(k for k, x in enumerate(st.ev) if x is e)
        loops = [(k, x) for k, x in enumerate(st.ev) if x.kind in ('loop', 'loopsum', 'loop0')]
        before = [x for k, x in loops if k < pos]
        after = [x for k, x in loops if k > pos and x.kind != 'loop0' and self.copies(I, st, x, a, old) is not None]
        if after:
            self.bad(rule, 'elements are copied after the array is made visible', st)
            return
        for x in before:
            if x.kind == 'loop0':
                continue
            c = self.copies(I, st, x, a, old)
            if c is None:
                continue
            if c is False:
                self.bad(rule, 'elements are copied to another place', st)
                return
            i = c
            # i = start + n; ends where the bottom is reached
            start = sub(i, x.n)
            if any(st.facts.eq(sub(start, t)) is True for t in tops):
                if st.facts.eq(sub(add(i, ONE), b)) is True or st.facts.le(sub(sub(b, ONE), i)) is True:
                    self.ctx.ob(rule)
                else:
                    self.bad(rule, 'not all elements are copied', st)
                return
            down = add(i, x.n)
            if st.facts.eq(sub(down, sub(b, ONE))) is True:
                if any(st.facts.eq(sub(i, t)) is True or st.facts.le(sub(i, t)) is True for t in tops):
                    self.ctx.ob(rule)
                else:
                    self.bad(rule, 'not all elements are copied', st)
                return
            self.bad(rule, 'not all elements are copied', st)
            return
        if any(x.kind == 'loop0' for x in before):
            if any(st.facts.le(sub(b, t)) is True for t in tops):
                self.ctx.ob(rule)
            else:
                self.bad(rule, 'not all elements are copied', st)
        else:
            self.und(rule, 'how elements get into the new array is not understood')

    def copies(self, I, st, x, a, old):
        """index copied in an arbitrary iteration (False: to another place, None: nothing is copied)"""
        res = None
        for k, (seg, fs, path) in enumerate(x.traces):
            fin = (x.d.get('ends') or [st] * len(x.traces))[k]
            ev = [e for e in seg if e.kind == 'atomic']
            sl = self.slots(I, fin, ev)
            w = [s for s in sl if s.e.op == 'store' and s.A == a]
            r = [s for s in sl if s.e.op == 'load' and s.A == old]
            if not w:
                continue
            if len(w) != 1 or not r or w[0].index is None or r[-1].index is None:
                return False
            if w[0].e.val != r[-1].e.val or fs.eq(sub(w[0].index, r[-1].index)) is not True:
                return False
            res = w[0].index
        return res

    # ------------------------------------------------------------ steal
    def result(self, I, st, v):
        """(True / False / None: is there an element, the element)"""
        if not isinstance(v, Rec):
            return None, None
        has = v.ov.get((('s', 'has'),))
        if has is None or not T.is_const(I.to_lin(has)):
            return None, None
        return I.to_lin(has)[1] == 1, v.ov.get((('s', 'val'),), v.ov.get((('f', 'val'),)))

    def steal(self):
        r1 = 'an element is visible before it can be stolen'
        r2 = 'the last element is taken by one side only'
        r3 = 'the store to one end and the load of the other are ordered on both sides'
        I, res = go(self.ctx, self.P, 'drv_steal', r2)
        for st, v in res:
            evs = atomics(st)
            if self.on(evs, self.bot, 'store', 'rmw', 'cas') or self.on(evs, self.arr, 'store'):
                self.bad(r2, 'a thief changes what belongs to the owner', st)
                continue
            if self.on(evs, self.top, 'store', 'rmw'):
                self.bad(r2, 'a thief moves top without an exchange', st)
                continue
            has, item = self.result(I, st, v)
            if has is None:
                self.und(r2, 'the result of steal is not understood')
                continue
            cas = self.on(evs, self.top, 'cas')
            won = [(n, e) for n, e in cas if e.ok]
            if not has:
                if won:
                    self.bad(r2, 'an element is taken off the queue but not returned', st)
                else:
                    self.ctx.ob(r2)
                continue
            if len(won) != 1:
                self.bad(r2, 'an element is returned that was not taken off the queue', st)
                continue
            cn, c = won[0]
            if self.exchange(r2, c, st) is False:
                continue
            t = c.exp
            tl = [(n, e) for n, e in self.on(evs, self.top, 'load', 'cas') if n < cn and e.val == t]
            if not tl:
                self.und(r2, 'where top was read is not understood')
                continue
            tn, te = tl[0]
            bl = [(n, e) for n, e in self.on(evs, self.bot, 'load') if n < cn]
            good = [(n, e) for n, e in bl if n > tn and is_lin(e.val) and st.facts.le(add(sub(t, e.val), ONE)) is True]
            if not good:
                if any(is_lin(e.val) and st.facts.le(add(sub(t, e.val), ONE)) is True for n, e in bl):
                    self.bad(r3, 'a thief reads bottom before top', st)
                else:
                    self.bad(r2, 'a thief takes an element although the queue may be empty', st)
                continue
            bn, be = good[0]
            if not (self.fence(evs, tn, bn, ('seq_cst',)) or te.order == be.order == 'seq_cst'):
                self.bad(r3, f'nothing orders the load of top before the load of bottom in steal (line {be.line})', st)
                continue
            self.ctx.ob(r3)
            sl = [s for s in self.slots(I, st, evs) if s.e.op == 'load' and same(s.e.val, item)]
            if len(sl) != 1 or sl[0].A is None or sl[0].index is None:
                self.und(r1, 'which element is stolen is not understood')
                continue
            s = sl[0]
            if not (be.order in ACQ or self.fence(evs, bn, s.at, ACQ)):
                self.bad(r1, 'the element is read without acquiring bottom', st)
                continue
            if not (te.order in ACQ or self.fence(evs, tn, s.at, ACQ)):
                self.bad(r1, 'the element is read without acquiring top', st)
                continue
            if s.at > cn:
                self.bad(r2, 'the element is read after it was taken: its place may be used again', st)
                continue
            if st.facts.eq(sub(s.index, t)) is not True:
                self.bad(r2, 'the element returned is not the one taken', st)
                continue
            al = [(n, e) for n, e in self.on(evs, self.arr, 'load') if s.A == (('p', e.val),)]
            if not al:
                self.und(r1, 'which array is read is not understood')
                continue
            an, ae = al[-1]
            if an < bn:
                self.bad(r1, 'a thief reads the array before bottom: it may be out of date', st)
                continue
            if not (ae.order in ACQC or self.fence(evs, an, s.at, ACQ)):
                self.bad(r1, 'a thief uses an array without acquiring it', st)
                continue
            self.ctx.ob(r1)
            self.ctx.ob(r2)

    def exchange(self, rule, c, st):
        if not (is_lin(c.exp) and is_lin(c.new)):
            self.und(rule, 'the exchange of top is not understood')
            return False
        if st.facts.eq(sub(sub(c.new, c.exp), ONE)) is not True:
            self.bad(rule, 'top does not go up by one', st)
            return False
        if c.order != 'seq_cst':
            self.bad(rule, f'the exchange of top is not sequentially consistent (line {c.line})', st)
            return False
        return True

    # ------------------------------------------------------------ pop
    def pop(self):
        r2 = 'the last element is taken by one side only'
        r3 = 'the store to one end and the load of the other are ordered on both sides'
        r4 = 'taking an element leaves both ends consistent'
        I, res = go(self.ctx, self.P, 'drv_pop', r2)
        for st, v in res:
            evs = atomics(st)
            if self.on(evs, self.top, 'store', 'rmw'):
                self.bad(r2, 'the owner moves top without an exchange', st)
                continue
            has, item = self.result(I, st, v)
            if has is None:
                self.und(r2, 'the result of pop is not understood')
                continue
            bs = self.on(evs, self.bot, 'store', 'rmw')
            b = None
            for n, e in bs:
                if e.op == 'rmw' and e.d.get('delta') == const(-1):
                    b = e.val
                    first = (n, e)
                    break
                ls = [x for m, x in self.on(evs, self.bot, 'load') if m < n and is_lin(x.val) and is_lin(e.d.get('val')) and st.facts.eq(add(sub(e.val, x.val), ONE)) is True]
                if e.op == 'store' and ls:
                    b, first = ls[0].val, (n, e)
                    break
            cas = self.on(evs, self.top, 'cas')
            won = [(n, e) for n, e in cas if e.ok]
            if b is None:
                if has:
                    self.bad(r3, 'an element is taken without moving bottom first', st)
                elif bs or won:
                    self.und(r4, 'how an empty queue is left is not understood')
                else:
                    self.ctx.ob(r4)          # found empty before anything was changed
                continue
            tl = [(n, e) for n, e in self.on(evs, self.top, 'load') if n > first[0] and is_lin(e.val)]
            if not tl:
                self.bad(r3, 'the owner reads top before it moves bottom', st)
                continue
            tn, te = tl[0]
            if not (self.fence(evs, first[0], tn, ('seq_cst',)) or te.order == first[1].order == 'seq_cst'):
                self.bad(r3, f'nothing orders the store of bottom before the load of top in pop (line {te.line})', st)
                continue
            self.ctx.ob(r3)
            t = te.val
            last = bs[-1][1]
            fin = last.val if last.op == 'store' else last.d.get('new')
            if not is_lin(fin):
                self.und(r4, 'bottom is not understood')
                continue
            if won and self.exchange(r2, won[0][1], st) is False:
                continue
            if has:
                sl = [s for s in self.slots(I, st, evs) if s.e.op == 'load' and same(s.e.val, item)]
                if len(sl) != 1 or sl[0].A is None or sl[0].index is None:
                    self.und(r2, 'which element is taken is not understood')
                    continue
                if st.facts.eq(add(sub(sl[0].index, b), ONE)) is not True:
                    self.bad(r2, 'the element returned is not the one at the bottom', st)
                    continue
                al = [e for n, e in self.on(evs, self.arr, 'load') if sl[0].A == (('p', e.val),)]
                if not al:
                    self.und(r2, 'which array is read is not understood')
                    continue
                if won:
                    if won[0][1].exp != t and st.facts.eq(sub(won[0][1].exp, t)) is not True:
                        self.und(r2, 'the exchange of top is not understood')
                    elif st.facts.eq(add(sub(t, b), ONE)) is not True:
                        self.bad(r2, 'top is moved although more than one element may be left', st)
                    elif st.facts.eq(sub(fin, b)) is not True:
                        self.bad(r4, 'bottom is not put back after the last element was taken', st)
                    else:
                        self.ctx.ob(r2)
                        self.ctx.ob(r4)
                    continue
                if st.facts.le(add(sub(t, b), const(2))) is not True:
                    self.bad(r2, 'the owner takes what may be the last element without an exchange of top', st)
                elif st.facts.eq(add(sub(fin, b), ONE)) is not True:
                    self.bad(r4, 'bottom is not left below the element taken', st)
                else:
                    self.ctx.ob(r2)
                    self.ctx.ob(r4)
                continue
            if won:
                self.bad(r2, 'an element is taken off the queue but not returned', st)
                continue
            lost = [e for n, e in cas if not e.ok]
            if st.facts.eq(sub(fin, b)) is not True:
                self.bad(r4, 'bottom is not put back when the queue is found empty', st)
            elif not lost and st.facts.le(sub(b, t)) is not True:
                self.bad(r4, 'an element is left behind', st) if not S.tainted_path(st.path) else self.und(r4, 'why nothing is returned is not understood')
            else:
                self.ctx.ob(r4)


class Slot:
    pass


def ptr(v):
    return v[1].loc if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV) else None


def is_param(v, name):
    if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[1], LV):
        return v[1].loc[0] == ('o', name)
    a = T.single_atom(v) if is_lin(v) else None
    return a is not None and a[0] == 'init' and a[1][0] == ('o', name)


def same(a, b):
    return a is not None and b is not None and a == b


# ---------------------------------------------------------------- the pool
def pool(ctx, P):
    r1 = 'push and pop are used by the thread a queue belongs to'
    cur = next((i for i, g in P.globals.items() if g['n'] == 'current_worker'), None)
    wrec = next((r for r in P.recs.values() if r['bare'] == 'co_ecs::thread_pool::worker'), None)
    for g in P.globals.values():
        if g['id'] == cur and not g.get('tls'):
            fail(ctx, r1, 'the worker of a thread is not kept per thread', None, POOL)
    if cur is None or wrec is None:
        ctx.undecide(r1, 'the worker of a thread is not found')
        return

    def hook(I, st, f, this, args, node):
        rec = P.recs.get(f.get('rec'))
        if rec is not None and rec['bare'] == 'co_ecs::detail::work_stealing_queue' and f['name'] in ('push', 'pop', 'steal') and this is not None:
            I.event(st, 'QUEUE', node, op=f['name'], loc=I.canon(st, this.loc))
            if f['name'] == 'push':
                return [(st, ('void',))]
            return [(st, Rec(('init', (('o', f'item#{len(st.ev)}'),)), t=f['ret']))]
        if rec is not None and rec['bare'] in ('co_ecs::task_t', 'co_ecs::task_pool') and f.get('kind') not in ('ctor', 'dtor'):
            return [(st, ('void',) if I.P.ty(f['ret']).get('k') == 'void' else I.opaque(st, f['ret'], 'task'))]
        return None
    roots = [('drv_submit', P.driver('drv_submit')), ('drv_wait', P.driver('drv_wait')),
             ('run', next((f for f in P.funcs.values() if f['bare'] == 'co_ecs::thread_pool::worker::run' and 'body' in f), None))]
    for name, f in roots:
        if f is None:
            ctx.undecide(r1, f'{name} not found')
            continue
        I = interp(P, {'call': hook})
        I2, res = go(ctx, P, name, r1, I, f, LV((('o', 'this'),), t=wrec.get('t')) if name == 'run' else None)
        seen = set()
        for st, v in res:
            for e in S.flat(st.ev):
                if e.kind == 'QUEUE':
                    w = e.loc[:-1]
                    if (e.line, e.op, w) in seen:
                        continue
                    seen.add((e.line, e.op, w))
                    if e.op in ('push', 'pop'):
                        if owned(w, cur, name):
                            ctx.ob(r1)
                        elif w[0][0] in ('p', 'o') and not T.tainted(w[0][1] if is_lin(w[0][1]) else const(0)):
                            fail(ctx, r1, f'{e.op} is called for the queue of another worker (line {e.line})', st, POOL)
                        else:
                            ctx.undecide(r1, f'{name}: whose queue is used is not understood')
                    else:
                        ctx.ob(r1)
    started(ctx, P)


def owned(w, cur, name):
    """is it the worker of the running thread?"""
    if name == 'run' and w == (('o', 'this'),):
        return True
    if len(w) == 1 and w[0][0] == 'p' and is_lin(w[0][1]):
        a = T.single_atom(w[0][1])
        return a is not None and a[0] == 'init' and a[1][0][0] == 'g' and a[1][0][1] == cur
    return False


def started(ctx, P):
    rule = 'threads are started when all queues exist'
    f = next((f for f in P.funcs.values() if f['bare'] == 'co_ecs::thread_pool::thread_pool' and f.get('kind') == 'ctor' and 'body' in f and not f.get('special') in ('copyctor', 'movector')), None)
    if f is None:
        ctx.undecide(rule, 'the constructor of the pool is not found')
        return

    def mctor(I, st, rec, f, args, node, this):
        if rec['bare'] == 'std::thread' and args:
            I.event(st, 'THREAD', node)
        return None
    I = interp(P, {'model_ctor': mctor})
    I2, res = go(ctx, P, 'pool', rule, I, f, LV((('o', 'this'),)))
    for st, v in res:
        seen = False
        for e in st.ev:
            inner = list(S.flat([e]))
            t = [x for x in inner if x.kind == 'THREAD']
            p = [x for x in inner if x.kind == 'push' and x.d.get('cont') and x.cont[0][0] == 'o']
            if p and (seen or t):
                fail(ctx, rule, 'a thread is started while workers are still being added', st, POOL)
                break
            seen = seen or bool(t)
        else:
            ctx.ob(rule)
