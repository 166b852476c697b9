"""Contracts of the client (C25..C28, C30).

The client's functions and the completion closures they create are executed from their own code.
What they call is used through contracts:
  aggregators     an operation may return any status and may run the flush callback any number of times; it must be
                  called on a live aggregator.  (Which status it returns when is C12..C20.)
  transports      supplied from outside: receive request, response and completion; complete exactly once with any
                  status, either before they return, or later, or after the client was destroyed; the request
                  they were given must be readable until then unless it is the caller's own
  timers, completion callbacks   supplied from outside: events
  shared_ptr counts, promise/future   the standard library's documented behaviour
"""
from dv.unit import *
from dv import lib
from .aggcommon import SC, NS, V1, put_function

OK, INVALID, NOTFOUND = 0, 3, 5
TU = 'src/service_control_client_impl.cc'
I = z3.IntSort()


class Kind:
    def __init__(self, name, op, cls, req, resp, field, counters, mod):
        self.name, self.op, self.cls, self.req, self.resp = name, op, cls, SC + req, SC + resp
        self.short, self.rshort, self.agg, self.transport = req, resp, field + '_aggregator_', field + '_transport_'
        self.total, self.inflight, self.flushed = counters
        self.mod = mod


def counters(n):
    return ('total_called_%s' % n, 'send_%s_in_flight' % n, 'send_%s_by_flush' % n)


CHECK = Kind('check', 'Check', 'CheckAggregator', 'CheckRequest', 'CheckResponse', 'check', counters('checks'), 'src/check_aggregator_impl.cc')
QUOTA = Kind('quota', 'Quota', 'QuotaAggregator', 'AllocateQuotaRequest', 'AllocateQuotaResponse', 'quota', counters('quotas'), 'src/quota_aggregator_impl.cc')
REPORT = Kind('report', 'Report', 'ReportAggregator', 'ReportRequest', 'ReportResponse', 'report', counters('reports'), 'src/report_aggregator_impl.cc')
KINDS = (CHECK, QUOTA, REPORT)
MODS = [K.mod for K in KINDS]
COUNTERS = [c for K in KINDS for c in (K.total, K.inflight, K.flushed)] + ['send_report_operations']


def names(bid_name):
    return bid_name


# ------------------------------------------------------------------ world
def vtable_of(u, sym, mod, slot0=16):
    p = u.ex.global_ptr(u.st, sym, mod)
    return Ptr(p.b, p.o + slot0)


def impl_vtable(u, K):
    n = K.cls + 'Impl'
    sym = '_ZTVN6google22service_control_client%d%sE' % (len(n), n)
    for m in u.ex.modules:
        if sym in m.globals:
            return vtable_of(u, sym, m)
    raise Unsupported('no vtable of ' + n)


def control_block(u, cls, name, target, count):
    """a shared_ptr control block made from a unique_ptr"""
    sym = [g for g in u.mod.globals if g.startswith('_ZTVSt19_Sp_counted_deleter') and ('%d%s' % (len(cls), cls)) in g]
    if len(sym) != 1:
        raise Unsupported('no control block of ' + cls)
    c = u.st.new_block('count of ' + name, 24, 'heap')
    c.cells[0] = vtable_of(u, sym[0], u.mod)
    c.cells[8], c.cells[12] = count, 1
    c.cells[16] = target
    return Ptr(c.id)


def timer(u):
    """a timer supplied from outside: destructors and Stop are events"""
    vt = u.st.new_block('vtable of the timer', 24, 'global')
    for i, n in enumerate(('dv_timer_dtor', 'dv_timer_delete', 'dv_timer_stop')):
        vt.cells[8 * i] = FnPtr(n, u.mod)
    t = u.st.new_block('timer', 8, 'heap')
    t.cells[0] = Ptr(vt.id)
    return Ptr(t.id)


def client(u, transports=True, timer_present=None, held=True):
    """a client satisfying its invariant"""
    st = u.st
    L = u.layout(NS + 'ServiceControlClientImpl')
    b = st.new_block('client', L.size, 'heap')
    v = dict(this=Ptr(b.id), L=L)
    sym = '_ZTVN6google22service_control_client24ServiceControlClientImplE'
    b.cells[0] = vtable_of(u, sym, u.mod)
    s = fresh(Str, 'service_name')
    st.assume(slen(s) >= 0)
    b.cells[L.off('service_name_')] = s
    for K in KINDS:
        a = st.new_block(K.name + ' aggregator', 512, 'heap')
        a.cells[0] = impl_vtable(u, K)
        others = u.int('holders of %s' % K.name, 30)
        u.assume(others >= 0)
        v['others_' + K.name] = others
        ct = control_block(u, K.cls, K.name, Ptr(a.id), others + 1)
        o = L.off(K.agg, 'shared_ptr')
        b.cells[o], b.cells[o + 8] = Ptr(a.id), ct
        v['agg_' + K.name], v['count_' + K.name] = Ptr(a.id), ct
        tok = u.int('transport_' + K.name)
        v['transport_' + K.name] = tok
        put_function(b, L.off(K.transport), tok if transports else None, u.mod)
        if transports:
            b.cells[L.off(K.transport) + 24] = FnPtr('dv_transport_' + K.name, u.mod)
    for c in COUNTERS:
        x = u.int(c, 62)
        u.assume(x >= 0)
        v[c] = x
        b.cells[L.off(c + '_', 'atomic')] = x
    o = L.off('flush_timer_')
    if timer_present:
        t = timer(u)
        b.cells[o], b.cells[o + 8] = t, control_block(u, 'PeriodicTimer', 'timer', t, 1)
        v['timer'] = t
    else:
        b.cells[o] = b.cells[o + 8] = NULL
        v['timer'] = None
    ghosts(st)
    st.ghost['C'] = Obj('client', **v)
    st.ghost['alive'] = True
    u.v.update(v)
    return v


def ghosts(st):
    st.ghost['ev'] = ()
    st.ghost['pending'] = ()
    st.ghost['alive'] = False
    st.ghost['C'] = None
    st.ghost['more'] = ()          # what flush callbacks run by aggregators added to the counters
    st.ghost['promises'] = ()


def C(st):
    return st.ghost['C']


def event(st, *e):
    st.ghost['ev'] = st.ghost['ev'] + (e,)


def events(st, tag):
    return [e for e in st.ghost['ev'] if e[0] == tag]


def counter(st, c):
    w = C(st)
    return st.mem[w.this.b].cells[w.L.off(c + '_', 'atomic')]


# ------------------------------------------------------------------ the standard library
def add_ref(ex, st, ci):
    p = ci.args[0]
    n = ex.read(st, Ptr(p.b, p.o + 8))
    ex.oblige(st, 'C28: ownership is taken only of what still has an owner', toint(n) >= 1, 'pre')
    ex.write(st, Ptr(p.b, p.o + 8), add(n, 1))


def release(ex, st, ci):
    p = ci.args[0]
    n = toint(ex.read(st, Ptr(p.b, p.o + 8)))
    ex.oblige(st, 'C28: ownership is given up only once', n >= 1, 'pre')

    def keep(s):
        ex.write(s, Ptr(p.b, p.o + 8), sub(n, 1))

    def last(s):
        ex.write(s, Ptr(p.b, p.o + 8), 0)
        vt = ex.read(s, p)
        fp = ex.read(s, Ptr(vt.b, vt.o + 16))          # _M_dispose: slot 2 of the control block's vtable
        if not isinstance(fp, FnPtr):
            raise Unsupported('dispose of the shared pointer')

        def done(ex, s2, v):
            lib.delete_block(ex, s2, Ptr(p.b, p.o))
            return None
        return frame(ex, fp, [p], done)
    if is_c(n):
        if n == 1:
            r = last(st)
            return r
        keep(st)
        return None
    raise Fork([(n == 1, last), (n != 1, keep)])


def frame(ex, fp, args, onret=None):
    f = ex.find_body(fp.mod, fp.name)
    if f is None:
        raise Unsupported('no body of %s' % fp.name)
    fr = Frame(f)
    if len(f.params) != len(args):
        raise Unsupported('signature of %s' % fp.name)
    for (n, t, a), v in zip(f.params, args):
        fr.regs[n] = v
    fr.onret = onret
    return PushFrame(fr)


def run(ex, st, fp, args):
    """the states in which a call of fp ends, from the end state of the function under contract"""
    s = st.copy()
    s.frames = []
    s.jump = None
    d = fp.mod.dem.get(fp.name, fp.name)
    for rx, h in ex.contracts:
        if rx.match(d):
            ci = CallInfo()
            ci.args, ci.dem, ci.name, ci.mod, ci.dst = args, d, fp.name, fp.mod, None
            h(ex, s, ci)
            return [s]
    s.frames = [frame(ex, fp, args).frame]
    return [e[1] for e in ex.explore([s]) if e[0] == 'ret']


def user_manager(ex, st, ci):
    dst, src, op = ci.args
    if op == 2:
        ex.write(st, dst, ex.read(st, src))
        return False
    if op == 3:
        return False
    raise Unsupported('function manager operation')


def move_function(ex, st, p, name):
    """a std::function taken over from p; returns where it is now"""
    b = st.new_block(name, 32, 'outside')
    ex.memcpy(st, Ptr(b.id), p, 32)
    ex.write(st, Ptr(p.b, p.o + 16), NULL)
    ex.write(st, Ptr(p.b, p.o + 24), NULL)
    return Ptr(b.id)


def function_cells(st, p):
    c = st.mem[p.b].cells
    return c.get(p.o), c.get(p.o + 16), c.get(p.o + 24)


# ------------------------------------------------------------------ completion
def tagof(K):
    return {'check': 'C25,C26,C28', 'quota': 'C25,C26,C28', 'report': 'C25,C28'}[K.name]


def transport(K):
    def f(ex, st, ci):
        fn, req, resp, done = ci.args
        if isinstance(resp, Ptr):
            resp = ex.read(st, resp)
        token = ex.read(st, fn)
        value = ex.read(st, req)
        own = st.mem[req.b].kind == 'arg'
        saved = move_function(ex, st, done, "completion of the %s transport" % K.name)
        man = st.mem[saved.b].cells.get(16)
        ex.oblige(st, 'C25: the transport gets a completion', isinstance(man, FnPtr), 'pre')
        ex.oblige(st, 'C28: the transport gets a response to fill', isinstance(resp, Ptr) and resp.b != 0 and st.mem[resp.b].alive, 'pre')
        event(st, 'send', K.name, token, value, req, resp)
        rec = (K, saved, req, own, resp)
        now = fresh(z3.BoolSort(), 'completes_at_once')

        def inline(s):
            return complete(ex, s, rec)

        def later(s):
            s.ghost['pending'] = s.ghost['pending'] + (rec,)
        if st.ghost.get('defer_only'):
            return later(st)
        raise Fork([(now, inline), (z3.Not(now), later)])
    return f


def complete(ex, st, rec, onret=None):
    """the transport fills the response and runs the completion it was given, then drops it"""
    K, saved, req, own, resp = rec
    if not own:
        ex.oblige(st, 'C28: a request copy stays valid until its completion', st.mem[req.b].alive, 'pre')
    ex.oblige(st, 'C28: the response stays valid until the completion', st.mem[resp.b].alive, 'pre')
    m = P.msg(K.resp)
    v = fresh(m.sort, 'transported')
    st.assume(*P.wf(m, v)) if False else [st.assume(f) for f in P.wf(m, v)]
    if st.mem[resp.b].alive:
        ex.write(st, resp, v)
    status = lib.mkstatus(fresh(I, 'transport_status'), fresh(Str, 'message'))
    event(st, 'completion', K.name, status, v)
    sb = st.new_block('transport status', 16, 'outside')
    sb.cells[0] = status
    man, inv = st.mem[saved.b].cells.get(16), st.mem[saved.b].cells.get(24)
    if not isinstance(inv, FnPtr):
        raise PathEnd()

    def destroy(ex, s, v):
        if man.name == 'dv_user_manager':
            return after(ex, s, v)
        return frame(ex, man, [saved, saved, 3], after)

    def after(ex, s, v):
        s.wblk(saved.b).alive = False
        if onret:
            return onret(ex, s, v)
        return None
    if inv.name == 'dv_user_done':
        event(st, 'done', ex.read(st, saved), status)
        r = destroy(ex, st, None)
        return r
    return frame(ex, inv, [saved, Ptr(sb.id)], destroy)


def user_done(ex, st, ci):
    fn, s = ci.args
    event(st, 'done', ex.read(st, fn), ex.read(st, s))


# ------------------------------------------------------------------ aggregators
def agg_call(K, op):
    def f(ex, st, ci):
        a = ci.args
        if op in ('SetFlushCallback', 'GetNextFlushInterval'):
            this, rest, out = a[0], a[1:], None
        else:
            out, this, rest = a[0], a[1], a[2:]
        vt = ex.read(st, this)
        w = C(st)
        if w is not None:
            ex.oblige(st, 'C25,C26,C28,C30: the %s aggregator called is the client\'s' % K.name, values_equal(this, w.v['agg_' + K.name]), 'pre', detail=op)
        if op == 'SetFlushCallback':
            p = rest[0]
            tok, man, inv = function_cells(st, p)
            if isinstance(man, Ptr) and man.b == 0:
                event(st, 'disconnect', K.name)
                st.ghost['disconnected'] = st.ghost.get('disconnected', ()) + (K.name,)
            else:
                fn = move_function(ex, st, p, 'flush callback')
                event(st, 'connect', K.name, fn)
            return None
        if op == 'GetNextFlushInterval':
            x = fresh(I, 'interval_' + K.name)
            st.assume(S.in_range(x, 32))
            event(st, 'interval', K.name, x)
            return x
        args = [ex.read(st, p) for p in rest]
        status = lib.mkstatus(fresh(I, 'status_%s_%s' % (K.name, op)), fresh(Str, 'message'))
        event(st, op, K.name, status, args, rest)
        if op in ('Check', 'Quota'):
            m = P.msg(K.resp)
            v = fresh(m.sort, 'cached')
            for x in P.wf(m, v):
                st.assume(x)
            ex.write(st, rest[1], v)
        flushes(ex, st, K)
        ex.write(st, out, status)
        return None
    return f


def flushes(ex, st, K):
    """any number of flush callbacks run inside the operation; each adds what its own unit shows"""
    if not st.ghost['alive'] or C(st) is None or K.name in st.ghost.get('disconnected', ()):
        return
    w = C(st)
    for c in [K.flushed] + (['send_report_operations'] if K is REPORT else []):
        k = fresh(I, 'flushed')
        st.assume(k >= 0)
        st.assume(k < 2 ** 40)
        o = w.L.off(c + '_', 'atomic')
        b = st.wblk(w.this.b)
        b.cells[o] = add(b.cells[o], k)
        st.ghost['more'] = st.ghost['more'] + ((c, k),)


def more(st, c):
    t = 0
    for n, k in st.ghost['more']:
        if n == c:
            t = add(t, k)
    return t


# ------------------------------------------------------------------ promise and future
def pr_ctor(ex, st, ci):
    n = len(st.ghost['promises'])
    st.ghost['promises'] = st.ghost['promises'] + (None,)
    ex.write(st, ci.args[0], n)
    st.ghost['syncframe'] = len(st.frames) - 1


def pr_move(ex, st, ci):
    ex.write(st, ci.args[0], ex.read(st, ci.args[1]))
    ex.write(st, ci.args[1], -1)


def pr_future(ex, st, ci):
    ex.write(st, ci.args[0], ex.read(st, ci.args[1]))


def pr_set(ex, st, ci):
    n = ex.read(st, ci.args[0])
    ps = st.ghost['promises']
    ok = is_c(n) and 0 <= n < len(ps) and ps[n] is None
    ex.oblige(st, 'C25: the result of a synchronous call is set exactly once', ok, 'pre')
    if not ok:
        raise PathEnd()
    v = ex.read(st, ci.args[1])
    st.ghost['promises'] = ps[:n] + (v,) + ps[n + 1:]
    hide = st.ghost.get('waiter')
    if hide is not None:
        # from here on the waiting thread may return: its locals are gone
        gone = []
        for a in st.frames[hide].allocas:
            if st.mem[a].alive:
                st.wblk(a).alive = False
                gone.append(a)
        st.ghost['gone'] = tuple(gone)


def pr_dtor(ex, st, ci):
    n = ex.read(st, ci.args[0])
    ps = st.ghost['promises']
    if is_c(n) and n >= 0:
        ex.oblige(st, 'C25: a synchronous call is not abandoned', ps[n] is not None, 'pre')


def fu_wait(ex, st, ci):
    return await_then(ex, st, ex.read(st, ci.args[0]), lambda ex, s: None)


def await_then(ex, st, n, then):
    """the completion arrives while the caller waits for promise n; then(ex, st) runs afterwards"""
    if st.ghost['promises'][n] is not None:
        return then(ex, st)
    pend = st.ghost['pending']
    ex.oblige(st, 'C25: a synchronous call waits only while a completion is outstanding', len(pend) == 1, 'pre')
    if len(pend) != 1:
        raise PathEnd()
    st.ghost['pending'] = ()
    st.ghost['waiter'] = st.ghost['syncframe']

    def back(ex, s, v):
        for a in s.ghost.get('gone', ()):
            s.wblk(a).alive = True
        s.ghost['waiter'] = None
        ex.oblige(s, 'C25: the completion wakes the synchronous call', s.ghost['promises'][n] is not None, 'pre')
        if s.ghost['promises'][n] is None:
            raise PathEnd()
        return then(ex, s)
    return complete(ex, st, pend[0], back)


def fu_get(ex, st, ci):
    n = ex.read(st, ci.args[1])

    def then(ex, s):
        ex.write(s, ci.args[0], s.ghost['promises'][n])
    return await_then(ex, st, n, then)


def nop(ex, st, ci):
    return None


def timer_event(n):
    def f(ex, st, ci):
        ex.read(st, ci.args[0])
        event(st, n, ci.args[0])
        if n == 'timer delete':
            lib.delete_block(ex, st, ci.args[0])
    return f


def agg_dtor(K):
    def f(ex, st, ci):
        p = ci.args[0]
        ex.read(st, p)
        event(st, 'destroyed', K.name)
        lib.delete_block(ex, st, p)
    return f


CONTRACTS = [(re.compile(r'std::_Sp_counted_base<.*>::_M_add_ref_copy\(\)'), add_ref),
             (re.compile(r'std::_Sp_counted_base<.*>::_M_release\(\)'), release),
             (re.compile(r'dv_user_manager'), user_manager),
             (re.compile(r'dv_user_done'), user_done),
             (re.compile(r'dv_timer_stop'), timer_event('stop')),
             (re.compile(r'dv_timer_delete'), timer_event('timer delete')),
             (re.compile(r'std::promise<pb::Status>::promise\(\)'), pr_ctor),
             (re.compile(r'std::promise<pb::Status>::promise\(std::promise<pb::Status>&&\)'), pr_move),
             (re.compile(r'std::promise<pb::Status>::~promise\(\)'), pr_dtor),
             (re.compile(r'std::promise<pb::Status>::get_future\(\)'), pr_future),
             (re.compile(r'std::promise<pb::Status>::set_value\('), pr_set),
             (re.compile(r'std::__basic_future<pb::Status>::wait\(\) const'), fu_wait),
             (re.compile(r'std::future<pb::Status>::get\(\)'), fu_get),
             (re.compile(r'std::(__basic_)?future<pb::Status>::~(__basic_)?future\(\)'), nop)]
for _K in KINDS:
    CONTRACTS.append((re.compile(r'dv_transport_%s$' % _K.name), transport(_K)))
    for _op in (_K.op, 'CacheResponse', 'Flush', 'FlushAll', 'SetFlushCallback', 'GetNextFlushInterval'):
        CONTRACTS.append((re.compile(r'scc::%sImpl::%s\(' % (_K.cls, _op)), agg_call(_K, _op)))
    CONTRACTS.append((re.compile(r'scc::%sImpl::~%sImpl\(\)' % (_K.cls, _K.cls)), agg_dtor(_K)))


# ------------------------------------------------------------------ counters
def watch(ex, st, b, p, what):
    """shared counters change by atomic read-modify-write operations only"""
    w = st.ghost.get('C')
    if w is None or ex.dry or b.id != w.this.b or what == 'read' or 'load' in what:
        return
    lo, hi = w.v['lo'], w.v['hi']
    if lo <= p.o < hi and not getattr(ex, 'in_rmw', False):
        ex.oblige(st, 'C27: a counter shared by threads changes in one atomic step', False, 'post', detail=what)


OPTS = dict(watch=watch, ub=True, timeout=10000)


def counts(u, st, changes, name=''):
    """every counter is its old value plus what happened"""
    w = C(st)
    for c in COUNTERS:
        want = add(add(u.v[c], changes.get(c, 0)), more(st, c))
        u.check(st, 'C27: %s counts exactly what happened' % c, Eq(counter(st, c), want), detail=name)


def nothing_left(u, st, when):
    """every block allocated by the function under contract is freed"""
    left = [b for b in st.mem.values() if b.alive and b.name.startswith('new@')]
    u.check(st, 'C28: what a send allocates is freed once it completes', not left, detail='%s: %s' % (when, ','.join(b.name for b in left)))


# ------------------------------------------------------------------ Check, Quota, Report
def request_args(u, K, done='dv_user_done'):
    req, rv = u.message('request', K.req)
    resp, pv = u.message('response', K.resp)
    u.st.mem[resp.b].kind = 'outside'
    d = u.block('on_done', 32)
    put_function(d, 0, u.int('on_done'), u.mod)
    d.cells[24] = FnPtr(done, u.mod)
    u.v.update(K=K, req=req, reqv=rv, resp=resp, done=d.cells[0], dblock=d.id)
    return req, resp, Ptr(d.id)


def setup_async(K, form):
    """form: 'own' transport given with the call; 'none' no transport; 'member' the client's; 'nomember' the client has none"""
    def f(u):
        v = client(u, transports=form != 'nomember')
        lo = min(v['L'].off(c + '_', 'atomic') for c in COUNTERS)
        setlohi(u, v)
        req, resp, done = request_args(u, K)
        u.args = [v['this'], req, resp, done]
        u.v['token'] = v['transport_' + K.name]
        if form in ('own', 'none'):
            t = u.block('transport', 32)
            tok = u.int('own transport')
            put_function(t, 0, tok if form == 'own' else None, u.mod)
            if form == 'own':
                t.cells[24] = FnPtr('dv_transport_' + K.name, u.mod)
            u.v['token'] = tok
            u.v['tblock'] = t.id
            u.args.append(Ptr(t.id))
    return f


def setlohi(u, v):
    offs = [v['L'].off(c + '_', 'atomic') for c in COUNTERS]
    d = dict(u.st.ghost['C'].v)
    d['lo'], d['hi'] = min(offs), max(offs) + 8
    u.st.ghost['C'] = Obj('client', **d)


def done_once(u, st, K, status, when):
    ds = events(st, 'done')
    u.check(st, 'C25: the completion callback runs exactly once', len(ds) == 1, detail=when)
    if len(ds) == 1:
        u.check(st, 'C25: the callback that runs is the caller\'s', Eq(ds[0][1], u.v['done']), detail=when)
        u.check(st, 'C25: the callback gets the status of the call', Eq(lib.scode(ds[0][2]), lib.scode(status)), detail=when)
        if z3.is_expr(status):
            u.check(st, 'C25: the callback gets the message of the call', Eq(lib.Status.smsg(ds[0][2]), lib.Status.smsg(status)), detail=when)


def cached(u, st, K, when, reqv):
    """C26 for one completed send of kind K"""
    comp = events(st, 'completion')
    if len(comp) != 1:
        return
    status, resp = comp[0][2], comp[0][3]
    good = lib.scode(status) == OK
    cs = events(st, 'CacheResponse')
    u.check(st, 'C26: responses enter the cache of their own kind', And(*[c[1] == K.name for c in cs]), detail=when)
    if K is REPORT:
        u.check(st, 'C26: report responses are not cached', not cs, detail=when)
        return
    if K is CHECK:
        u.check(st, 'C26: a check response is cached exactly when the transport succeeded', Eq(good, len(cs) == 1) if len(cs) < 2 else False, detail=when)
    else:
        u.check(st, 'C26: every quota answer or failure reaches the cache once', len(cs) == 1, detail=when)
    for c in cs:
        u.check(st, 'C26: the response is cached under its request', values_equal(c[3][0], reqv), detail=when)
        m = P.msg(K.resp)
        if K is CHECK:
            u.check(st, 'C26: the cached response is the one received', values_equal(c[3][1], resp), detail=when)
        else:
            u.check(st, 'C26: the cached quota response is the one received, an empty one after a failure',
                    z3.If(good, c[3][1] == resp, c[3][1] == m.default), detail=when)
    order = [e[0] for e in st.ghost['ev']]
    if cs and 'done' in order:
        u.check(st, 'C26: the response is cached before the caller is told', order.index('CacheResponse') < order.index('done'), detail=when)


def destroy_client(u, st):
    """the states after the client has been destroyed by its own destructor"""
    s = st.copy()
    d = [n for n in u.mod.funcs if re.match(r'scc::ServiceControlClientImpl::~ServiceControlClientImpl\(\)', u.mod.dem.get(n, n)) and 'D2Ev' in n]
    if len(d) != 1:
        raise Unsupported('destructor of the client')
    before = s.ghost['ev']
    out = []
    for e in run(u.ex, s, FnPtr(d[0], u.mod), [C(st).this]):
        e.ghost['ev'] = before           # its events are the subject of its own unit
        e.wblk(C(st).this.b).alive = False
        e.ghost['alive'] = False
        out.append(e)
    return out


def finish(u, st, when):
    """what happens after the function under contract returned: its arguments go away, the transport completes"""
    for k in ('dblock', 'tblock'):
        if k in u.v:
            st.wblk(u.v[k]).alive = False
    if u.v.get('reqdies', True):
        st.wblk(u.v['req'].b).alive = False
    outs = []
    for gone in (False, True):
        base = destroy_client(u, st) if gone else [st.copy()]
        for s in base:
            ss = [s]
            pend = s.ghost['pending']
            for rec in pend:
                nxt = []
                for x in ss:
                    x.ghost['pending'] = ()
                    r = complete_outside(u.ex, x, rec)
                    nxt += r
                ss = nxt
            outs += [(x, 'completed %s' % ('after the client is gone' if gone else 'later' if pend else 'at once'), gone) for x in ss]
    return outs


def complete_outside(ex, st, rec):
    st = st.copy()
    st.frames = []
    st.jump = None
    try:
        r = complete(ex, st, rec)
    except PathEnd:
        return []
    if isinstance(r, PushFrame):
        st.frames = [r.frame]
        return [e[1] for e in ex.explore([st]) if e[0] == 'ret']
    return [st]


def post_async(K, form):
    def f(u, st, ret):
        asked = events(st, K.op)
        sends = events(st, 'send')
        others = [e for e in st.ghost['ev'] if e[0] in ('Check', 'Quota', 'Report') and e[0] != K.op]
        u.check(st, 'C25: no other cache is asked', not others)
        ops = P.raw(P.msg(K.req), u.v['reqv'], 'operations') if K is REPORT else None
        if form in ('none', 'nomember'):
            u.check(st, 'C25: without a transport nothing is sent', not sends)
            done_once(u, st, K, lib.mkstatus(INVALID), 'no transport') if False else invalid(u, st)
            counts(u, st, {K.total: 1}, 'no transport')
            nothing_left(u, st, 'no transport')
            return
        u.check(st, 'C25: the cache is asked exactly once', len(asked) == 1)
        if len(asked) != 1:
            return
        status = asked[0][2]
        u.check(st, 'C25: the cache is asked for the caller\'s request', values_equal(asked[0][3][0], u.v['reqv']))
        if K is not REPORT:
            u.check(st, 'C25: the cache answers into the caller\'s response', values_equal(asked[0][4][1], u.v['resp']))
        missed = lib.scode(status) == NOTFOUND
        u.check(st, 'C25: the request is sent exactly when the cache did not handle it', Eq(missed, len(sends) == 1) if len(sends) < 2 else False)
        nops = S.seq_sort(ops.sort()).len(ops) if K is REPORT else 0
        ch = {K.total: 1, K.inflight: len(sends)}
        if K is REPORT and sends:
            ch['send_report_operations'] = nops
        counts(u, st, ch)
        for s in sends:
            u.check(st, 'C25: it is sent through the right transport', And(s[1] == K.name, Eq(s[2], u.v['token'])))
            u.check(st, 'C25: the request is sent unmodified', values_equal(s[3], u.v['reqv']))
            u.check(st, 'C25: the response goes to the caller\'s', values_equal(s[5], u.v['resp']))
        if not sends:
            done_once(u, st, K, status, 'handled by the cache')
            u.check(st, 'C26: nothing is cached without a response', not events(st, 'CacheResponse'))
            nothing_left(u, st, 'handled by the cache')
            return
        for s, when, gone in finish(u, st, ''):
            comp = events(s, 'completion')
            u.check(s, 'C25: one completion', len(comp) == 1, detail=when)
            done_once(u, s, K, comp[0][2], when)
            cached(u, s, K, when, u.v['reqv'])
            nothing_left(u, s, when)
            if not gone:
                counts(u, s, ch, when)
    return f


def invalid(u, st):
    ds = events(st, 'done')
    u.check(st, 'C25: the completion callback runs exactly once', len(ds) == 1, detail='no transport')
    if len(ds) == 1:
        u.check(st, 'C25: the callback that runs is the caller\'s', Eq(ds[0][1], u.v['done']), detail='no transport')
        u.check(st, 'C25: without a transport the status is invalid argument', Eq(lib.scode(ds[0][2]), INVALID))


DONE = r'std::function<void \(pb::Status const&\)>'


def entry(K, n):
    a = r'[^,()]*%s const&, [^,()]*%s\*' % (K.short, K.rshort)
    if n >= 3:
        a += ', ' + DONE
    if n == 4:
        a += r', std::function<void \(%s const&, %s\*, %s\)>' % ('[^,()]*' + K.short, '[^,()]*' + K.rshort, DONE)
    return r'^scc::ServiceControlClientImpl::%s\(%s\)$' % (K.op, a)


for _K in KINDS:
    for _form in ('own', 'none', 'member', 'nomember'):
        four = _form in ('own', 'none')
        UNITS.append(Unit(['C25', 'C26', 'C27', 'C28'], '%s, %s' % (_K.op, dict(own='transport given', none='empty transport given', member='client\'s transport', nomember='client without transport')[_form]),
                          TU, entry(_K, 4 if four else 3),
                          setup_async(_K, _form), post_async(_K, _form), opts=OPTS, contracts=CONTRACTS, mods=MODS))


# ------------------------------------------------------------------ synchronous forms
def setup_sync(K, form):
    def f(u):
        v = client(u, transports=form == 'member')
        setlohi(u, v)
        req, rv = u.message('request', K.req)
        resp, pv = u.message('response', K.resp)
        u.st.mem[resp.b].kind = 'outside'
        out = u.block('result', 16)
        u.v.update(K=K, req=req, reqv=rv, resp=resp, out=Ptr(out.id), token=v['transport_' + K.name])
        u.args = [Ptr(out.id), v['this'], req, resp]
    return f


def post_sync(K, form):
    def f(u, st, ret):
        status = u.read(st, u.v['out'])
        asked, sends, comp = events(st, K.op), events(st, 'send'), events(st, 'completion')
        u.check(st, 'C25: a synchronous call returns only after its completion', not st.ghost['pending'])
        nothing_left(u, st, 'synchronous call')
        if form != 'member':
            u.check(st, 'C25: without a transport nothing is sent', not sends)
            u.check(st, 'C25: without a transport the status is invalid argument', Eq(lib.scode(status), INVALID))
            counts(u, st, {K.total: 1})
            return
        u.check(st, 'C25: the cache is asked exactly once', len(asked) == 1)
        if len(asked) != 1:
            return
        missed = lib.scode(asked[0][2]) == NOTFOUND
        u.check(st, 'C25: the request is sent exactly when the cache did not handle it', Eq(missed, len(sends) == 1) if len(sends) < 2 else False)
        want = asked[0][2]
        if sends:
            u.check(st, 'C25: one completion', len(comp) == 1)
            if len(comp) != 1:
                return
            want = comp[0][2]
            u.check(st, 'C25: it is sent through the right transport', And(sends[0][1] == K.name, Eq(sends[0][2], u.v['token'])))
            u.check(st, 'C25: the request is sent unmodified', values_equal(sends[0][3], u.v['reqv']))
            u.check(st, 'C25: the response goes to the caller\'s', values_equal(sends[0][5], u.v['resp']))
            cached(u, st, K, 'synchronous call', u.v['reqv'])
        u.check(st, 'C25: the synchronous form returns the status of the call', Eq(status, want))
        ch = {K.total: 1, K.inflight: len(sends)}
        if K is REPORT and sends:
            ops = P.raw(P.msg(K.req), u.v['reqv'], 'operations')
            ch['send_report_operations'] = S.seq_sort(ops.sort()).len(ops)
        counts(u, st, ch)
    return f


for _K in KINDS:
    for _form in ('member', 'nomember'):
        UNITS.append(Unit(['C25', 'C26', 'C27', 'C28'], '%s, synchronous%s' % (_K.op, '' if _form == 'member' else ', client without transport'), TU,
                          entry(_K, 2), setup_sync(_K, _form), post_sync(_K, _form), opts=OPTS, contracts=CONTRACTS, mods=MODS))


# ------------------------------------------------------------------ flush callbacks
def setup_flush(K):
    def f(u):
        v = client(u)
        setlohi(u, v)
        req, rv = u.message('request', K.req)
        u.v.update(K=K, req=req, reqv=rv, token=v['transport_' + K.name])
        u.args = [v['this'], req]
    return f


def post_flush(K):
    def f(u, st, ret):
        sent(u, st, K, u.v['reqv'], u.v['token'])
        for s, when, gone in finish(u, st, ''):
            comp = events(s, 'completion')
            u.check(s, 'C25: one completion', len(comp) == 1, detail=when)
            u.check(s, 'C25: flushing calls nobody back', not events(s, 'done'), detail=when)
            if K is QUOTA:
                cached(u, s, K, when, u.v['reqv'])
            nothing_left(u, s, when)
            if not gone:
                sent(u, s, K, u.v['reqv'], u.v['token'])
    return f


def sent(u, st, K, reqv, token):
    """exactly one flushed request was sent and counted"""
    sends = events(st, 'send')
    u.check(st, 'C27,C30: a flushed request is sent exactly once', len(sends) == 1)
    for s in sends:
        u.check(st, 'C25,C30: it is sent through the right transport', And(s[1] == K.name, Eq(s[2], token)))
        u.check(st, 'C25,C30: the flushed request is sent unmodified', values_equal(s[3], reqv))
    ch = {K.flushed: 1}
    if K is REPORT:
        ops = P.raw(P.msg(K.req), reqv, 'operations')
        ch['send_report_operations'] = S.seq_sort(ops.sort()).len(ops)
    counts(u, st, ch)


for _K, _n in ((CHECK, 'CheckFlushCallback'), (QUOTA, 'AllocateQuotaFlushCallback'), (REPORT, 'ReportFlushCallback')):
    UNITS.append(Unit(['C25', 'C26', 'C27', 'C28', 'C30'], _n, TU, r'^scc::ServiceControlClientImpl::%s\([^$]*\)$' % _n, setup_flush(_K), post_flush(_K), opts=OPTS,
                      contracts=CONTRACTS, mods=MODS, optional=True))


# ------------------------------------------------------------------ statistics
def setup_stats(u):
    v = client(u)
    setlohi(u, v)
    SL = u.layout(NS + 'Statistics')
    b = u.block('statistics', SL.size)
    for o, t, n, d in SL.fields:
        b.cells[o] = u.int('old_' + n)
    out = u.block('result', 16)
    u.v['stat'], u.v['out'], u.v['SL'] = b.id, Ptr(out.id), SL
    u.v['before'] = dict(u.st.mem[v['this'].b].cells)
    u.args = [Ptr(out.id), v['this'], Ptr(b.id)]


def post_stats(u, st, ret):
    u.check(st, 'C27: reading the statistics succeeds', Eq(lib.scode(u.read(st, u.v['out'])), OK))
    for o, t, n, d in u.v['SL'].fields:
        u.check(st, 'C27: the statistics report %s' % n, Eq(st.mem[u.v['stat']].cells.get(o), u.v[n]))
    now = st.mem[u.v['this'].b].cells
    u.check(st, 'C27: reading the statistics changes nothing', And(set(now) == set(u.v['before']), *[values_equal(now[o], x) for o, x in u.v['before'].items() if o in now]))
    u.check(st, 'C27: reading the statistics calls nobody', not st.ghost['ev'])


UNITS.append(Unit(['C27'], 'GetStatistics', TU, r'^scc::ServiceControlClientImpl::GetStatistics\(', setup_stats, post_stats, opts=OPTS, contracts=CONTRACTS, mods=MODS))


# ------------------------------------------------------------------ construction, ticks
def create(K):
    def f(ex, st, ci):
        a = ci.args
        out, name, cfg, opt = a[:4]
        w = st.ghost['O']
        OL = w.v['OL_' + K.name]
        got = tuple(ex.read(st, Ptr(opt.b, opt.o + o)) for o, t, n, d in OL.fields)
        kinds = ex.read(st, a[4]) if len(a) > 4 else None
        event(st, 'create', K.name, ex.read(st, name), ex.read(st, cfg), got, kinds)
        b = st.new_block(K.name + ' aggregator', 512, 'heap')
        b.cells[0] = w.v['vt_' + K.name]
        st.ghost['agg_' + K.name] = Ptr(b.id)
        ex.write(st, out, Ptr(b.id))
    return f


def make_timer(ex, st, ci):
    out, fn, ms, tick = ci.args
    w = st.ghost['O']
    x = ex.read(st, ms)
    where = move_function(ex, st, tick, 'tick')
    t = st.new_block('timer', 8, 'heap')
    t.cells[0] = w.v['vt_timer']
    st.ghost['timer'] = Ptr(t.id)
    event(st, 'timer', x, where, ex.read(st, fn))
    ex.write(st, out, Ptr(t.id))


def setup_ctor(how, with_timer):
    def f(u):
        st = u.st
        L = u.layout(NS + 'ServiceControlClientImpl')
        OL = u.layout(NS + 'ServiceControlClientOptions')
        ghosts(st)
        p1, n = u.string('service name')
        p2, cfg = u.string('config id')
        o = u.block('options', OL.size)
        v = dict(L=L, n=n, cfg=cfg)
        for K, cls in ((CHECK, 'CheckAggregationOptions'), (QUOTA, 'QuotaAggregationOptions'), (REPORT, 'ReportAggregationOptions')):
            KL = u.layout(NS + cls)
            v['OL_' + K.name] = KL
            base = OL.off(K.name + '_options')
            vals = []
            for off, t, nm, d in KL.fields:
                x = u.int(K.name + '_' + nm, 32)
                o.cells[base + off] = x
                vals.append(x)
            v['opt_' + K.name] = tuple(vals)
            tok = u.int('transport_' + K.name)
            v['transport_' + K.name] = tok
            to = OL.off(K.name + "_transport")
            put_function(o, to, tok, u.mod)
            o.cells[to + 24] = FnPtr('dv_transport_' + K.name, u.mod)
            v['vt_' + K.name] = impl_vtable(u, K)
        kinds = u.block('metric kinds', 56, 'heap')
        kc = u.block('count of metric kinds', 24, 'heap')
        cnt = u.int('owners of metric kinds', 30)
        u.assume(cnt >= 1)
        kc.cells[8], kc.cells[12] = cnt, 1
        mk = OL.off('metric_kinds')
        o.cells[mk], o.cells[mk + 8] = Ptr(kinds.id), Ptr(kc.id)
        v['kinds'], v['kindcount'], v['owners'] = Ptr(kinds.id), Ptr(kc.id), cnt
        s = fresh(Str, 'grpc server')
        o.cells[OL.off('service_control_grpc_server')] = s
        tm = OL.off('periodic_timer')
        v['maker'] = u.int('timer maker')
        put_function(o, tm, v['maker'] if with_timer else None, u.mod)
        if with_timer:
            o.cells[tm + 24] = FnPtr('dv_make_timer', u.mod)
        t = timer(u)
        v['vt_timer'] = st.mem[t.b].cells[0]
        st.wblk(t.b).alive = False
        st.ghost['O'] = Obj('options', **v)
        u.v.update(v)
        if how == 'new':
            out = u.block('result', 8)
            u.v['out'] = Ptr(out.id)
            u.args = [Ptr(out.id), p1, p2, Ptr(o.id)]
        else:
            b = u.block('client', L.size, 'heap')
            u.v['this'] = Ptr(b.id)
            u.args = [Ptr(b.id), p1, p2, Ptr(o.id)]
    return f


def calling(u, st, fn, args):
    """the end states of calling a std::function object"""
    inv = st.mem[fn.b].cells.get(24)
    if not isinstance(inv, FnPtr):
        return None
    return run(u.ex, st, inv, [fn] + args)


def post_ctor(how, with_timer):
    def f(u, st, ret):
        v, L = u.v, u.v['L']
        this = v['this'] if how == 'ctor' else u.read(st, v['out'])
        u.check(st, 'C30: a client is made', isinstance(this, Ptr) and this.b != 0)
        cells = st.mem[this.b].cells
        ev = st.ghost['ev']
        for c in COUNTERS:
            u.check(st, 'C27: %s starts at zero' % c, Eq(cells.get(L.off(c + '_', 'atomic')), 0))
        w = dict(this=this, L=L)
        for K in KINDS:
            cr = [e for e in ev if e[0] == 'create' and e[1] == K.name]
            u.check(st, 'C30: one %s cache is made' % K.name, len(cr) == 1)
            if len(cr) != 1:
                return
            u.check(st, 'C30: the %s cache gets the client\'s names and options' % K.name,
                    And(Eq(cr[0][2], v['n']), Eq(cr[0][3], v['cfg']), *[Eq(x, y) for x, y in zip(cr[0][4], v['opt_' + K.name])]))
            if K is not QUOTA:
                u.check(st, 'C30: the %s cache gets the metric kinds' % K.name, values_equal(cr[0][5], v['kinds']))
            a = st.ghost['agg_' + K.name]
            u.check(st, 'C30: the client holds its %s cache' % K.name, values_equal(cells.get(L.off(K.agg)), a))
            tok, man, inv = (cells.get(L.off(K.transport) + d) for d in (0, 16, 24))
            u.check(st, 'C25,C30: the client holds the configured %s transport' % K.name,
                    And(isinstance(inv, FnPtr) and inv.name == 'dv_transport_' + K.name, isinstance(man, FnPtr), Eq(tok, v['transport_' + K.name])))
            w['agg_' + K.name] = a
            w['transport_' + K.name] = v['transport_' + K.name]
        u.check(st, 'the metric kinds\' owner keeps them', toint(st.mem[v['kindcount'].b].cells[8]) >= v['owners'])
        offs = [L.off(c + '_', 'atomic') for c in COUNTERS]
        w['lo'], w['hi'] = min(offs), max(offs) + 8
        st.ghost['C'] = Obj('client', **w)
        st.ghost['alive'] = True
        for c in COUNTERS:
            u.v[c] = cells.get(L.off(c + '_', 'atomic'))
        # each cache flushes into its own transport
        for K in KINDS:
            con = [e for e in ev if e[0] in ('connect', 'disconnect') and e[1] == K.name]
            u.check(st, 'C30: the %s cache is connected to the client' % K.name, len(con) == 1 and con[0][0] == 'connect')
            if not con or con[-1][0] != 'connect':
                continue
            s = st.copy()
            s.ghost['ev'] = ()
            s.ghost['defer_only'] = True
            m = P.msg(K.req)
            rv = fresh(m.sort, 'flushed')
            for x in P.wf(m, rv):
                s.assume(x)
            rb = s.new_block('flushed request', 64, 'arg')
            rb.cells[0] = rv
            ends = calling(u, s, con[-1][2], [Ptr(rb.id)])
            u.check(s, 'C30: flushing the %s cache works' % K.name, bool(ends))
            for e in ends or ():
                sent(u, e, K, rv, v['transport_' + K.name])
        # the timer
        tm = [e for e in ev if e[0] == 'timer']
        iv = {}
        for e in ev:
            if e[0] == 'interval':
                iv.setdefault(e[1], []).append(e[2])
        if not with_timer:
            u.check(st, 'C30: no timer without a timer function', not tm)
            return
        xs = [iv.get(K.name, [None])[-1] for K in KINDS]
        u.check(st, 'C30: every cache is asked for its flush interval', all(x is not None for x in xs))
        if not all(x is not None for x in xs):
            return
        anyone = z3.Or(*[x > 0 for x in xs])
        u.check(st, 'C30: a timer is made when any cache is enabled', z3.Implies(anyone, len(tm) == 1))
        u.check(st, 'C30: at most one timer is made', len(tm) <= 1)
        ft = cells.get(L.off('flush_timer_'))
        if not tm:
            return
        t = tm[0]
        u.check(st, 'C30: the timer comes from the client\'s options', Eq(t[3], v['maker']))
        u.check(st, 'C30: the timer runs at the smallest interval any enabled cache asks for',
                z3.Implies(anyone, And(*([z3.Implies(x > 0, t[1] <= x) for x in xs] + [z3.Or(*[And(x > 0, t[1] == x) for x in xs])]))))
        u.check(st, 'C30: the client keeps the timer', values_equal(ft, st.ghost['timer']))
        # a tick while the client lives, and one that is still running when the client goes away
        s = st.copy()
        s.ghost['ev'] = ()
        tick(u, s, t[2], 'client alive')
        for s in destroy_client(u, st):
            s.ghost['ev'] = ()
            tick(u, s, t[2], 'client gone')
    return f


def tick(u, s, fn, when):
    ends = calling(u, s, fn, [])
    u.check(s, 'C30: a tick runs', bool(ends), detail=when)
    for e in ends or ():
        for K in KINDS:
            n = [x for x in e.ghost['ev'] if x[1] == K.name and x[0] in ('Flush', 'FlushAll')]
            u.check(e, 'C30: a tick flushes the %s cache once' % K.name, len(n) == 1 and n[0][0] == 'Flush', detail=when)
        u.check(e, 'C30: a tick does nothing else', len(e.ghost['ev']) == 3, detail=when)


CTOR = CONTRACTS + [(re.compile(r'scc::CreateCheckAggregator\('), create(CHECK)),
                    (re.compile(r'scc::CreateAllocateQuotaAggregator\('), create(QUOTA)),
                    (re.compile(r'scc::CreateReportAggregator\('), create(REPORT)),
                    (re.compile(r'dv_make_timer'), make_timer)]
for _t in (True, False):
    for _h in ('ctor', 'new'):
        UNITS.append(Unit(['C25', 'C27', 'C30', 'C28'], '%s, %s timer' % (dict(ctor='construction', new='CreateServiceControlClient')[_h], 'with' if _t else 'without'), TU,
                          r'^scc::ServiceControlClientImpl::ServiceControlClientImpl\([^$]*\)$' if _h == 'ctor' else r'^scc::CreateServiceControlClient\(',
                          setup_ctor(_h, _t), post_ctor(_h, _t), opts=OPTS, contracts=CTOR, mods=MODS))


# ------------------------------------------------------------------ destruction
def setup_dtor(with_timer):
    def f(u):
        v = client(u, timer_present=with_timer)
        setlohi(u, v)
        u.args = [v['this']]
    return f


def post_dtor(with_timer):
    def f(u, st, ret):
        ev = st.ghost['ev']
        pos = lambda f: [i for i, e in enumerate(ev) if f(e)]
        flush = {K.name: pos(lambda e: e[0] == 'FlushAll' and e[1] == K.name) for K in KINDS}
        off = {K.name: pos(lambda e: e[0] == 'disconnect' and e[1] == K.name) for K in KINDS}
        stop = pos(lambda e: e[0] == 'stop')
        gone = pos(lambda e: e[0] == 'timer delete')
        for K in KINDS:
            u.check(st, 'C30: destroying the client flushes the %s cache' % K.name, len(flush[K.name]) >= 1)
            u.check(st, 'C28,C30: destroying the client disconnects the %s cache' % K.name, len(off[K.name]) >= 1 and not pos(lambda e: e[0] == 'connect'))
            if not flush[K.name] or not off[K.name]:
                continue
            u.check(st, 'C30: the %s cache is flushed before it is disconnected' % K.name, flush[K.name][0] < off[K.name][0])
            u.check(st, 'C30: everything is flushed before the timer stops', not stop or flush[K.name][0] < stop[0])
            dead = pos(lambda e: e[0] == 'destroyed' and e[1] == K.name)
            u.check(st, 'C28: the %s cache goes exactly when nobody else holds it' % K.name, Eq(u.v['others_' + K.name] == 0, len(dead) == 1) if len(dead) < 2 else False)
        u.check(st, 'C30: the timer is stopped', len(stop) == (1 if with_timer else 0))
        if with_timer:
            u.check(st, 'C28,C30: the timer is released after it was stopped', len(gone) == 1 and bool(stop) and stop[0] < gone[0])
    return f


for _t in (True, False):
    UNITS.append(Unit(['C28', 'C30'], 'destruction, %s timer' % ('with' if _t else 'without'), TU, r'^scc::ServiceControlClientImpl::~ServiceControlClientImpl\(\)$',
                      setup_dtor(_t), post_dtor(_t), opts=OPTS, contracts=CONTRACTS, mods=MODS))
