"""C12..C20, C29: the three request aggregators, operation by operation."""
from .aggcommon import *

UNITS = []


# ================================================================== reports
def rq(u=None):
    return P.msg(SC + 'ReportRequest')


def r_ops(v):
    return P.raw(rq(), v, 'operations')


def seq_of(full):
    return P.msg(full)


def opseq():
    return S.seq_sort(rq().by['operations'].fsort) if hasattr(rq().by['operations'], 'fsort') else None


def r_entry(ex, st, key):
    b = st.new_block('entry:report', 512, 'resident')
    b.cells[0] = fresh(Agg, 'entry')
    return Ptr(b.id)


def r_expect(ex, st, key, op, what):
    """the operation absorbed now is the next one of the request, under its own key"""
    n = st.ghost['absorbed']
    ops = r_ops(st.ghost['req'])
    q = S.seq_sort(ops.sort())
    ex.oblige(st, 'C12,C13: operations are absorbed in order, each once (%s)' % what, And(n < q.len(ops), Eq(op, q.at(ops, n))), 'pre')
    ex.oblige(st, 'C13: absorbed under the key of its identity (%s)' % what, Eq(key, sig_report(op)), 'pre')
    ex.oblige(st, 'C14: an aggregated operation that became too big is flushed first', Not(tobool(st.ghost['due'])), 'pre')
    st.ghost['absorbed'] = add(n, 1)


def r_on_merge(ex, st, p, op):
    hit = [k for k, b in st.ghost['pins'] if b == p.b]
    ex.oblige(st, 'C13: merges only into an entry it has pinned', len(hit) == 1 and p.o == 0, 'pre')
    if hit:
        r_expect(ex, st, hit[0], op, 'merge')
        st.ghost['due'] = agg_toobig(ex.read(st, p))
        st.ghost['duekey'] = hit[0]


def r_on_insert(ex, st, key, p):
    n = st.ghost['absorbed']
    ops = r_ops(st.ghost['req'])
    q = S.seq_sort(ops.sort())
    op = q.at(ops, n)
    ex.oblige(st, 'C13: a new entry holds exactly the operation', Eq(ex.read(st, p), agg_new(op)), 'pre')
    r_expect(ex, st, key, op, 'new entry')


def r_on_remove(ex, st, key):
    ex.oblige(st, 'C13,C14: only an aggregated operation that is too big is flushed early',
              And(tobool(st.ghost['due']), Eq(key, st.ghost['duekey'])), 'pre')
    ex.oblige(st, 'C13: not removed while pinned by the same call', len(st.ghost['pins']) == 0, 'pre')
    st.ghost['due'] = False


def setup_report(cached):
    def f(u):
        world(u, REPORT, cached)
        ret = u.block('ret', 40)
        p, v = u.message('request', SC + 'ReportRequest')
        u.v.update(ret=Ptr(ret.id), p=p, v=v)
        g = u.st.ghost
        g['req'] = v
        g['absorbed'] = z3.IntVal(0)
        g['due'] = z3.BoolVal(False)
        g['duekey'] = S.EMPTY
        u.args = [Ptr(ret.id), u.v['this'], p]
    return f


def low(op):
    return Eq(P.raw(P.msg(SC + 'Operation'), op, 'importance'), 0)


def post_report(cached):
    def f(u, st, ret):
        v, w = u.v['v'], W(st)
        c = code(u, st)
        ops = r_ops(v)
        q = S.seq_sort(ops.sort())
        own = Eq(P.raw(rq(), v, 'service_name'), w.service_name_)
        i = z3.Int('i')
        alllow = forall([i], z3.Implies(z3.And(0 <= i, i < q.len(ops)), zbool(low(q.at(ops, i)))), patterns=[q.at(ops, i)])
        n = st.ghost['absorbed']
        u.check(st, 'C12: another service is rejected as invalid', Implies(Not(own), Eq(c, INVALID)))
        u.check(st, 'C12: invalid only for another service', Implies(own, Or(Eq(c, OK), Eq(c, NOTFOUND))))
        u.check(st, 'C12: nothing absorbed or flushed unless acknowledged',
                Implies(Not(Eq(c, OK)), And(Eq(n, 0), Eq(st.ghost['cacheops'], 0), len(st.ghost['adds']) == 0)))
        u.check(st, 'C12: acknowledged only if every operation is low importance', Implies(Eq(c, OK), alllow))
        if cached:
            u.check(st, 'C12: low importance reports are acknowledged', Implies(And(own, alllow), Eq(c, OK)))
            u.check(st, 'C12,C13: acknowledged reports are absorbed completely', Implies(Eq(c, OK), Eq(n, q.len(ops))))
        else:
            u.check(st, 'C12: nothing is acknowledged with caching disabled', Not(Eq(c, OK)))
        u.check(st, 'C14: an aggregated operation that became too big has been flushed', Not(tobool(st.ghost['due'])))
        u.check(st, 'C12: the request is not modified', Eq(u.read(st, u.v['p']), v))
        api_post(u, st, REPORT)
    return f


def inv_low(c):
    v = c.s0.ghost['req']
    ops = r_ops(v)
    q = S.seq_sort(ops.sort())
    i = z3.Int('i')
    return forall([i], z3.Implies(z3.And(0 <= i, i < c.k), zbool(low(q.at(ops, i)))), patterns=[q.at(ops, i)])


def inv_flag(c):
    """a local flag tells whether an operation so far is not of low importance"""
    v = c.s0.ghost['req']
    ops = r_ops(v)
    q = S.seq_sort(ops.sort())
    i = z3.Int('i')
    alllow = forall([i], z3.Implies(z3.And(0 <= i, i < c.k), zbool(low(q.at(ops, i)))), patterns=[q.at(ops, i)])
    out = []
    for a in c.s0.frames[-1].allocas:
        x0, x = c.s0.mem[a].cells.get(0), c.st.mem[a].cells.get(0)
        if len(c.s0.mem[a].cells) == 1 and c.s0.mem[a].size == 1 and is_c(x0) and x0 in (0, 1):
            out.append(Eq(Eq(x, x0), alllow))
    if len(out) != 1:
        raise KeyError('flag')
    return out[0]


def inv_absorbed(c):
    return Eq(c.st.ghost['absorbed'], c.k)


def inv_due(c):
    return Not(tobool(c.st.ghost['due']))


R_OPTS = dict(candidates=[('only-low-importance-so-far', inv_low), ('flag-tells-importance-so-far', inv_flag), ('absorbed-so-far', inv_absorbed), ('nothing-due', inv_due)],
              timeout=20000, merge=False, on_lock=on_unlock, watch=watch(REPORT), on_merge=r_on_merge)
R_CONTRACTS = base_contracts(REPORT, Cache(REPORT, r_entry, r_on_insert, r_on_remove))

for cached in (True, False):
    UNITS.append(Unit(['C12', 'C13', 'C14', 'C29'], 'Report (%s)' % ('caching' if cached else 'no cache'), REPORT.tu, REPORT.rx('Report'),
                      setup_report(cached), post_report(cached), opts=R_OPTS, contracts=R_CONTRACTS, weight=5))


# ------------------------------------------------------------------ an aggregated operation leaves the cache
def entry_block(u, content, size=512, name='entry:leaving'):
    b = u.st.new_block(name, size, 'heap')
    for o, x in content.items():
        b.cells[o] = x
    return Ptr(b.id)


def setup_r_delete(u):
    world(u, REPORT, True, buffer=True)
    u.v['agg'] = fresh(Agg, 'aggregated')
    u.v['iop'] = entry_block(u, {0: u.v['agg']})
    u.args = [u.v['this'], u.v['iop']]


def fields_eq(m, v, **kw):
    """every field of message v: the given values, defaults elsewhere"""
    out = []
    for f in m.fields:
        want = kw.get(f.name)
        out.append(Eq(P.raw(m, v, f.name), want if want is not None else P.raw(m, m.default, f.name)))
    return And(*out)


def one_item(u, st, K, **kw):
    adds = st.ghost['adds']
    u.check(st, K.flush.split(',')[0] + ': leaves in exactly one flushed request', len(adds) == 1)
    if len(adds) == 1:
        m = P.msg(K.req)
        u.check(st, K.flush.split(',')[0] + ': carries the configured service name and config id',
                And(Eq(P.raw(m, adds[0], 'service_name'), W(st).service_name_),
                    Eq(P.raw(m, adds[0], 'service_config_id'), W(st).service_config_id_)))
    return adds[0] if len(adds) == 1 else None


def disposed(u, st):
    b = st.mem.get(u.v['iop'].b)
    u.check(st, 'C13,C17,C20: the entry is deleted exactly once', b is None or not b.alive)


def still_locked(u, st):
    u.check(st, 'C29: the cache lock stays with its holder', st.ghost['held'] == ((W(st).lock, 1),))
    u.check(st, 'C29: the buffer stays installed for its installer', installed(st) is not None)


def post_r_delete(u, st, ret):
    a = one_item(u, st, REPORT)
    if a is not None:
        ops = r_ops(a)
        q = S.seq_sort(ops.sort())
        u.check(st, 'C13: carries exactly the full aggregated operation', And(Eq(q.len(ops), 1), Eq(q.at(ops, 0), agg_proto(u.v['agg']))))
    disposed(u, st)
    still_locked(u, st)


UNITS.append(Unit(['C13', 'C29'], 'Report OnCacheEntryDelete', REPORT.tu, REPORT.rx('OnCacheEntryDelete'), setup_r_delete, post_r_delete,
                  opts=R_OPTS, contracts=R_CONTRACTS))


# ------------------------------------------------------------------ the pending-removal buffer
def setup_mergeitem(u):
    world(u, REPORT, True, buffer=True)
    pn, n = u.message('new', REPORT.req)
    po, o = u.message('old', REPORT.req)
    for v in (n, o):
        q = S.seq_sort(r_ops(v).sort())
        u.assume(q.len(r_ops(v)) < 2 ** 30)          # memory bound: the sum of two sizes fits an int
    u.v.update(pn=pn, n=n, po=po, o=o)
    u.args = [u.v['this'], pn, po]


def concat_ok(u, st, r, o, n, tag):
    """r is o followed by n"""
    m = P.msg(REPORT.req)
    q = S.seq_sort(r_ops(o).sort())
    R, O, N = r_ops(r), r_ops(o), r_ops(n)
    i = u.int('i')
    out = [Eq(P.raw(m, o, 'service_name'), P.raw(m, n, 'service_name')), Eq(P.raw(m, r, 'service_name'), P.raw(m, o, 'service_name')),
           Implies(Eq(P.raw(m, o, 'service_config_id'), P.raw(m, n, 'service_config_id')),
                   Eq(P.raw(m, r, 'service_config_id'), P.raw(m, o, 'service_config_id'))),
           Eq(q.len(R), q.len(O) + q.len(N)),
           Implies(And(0 <= i, i < q.len(O)), Eq(q.at(R, i), q.at(O, i))),
           Implies(And(0 <= i, i < q.len(N)), Eq(q.at(R, q.len(O) + i), q.at(N, i)))]
    return And(*out)


def post_mergeitem(u, st, ret):
    o, n = u.v['o'], u.v['n']
    r = u.read(st, u.v['po'])
    q = S.seq_sort(r_ops(o).sort())
    yes = tobool(ret)
    m = P.msg(REPORT.req)
    u.check(st, 'C14: never mixes services', Implies(yes, Eq(P.raw(m, o, 'service_name'), P.raw(m, n, 'service_name'))))
    u.check(st, 'C14: at most ten operations', Implies(yes, q.len(r_ops(r)) <= 10))
    u.check(st, 'C13,C14: keeps all operations of both in order', Implies(yes, concat_ok(u, st, r, o, n, '')))
    u.check(st, 'C13,C14: refused merge changes nothing', Implies(Not(yes), Eq(r, o)))
    u.check(st, 'C13: source unchanged', Eq(u.read(st, u.v['pn']), n))


UNITS.append(Unit(['C13', 'C14'], 'Report MergeItem', REPORT.tu, REPORT.rx('MergeItem'), setup_mergeitem, post_mergeitem,
                  opts=R_OPTS, contracts=R_CONTRACTS, optional=True))


def buffer_world(u, K, callback=True, installed=True):
    """an aggregator and its pending-removal buffer with content"""
    world(u, K, True, buffer=installed, callback=callback)
    L = u.layout(NS + 'CacheRemovedItemsHandler<class %s%s>::StackBuffer' % (V1, K.short))
    if not installed:
        u.v['buffer'] = Ptr(u.st.new_block('buffer', L.size, 'stack').id)
    b = u.st.wblk(u.v['buffer'].b)
    for o in range(0, 1):
        b.cells[o] = vtable_of(u, K)
    b.cells[L.off('handler_')] = Ptr(u.v['this'].b, u.v['base'])
    m = P.msg(K.req)
    q = S.seq_of(m.sort)
    v = fresh(q.sort, 'items')
    u.assume(q.len(v) >= 0, q.len(v) < 2 ** 31)
    b.cells[L.off('items_', 'vector')] = v
    u.v.update(items=v, pitems=Ptr(b.id, L.off('items_', 'vector')), q=q)
    return L


def vtable_of(u, K):
    for n in u.mod.globals:
        if n.startswith('_ZTV') and n.endswith('11StackBufferE') and K.short in n:
            p = u.ex.global_ptr(u.st, n, u.mod)
            return Ptr(p.b, 16)
    return UNDEF


def setup_sb_add(K):
    def f(u):
        buffer_world(u, K)
        q = u.v['q']
        p, v = u.message('item', K.req)
        u.v.update(p=p, v=v)
        if K is REPORT:
            v0 = u.v['items']
            u.assume(S.seq_sort(r_ops(v).sort()).len(r_ops(v)) < 2 ** 30)
            last = q.at(v0, q.len(v0) - 1)
            so = S.seq_sort(r_ops(v).sort())
            u.assume(so.len(r_ops(last)) >= 0, so.len(r_ops(last)) < 2 ** 30)
        u.args = [u.v['buffer'], p]
    return f


def post_sb_add(K):
    def f(u, st, ret):
        q, v0, v = u.v['q'], u.v['items'], u.v['v']
        r = u.read(st, u.v['pitems'])
        i = u.int('i')
        n = q.len(v0)
        last = q.at(v0, n - 1)
        app = And(Eq(q.len(r), n + 1), Implies(And(0 <= i, i < n), Eq(q.at(r, i), q.at(v0, i))), Eq(q.at(r, n), v))
        c = K.flush.split(',')[0]
        if K is REPORT:
            new = q.at(r, n - 1)
            so = S.seq_sort(r_ops(v).sort())
            m = P.msg(REPORT.req)
            mer = And(n > 0, Eq(q.len(r), n), Implies(And(0 <= i, i < n - 1), Eq(q.at(r, i), q.at(v0, i))),
                      concat_ok(u, st, new, last, v, ''))
            u.check(st, 'C13: the removed item is queued exactly once, completely and in order', Or(app, mer))
            u.check(st, 'C14: never merges into a request of more than ten operations', Or(app, so.len(r_ops(new)) <= 10))
            u.check(st, 'C14: never mixes services', Or(app, Eq(P.raw(m, last, 'service_name'), P.raw(m, v, 'service_name'))))
        else:
            u.check(st, c + ': the removed item is queued exactly once', app)
        u.check(st, c + ': the item is unchanged', Eq(u.read(st, u.v['p']), v))
    return f


def callback_event(ex, st, ci):
    """the flush callback supplied by the user runs"""
    fn, arg = ci.args
    w = W(st)
    ex.oblige(st, 'C29: flush callbacks run without the cache lock', not locked(st), 'pre')
    ex.oblige(st, 'C29: flush callbacks run with no lock held that they may take again',
              not [k for k, n in st.ghost['held'] if k in st.ghost['plain_locks']], 'pre')
    ex.oblige(st, 'C29: a callback may replace itself while it runs', fn.b != w.this.b, 'pre')
    ex.oblige(st, 'flush callback: the installed callback is called', w.token is not None and values_equal(ex.read(st, fn), w.token), 'pre')
    h = ex.opts.get('on_callback')
    if h:
        h(ex, st, arg)


def on_flushed(ex, st, arg):
    n = st.ghost['flushed']
    v, q = st.ghost['items'], S.seq_sort(st.ghost['items'].sort())
    ex.oblige(st, 'C13,C17,C19,C20: each pending item is passed to the callback once, in order', And(n < q.len(v), Eq(ex.read(st, arg), q.at(v, n))), 'pre')
    st.ghost['flushed'] = add(n, 1)


def setup_sb_dtor(K, cb):
    def f(u):
        buffer_world(u, K, callback=cb, installed=False)
        u.st.ghost['flushed'] = z3.IntVal(0)
        u.st.ghost['items'] = u.v['items']
        u.args = [u.v['buffer']]
    return f


def post_sb_dtor(K, cb):
    def f(u, st, ret):
        n, q, v = st.ghost['flushed'], u.v['q'], u.v['items']
        if cb:
            u.check(st, K.flush + ': every pending item is passed to the installed callback', Eq(n, q.len(v)))
        else:
            u.check(st, K.flush + ': no callback, no call', Eq(n, 0))
        u.check(st, 'C29: every lock taken is released', st.ghost['held'] == ())
    return f


def inv_flushed(c):
    return Eq(c.st.ghost['flushed'], c.k)


def opts_for(K, **kw):
    o = dict(timeout=20000, on_lock=on_unlock, watch=watch(K))
    o.update(kw)
    return o


def contracts_for(K, cache, skip=()):
    return [c for c in base_contracts(K, cache) if not any(s in c[0].pattern for s in skip)] + \
        [(re.compile(r'dv_user_invoke'), callback_event)]


CACHES = {REPORT: Cache(REPORT, r_entry, r_on_insert, r_on_remove)}

for K in (REPORT, CHECK, QUOTA):
    ps = K.flush.split(',')
    UNITS.append(Unit(ps + (['C14'] if K is REPORT else []), '%s StackBuffer::Add' % K.name, K.tu, r'^scc::CacheRemovedItemsHandler<.*>::StackBuffer::Add\(',
                      setup_sb_add(K), post_sb_add(K), opts=opts_for(K), contracts=contracts_for(K, None, ['StackBuffer::Add'])))
    for cb in (True, False):
        UNITS.append(Unit(ps + ['C29'], '%s ~StackBuffer (%s)' % (K.name, 'callback' if cb else 'no callback'), K.tu,
                          r'^scc::CacheRemovedItemsHandler<.*>::StackBuffer::~StackBuffer\(',
                          setup_sb_dtor(K, cb), post_sb_dtor(K, cb),
                          opts=opts_for(K, on_callback=on_flushed, candidates=[('flushed-so-far', inv_flushed)]),
                          contracts=contracts_for(K, None, ['~StackBuffer'])))


# ================================================================== the same operation in all three aggregators
def setup_simple(K, cached, ret=True):
    def f(u):
        world(u, K, cached)
        u.v['ret'] = Ptr(u.block('ret', 40).id)
        u.args = ([u.v['ret']] if ret else []) + [u.v['this']]
    return f


def post_flush(K, cached, everything):
    c = K.flush.split(',')[0]

    def f(u, st, ret):
        u.check(st, '%s: flushing succeeds' % c, Eq(code(u, st), OK))
        if cached:
            g = st.ghost
            if everything:
                u.check(st, K.flush + ': a full flush removes every entry', g.get('removed_all') == 1)
                if K is QUOTA:
                    u.check(st, 'C20: entries leave on a full flush', tobool(g.get('ifa_at_removeall', False)))
            else:
                u.check(st, K.flush + ': a periodic flush removes exactly the expired entries',
                        And(g.get('expired_pass') == 1, g.get('removed_all') is None))
        if K is QUOTA:
            u.check(st, 'C20: full flush mode ends with the full flush', Not(tobool(u.read(st, Ptr(W(st).this.b, W(st).ifa)))))
        api_post(u, st, K)
    return f


def post_interval(K, cached):
    def f(u, st, ret):
        w = W(st)
        want = dict(report=w.v.get('flush_interval_ms'), check=w.v.get('expiration_ms'), quota=w.v.get('refresh_interval_ms'))[K.name]
        u.check(st, 'C30: the interval asked for is that of the options, none without a cache', Eq(ret, want if cached else -1))
    return f


def setup_setcb(K):
    def f(u):
        world(u, K, True)
        cb = u.block('new callback', 32, 'heap')
        t = u.int('new callback')
        put_function(cb, 0, t, u.mod)
        u.v.update(newcb=Ptr(cb.id), newtoken=t)
        u.args = [u.v['this'], Ptr(cb.id)]
    return f


def post_setcb(K):
    def f(u, st, ret):
        w = W(st)
        c = st.mem[w.this.b].cells
        u.check(st, K.flush + ': the callback installed is the one given',
                And(values_equal(c.get(w.fcb), u.v['newtoken']), isinstance(c.get(w.fcb + 24), FnPtr) and c[w.fcb + 24].name == 'dv_user_invoke'))
        u.check(st, 'C29: every lock taken is released', st.ghost['held'] == ())
    return f


for K in (REPORT, CHECK, QUOTA):
    ps = K.flush.split(',')
    cs = contracts_for(K, Cache(K, None))
    for cached in (True, False):
        t = 'caching' if cached else 'no cache'
        UNITS.append(Unit(ps + ['C29'], '%s Flush (%s)' % (K.name, t), K.tu, K.rx('Flush'), setup_simple(K, cached), post_flush(K, cached, False),
                          opts=opts_for(K), contracts=cs))
        UNITS.append(Unit(ps + ['C29'], '%s FlushAll (%s)' % (K.name, t), K.tu, K.rx('FlushAll'), setup_simple(K, cached), post_flush(K, cached, True),
                          opts=opts_for(K), contracts=cs))
        UNITS.append(Unit(['C30'], '%s GetNextFlushInterval (%s)' % (K.name, t), K.tu, K.rx('GetNextFlushInterval'),
                          setup_simple(K, cached, False), post_interval(K, cached), opts=opts_for(K), contracts=cs))
    UNITS.append(Unit(ps + ['C29'], '%s SetFlushCallback' % K.name, K.tu, K.rx('SetFlushCallback'), setup_setcb(K), post_setcb(K),
                      opts=opts_for(K), contracts=cs))


# ================================================================== checks
class Elem:
    """fields of a cache entry of kind K at their offsets"""

    def __init__(self, u, K):
        self.L = u.layout(NS + K.cls + '::CacheElem')
        self.K = K
        if K is CHECK:
            self.names = dict(agg='operation_aggregator_', resp='check_response_', time='last_check_time_', scale='quota_scale_', flushing='is_flushing_')
        else:
            self.names = dict(agg='operation_aggregator_', req='quota_request_', resp='quota_response_', sig='signature_',
                              time='last_refresh_time_', inflight='in_flight_')
        ty = dict(agg='unique_ptr', resp='Response', time=None, scale=None, flushing=None, req='AllocateQuotaRequest', sig='string', inflight=None)
        self.off = {k: self.L.off(n, ty[k]) if ty[k] or self.has(n) else None for k, n in self.names.items()}

    def has(self, n):
        return any(f[2] == n for f in self.L.fields)

    def get(self, st, bid, k):
        return st.mem[bid].cells.get(self.off[k])

    def agg(self, st, bid):
        """content of the pending aggregation, None if there is none"""
        p = self.get(st, bid, 'agg')
        if not isinstance(p, Ptr):
            return UNDEF
        return None if p.b == 0 else st.mem[p.b].cells.get(content(p, self.K is QUOTA).o)


def c_resp():
    return P.msg(SC + 'CheckResponse')


def q_resp():
    return P.msg(SC + 'AllocateQuotaResponse')


def failing(K, r):
    m = c_resp() if K is CHECK else q_resp()
    e = P.raw(m, r, 'check_errors' if K is CHECK else 'allocate_errors')
    return S.seq_sort(e.sort()).len(e) > 0


def make_elem(ex, st, K, E, aggregated, key=None, name='entry:elem', kind='resident'):
    """an entry satisfying the entry invariant"""
    b = st.new_block(name, E.L.size, kind)
    m = c_resp() if K is CHECK else q_resp()
    r = fresh(m.sort, 'cached')
    for f in P.wf(m, r):
        st.assume(f)
    t = fresh(I, 'last')
    st.assume(z3.And(t >= 0, t <= st.ghost['now']))             # times come from the monotone clock
    b.cells[E.off['resp']] = r
    b.cells[E.off['time']] = t
    if aggregated:
        a = st.new_block('entry:aggregation', 512, 'heap')
        if K is QUOTA:
            a.cells[0] = qvtable(st, st.ghost['mod'])
        a.cells[8 if K is QUOTA else 0] = fresh(Agg if K is CHECK else QAgg, 'pending')
        b.cells[E.off['agg']] = Ptr(a.id)
        if K is QUOTA:
            st.assume(Not(failing(K, r)))                        # entry invariant of quota entries
    else:
        b.cells[E.off['agg']] = NULL
    if K is CHECK:
        if E.off['scale'] is not None:
            b.cells[E.off['scale']] = fresh(I, 'scale')
            st.assume(S.in_range(b.cells[E.off['scale']], 32))
        if E.off['flushing'] is not None:
            b.cells[E.off['flushing']] = fresh(z3.BoolSort(), 'flushing')
    else:
        b.cells[E.off['inflight']] = fresh(z3.BoolSort(), 'inflight')
        q = fresh(P.msg(K.req).sort, 'initial')
        for f in P.wf(P.msg(K.req), q):
            st.assume(f)
        b.cells[E.off['req']] = q
        b.cells[E.off['sig']] = key if key is not None else fresh(Str, 'signature')
        # entry invariants: stored under the key of its request, which names this service and has an operation
        st.assume(sig_quota(q) == b.cells[E.off['sig']])
        st.assume(P.raw(P.msg(K.req), q, 'service_name') == W(st).service_name_)
        st.assume(zbool(P.has(P.msg(K.req), q, 'allocate_operation')))
    return Ptr(b.id)


def found_elem(K, aggregated):
    def f(ex, st, key):
        E = st.ghost['E']
        p = make_elem(ex, st, K, E, aggregated, key)
        st.ghost['hit'] = p
        st.ghost['E0'] = {k: E.get(st, p.b, k) for k in E.off if E.off[k] is not None}
        st.ghost['A0'] = E.agg(st, p.b)
        return p
    return f


def on_lookup(ex, st, key):
    ex.oblige(st, 'the entry looked up is that of the request', Eq(key, st.ghost['key']), 'pre')
    st.ghost['lookups'] = st.ghost.get('lookups', 0) + 1


def on_insert(ex, st, key, p):
    E = st.ghost['E']
    ex.oblige(st, 'inserted under the key of the request', Eq(key, st.ghost['key']), 'pre')
    st.ghost['inserts'] = st.ghost['inserts'] + (p.b,)
    if E.K is QUOTA:
        ex.oblige(st, 'C19,C20: an entry knows its own key', Eq(E.get(st, p.b, 'sig'), key), 'pre')


def setup_op(K, cached, fn):
    def f(u):
        world(u, K, cached)
        st = u.st
        ret = u.block('ret', 40)
        p, v = u.message('request', K.req)
        m = P.msg(K.req)
        rm = c_resp() if K is CHECK else q_resp()
        pr, r = u.message('response', '.' + rm.full if not rm.full.startswith('.') else rm.full)
        st.ghost['E'] = Elem(u, K)
        st.ghost['mod'] = u.mod
        st.ghost['key'] = (sig_check if K is CHECK else sig_quota)(v)
        st.ghost['inserts'] = ()
        st.ghost['removes'] = 0
        st.ghost['hit'] = None
        u.v.update(ret=Ptr(ret.id), p=p, v=v, pr=pr, r=r, start=st.ghost['now'])
        opname = 'operation' if K is CHECK else 'allocate_operation'
        u.v['hasop'] = P.has(m, v, opname)
        u.v['op'] = P.get(m, v, opname)
        if K is QUOTA:      # precondition: every metric value set of a quota operation has exactly one value (C11)
            pass
        u.args = [Ptr(ret.id), u.v['this'], p, pr]
    return f


def entry_after(u, st):
    E, b = st.ghost['E'], st.ghost['hit'].b
    return {k: E.get(st, b, k) for k in E.off if E.off[k] is not None}, E.agg(st, b)


def same_agg(a, b):
    if a is UNDEF or b is UNDEF:
        return False
    if a is None or b is None:
        return a is None and b is None
    return Eq(a, b)


def is_agg(a, want):
    return a is not None and a is not UNDEF and Eq(a, want)


def in_window(u, st, t):
    return And(t >= u.v['start'], t <= st.ghost['now'])


def invalid_clauses(u, st, K, cached, c, own, hasop):
    P_ = 'C15' if K is CHECK else 'C18'
    bad = Or(Not(own), Not(hasop))
    u.check(st, P_ + ': another service or no operation is rejected as invalid', Implies(bad, Eq(c, INVALID)))
    u.check(st, P_ + ': invalid only for another service or without operation', Implies(Not(bad), Or(Eq(c, OK), Eq(c, NOTFOUND))))
    u.check(st, P_ + ': rejected requests have no effect',
            Implies(bad, And(Eq(st.ghost['cacheops'], 0), len(st.ghost['adds']) == 0, st.ghost['hit'] is None, len(st.ghost['inserts']) == 0)))
    u.check(st, P_ + ': the response is left alone unless answered locally', Implies(Not(Eq(c, OK)), Eq(u.read(st, u.v['pr']), u.v['r'])))
    u.check(st, P_ + ': the request is not modified', Eq(u.read(st, u.v['p']), u.v['v']))
    if not cached:
        u.check(st, P_ + ': nothing is answered locally with caching disabled', Not(Eq(c, OK)))


def post_check(cached):
    def f(u, st, ret):
        v, w, g = u.v['v'], W(st), st.ghost
        m = P.msg(CHECK.req)
        c = code(u, st)
        own = Eq(P.raw(m, v, 'service_name'), w.service_name_)
        hasop, op = u.v['hasop'], u.v['op']
        invalid_clauses(u, st, CHECK, cached, c, own, hasop)
        u.check(st, 'C15: only checks of low importance are answered locally', Implies(Eq(c, OK), low(op)))
        u.check(st, 'C15: checks do not enter the cache by themselves', len(g['inserts']) == 0)
        u.check(st, 'C17: a check flushes nothing itself', len(g['adds']) == 0)
        u.check(st, 'C15,C16: looked up once', g.get('lookups', 0) <= 1)
        if g['hit'] is None:
            u.check(st, 'C15: answered locally only with a cached response', Not(Eq(c, OK)))
        else:
            E0, A0 = g['E0'], g['A0']
            E1, A1 = entry_after(u, st)
            interval = w.flush_interval_ms * 1000
            due_start = u.v['start'] - E0['time'] >= interval
            due_end = g['now'] - E0['time'] >= interval
            u.check(st, 'C16: not due for refresh: answered from the cache', Implies(Not(due_end), Eq(c, OK)))
            u.check(st, 'C16: due for refresh: sent to the server', Implies(due_start, Eq(c, NOTFOUND)))
            u.check(st, 'C15: the answer is exactly the cached response', Implies(Eq(c, OK), Eq(u.read(st, u.v['pr']), E0['resp'])))
            u.check(st, 'C16: the refresh restarts the interval', Implies(Eq(c, NOTFOUND), in_window(u, st, E1['time'])))
            u.check(st, 'C16: using an entry does not restart its interval', Implies(Eq(c, OK), Eq(E1['time'], E0['time'])))
            u.check(st, 'C16: the old response stays until the new one arrives', Eq(E1['resp'], E0['resp']))
            u.check(st, 'C17: a check counted against a passing response is aggregated exactly once',
                    Implies(Not(failing(CHECK, E0['resp'])), is_agg(A1, agg_new(op) if A0 is None else agg_merge(A0, op))))
            u.check(st, 'C17: checks against a failing response are not aggregated',
                    Implies(failing(CHECK, E0['resp']), same_agg(A1, A0)))
        api_post(u, st, CHECK)
    return f


def setup_cacheresponse(K, cached):
    s0 = setup_op(K, cached, 'CacheResponse')

    def f(u):
        s0(u)
        u.args = [u.v['ret'], u.v['this'], u.v['p'], u.v['pr']]
    return f


def post_cacheresponse_check(cached):
    def f(u, st, ret):
        g = st.ghost
        u.check(st, 'C16: caching succeeds', Eq(code(u, st), OK))
        u.check(st, 'C16: request and response are not modified', And(Eq(u.read(st, u.v['p']), u.v['v']), Eq(u.read(st, u.v['pr']), u.v['r'])))
        u.check(st, 'C17: caching a response flushes nothing itself', len(g['adds']) == 0)
        if cached:
            if g['hit'] is None:
                E = g['E']
                u.check(st, 'C16: a response for a new key is inserted once', len(g['inserts']) == 1)
                if len(g['inserts']) == 1:
                    b = g['inserts'][0]
                    u.check(st, 'C16: the cached answer is the server response', Eq(E.get(st, b, 'resp'), u.v['r']))
                    u.check(st, 'C16: the interval starts now', in_window(u, st, E.get(st, b, 'time')))
                    u.check(st, 'C17: a new entry has nothing aggregated', E.agg(st, b) is None)
            else:
                E1, A1 = entry_after(u, st)
                u.check(st, 'C16: no second entry for the key', len(g['inserts']) == 0)
                u.check(st, 'C16: the cached answer is the server response', Eq(E1['resp'], u.v['r']))
                u.check(st, 'C16: the interval restarts', in_window(u, st, E1['time']))
                u.check(st, 'C16,C17: everything aggregated so far is kept', same_agg(A1, g['A0']))
        api_post(u, st, CHECK)
    return f


def setup_delete(K, aggregated):
    def f(u):
        world(u, K, True, buffer=True)
        st = u.st
        st.ghost['E'] = E = Elem(u, K)
        st.ghost['mod'] = u.mod
        p = make_elem(u.ex, st, K, E, aggregated, kind='heap', name='entry:leaving')
        st.ghost['inserts'] = ()
        st.ghost['hit'] = p
        st.ghost['key'] = E.get(st, p.b, 'sig') if K is QUOTA else None
        st.ghost['E0'] = {k: E.get(st, p.b, k) for k in E.off if E.off[k] is not None}
        st.ghost['A0'] = E.agg(st, p.b)
        u.v.update(iop=p, start=st.ghost['now'])
        u.args = [u.v['this'], p]
    return f


def post_c_delete(aggregated):
    def f(u, st, ret):
        m = P.msg(CHECK.req)
        if not aggregated:
            u.check(st, 'C17: an entry with nothing aggregated leaves silently', len(st.ghost['adds']) == 0)
        else:
            a = one_item(u, st, CHECK)
            if a is not None:
                u.check(st, 'C17: carries the aggregated operation',
                        And(P.has(m, a, 'operation'), Eq(P.get(m, a, 'operation'), agg_proto(st.ghost['A0']))))
        disposed(u, st)
        still_locked(u, st)
    return f


C_CACHE = Cache(CHECK, [found_elem(CHECK, False), found_elem(CHECK, True)], on_insert, None, on_lookup)
C_CONTRACTS = contracts_for(CHECK, C_CACHE)
for cached in (True, False):
    t = 'caching' if cached else 'no cache'
    UNITS.append(Unit(['C15', 'C16', 'C17', 'C29'], 'Check (%s)' % t, CHECK.tu, CHECK.rx('Check'), setup_op(CHECK, cached, 'Check'), post_check(cached),
                      opts=opts_for(CHECK), contracts=C_CONTRACTS, weight=5))
    UNITS.append(Unit(['C16', 'C17', 'C29'], 'Check CacheResponse (%s)' % t, CHECK.tu, CHECK.rx('CacheResponse'), setup_cacheresponse(CHECK, cached),
                      post_cacheresponse_check(cached), opts=opts_for(CHECK), contracts=C_CONTRACTS, weight=3))
for agg in (True, False):
    UNITS.append(Unit(['C17', 'C29'], 'Check OnCacheEntryDelete (%s)' % ('aggregated' if agg else 'nothing aggregated'), CHECK.tu,
                      CHECK.rx('OnCacheEntryDelete'), setup_delete(CHECK, agg), post_c_delete(agg), opts=opts_for(CHECK), contracts=C_CONTRACTS))


# ================================================================== quota
NORMAL = 1


def with_mode(req, mode):
    m, o = P.msg(QUOTA.req), P.msg(SC + 'QuotaOperation')
    op = P.get(m, req, 'allocate_operation')
    return P.put(m, req, 'allocate_operation', P.put(o, op, 'quota_mode', mode))


def aggregated_request(st, a):
    m = P.msg(QUOTA.req)
    w = W(st)
    r = P.put(m, m.default, 'service_name', w.service_name_)
    r = P.put(m, r, 'service_config_id', w.service_config_id_)
    return P.put(m, r, 'allocate_operation', qagg_proto(a))


def post_quota(cached):
    def f(u, st, ret):
        v, w, g = u.v['v'], W(st), st.ghost
        m = P.msg(QUOTA.req)
        c = code(u, st)
        own = Eq(P.raw(m, v, 'service_name'), w.service_name_)
        hasop, op = u.v['hasop'], u.v['op']
        invalid_clauses(u, st, QUOTA, cached, c, own, hasop)
        adds = g['adds']
        if not cached:
            u.check(st, 'C18: with caching disabled every valid request is handed back', Implies(And(own, hasop), Eq(c, NOTFOUND)))
            u.check(st, 'C18: nothing is sent with caching disabled', len(adds) == 0)
            api_post(u, st, QUOTA)
            return
        u.check(st, 'C18: valid requests are always answered at once', Implies(And(own, hasop), Eq(c, OK)))
        if g['hit'] is None:
            E = g['E']
            ok = Eq(c, OK)
            u.check(st, 'C18: a new key is inserted exactly once', Implies(ok, len(g['inserts']) == 1))
            u.check(st, 'C18,C19: the request of a new key is sent exactly once, as it is',
                    Implies(ok, And(len(adds) == 1, *[Eq(a, v) for a in adds])))
            u.check(st, 'C18: a new key is answered with an empty positive response', Implies(ok, Eq(u.read(st, u.v['pr']), q_resp().default)))
            if len(g['inserts']) == 1:
                b = g['inserts'][0]
                u.check(st, 'C18: a new entry holds an empty positive response', Eq(E.get(st, b, 'resp'), q_resp().default))
                u.check(st, 'C19: a new entry awaits its response', tobool(E.get(st, b, 'inflight')))
                u.check(st, 'C19: the interval of a new entry starts now', in_window(u, st, E.get(st, b, 'time')))
                u.check(st, 'C19: a new entry remembers its original request', Eq(E.get(st, b, 'req'), v))
                u.check(st, 'C19: a new entry has nothing aggregated', E.agg(st, b) is None)
        else:
            E0, A0 = g['E0'], g['A0']
            E1, A1 = entry_after(u, st)
            neg = failing(QUOTA, E0['resp'])
            interval = w.refresh_interval_ms * 1000
            due_start = u.v['start'] - E0['time'] >= interval
            due_end = g['now'] - E0['time'] >= interval
            waits = tobool(E0['inflight'])
            sent = len(adds) > 0
            u.check(st, 'C18: the answer is the cached response', Eq(u.read(st, u.v['pr']), E0['resp']))
            u.check(st, 'C18: no second entry for the key', len(g['inserts']) == 0)
            u.check(st, 'C19: at most one request is sent', len(adds) <= 1)
            u.check(st, 'C19: nothing is sent while a response is outstanding', Implies(waits, not sent))
            u.check(st, 'C19: nothing is sent within the refresh interval', Implies(Not(due_end), not sent))
            u.check(st, 'C19: sent once the response is in and the interval has passed', Implies(And(Not(waits), due_start), sent))
            u.check(st, 'C18,C19: the cached response stays', Eq(E1['resp'], E0['resp']))
            u.check(st, 'C19: the original request is remembered', Eq(E1['req'], E0['req']))
            u.check(st, 'C19,C20: the entry keeps its key', Eq(E1['sig'], E0['sig']))
            A = None if sent else A0
            u.check(st, 'C19: tokens are aggregated exactly once while the response is positive',
                    Implies(Not(neg), is_agg(A1, qagg_new(op) if A is None else qagg_merge(A, op))))
            u.check(st, 'C19: tokens are aggregated only while the response is positive', Implies(neg, same_agg(A1, A)))
            if sent:
                want = E0['req'] if A0 is None else aggregated_request(st, A0)
                u.check(st, 'C19: carries the aggregated tokens, or the original request; normal mode after a negative response',
                        Or(And(neg, Eq(adds[0], with_mode(want, NORMAL))), And(Not(neg), Eq(adds[0], want))))
                u.check(st, 'C19: the entry awaits its response', tobool(E1['inflight']))
                u.check(st, 'C19: the interval restarts', in_window(u, st, E1['time']))
            else:
                u.check(st, 'C19: nothing sent, nothing awaited', Eq(tobool(E1['inflight']), waits))
                u.check(st, 'C19: nothing sent, the interval goes on', Eq(E1['time'], E0['time']))
        api_post(u, st, QUOTA)
    return f


def post_cacheresponse_quota(cached):
    def f(u, st, ret):
        g = st.ghost
        u.check(st, 'C19: caching succeeds', Eq(code(u, st), OK))
        u.check(st, 'C19: request and response are not modified', And(Eq(u.read(st, u.v['p']), u.v['v']), Eq(u.read(st, u.v['pr']), u.v['r'])))
        u.check(st, 'C19: caching a response sends nothing', len(g['adds']) == 0)
        u.check(st, 'C19: a response for an unknown key is dropped', len(g['inserts']) == 0)
        if cached:
            u.check(st, 'C19: the entry of the request is looked up', g.get('lookups', 0) == 1)
        if g['hit'] is not None:
            E0, (E1, A1) = g['E0'], entry_after(u, st)
            neg = failing(QUOTA, u.v['r'])
            u.check(st, 'C19: the response is no longer outstanding', Not(tobool(E1['inflight'])))
            u.check(st, 'C18,C19: the cached response is that of the server', Eq(E1['resp'], u.v['r']))
            u.check(st, 'C19: a negative response discards pending tokens', Implies(neg, A1 is None))
            u.check(st, 'C19: a positive response keeps pending tokens', Implies(Not(neg), same_agg(A1, g['A0'])))
            u.check(st, 'C19,C20: the rest of the entry stays', And(Eq(E1['time'], E0['time']), Eq(E1['req'], E0['req']), Eq(E1['sig'], E0['sig'])))
        api_post(u, st, QUOTA)
    return f


def post_q_delete(aggregated):
    def f(u, st, ret):
        g, w = st.ghost, W(st)
        E0, A0 = g['E0'], g['A0']
        E1, A1 = entry_after(u, st)
        size = g.get('size')
        exp = w.expiration_interval_ms * 1000
        drop_start = Or(w.in_flush_all_, u.v['start'] - E0['time'] >= exp)
        drop_end = Or(w.in_flush_all_, g['now'] - E0['time'] >= exp)
        full = size >= w.maxsize if size is not None else None
        b = st.mem.get(u.v['iop'].b)
        gone = b is None or not b.alive
        stays = len(g['inserts']) > 0
        adds = g['adds']
        u.check(st, 'C20: an entry is either deleted or stays available, never both', gone != stays)
        u.check(st, 'C20: it stays available under its own key, once', len(g['inserts']) <= 1 and all(x == u.v['iop'].b for x in g['inserts']))
        u.check(st, 'C20: dropped on expiry and full flush', Implies(drop_start, gone))
        if gone and not stays:
            u.check(st, 'C20: dropped only on expiry, full flush or over capacity', Or(drop_end, full if full is not None else False))
        if stays:
            u.check(st, 'C20: never put back into a full cache', full is not None and Not(full))
        u.check(st, 'C19,C20: pending tokens are sent at most once', len(adds) <= 1)
        if adds:
            u.check(st, 'C19,C20: carries exactly the pending tokens', A0 is not None and Eq(adds[0], aggregated_request(st, A0)))
        if stays:
            waits = tobool(E0['inflight'])
            if not aggregated:
                u.check(st, 'C20: nothing pending, nothing sent', len(adds) == 0)
                u.check(st, 'C20: nothing pending, the entry stays as it was',
                        And(Eq(tobool(E1['inflight']), waits), Eq(E1['time'], E0['time']), A1 is None))
            else:
                u.check(st, 'C19,C20: nothing is sent while a response is outstanding', Implies(waits, len(adds) == 0))
                u.check(st, 'C20: pending tokens are sent when nothing is outstanding', Implies(Not(waits), len(adds) == 1))
                if adds:
                    u.check(st, 'C19: the entry awaits its response', And(tobool(E1['inflight']), in_window(u, st, E1['time']), A1 is None))
                else:
                    u.check(st, 'C19,C20: pending tokens are kept', And(same_agg(A1, A0), tobool(E1['inflight']), Eq(E1['time'], E0['time'])))
            u.check(st, 'C20: response, request and key stay', And(Eq(E1['resp'], E0['resp']), Eq(E1['req'], E0['req']), Eq(E1['sig'], E0['sig'])))
        elif aggregated and full is not None:
            u.check(st, 'C20: pending tokens of an entry evicted for capacity are sent',
                    Implies(And(Not(drop_end), full), len(adds) == 1))
        still_locked(u, st)
    return f


Q_CACHE = Cache(QUOTA, [found_elem(QUOTA, False), found_elem(QUOTA, True)], on_insert, None, on_lookup)
Q_CONTRACTS = contracts_for(QUOTA, Q_CACHE)
for cached in (True, False):
    t = 'caching' if cached else 'no cache'
    UNITS.append(Unit(['C18', 'C19', 'C20', 'C29'], 'Quota (%s)' % t, QUOTA.tu, QUOTA.rx('Quota'), setup_op(QUOTA, cached, 'Quota'), post_quota(cached),
                      opts=opts_for(QUOTA), contracts=Q_CONTRACTS, weight=5))
    UNITS.append(Unit(['C18', 'C19', 'C20', 'C29'], 'Quota CacheResponse (%s)' % t, QUOTA.tu, QUOTA.rx('CacheResponse'),
                      setup_cacheresponse(QUOTA, cached), post_cacheresponse_quota(cached), opts=opts_for(QUOTA), contracts=Q_CONTRACTS, weight=3))
for agg in (True, False):
    UNITS.append(Unit(['C19', 'C20', 'C29'], 'Quota OnCacheEntryDelete (%s)' % ('tokens pending' if agg else 'nothing pending'), QUOTA.tu,
                      QUOTA.rx('OnCacheEntryDelete'), setup_delete(QUOTA, agg), post_q_delete(agg), opts=opts_for(QUOTA), contracts=Q_CONTRACTS))


# ================================================================== construction
def call_now(ex, st, fp, args):
    """what calling fp would do in a copy of this state"""
    s = st.copy()
    s.frames = []
    f = ex.find_body(fp.mod, fp.name)
    if f is None:
        raise Unsupported('no body for %s' % fp.name)
    fr = Frame(f)
    for (n, t, a), v in zip(f.params, args):
        fr.regs[n] = v
    s.frames = [fr]
    s.jump = None
    return [(e[1], e[2]) for e in ex.explore([s]) if e[0] == 'ret']


def lru_ctor(K):
    def f(ex, st, ci):
        d = lib.strip_ret(ci.dem)
        n = lib.member_name(d).split('(')[0]
        g = st.ghost
        if n == 'SimpleLRUCacheWithDeleter':
            this, cap, dl = ci.args
            g['capacity'] = cap
            g['caches'] = g.get('caches', 0) + 1
            g['thecache'] = this
            inv = st.mem[dl.b].cells.get(dl.o + 24)
            ex.oblige(st, K.flush + ': removed entries go to the aggregator', isinstance(inv, FnPtr), 'pre')
            if isinstance(inv, FnPtr):
                s = st.copy()
                e = s.new_block('some entry', 512, 'heap')
                pe = s.new_block('argument', 8, 'stack')
                pe.cells[0] = Ptr(e.id)
                s.ghost['deleted'] = ()
                for s2, v in call_now(ex, s, inv, [dl, Ptr(pe.id)]):
                    t = s2.ghost['deleted']
                    ex.oblige(s2, K.flush + ': a removed entry is handed to OnCacheEntryDelete exactly once',
                              And(len(t) == 1, *[And(values_equal(t[0][0], st.ghost['this']), values_equal(t[0][1], Ptr(e.id)))] if len(t) == 1 else []), 'pre')
            st.wblk(this.b).kind = 'heap'
            return None
        if n == 'SetAgeBasedEviction' or n == 'SetMaxIdleSeconds':
            g['mode'], g['seconds'] = n, ci.args[1]
            g['modes'] = g.get('modes', 0) + 1
            ex.oblige(st, 'configures its own cache', values_equal(ci.args[0], g['thecache']), 'pre')
            return None
        return NotImplemented
    return f


def deleted_event(ex, st, ci):
    st.ghost['deleted'] = st.ghost.get('deleted', ()) + ((ci.args[0], ci.args[1]),)


def setup_ctor(K):
    def f(u):
        L, H = clayout(u, K)
        b = u.block('aggregator', L.size)
        p1, n = u.string('service name')
        p2, cfg = u.string('config id')
        OL = u.layout(NS + dict(report='ReportAggregationOptions', check='CheckAggregationOptions', quota='QuotaAggregationOptions')[K.name])
        o = u.block('options', OL.size)
        opt = {}
        for off, t, nm, d in OL.fields:
            opt[nm] = o.cells[off] = u.int(nm, 32)
        u.v.update(this=Ptr(b.id), L=L, n=n, cfg=cfg, opt=opt, OL=OL, H=H)
        u.v['base'] = [x for x, t, nm, d in L.fields if nm.startswith('base:') and 'CacheRemovedItemsHandler' in nm][0]
        u.args = [Ptr(b.id), p1, p2, Ptr(o.id)]
        if K is not QUOTA:
            k = u.block('metric kinds', 56, 'heap')
            sp = u.block('kinds pointer', 16)
            sp.cells[0], sp.cells[8] = Ptr(k.id), NULL
            u.v['kinds'] = Ptr(k.id)
            u.args.append(Ptr(sp.id))
        u.st.ghost['this'] = Ptr(b.id)
        u.st.ghost['held'] = ()
    return f


def post_ctor(K):
    def f(u, st, ret):
        L, g, opt, this = u.v['L'], st.ghost, u.v['opt'], u.v['this']
        cell = lambda o: st.mem[this.b].cells.get(o)
        u.check(st, K.flush + ': service name and config id are those configured',
                And(Eq(cell(L.off('service_name_')), u.v['n']), Eq(cell(L.off('service_config_id_')), u.v['cfg'])))
        oo = L.off('options_', 'Options')
        u.check(st, 'the options are those configured', And(*[Eq(cell(oo + off), opt[nm]) for off, t, nm, d in u.v['OL'].fields]))
        c = cell(L.off('cache_', 'unique_ptr'))
        has = isinstance(c, Ptr) and c.b != 0
        tag = dict(report='C12', check='C15', quota='C18')[K.name]
        u.check(st, tag + ': caching is enabled exactly by a positive number of entries', Eq(opt['num_entries'] > 0, has))
        if has:
            u.check(st, tag + ': the cache holds the configured number of entries', And(g.get('caches') == 1, Eq(g.get('capacity'), opt['num_entries'])))
            ms = opt[dict(report='flush_interval_ms', check='expiration_ms', quota='refresh_interval_ms')[K.name]]
            mode = 'SetMaxIdleSeconds' if K is CHECK else 'SetAgeBasedEviction'
            t2 = dict(report='C13', check='C15', quota='C20')[K.name]
            u.check(st, t2 + ': entries expire after the configured interval',
                    And(g.get('modes') == 1, g.get('mode') == mode, Eq(S.d_r(g['seconds']) * 1000, z3.ToReal(zint(ms)))))
        for n, o, t2 in (('flush_interval_in_cycle_', 'flush_interval_ms', 'C16'), ('refresh_interval_in_cycle_', 'refresh_interval_ms', 'C19'),
                         ('expiration_interval_in_cycle_', 'expiration_interval_ms', 'C20')):
            if o in opt and K is not REPORT and [1 for x in L.fields if x[2] == n]:
                u.check(st, t2 + ': ' + o + ' is measured in clock cycles', Eq(cell(L.off(n)), opt[o] * 1000))
        if K is not QUOTA:
            u.check(st, 'the metric kinds are those configured', values_equal(cell(L.off('metric_kinds_', 'shared_ptr')), u.v['kinds']))
        else:
            u.check(st, 'C20: construction is not a full flush', Not(tobool(cell(L.off('in_flush_all_')))))
        base, H = u.v['base'], u.v['H']
        sb = cell(base + H.off('stack_buffer_', r'StackBuffer \*'))
        u.check(st, 'C29: no pending-removal buffer is installed', isinstance(sb, Ptr) and sb.b == 0)
        m = cell(base + H.off('flush_callback_', 'std::function') + 16)
        u.check(st, K.flush + ': no callback is installed', isinstance(m, Ptr) and m.b == 0)
    return f


for K in (REPORT, CHECK, QUOTA):
    ps = K.flush.split(',') + ['C29'] + dict(report=['C12'], check=['C15', 'C16'], quota=['C18'])[K.name]
    UNITS.append(Unit(ps, '%s construction' % K.name, K.tu, r'^scc::%s::%s\(' % (K.cls, K.cls), setup_ctor(K), post_ctor(K),
                      opts=dict(timeout=20000),
                      contracts=[(re.compile(r'(.* )?scc::SimpleLRUCache(Base|WithDeleter)<'), lru_ctor(K)),
                                 (re.compile(r'scc::%s::OnCacheEntryDelete\(' % K.cls), deleted_event)]))


# ------------------------------------------------------------------ destruction (nobody else uses the aggregator any more)
def setup_dtor(K):
    def f(u):
        world(u, K, True)
        w = W(u.st)
        put_cache_vtable(u, w)
        u.args = [w.this]
    return f


CACHE_DEL = '_ZN_dv_cache_deleting_dtor'


def put_cache_vtable(u, w):
    """the cache has a virtual destructor: its deleting variant is an event"""
    b = u.block('vtable of the cache', 64, 'static')
    for o in range(0, 64, 8):
        b.cells[o] = FnPtr(CACHE_DEL, u.mod)
    u.mod.dem.setdefault(CACHE_DEL, 'dv_cache_deleting_dtor(')
    u.st.mem[w.cache.b].cells[0] = Ptr(b.id)


def cache_deleted(ex, st, ci):
    w = W(st)
    ex.oblige(st, 'C13,C17,C19,C20: the cache is destroyed once, and that of this aggregator', And(values_equal(ci.args[0], w.cache), Not(tobool(st.ghost.get('cache_gone', False)))), 'pre')
    ex.oblige(st, 'C13,C17,C19,C20: every entry has left through the flush when the cache is destroyed', st.ghost.get('removed_all') == 1, 'pre')
    ex.oblige(st, 'C29: the cache is not destroyed under its own lock', not locked(st), 'pre')
    st.ghost['cache_gone'] = True
    lib.delete_block(ex, st, ci.args[0])


def silent_flush(K):
    def f(ex, st, ci):
        m = st.mem[W(st).this.b].cells.get(W(st).fcb + 16)
        ex.oblige(st, K.flush + ',C30: destroying the aggregator calls no flush callback', isinstance(m, Ptr) and m.b == 0, 'pre')
        return sb_dtor(K)(ex, st, ci)
    return f


def post_dtor(K):
    def f(u, st, ret):
        u.check(st, K.flush + ': destroying the aggregator empties its cache', st.ghost.get('removed_all') == 1)
        u.check(st, 'C13,C17,C19,C20: the cache is freed', st.ghost.get('cache_gone') is True)
        u.check(st, 'C29: every lock taken is released', st.ghost['held'] == ())
    return f


for K in (REPORT, CHECK, QUOTA):
    UNITS.append(Unit(K.flush.split(',') + ['C29', 'C30'], '%s destruction' % K.name, K.tu, r'^scc::%s::~%s\(' % (K.cls, K.cls), setup_dtor(K), post_dtor(K),
                      opts=dict(timeout=20000, on_lock=on_unlock), contracts=[(re.compile(r'scc::CacheRemovedItemsHandler<.*>::StackBuffer::~StackBuffer\('), silent_flush(K)),
                                                   (re.compile(r'dv_cache_deleting_dtor'), cache_deleted)] + contracts_for(K, Cache(K, None))))


# ------------------------------------------------------------------ too big
def setup_toobig(u):
    L = u.layout(NS + 'OperationAggregator')
    b = u.block('aggregated', L.size)
    m = P.msg(SC + 'Operation')
    v = fresh(m.sort, 'operation')
    u.assume(*P.wf(m, v))
    b.cells[L.off('operation_', 'Operation')] = v
    u.v['v'] = v
    u.args = [Ptr(b.id)]


def post_toobig(u, st, ret):
    logs = P.raw(P.msg(SC + 'Operation'), u.v['v'], 'log_entries')
    u.check(st, 'C14: too big exactly from one hundred log entries', Eq(tobool(ret), S.seq_sort(logs.sort()).len(logs) >= 100))


UNITS.append(Unit(['C14'], 'OperationAggregator::TooBig', 'src/operation_aggregator.cc', r'^scc::OperationAggregator::TooBig\(',
                  setup_toobig, post_toobig))
