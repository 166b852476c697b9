"""Shared by the contracts of the three aggregators (C12..C20, C29): the abstract
contract of the LRU cache as its users rely on it, the removed-items handler, locks.

The aggregator's public operations are verified against:
  cache operations   require the cache lock and an installed pending-removal buffer; a lookup
                     returns nothing or a pinned entry satisfying the entry invariant
  StackBuffer::Add   an event (verified against its own contract in its own unit)
  ~StackBuffer       flushes (own unit); must run without the cache lock
The LRU side of these contracts is what C21..C24 verify on the real cache code."""
from dv.unit import *
from dv import lib

SC = '.google.api.servicecontrol.v1.'
NS = 'google::service_control_client::'
V1 = 'google::api::servicecontrol::v1::'
I = z3.IntSort()
OK, INVALID, NOTFOUND = 0, 3, 5

Agg = z3.DeclareSort('Agg')       # content of an OperationAggregator
QAgg = z3.DeclareSort('QAgg')     # content of a QuotaOperationAggregator


class Kind:
    def __init__(self, name, cls, tu, req, flush, elem):
        self.name, self.cls, self.tu, self.req, self.flush, self.elem = name, cls, tu, SC + req, flush, elem
        self.short = req

    def rx(self, fn):
        return r'^scc::%s::%s\(' % (self.cls, fn)


REPORT = Kind('report', 'ReportAggregatorImpl', 'src/report_aggregator_impl.cc', 'ReportRequest', 'C13', 'OperationAggregator')
CHECK = Kind('check', 'CheckAggregatorImpl', 'src/check_aggregator_impl.cc', 'CheckRequest', 'C17', 'CheckAggregatorImpl::CacheElem')
QUOTA = Kind('quota', 'QuotaAggregatorImpl', 'src/quota_aggregator_impl.cc', 'AllocateQuotaRequest', 'C19,C20',
             'QuotaAggregatorImpl::CacheElem')

_fn = {}


def F(name, *sorts):
    if name not in _fn:
        _fn[name] = z3.Function(name, *[s() if callable(s) and not isinstance(s, z3.SortRef) else s for s in sorts])
    return _fn[name]


def opsort():
    return P.msg(SC + 'Operation').sort


def qopsort():
    return P.msg(SC + 'QuotaOperation').sort


def agg_new(op):
    return F('agg_new', opsort, Agg)(op)


def agg_merge(a, op):
    return F('agg_merge', Agg, opsort, Agg)(a, op)


def agg_proto(a):
    return F('agg_proto', Agg, opsort)(a)


def agg_toobig(a):
    return F('agg_toobig', Agg, z3.BoolSort())(a)


def qagg_new(op):
    return F('qagg_new', qopsort, QAgg)(op)


def qagg_merge(a, op):
    return F('qagg_merge', QAgg, qopsort, QAgg)(a, op)


def qagg_proto(a):
    return F('qagg_proto', QAgg, qopsort)(a)


def sig_report(op):
    return F('sig_report', opsort, Str)(op)


def sig_check(r):
    return F('sig_check', P.msg(SC + 'CheckRequest').sort, Str)(r)


def sig_quota(r):
    return F('sig_quota', P.msg(SC + 'AllocateQuotaRequest').sort, Str)(r)


# ------------------------------------------------------------------ world
def clayout(u, K):
    return u.layout(NS + K.cls), u.layout(NS + 'CacheRemovedItemsHandler<class %s%s>' % (V1, K.short))


def vtable(u, cls, at):
    """address point of the vtable of the subobject at offset `at`"""
    nm = '_ZTVN6google22service_control_client%d%sE' % (len(cls), cls)
    p = u.ex.global_ptr(u.st, nm, u.mod)
    cells = u.st.mem[p.b].cells
    for o in sorted(cells):
        v = cells[o]
        nxt = cells.get(o + 8)
        if isinstance(v, Ptr) and v.b == 0 and v.o == -at and not isinstance(nxt, FnPtr) and isinstance(cells.get(o + 16), FnPtr):
            return Ptr(p.b, o + 16)
    raise Unsupported('no vtable of %s for offset %d' % (cls, at))


def put_function(b, off, token, mod):
    """a std::function supplied from outside; token None: empty"""
    if token is None:
        b.cells[off + 16] = NULL
        b.cells[off + 24] = NULL
        b.cells[off] = UNDEF
        return
    b.cells[off] = token
    b.cells[off + 16] = FnPtr('dv_user_manager', mod)
    b.cells[off + 24] = FnPtr('dv_user_invoke', mod)


def world(u, K, cached, buffer=False, callback=True):
    """an aggregator satisfying its invariant.  buffer: called under the cache lock with a buffer installed"""
    ex, st, mod = u.ex, u.st, u.mod
    L, H = clayout(u, K)
    b = st.new_block('aggregator', L.size, 'heap')
    this = Ptr(b.id)
    base = [o for o, t, n, d in L.fields if n.startswith('base:') and 'CacheRemovedItemsHandler' in n]
    if len(base) != 1:
        raise Unsupported('base of ' + K.cls)
    base = base[0]
    b.cells[0] = vtable(u, K.cls, 0)
    b.cells[base] = vtable(u, K.cls, base)
    v = dict(this=this, base=base, L=L, H=H)
    v['fcb'] = base + H.off('flush_callback_', 'std::function')
    v['token'] = u.int('callback') if callback else None
    put_function(b, v['fcb'], v['token'], mod)
    v['sb'] = base + H.off('stack_buffer_', r'StackBuffer \*')
    v['cbmutex'] = (b.id, base + H.off('callback_mutex_', 'mutex'))
    v['lock'] = (b.id, L.off('cache_mutex_', 'mutex'))
    for f in ('service_name_', 'service_config_id_'):
        s = fresh(Str, f)
        st.assume(slen(s) >= 0)
        st.assume((slen(s) == 0) == (s == S.EMPTY))
        b.cells[L.off(f)] = s
        v[f] = s
    oo = L.off('options_', 'Options')
    OL = u.layout(NS + dict(report='ReportAggregationOptions', check='CheckAggregationOptions', quota='QuotaAggregationOptions')[K.name])
    for o, t, n, d in OL.fields:
        x = u.int(n, 32)
        b.cells[oo + o] = x
        v[n] = x
    v['maxsize'] = v['num_entries']
    u.assume(zbool(Eq(v['num_entries'] > 0, cached)))
    kinds = st.new_block('metric kinds', 56, 'heap')
    v['kinds'] = Ptr(kinds.id)
    try:
        mk = L.off('metric_kinds_', 'shared_ptr')
        b.cells[mk] = v['kinds']
        b.cells[mk + 8] = NULL
    except Unsupported:
        pass
    if cached:
        c = st.new_block('cache', 512, 'heap')
        v['cache'] = Ptr(c.id)
        b.cells[L.off('cache_', 'unique_ptr')] = v['cache']
    else:
        v['cache'] = None
        b.cells[L.off('cache_', 'unique_ptr')] = NULL
    for n in ('flush_interval_in_cycle_', 'refresh_interval_in_cycle_', 'expiration_interval_in_cycle_'):
        if [1 for f in L.fields if f[2] == n]:
            ms = v[dict(flush='flush_interval_ms', refresh='refresh_interval_ms', expiration='expiration_interval_ms')[n.split('_')[0]]]
            b.cells[L.off(n)] = ms * 1000           # established by the constructor (its unit)
            v[n] = ms * 1000
    if [1 for f in L.fields if f[2] == 'in_flush_all_']:
        v['in_flush_all_'] = fresh(z3.BoolSort(), 'in_flush_all') if buffer else False
        v['ifa'] = L.off('in_flush_all_')
        b.cells[v['ifa']] = v['in_flush_all_']
    if buffer:
        sb = st.new_block('buffer', 40, 'stack')
        v['buffer'] = Ptr(sb.id)
        sb.cells[8] = Ptr(b.id, base)
        b.cells[v['sb']] = v['buffer']
        st.ghost['held'] = ((v['lock'], 1),)
        st.ghost['plain_locks'] = (v['lock'],)
    else:
        b.cells[v['sb']] = NULL
        st.ghost['held'] = ()
        st.ghost['plain_locks'] = ()
    st.ghost['W'] = Obj('world', **v)
    st.ghost['pins'] = ()
    st.ghost['adds'] = ()
    st.ghost['cacheops'] = 0
    st.ghost['now'] = u.int('now')
    u.assume(st.ghost['now'] >= 0)
    u.v.update(v)
    return b


def W(st):
    return st.ghost['W']


def locked(st):
    return W(st).lock in dict(st.ghost['held'])


def cell(st, p, off):
    return st.mem[p.b].cells.get(p.o + off)


def installed(st):
    """the pending-removal buffer currently installed in the handler, or None"""
    w = W(st)
    p = cell(st, w.this, w.sb)
    if not isinstance(p, Ptr) or p.b == 0:
        return None
    b = st.mem.get(p.b)
    if b is None or not b.alive or b.kind != 'stack':
        return None
    return p


def need(ex, st, K, what):
    ex.oblige(st, 'C29: cache used only under its lock', locked(st), 'pre', detail=what)


def need_buffer(ex, st, K, what):
    need(ex, st, K, what)
    w = W(st)
    p = installed(st)
    ok = p is not None
    if ok:
        h = cell(st, p, 8)
        ok = isinstance(h, Ptr) and h.b == w.this.b and h.o == w.base
    ex.oblige(st, K.flush + ': a pending-removal buffer is installed when entries can leave the cache', ok, 'pre', detail=what)


def watch(K):
    def f(ex, st, b, p, what):
        w = st.ghost.get('W')
        if w is None or ex.dry:
            return
        if b.name.startswith('entry:') or (b.id == w.this.b and p.o == w.sb):
            if not locked(st):
                ex.oblige(st, 'C29: entries and buffer touched only under the cache lock', False, 'post', detail='%s of %s' % (what, b.name))
        if b.id == w.this.b and w.fcb <= p.o < w.fcb + 32 and w.cbmutex not in dict(st.ghost['held']):
            ex.oblige(st, 'C29: the callback is accessed only under its lock', False, 'post', detail=what)
    return f


# ------------------------------------------------------------------ contracts
def user_manager(ex, st, ci):
    """_M_manager of a std::function supplied from outside"""
    dst, src, op = ci.args
    if not is_c(op):
        raise Unsupported('function manager operation')
    if op == 2:
        ex.write(st, dst, ex.read(st, src))
    elif op == 3:
        return False
    else:
        raise Unsupported('function manager operation %d' % op)
    return False


class Cache:
    """contract of the LRU cache seen from the aggregator of kind K"""

    def __init__(self, K, fresh_elem=None, on_insert=None, on_remove=None, on_lookup=None):
        if not isinstance(fresh_elem, (list, tuple)):
            fresh_elem = [fresh_elem]
        self.K, self.fresh_elem, self.on_insert, self.on_remove, self.on_lookup = K, fresh_elem, on_insert, on_remove, on_lookup

    def __call__(self, ex, st, ci):
        d = lib.strip_ret(ci.dem)
        if not lib.whole_template(lib.member_class(d)):
            return NotImplemented
        m = lib.member_name(d)
        n = m.split('(')[0]
        f = getattr(self, 'do_' + n, None)
        if f is None:
            return NotImplemented
        w = W(st)
        if n not in ('SimpleLRUCacheWithDeleter', 'SetAgeBasedEviction', 'SetMaxIdleSeconds'):
            p = ci.args[0]
            ex.oblige(st, 'operations address the cache of this aggregator',
                      w.cache is not None and isinstance(p, Ptr) and values_equal(p, w.cache), 'pre', detail=n)
            st.ghost['cacheops'] = add(st.ghost['cacheops'], 1)
        return f(ex, st, ci)

    def drop_resident(self, ex, st):
        """entries not pinned may be gone from now on"""
        pins = {p for _, p in st.ghost['pins']}
        for bid, b in list(st.mem.items()):
            if b.kind == 'resident' and b.alive and bid not in pins:
                st.wblk(bid).alive = False

    def do_LookupWithOptions(self, ex, st, ci):
        need_buffer(ex, st, self.K, 'lookup')
        self.drop_resident(ex, st)
        key = ex.read(st, ci.args[1])
        if self.on_lookup:
            self.on_lookup(ex, st, key)

        def found(mk):
            def f(s):
                p = mk(ex, s, key)
                s.ghost['pins'] = s.ghost['pins'] + ((key, p.b),)
                return p
            return f
        hit = fresh(z3.BoolSort(), 'hit')
        alts, n = [(z3.Not(hit), NULL)], len(self.fresh_elem)
        which = fresh(I, 'which')
        for i, mk in enumerate(self.fresh_elem):
            alts.append((z3.And(hit, which <= 0 if i == 0 else which == i if i < n - 1 else which >= i) if n > 1 else hit, found(mk)))
        raise Fork(alts)

    def do_ReleaseWithOptions(self, ex, st, ci):
        need_buffer(ex, st, self.K, 'release')
        key, p = ex.read(st, ci.args[1]), ci.args[2]
        hit = [x for x in st.ghost['pins'] if isinstance(p, Ptr) and x[1] == p.b]
        ex.oblige(st, 'C13,C17,C19,C20: releases exactly what it pinned', And(len(hit) == 1, *[Eq(x[0], key) for x in hit[:1]]), 'pre')
        if hit:
            st.ghost['pins'] = tuple(x for x in st.ghost['pins'] if x is not hit[0])
            st.wblk(p.b).kind = 'resident'

    def do_Insert(self, ex, st, ci):
        need_buffer(ex, st, self.K, 'insert')
        key, p, n = ex.read(st, ci.args[1]), ci.args[2], ci.args[3]
        self.drop_resident(ex, st)
        b = ex.blk(st, p, 'insert')
        ex.oblige(st, 'C13,C17,C19,C20: inserts a live object it owns, once', b.kind == 'heap' and p.o == 0, 'pre')
        ex.oblige(st, 'every entry takes one unit of the capacity', Eq(n, 1), 'pre')
        if self.on_insert:
            self.on_insert(ex, st, key, p)
        b = st.wblk(p.b)
        b.kind = 'resident'
        b.name = 'entry:inserted'

    def do_Remove(self, ex, st, ci):
        if '(std::string const&)' not in ci.dem.replace('std::__cxx11::', 'std::'):
            return NotImplemented
        need_buffer(ex, st, self.K, 'remove')
        key = ex.read(st, ci.args[1])
        self.drop_resident(ex, st)
        if self.on_remove:
            self.on_remove(ex, st, key)

    def do_RemoveAll(self, ex, st, ci):
        need_buffer(ex, st, self.K, 'remove all')
        self.drop_resident(ex, st)
        st.ghost['removed_all'] = 1
        if 'ifa' in W(st).v:
            st.ghost['ifa_at_removeall'] = ex.read(st, Ptr(W(st).this.b, W(st).ifa))

    def do_RemoveExpiredEntries(self, ex, st, ci):
        need_buffer(ex, st, self.K, 'expiry pass')
        self.drop_resident(ex, st)
        st.ghost['expired_pass'] = 1

    def do_Size(self, ex, st, ci):
        need(ex, st, self.K, 'size')
        if 'size' not in st.ghost:
            st.ghost['size'] = fresh(I, 'size')
            st.assume(st.ghost['size'] >= 0)
        return st.ghost['size']

    def do_MaxSize(self, ex, st, ci):
        need(ex, st, self.K, 'max size')
        return W(st).maxsize


def status_of(st, p):
    return st.mem[p.b].cells.get(p.o)


def code(u, st):
    return lib.scode(u.read(st, u.v['ret']))


def sb_add(K):
    def f(ex, st, ci):
        p = installed(st)
        ex.oblige(st, 'C29: pending-removal buffer used only under the cache lock', locked(st), 'pre')
        ex.oblige(st, K.flush + ': items go to the installed buffer', p is not None and values_equal(p, ci.args[0]), 'pre')
        st.ghost['adds'] = st.ghost['adds'] + (ex.read(st, ci.args[1]),)
    return f


def sb_dtor(K):
    def f(ex, st, ci):
        w = W(st)
        ex.oblige(st, 'C29: flush callbacks run without the cache lock', not locked(st), 'pre')
        p = cell(st, w.this, w.sb)
        ex.oblige(st, 'C29: the buffer is uninstalled before it goes away',
                  isinstance(p, Ptr) and p.b != ci.args[0].b, 'pre')
        h = cell(st, ci.args[0], 8)
        ex.oblige(st, K.flush + ': the buffer flushes through its own aggregator',
                  isinstance(h, Ptr) and h.b == w.this.b and h.o == w.base, 'pre')
        st.ghost['flushes'] = add(st.ghost.get('flushes', 0), 1)
    return f


def on_unlock(ex, st, k, what):
    w = st.ghost.get('W')
    if w is not None and k == w.cbmutex and what == 'lock':
        ex.oblige(st, 'C29: the callback lock is never requested under the cache lock', not locked(st), 'pre')
    if w is not None and k == w.lock and what == 'unlock':
        ex.oblige(st, 'C13,C17,C19,C20: no entry stays pinned', len(st.ghost['pins']) == 0, 'pre')
        for bid, b in list(st.mem.items()):
            if b.kind == 'resident' and b.alive:
                st.wblk(bid).alive = False


QD = '_ZN6google22service_control_client24QuotaOperationAggregatorD%dEv'


def qvtable(st, mod):
    """QuotaOperationAggregator has a virtual destructor"""
    if 'qvt' not in st.ghost:
        for i in (0, 1, 2):
            mod.dem.setdefault(QD % i, 'scc::QuotaOperationAggregator::~QuotaOperationAggregator()')
        b = st.new_block('vtable of QuotaOperationAggregator', 32, 'global')
        b.cells.update({0: NULL, 8: NULL, 16: FnPtr(QD % 1, mod), 24: FnPtr(QD % 0, mod)})
        st.ghost['qvt'] = Ptr(b.id, 16)
    return st.ghost['qvt']


def content(p, q=True):
    return Ptr(p.b, p.o + 8) if q else p


def op_ctor(q=False):
    def f(ex, st, ci):
        w = W(st)
        op = ex.read(st, ci.args[1])
        if not q:
            ex.oblige(st, 'C13,C17: aggregation uses the configured metric kinds', values_equal(ci.args[2], w.kinds), 'pre')
        if q:
            ex.write(st, ci.args[0], qvtable(st, ci.mod))
        ex.write(st, content(ci.args[0], q), (qagg_new if q else agg_new)(op))
        h = ex.opts.get('on_new')
        if h:
            h(ex, st, ci.args[0], op)
    return f


def op_merge(q=False):
    def f(ex, st, ci):
        a = ex.read(st, content(ci.args[0], q))
        op = ex.read(st, ci.args[1])
        ex.write(st, content(ci.args[0], q), (qagg_merge if q else agg_merge)(a, op))
        h = ex.opts.get('on_merge')
        if h:
            h(ex, st, ci.args[0], op)
    return f


def op_proto(q=False):
    def f(ex, st, ci):
        a = ex.read(st, content(ci.args[1], q))
        ex.write(st, ci.args[0], (qagg_proto if q else agg_proto)(a))
    return f


def op_dtor(ex, st, ci):
    ex.read(st, ci.args[0])
    st.wblk(ci.args[0].b).cells.clear()
    if ci.name.endswith('D0Ev'):
        lib.delete_block(ex, st, ci.args[0])


def toobig(ex, st, ci):
    return agg_toobig(ex.read(st, ci.args[0]))


def signature(fn):
    def f(ex, st, ci):
        m = ex.read(st, ci.args[1])
        ex.write(st, ci.args[0], fn(m))
    return f


def base_contracts(K, cache):
    return [
        (re.compile(r'dv_user_manager'), user_manager),
        (re.compile(r'(.* )?scc::SimpleLRUCache(Base|WithDeleter)<'), cache),
        (re.compile(r'scc::CacheRemovedItemsHandler<.*>::StackBuffer::Add\('), sb_add(K)),
        (re.compile(r'scc::CacheRemovedItemsHandler<.*>::StackBuffer::~StackBuffer\('), sb_dtor(K)),
        (re.compile(r'scc::GenerateReportOperationSignature\('), signature(sig_report)),
        (re.compile(r'scc::GenerateCheckRequestSignature\('), signature(sig_check)),
        (re.compile(r'scc::GenerateAllocateQuotaRequestSignature\('), signature(sig_quota)),
        (re.compile(r'scc::OperationAggregator::OperationAggregator\('), op_ctor()),
        (re.compile(r'scc::OperationAggregator::MergeOperation\('), op_merge()),
        (re.compile(r'scc::OperationAggregator::ToOperationProto\('), op_proto()),
        (re.compile(r'scc::OperationAggregator::TooBig\('), toobig),
        (re.compile(r'scc::OperationAggregator::~OperationAggregator\('), op_dtor),
        (re.compile(r'scc::QuotaOperationAggregator::QuotaOperationAggregator\('), op_ctor(True)),
        (re.compile(r'scc::QuotaOperationAggregator::MergeOperation\('), op_merge(True)),
        (re.compile(r'scc::QuotaOperationAggregator::ToOperationProto\('), op_proto(True)),
        (re.compile(r'scc::QuotaOperationAggregator::~QuotaOperationAggregator\('), op_dtor),
    ]


def api_post(u, st, K):
    """what every public operation guarantees"""
    w = W(st)
    u.check(st, 'C29: every lock taken is released', st.ghost['held'] == ())
    p = cell(st, w.this, w.sb)
    u.check(st, 'C29: no pending-removal buffer stays installed', isinstance(p, Ptr) and p.b == 0)
    u.check(st, 'C13,C17,C19,C20: no entry stays pinned', st.ghost['pins'] == ())
