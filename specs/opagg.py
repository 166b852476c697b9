"""C09, C10 (report operation aggregation) and C11 (quota operation aggregation).

The effect of merging a list of metric values is specified exactly, as a fold of
one step per occurrence:
  step(B, kind, v)    B[sig(v)] becomes v if absent, else the merge of v into it
  vals(B, kind, q, k) B after the first k metric values of q
  msets(A, s, k)      A after the first k metric value sets of s (A: name -> B)
sig(v) is the key function of C08.  The merge of two values is specified in closed
form (C10), with the distribution merge of C05 as an opaque function."""
from dv.unit import *
from dv.lib import md5
from specs.signature import LM, labels_sym

SC = '.google.api.servicecontrol.v1.'
TU = 'src/operation_aggregator.cc'
QTU = 'src/quota_operation_aggregator.cc'
I = z3.IntSort()
DELTA = 2


class Sorts:
    inst = None

    def __init__(self):
        self.T = P.msg('.google.protobuf.Timestamp')
        self.O = P.msg(SC + 'Operation')
        self.QO = P.msg(SC + 'QuotaOperation')
        self.V = P.msg(SC + 'MetricValue')
        self.VS = P.msg(SC + 'MetricValueSet')
        self.D = P.msg(SC + 'Distribution')
        self.q = self.VS.by['metric_values'].seq
        self.s = self.O.by['metric_value_sets'].seq
        self.logs = self.O.by['log_entries'].seq
        self.B = map_of(Str, self.V.sort)
        self.A = map_of(Str, self.B.sort)
        self.KM = map_of(Str, I)
        self.dist_merge = z3.Function('dist_merge', self.D.sort, self.D.sort, self.D.sort)   # (from, to) -> to'
        self.F_vals = z3.Function('vals_fold', self.B.sort, I, self.q.sort, I, self.B.sort)
        self.F_msets = z3.Function('msets_fold', self.A.sort, z3.BoolSort(), self.KM.sort, self.s.sort, I, self.A.sort)
        self.F_q = z3.Function('quota_fold', self.B.sort, self.s.sort, I, self.B.sort)


def ss():
    if Sorts.inst is None:
        Sorts.inst = Sorts()
    return Sorts.inst


def before(a, b):
    T = ss().T
    g = lambda x, n: P.get(T, x, n)
    return Or(g(a, 'seconds') < g(b, 'seconds'), And(Eq(g(a, 'seconds'), g(b, 'seconds')), g(a, 'nanos') < g(b, 'nanos')))


def widen(M, frm, to):
    """start_time / end_time of the union of two windows (raw optional fields)"""
    out = {}
    for n, first in (('start_time', lambda f, t: before(f, t)), ('end_time', lambda f, t: before(t, f))):
        fd = M.by[n]
        f, t = P.raw(M, frm, fd), P.raw(M, to, fd)
        fh, th = fd.osort.has(f), fd.osort.has(t)
        out[n] = z3.If(zbool(And(fh, Or(Not(th), first(fd.osort.the(f), fd.osort.the(t))))), f, t)
    return out


def delta(frm, to, quota=False):
    s = ss()
    V = s.V
    case = lambda v: P.raw(V, v, 'value_case')
    w = P.setraw(V, to, **widen(V, frm, to))
    g = lambda v, n: P.raw(V, v, n)
    num = lambda n: V.by[n].num
    isum = P.setraw(V, w, int64_value=wrap_term(g(to, 'int64_value') + g(frm, 'int64_value'), 64))
    r = w
    if not quota:
        r = z3.If(case(to) == num('distribution_value'), P.setraw(V, w, distribution_value=s.dist_merge(
            g(frm, 'distribution_value'), g(to, 'distribution_value'))), r)
        r = z3.If(case(to) == num('double_value'), P.setraw(V, w, double_value=d_add(
            g(to, 'double_value'), g(frm, 'double_value'))), r)
    r = z3.If(case(to) == num('int64_value'), isum, r)
    return z3.If(case(frm) == case(to), r, to)


def latest(frm, to):
    V = ss().V
    return z3.If(zbool(before(P.get(V, frm, 'end_time'), P.get(V, to, 'end_time'))), to, frm)


def mmv(kind, frm, to):
    """merge of a newer value `frm` into `to`"""
    return z3.If(zbool(Eq(kind, DELTA)), delta(frm, to), latest(frm, to))


def sig(v):
    m = P.raw(ss().V, v, 'labels')
    return md5(labels_sym(S.EMPTY, m, LM.size(m)))


def step(B, kind, v):
    b = ss().B
    k = sig(v)
    return z3.If(b.has(B, k), b.put(B, k, mmv(kind, v, b.get(B, k)), known=True), b.put(B, k, v, known=False))


def pred(k):
    k = z3.simplify(zint(k))
    if z3.is_int_value(k):
        return z3.IntVal(k.as_long() - 1) if k.as_long() > 0 else None
    if z3.is_add(k) and k.num_args() == 2:
        for i in (0, 1):
            if z3.is_int_value(k.arg(i)) and k.arg(i).as_long() == 1:
                return k.arg(1 - i)
    return None


def is0(k):
    return (is_c(k) and k == 0) or (z3.is_expr(k) and z3.is_int_value(k) and k.as_long() == 0)


def vals(B, kind, q, k):
    if is0(k):
        return B
    j = pred(k)
    if j is not None:
        return step(vals_sym(B, kind, q, j), kind, ss().q.at(q, j))
    return vals_sym(B, kind, q, k)


def vals_sym(B, kind, q, k):
    return B if is0(k) else ss().F_vals(B, zint(kind), q, zint(k))


class Kinds:
    """the configured metric kinds: present (the pointer may be null) and the map"""

    def __init__(self, given, m):
        self.given, self.m = given, m

    def of(self, name):
        km = ss().KM
        return z3.If(z3.And(zbool(self.given), km.has(self.m, name)), km.get(self.m, name), z3.IntVal(DELTA))


def mstep(A, kinds, vs):
    s = ss()
    nm = P.raw(s.VS, vs, 'metric_name')
    q = P.raw(s.VS, vs, 'metric_values')
    B0 = z3.If(s.A.has(A, nm), s.A.get(A, nm), s.B.empty())
    B1 = vals_all(B0, kinds.of(nm), q)
    return z3.If(s.A.has(A, nm), s.A.put(A, nm, B1, known=True), s.A.put(A, nm, B1, known=False))


def vals_all(B, kind, q):
    return vals_sym(B, kind, q, ss().q.len(q))


def msets(A, kinds, sets, k):
    if is0(k):
        return A
    j = pred(k)
    if j is not None:
        return mstep(msets_sym(A, kinds, sets, j), kinds, ss().s.at(sets, j))
    return msets_sym(A, kinds, sets, k)


def msets_sym(A, kinds, sets, k):
    return A if is0(k) else ss().F_msets(A, zbool(kinds.given), kinds.m, sets, zint(k))


# ------------------------------------------------------------------ contracts of callees
def c_sig(ex, st, ci):
    """key of a metric value (verified: unit GenerateReportMetricValueSignature, C07/C08)"""
    v = ex.read(st, ci.args[1])
    st.assume(zint(LM.size(P.raw(ss().V, v, 'labels'))) >= 0)
    ex.write(st, ci.args[0], sig(v))


def c_dist(ex, st, ci):
    """verified: unit DistributionHelper::Merge (C05); the target becomes a function of both"""
    sret = len(ci.args) == 3
    f, t = ci.args[1:] if sret else ci.args
    a, b = ex.read(st, f), ex.read(st, t)
    ex.write(st, t, ss().dist_merge(a, b))
    s = fresh(lib.Status, 'merge_status')
    if sret:
        ex.write(st, ci.args[0], s)
        return None
    return s


def c_mmv(ex, st, ci):
    """verified: unit MergeMetricValue"""
    k, f, t = ci.args
    a, b = ex.read(st, f), ex.read(st, t)
    ex.write(st, t, mmv(k, a, b))


def c_qmv(ex, st, ci):
    f, t = ci.args
    ex.write(st, t, delta(ex.read(st, f), ex.read(st, t), True))


SIGC = (re.compile(r'^scc::GenerateReportMetricValueSignature'), c_sig)
DISTC = (re.compile(r'^scc::DistributionHelper::Merge\('), c_dist)
MMV = r'^scc::MergeMetricValue\('
QMV = r'^scc::MergeDeltaMetricValue\('


def setup_mmv(u, quota=False):
    V = SC + 'MetricValue'
    pf, f = u.message('from', V)
    pt, t = u.message('to', V)
    u.v.update(f=f, t=t, pf=pf, pt=pt)
    if quota:
        u.args = [pf, pt]
    else:
        k = u.int('kind', 32)
        u.v['k'] = k
        u.args = [k, pf, pt]


def post_mmv(u, st, ret):
    f, t, k = u.v['f'], u.v['t'], u.v['k']
    V = ss().V
    r = u.read(st, u.v['pt'])
    want = mmv(k, f, t)
    for fd in V.fields:
        u.check(st, 'merged-%s' % fd.name, P.raw(V, r, fd) == P.raw(V, want, fd))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['pf']), f))


def post_qmv(u, st, ret):
    f, t = u.v['f'], u.v['t']
    V = ss().V
    r = u.read(st, u.v['pt'])
    want = delta(f, t, True)
    for fd in V.fields:
        u.check(st, 'merged-%s' % fd.name, P.raw(V, r, fd) == P.raw(V, want, fd))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['pf']), f))


# ------------------------------------------------------------------ the aggregator object
CLS = 'google::service_control_client::OperationAggregator'


def the_object(u, st=None, init=True):
    L = u.layout(CLS)
    b = u.block('aggregator', L.size)
    s = ss()
    oo, om, ok = L.off('operation_', 'Operation'), L.off('metric_value_sets_', 'unordered_map'), L.off('metric_kinds_')
    u.v.update(this=Ptr(b.id), po=Ptr(b.id, oo), pm=Ptr(b.id, om), ok=ok)
    u.st.ghost['pm'] = Ptr(b.id, om)
    u.st.ghost['po'] = Ptr(b.id, oo)
    km = fresh(s.KM.sort, 'kinds')
    pk = u.obj('kinds', km)
    kk = z3.Const('kq', Str)
    u.v['km'] = km
    given = fresh(z3.BoolSort(), 'kinds_given')
    u.v['kinds'] = Kinds(given, km)
    if init:
        op = fresh(s.O.sort, 'operation')
        u.assume(*P.wf(s.O, op))
        u.assume(s.s.len(P.raw(s.O, op, 'metric_value_sets')) == 0)     # class invariant
        A = fresh(s.A.sort, 'sets')
        u.assume(zint(s.A.size(A)) >= 0)
        b.cells[oo], b.cells[om] = op, A
        u.v.update(op=op, A=A)
    return b, pk, given


def two_states(u, b, pk, given, args):
    """metric_kinds_ null or not"""
    out = []
    for g in (False, True):
        st = u.st.copy()
        st.assume(given if g else z3.Not(given))
        st.wblk(b.id).cells[u.v['ok']] = pk if g else NULL
        st.ghost['kinds'] = u.v['kinds']
        st.ghost['kindsptr'] = pk if g else NULL
        out.append((st, args))
    return out


def setup_merge_sets(u):
    b, pk, given = the_object(u)
    p, v = u.message('incoming', SC + 'Operation')
    u.v.update(p=p, v=v)
    u.st.ghost['in'] = (p, v)
    return two_states(u, b, pk, given, [u.v['this'], p])


def setup_ctor(u):
    b, pk, given = the_object(u, init=False)
    p, v = u.message('incoming', SC + 'Operation')
    u.v.update(p=p, v=v, pk=pk)
    u.st.ghost['in'] = (p, v)
    out = []
    for g in (False, True):
        st = u.st.copy()
        st.assume(given if g else z3.Not(given))
        st.ghost['kinds'] = u.v['kinds']
        st.ghost['kindsptr'] = pk if g else NULL
        out.append((st, [u.v['this'], p, pk if g else NULL]))
    return out


def sets_of(v):
    return P.raw(ss().O, v, 'metric_value_sets')


def folded(u, A, v):
    x = sets_of(v)
    return msets_sym(A, u.v['kinds'], x, ss().s.len(x))


def post_merge_sets(u, st, ret):
    u.check(st, 'every-value-of-every-set-merged-once-in-order', Eq(u.read(st, u.v['pm']), folded(u, u.v['A'], u.v['v'])))
    u.check(st, 'operation-fields-unchanged', Eq(u.read(st, u.v['po']), u.v['op']))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['p']), u.v['v']))


def same_fields(u, st, M, r, want, skip=()):
    for fd in M.fields:
        if fd.name not in skip:
            u.check(st, 'field-%s' % fd.name, P.raw(M, r, fd) == P.raw(M, want, fd))


def post_ctor(u, st, ret):
    s = ss()
    r = u.read(st, u.v['po'])
    same_fields(u, st, s.O, r, u.v['v'], skip=('metric_value_sets',))
    u.check(st, 'class-invariant-no-metrics-in-operation', Eq(s.s.len(sets_of(r)), 0))
    u.check(st, 'every-value-of-every-set-taken-once-in-order', Eq(u.read(st, u.v['pm']), folded(u, s.A.empty(), u.v['v'])))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['p']), u.v['v']))
    k = u.read(st, Ptr(u.v['this'].b, u.v['ok']))
    u.check(st, 'kinds-kept', u.ex.ptr_eq(st, k, st.ghost['kindsptr']))


def post_merge(u, st, ret):
    s = ss()
    r, op, v = u.read(st, u.v['po']), u.v['op'], u.v['v']
    want = P.setraw(s.O, op, **widen(s.O, v, op))
    same_fields(u, st, s.O, r, want, skip=('log_entries',))
    a, b, c = (P.raw(s.O, x, 'log_entries') for x in (op, v, r))
    i = u.int('i')
    u.check(st, 'log-entries-count', Eq(s.logs.len(c), s.logs.len(a) + s.logs.len(b)))
    u.check(st, 'earlier-log-entries-kept', Implies(And(0 <= i, i < s.logs.len(a)), s.logs.at(c, i) == s.logs.at(a, i)))
    u.check(st, 'new-log-entries-appended-in-order', Implies(And(s.logs.len(a) <= i, i < s.logs.len(a) + s.logs.len(b)),
                                                             s.logs.at(c, i) == s.logs.at(b, i - s.logs.len(a))))
    u.check(st, 'every-value-of-every-set-merged-once-in-order', Eq(u.read(st, u.v['pm']), folded(u, u.v['A'], v)))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['p']), v))
    k = u.read(st, Ptr(u.v['this'].b, u.v['ok']))
    u.check(st, 'kinds-kept', u.ex.ptr_eq(st, k, st.ghost['kindsptr']))


def setup_this(u):
    b, pk, given = the_object(u)
    return two_states(u, b, pk, given, [u.v['this']])


def enumerations(u, pm, A):
    """library contract of iteration, stated for all the inner maps at once: a bijection onto the keys"""
    s = ss()
    i, k, g = z3.Int('ei'), z3.Const('ek', Str), z3.Const('eg', Str)
    B = s.A.get(A, k)
    io, idx = inner_order(pm, A, k)
    n = s.B.size(B)
    u.assume(forall([k], zint(n) >= 0))
    u.assume(forall([k, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(s.B.has(B, io(i)), idx(io(i)) == i)), patterns=[io(i)]))
    u.assume(forall([k, g], z3.Implies(s.B.has(B, g), z3.And(0 <= idx(g), idx(g) < n, io(idx(g)) == g)), patterns=[idx(g)]))


def setup_render(u):
    b, pk, given = the_object(u)
    r = u.block('ret', P.msg_size(SC + 'Operation') if hasattr(P, 'msg_size') else 256)
    u.st.ghost['ret'] = Ptr(r.id)
    u.v['ret'] = Ptr(r.id)
    i, k = z3.Int('wi'), z3.Const('wk', Str)
    s = ss()
    enumerations(u, u.v['pm'], u.v['A'])
    return two_states(u, b, pk, given, [Ptr(r.id), u.v['this']])


def post_render(u, st, ret):
    s = ss()
    A, pm = u.v['A'], u.v['pm']
    r = u.read(st, u.v['ret'])
    R = sets_of(r)
    same_fields(u, st, s.O, r, u.v['op'], skip=('metric_value_sets',))
    i, i2, j, j2 = (u.int(x) for x in ('i', 'i2', 'j', 'j2'))
    at = lambda x: s.s.at(R, x)
    name = lambda x: P.raw(s.VS, at(x), 'metric_name')
    V = lambda x: P.raw(s.VS, at(x), 'metric_values')
    inr = lambda x: And(0 <= x, x < s.s.len(R))
    u.check(st, 'one-set-per-name', Eq(s.s.len(R), s.A.size(A)))
    u.check(st, 'every-set-is-of-a-name-that-occurred', Implies(inr(i), s.A.has(A, name(i))))
    u.check(st, 'no-name-twice', Implies(And(inr(i), inr(i2), name(i) == name(i2)), Eq(i, i2)))
    nm, sg = z3.Const('nm', Str), z3.Const('sg', Str)
    _, idx = lib.uord_fns(s.A, pm, s.A.dom(A))
    u.check(st, 'every-name-has-its-set', Implies(s.A.has(A, nm), And(inr(idx(nm)), name(idx(nm)) == nm)))
    B = s.A.get(A, name(i))
    io, iidx = inner_order(pm, A, name(i))
    inv = lambda x: And(0 <= x, x < s.q.len(V(i)))
    u.check(st, 'one-value-per-label-set', Implies(inr(i), Eq(s.q.len(V(i)), s.B.size(B))))
    u.check(st, 'values-are-the-aggregated-ones', Implies(And(inr(i), inv(j)), And(s.B.has(B, io(j)), s.q.at(V(i), j) == s.B.get(B, io(j)))))
    u.check(st, 'no-value-twice', Implies(And(inr(i), inv(j), inv(j2), io(j) == io(j2)), Eq(j, j2)))
    u.check(st, 'every-value-rendered', Implies(And(inr(i), s.B.has(B, sg)), And(inv(iidx(sg)), s.q.at(V(i), iidx(sg)) == s.B.get(B, sg))))
    u.check(st, 'aggregator-unchanged', And(Eq(u.read(st, pm), A), Eq(u.read(st, u.v['po']), u.v['op'])))


def post_toobig(u, st, ret):
    s = ss()
    u.check(st, 'hundred-log-entries-are-too-many', Eq(tobool(ret), s.logs.len(P.raw(s.O, u.v['op'], 'log_entries')) >= 100))
    u.check(st, 'operation-unchanged', Eq(u.read(st, u.v['po']), u.v['op']))


# ------------------------------------------------------------------ candidate invariants
def iters(c, st=None):
    st = st or c.st
    out = []
    for a in st.frames[-1].allocas:
        for o, v in st.mem[a].cells.items():
            if isinstance(v, Obj) and v.kind == 'iter' and v.mode == 'pos':
                out.append(v)
    return out


def loop_iter(c, cs):
    its = {repr(i.c): i for i in iters(c, c.s0) if i.cs is cs and is_c(i.pos) and i.pos == 0}
    if len(its) != 1:
        raise KeyError('iterator')
    return list(its.values())[0]


def loop_seq(c, cs):
    """the sequence the loop walks: the one its iterator points into, else (index loops) the incoming operation's; with the message that holds it"""
    s = ss()
    try:
        it = loop_iter(c, cs)
        return c.rd(it.c, c.s0), c.rd(Ptr(it.c.b, it.c.o, it.c.p[:-1]), c.s0)
    except KeyError:
        if any(True for i in iters(c, c.s0)):   # a loop with an iterator walks what that points into, nothing else
            raise
        p, v = c.st.ghost['in']
    if cs is s.q:
        at = {}
        for a in c.s0.frames[-1].allocas:
            for o, x in c.s0.mem[a].cells.items():
                if isinstance(x, Ptr) and x.b == p.b and x.p and x.p[-1][0] == 'i':
                    y = c.rd(x, c.s0)
                    if y.sort().eq(s.VS.sort):
                        at[repr(x)] = y
        if len(at) != 1:
            raise KeyError('set')
        y = list(at.values())[0]
        return P.raw(s.VS, y, 'metric_values'), y
    if cs is s.logs:
        return P.raw(s.O, v, 'log_entries'), v
    return (sets_of(v) if v.sort().eq(s.O.sort) else qsets_of(v)), v


def inv_vals(c):
    """inner loop: the first k values of this set merged into the map of its name"""
    s = ss()
    q, vs = loop_seq(c, s.q)
    pm, kinds = c.st.ghost['pm'], c.st.ghost['kinds']
    m0 = c.rd(pm, c.s0)
    nm = P.raw(s.VS, vs, 'metric_name')
    return And(s.A.has(m0, nm), Eq(c.rd(pm), s.A.put(m0, nm, vals(s.A.get(m0, nm), kinds.of(nm), q, c.k), known=True)))


def inv_msets(c):
    """outer loop: the first k sets merged"""
    s = ss()
    pm, kinds = c.st.ghost['pm'], c.st.ghost['kinds']
    return Eq(c.rd(pm), msets(c.rd(pm, c.s0), kinds, loop_seq(c, s.s)[0], c.k))


def inv_logs(c):
    s = ss()
    po = c.st.ghost['po']
    a, b, r = P.raw(s.O, c.rd(po, c.s0), 'log_entries'), loop_seq(c, s.logs)[0], P.raw(s.O, c.rd(po), 'log_entries')
    i = z3.Int('li')
    n = s.logs.len(a)
    return And(Eq(s.logs.len(r), n + c.k),
               forall([i], z3.Implies(z3.And(0 <= i, i < n), s.logs.at(r, i) == s.logs.at(a, i)), patterns=[s.logs.at(r, i)]),
               forall([i], z3.Implies(z3.And(n <= i, i < n + zint(c.k)), s.logs.at(r, i) == s.logs.at(b, i - n)), patterns=[s.logs.at(r, i)]))


# ------------------------------------------------------------------ rendering
def res_cell(c, M, st=None):
    """the message of type M under construction: in the result object or a local"""
    st = st or c.st
    out = []
    for bid in [c.st.ghost['ret'].b] + list(st.frames[-1].allocas):
        for o, v in st.mem[bid].cells.items():
            if z3.is_expr(v) and v.sort().eq(M.sort):
                out.append((bid, o))
    if len(out) != 1:
        raise KeyError('result')
    b, o = out[0]
    return c.s0.mem[b].cells[o], c.st.mem[b].cells[o]


def map_iter(c, cs):
    its = {repr(i.c): i for i in iters(c, c.s0) if i.cs is cs and is_c(i.pos) and i.pos == 0}
    if len(its) != 1:
        raise KeyError('iterator')
    return list(its.values())[0]


def order_of(c, it):
    m = c.rd(it.c, c.s0)
    return m, it.ordf


def inner_elem(it, B, vseq, j):
    """element j of the rendering of the inner map B (enumerated by its own order)"""
    return ss().B.get(B, it(j))


def rendered_inner(cs, B, ordf, V, n):
    """the first n elements of V are the values of B in enumeration order"""
    s = ss()
    j = z3.Int('rj')
    return And(Eq(s.q.len(V), n), forall([j], z3.Implies(z3.And(0 <= j, j < zint(n)), s.q.at(V, j) == s.B.get(B, ordf(j))),
                                         patterns=[s.q.at(V, j)]))


def in_order(pm, key):
    return lib.uord_fns(ss().B, extend_k(pm, key), None)


def extend_k(pm, key):
    return Ptr(pm.b, pm.o, pm.p + (('k', ss().A, key),))


def inner_order(pm, A, name):
    """(ord, idx) of the inner map of `name`"""
    s = ss()
    return lib.uord_fns(s.B, extend_k(pm, name), s.B.dom(s.A.get(A, name)))


def sets_rendered(pm, A, ordf, R, n, base=0):
    """R[i] for i < n: the set of the i-th name with exactly the values of its map"""
    s = ss()
    i, j = z3.Int('ri'), z3.Int('rj')
    e = s.s.at(R, i)
    V = P.raw(s.VS, e, 'metric_values')
    B = s.A.get(A, ordf(i))
    io, _ = inner_order(pm, A, ordf(i))
    rng_ = z3.And(0 <= i, i < zint(n))
    return And(forall([i], z3.Implies(rng_, zbool(And(Eq(P.raw(s.VS, e, 'metric_name'), ordf(i)), Eq(s.q.len(V), s.B.size(B))))), patterns=[e]),
               forall([i, j], z3.Implies(z3.And(rng_, 0 <= j, j < s.B.size(B)), s.q.at(V, j) == s.B.get(B, io(j))), patterns=[s.q.at(V, j)]))


def inv_render(c):
    s = ss()
    it = map_iter(c, s.A)
    if any(i.cs is s.B and is_c(i.pos) for i in iters(c, c.s0)):
        raise KeyError('inner loop')
    A = c.rd(it.c, c.s0)
    r0, r = res_cell(c, s.O)
    R = sets_of(r)
    return And(Eq(s.s.len(R), c.k), sets_rendered(it.c, A, it.ordf, R, c.k))


def inv_render_inner(c):
    s = ss()
    it = map_iter(c, s.B)
    B = c.rd(it.c, c.s0)
    r0, r = res_cell(c, s.O)
    R0, R = sets_of(r0), sets_of(r)
    n = s.s.len(R0) - 1
    i = z3.Int('ri')
    e0, e = s.s.at(R0, n), s.s.at(R, n)
    return And(Eq(s.s.len(R), n + 1), forall([i], z3.Implies(z3.And(0 <= i, i < n), s.s.at(R, i) == s.s.at(R0, i)), patterns=[s.s.at(R, i)]),
               Eq(P.raw(s.VS, e, 'metric_name'), P.raw(s.VS, e0, 'metric_name')),
               rendered_inner(s.B, B, it.ordf, P.raw(s.VS, e, 'metric_values'), c.k))


CANDS = [('sets-rendered', inv_render), ('values-rendered', inv_render_inner), ('values-merged', inv_vals), ('sets-merged', inv_msets), ('logs-appended', inv_logs)]
OPTS = dict(candidates=CANDS, timeout=20000, merge=True)
SETSC = r'^scc::OperationAggregator::MergeMetricValueSets\('


def c_merge_sets(ex, st, ci):
    """verified: unit MergeMetricValueSets"""
    this, p = ci.args
    pm = st.ghost.get('pm')
    if pm is None or this.b != pm.b or this.o != 0 or 'kinds' not in st.ghost:
        return NotImplemented
    v = ex.read(st, p)
    x = sets_of(v)
    st.assume(zint(ss().s.len(x)) >= 0)
    ex.write(st, pm, msets_sym(ex.read(st, pm), st.ghost['kinds'], x, ss().s.len(x)))


C_MERGE = (re.compile(SETSC), c_merge_sets)

# ------------------------------------------------------------------ quota operations (C11)
QCLS = 'google::service_control_client::QuotaOperationAggregator'


def qstep(B, vs):
    s = ss()
    nm = P.raw(s.VS, vs, 'metric_name')
    v = s.q.at(P.raw(s.VS, vs, 'metric_values'), 0)
    return z3.If(s.B.has(B, nm), s.B.put(B, nm, delta(v, s.B.get(B, nm), True), known=True), s.B.put(B, nm, v, known=False))


def quota_sym(B, sets, k):
    return B if is0(k) else ss().F_q(B, sets, zint(k))


def quota(B, sets, k):
    if is0(k):
        return B
    j = pred(k)
    return qstep(quota_sym(B, sets, j), ss().s.at(sets, j)) if j is not None else quota_sym(B, sets, k)


def qsets_of(v):
    return P.raw(ss().QO, v, 'quota_metrics')


def q_object(u, init=True):
    L = u.layout(QCLS)
    b = u.block('aggregator', L.size)
    s = ss()
    oo, om = L.off('operation_', 'QuotaOperation'), L.off('metric_value_sets_', 'unordered_map')
    u.v.update(this=Ptr(b.id), po=Ptr(b.id, oo), pm=Ptr(b.id, om))
    u.st.ghost['pm'], u.st.ghost['po'] = Ptr(b.id, om), Ptr(b.id, oo)
    if init:
        op, B = fresh(s.QO.sort, 'operation'), fresh(s.B.sort, 'amounts')
        u.assume(*P.wf(s.QO, op))
        u.assume(zint(s.B.size(B)) >= 0)
        b.cells[oo], b.cells[om] = op, B
        u.v.update(op=op, B=B)
    return b


def q_incoming(u):
    """precondition (GOOGLE_DCHECKed by the code): every metric value set has exactly one value"""
    s = ss()
    p, v = u.message('incoming', SC + 'QuotaOperation')
    i = z3.Int('qi')
    e = s.s.at(qsets_of(v), i)
    u.assume(forall([i], z3.Implies(z3.And(0 <= i, i < s.s.len(qsets_of(v))), s.q.len(P.raw(s.VS, e, 'metric_values')) == 1), patterns=[e]))
    u.v.update(p=p, v=v)
    u.st.ghost['in'] = (p, v)
    return p


def setup_q_merge(u):
    q_object(u)
    u.args = [u.v['this'], q_incoming(u)]


def setup_q_ctor(u):
    q_object(u, init=False)
    u.args = [u.v['this'], q_incoming(u)]


def post_q(u, st, ret, B0, op):
    s = ss()
    x = qsets_of(u.v['v'])
    u.check(st, 'every-amount-merged-once-in-order', Eq(u.read(st, u.v['pm']), quota_sym(B0, x, s.s.len(x))))
    same_fields(u, st, s.QO, u.read(st, u.v['po']), op, skip=('quota_metrics',))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['p']), u.v['v']))


def c_q_merge(ex, st, ci):
    """verified: unit QuotaOperationAggregator::MergeOperation"""
    this, p = ci.args
    pm = st.ghost.get('pm')
    if pm is None or this.b != pm.b or this.o != 0:
        return NotImplemented
    x = qsets_of(ex.read(st, p))
    ex.write(st, pm, quota_sym(ex.read(st, pm), x, ss().s.len(x)))


def inv_quota(c):
    s = ss()
    pm = c.st.ghost['pm']
    m0 = c.rd(pm, c.s0)
    if not m0.sort().eq(s.B.sort):
        raise KeyError('quota')
    return Eq(c.rd(pm), quota(m0, loop_seq(c, s.s)[0], c.k))


def setup_q_render(u):
    b = q_object(u)
    r = u.block('ret', 256)
    u.st.ghost['ret'] = u.v['ret'] = Ptr(r.id)
    u.args = [Ptr(r.id), u.v['this']]


def q_rendered(B, ordf, R, n):
    s = ss()
    i = z3.Int('ri')
    e = s.s.at(R, i)
    V = P.raw(s.VS, e, 'metric_values')
    return forall([i], z3.Implies(z3.And(0 <= i, i < zint(n)), zbool(And(Eq(P.raw(s.VS, e, 'metric_name'), ordf(i)), Eq(s.q.len(V), 1),
                                                                       s.q.at(V, 0) == s.B.get(B, ordf(i))))), patterns=[e])


def inv_q_render(c):
    s = ss()
    it = map_iter(c, s.B)
    B = c.rd(it.c, c.s0)
    r0, r = res_cell(c, s.QO)
    R = qsets_of(r)
    return And(Eq(s.s.len(R), c.k), q_rendered(B, it.ordf, R, c.k))


def post_q_render(u, st, ret):
    s = ss()
    B, pm = u.v['B'], u.v['pm']
    r = u.read(st, u.v['ret'])
    R = qsets_of(r)
    same_fields(u, st, s.QO, r, u.v['op'], skip=('quota_metrics',))
    i, i2 = u.int('i'), u.int('i2')
    name = lambda x: P.raw(s.VS, s.s.at(R, x), 'metric_name')
    V = lambda x: P.raw(s.VS, s.s.at(R, x), 'metric_values')
    inr = lambda x: And(0 <= x, x < s.s.len(R))
    _, idx = lib.uord_fns(s.B, pm, s.B.dom(B))
    nm = z3.Const('nm', Str)
    u.check(st, 'one-set-per-name', Eq(s.s.len(R), s.B.size(B)))
    u.check(st, 'every-set-is-of-a-name-that-occurred-with-its-total', Implies(inr(i), And(
        s.B.has(B, name(i)), Eq(s.q.len(V(i)), 1), s.q.at(V(i), 0) == s.B.get(B, name(i)))))
    u.check(st, 'no-name-twice', Implies(And(inr(i), inr(i2), name(i) == name(i2)), Eq(i, i2)))
    u.check(st, 'every-name-has-its-set', Implies(s.B.has(B, nm), And(inr(idx(nm)), name(idx(nm)) == nm)))
    u.check(st, 'aggregator-unchanged', And(Eq(u.read(st, pm), B), Eq(u.read(st, u.v['po']), u.v['op'])))


QOPTS = dict(candidates=[('amounts-merged', inv_quota), ('amounts-rendered', inv_q_render)], timeout=20000, merge=True)
QC = [(re.compile(QMV), c_qmv)]


# ------------------------------------------------------------------ lemmas: what the folds mean
def lemma_setup(u):
    u.args = []


def lemma_value_step(u, st, ret):
    """one occurrence: its key is present afterwards, no other key appears, vanishes or changes value"""
    s = ss()
    B, v, kind, k = fresh(s.B.sort, 'B'), fresh(s.V.sort, 'v'), u.int('kind'), fresh(Str, 'k')
    st.assume(zint(s.B.size(B)) >= 0)
    R = step(B, kind, v)
    u.check(st, 'its-key-is-present', s.B.has(R, sig(v)))
    u.check(st, 'no-other-key-appears-or-vanishes', Implies(k != sig(v), s.B.has(R, k) == s.B.has(B, k)))
    u.check(st, 'no-other-value-changes', Implies(k != sig(v), s.B.get(R, k) == s.B.get(B, k)))
    u.check(st, 'first-occurrence-is-kept-whole', Implies(Not(s.B.has(B, sig(v))), s.B.get(R, sig(v)) == v))
    u.check(st, 'later-occurrence-is-merged-once', Implies(s.B.has(B, sig(v)), s.B.get(R, sig(v)) == mmv(kind, v, s.B.get(B, sig(v)))))
    u.check(st, 'one-entry-per-key', Eq(s.B.size(R), s.B.size(B) + z3.If(s.B.has(B, sig(v)), 0, 1)))
    # every stored value has the labels (digest) of its key
    ok = lambda M: z3.Implies(s.B.has(M, k), sig(s.B.get(M, k)) == k)
    st.assume(ok(B))
    u.check(st, 'stored-values-belong-to-their-key', Implies(And(ok(B), Implies(s.B.has(B, sig(v)), sig(s.B.get(B, sig(v))) == sig(v))), ok(R)))


def lemma_value_fold(u, st, ret):
    """induction over the occurrences: after k of them exactly the old keys and their keys are present"""
    s = ss()
    B, q, kind, key = fresh(s.B.sort, 'B'), fresh(s.q.sort, 'q'), u.int('kind'), fresh(Str, 'key')
    k, j, i = u.int('k'), u.int('j'), z3.Int('fi')
    st.assume(And(0 <= k, k < s.q.len(q)))
    Rk, Rn = vals_sym(B, kind, q, k), vals(B, kind, q, k + 1)
    occ = lambda n: z3.Exists([i], z3.And(0 <= i, i < n, sig(s.q.at(q, i)) == key))
    P1 = lambda R, n: s.B.has(R, key) == z3.Or(s.B.has(B, key), occ(n))
    u.check(st, 'base', P1(vals(B, kind, q, 0), z3.IntVal(0)))
    s2 = st.copy()
    s2.assume(P1(Rk, k))
    last = sig(s.q.at(q, k)) == key
    u.check(s2, 'step-present-implies-occurred', Implies(s.B.has(Rn, key), z3.Or(s.B.has(B, key), last, occ(k))))
    u.check(s2, 'step-occurred-implies-present', Implies(z3.Or(s.B.has(B, key), last, occ(k)), s.B.has(Rn, key)))
    s3 = st.copy()
    s3.assume(z3.Or(last, occ(k)))
    u.check(s3, 'occurrences-of-k-plus-one', occ(k + 1))


def lemma_kind(u, st, ret):
    """C10: the closed form of the merge"""
    s = ss()
    V = s.V
    a, b, kind = fresh(V.sort, 'newer'), fresh(V.sort, 'older'), u.int('kind')
    for x in (a, b):
        for f in P.wf(V, x):
            st.assume(f)
    g = lambda x, n: P.get(V, x, n)
    r = mmv(kind, a, b)
    case = lambda x: P.raw(V, x, 'value_case')
    num = lambda n: V.by[n].num
    d = Eq(kind, DELTA)
    same = case(a) == case(b)
    u.check(st, 'unlisted-is-delta', Eq(Kinds(z3.BoolVal(False), fresh(s.KM.sort, 'km')).of(fresh(Str, 'n')), DELTA))
    km, n = fresh(s.KM.sort, 'km'), fresh(Str, 'n')
    u.check(st, 'unlisted-is-delta', Implies(Not(s.KM.has(km, n)), Eq(Kinds(z3.BoolVal(True), km).of(n), DELTA)))
    u.check(st, 'listed-kind-is-used', Implies(s.KM.has(km, n), Eq(Kinds(z3.BoolVal(True), km).of(n), s.KM.get(km, n))))
    u.check(st, 'delta-of-different-types-keeps-the-older', Implies(And(d, Not(same)), r == b))
    u.check(st, 'delta-adds-integers', Implies(And(d, same, Eq(case(a), num('int64_value'))), And(
        Eq(case(r), num('int64_value')), Eq(g(r, 'int64_value'), wrap_term(g(a, 'int64_value') + g(b, 'int64_value'), 64)))))
    u.check(st, 'delta-adds-doubles', Implies(And(d, same, Eq(case(a), num('double_value'))), And(
        Eq(case(r), num('double_value')), g(r, 'double_value') == d_add(g(b, 'double_value'), g(a, 'double_value')))))
    u.check(st, 'delta-merges-distributions', Implies(And(d, same, Eq(case(a), num('distribution_value'))), And(
        Eq(case(r), num('distribution_value')), g(r, 'distribution_value') == s.dist_merge(g(a, 'distribution_value'), g(b, 'distribution_value')))))
    for n, first in (('start_time', lambda x, y: before(x, y)), ('end_time', lambda x, y: before(y, x))):
        ha, hb, hr = (P.has(V, x, n) for x in (a, b, r))
        u.check(st, 'delta-window-' + n, Implies(And(d, same), And(
            zbool(hr) == z3.Or(zbool(ha), zbool(hb)),
            Implies(ha, Not(first(g(a, n), g(r, n)))), Implies(hb, Not(first(g(b, n), g(r, n)))),
            Implies(hr, Or(And(ha, g(r, n) == g(a, n)), And(hb, g(r, n) == g(b, n)))))))
    u.check(st, 'delta-keeps-labels', Implies(d, P.raw(V, r, 'labels') == P.raw(V, b, 'labels')))
    u.check(st, 'others-later-end-time-wins-whole', Implies(Not(d), r == z3.If(zbool(before(g(a, 'end_time'), g(b, 'end_time'))), b, a)))
    q = delta(a, b, True)
    u.check(st, 'quota-adds-integers', Implies(And(same, Eq(case(a), num('int64_value'))), And(
        Eq(case(q), num('int64_value')), Eq(g(q, 'int64_value'), wrap_term(g(a, 'int64_value') + g(b, 'int64_value'), 64)))))


def lemma_quota(u, st, ret):
    """C11: the total of a name is the sum of its amounts, its window covers theirs (induction over the sets)"""
    s = ss()
    V = s.V
    B, x, nm, k = fresh(s.B.sort, 'B'), fresh(s.s.sort, 'sets'), fresh(Str, 'nm'), u.int('k')
    st.assume(And(0 <= k, k < s.s.len(x)))
    amt = lambda i: P.get(V, s.q.at(P.raw(s.VS, s.s.at(x, i), 'metric_values'), 0), 'int64_value')
    name = lambda i: P.raw(s.VS, s.s.at(x, i), 'metric_name')
    total = z3.Function('total', I, I)           # sum of the amounts for nm among the first i sets, modulo 2^64
    sum0 = z3.If(s.B.has(B, nm), P.get(V, s.B.get(B, nm), 'int64_value'), z3.IntVal(0))
    num = V.by['int64_value'].num
    isint = lambda v: P.raw(V, v, 'value_case') == num
    Rk, Rn = quota_sym(B, x, k), quota(B, x, k + 1)
    vk = s.q.at(P.raw(s.VS, s.s.at(x, k), 'metric_values'), 0)
    st.assume(isint(vk))
    for v in (vk, s.B.get(Rk, nm)):
        st.assume(P.rng(P.raw(V, v, 'int64_value'), V.by['int64_value'].rng))
    inv = lambda R, t: And(Implies(s.B.has(R, nm), And(isint(s.B.get(R, nm)), Eq(P.get(V, s.B.get(R, nm), 'int64_value'), wrap_term(t, 64)))),
                           Implies(Not(s.B.has(R, nm)), Eq(t, 0)))
    t = u.int('t')
    st.assume(inv(Rk, t))
    u.check(st, 'sum-step', inv(Rn, z3.If(name(k) == nm, t + amt(k), t)))
    u.check(st, 'present-iff-occurred-step', s.B.has(Rn, nm) == z3.Or(s.B.has(Rk, nm), name(k) == nm))
    u.check(st, 'one-entry-per-name-step', Eq(s.B.size(Rn), s.B.size(Rk) + z3.If(s.B.has(Rk, name(k)), 0, 1)))


UNITS = [
    Unit(['C10', 'C09'], 'MergeMetricValue', TU, MMV, setup_mmv, post_mmv, opts=dict(merge=True), contracts=[DISTC], optional=True),
    Unit(['C09', 'C10'], 'MergeMetricValueSets', TU, SETSC, setup_merge_sets, post_merge_sets, opts=OPTS,
         contracts=[SIGC, DISTC, (re.compile(MMV), c_mmv)], optional=True),
    Unit('C09', 'OperationAggregator', TU, r'^scc::OperationAggregator::OperationAggregator\(', setup_ctor, post_ctor,
         opts=OPTS, contracts=[SIGC, DISTC, (re.compile(MMV), c_mmv), C_MERGE]),
    Unit('C09', 'MergeOperation', TU, r'^scc::OperationAggregator::MergeOperation\(', setup_merge_sets, post_merge,
         opts=OPTS, contracts=[SIGC, DISTC, (re.compile(MMV), c_mmv), C_MERGE]),
    Unit('C09', 'ToOperationProto', TU, r'^scc::OperationAggregator::ToOperationProto\(', setup_render, post_render, opts=OPTS),
    Unit(['C09', 'C14'], 'TooBig', TU, r'^scc::OperationAggregator::TooBig\(', setup_this, post_toobig),
    Unit('C11', 'quota-MergeMetricValue', QTU, QMV, lambda u: setup_mmv(u, True), post_qmv, opts=dict(merge=True), optional=True),
    Unit('C11', 'quota-MergeOperation', QTU, r'^scc::QuotaOperationAggregator::MergeOperation\(', setup_q_merge,
         lambda u, st, ret: post_q(u, st, ret, u.v['B'], u.v['op']), opts=QOPTS, contracts=QC),
    Unit('C11', 'QuotaOperationAggregator', QTU, r'^scc::QuotaOperationAggregator::QuotaOperationAggregator\(', setup_q_ctor,
         lambda u, st, ret: post_q(u, st, ret, ss().B.empty(), u.v['v']), opts=QOPTS,
         contracts=QC + [(re.compile(r'^scc::QuotaOperationAggregator::MergeOperation\('), c_q_merge)]),
    Unit('C11', 'quota-ToOperationProto', QTU, r'^scc::QuotaOperationAggregator::ToOperationProto\(', setup_q_render, post_q_render, opts=QOPTS),
]
for props, nm, fn in ((['C09'], 'lemma/one-value-per-name-and-labels', lemma_value_step), (['C09'], 'lemma/keys-are-those-that-occurred', lemma_value_fold),
                      (['C10', 'C11'], 'lemma/merge-of-two-values', lemma_kind), (['C11'], 'lemma/amounts-are-sums', lemma_quota)):
    UNITS.append(Unit(props, nm, TU, None, lemma_setup, fn, opts=dict(timeout=20000)))
