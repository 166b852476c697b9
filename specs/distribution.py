"""C03-C06: utils/distribution_helper.cc."""
from dv.unit import *
from dv.lib import RLOG

TU = 'utils/distribution_helper.cc'
DIST = '.google.api.servicecontrol.v1.Distribution'
KINDS = ('linear_buckets', 'exponential_buckets', 'explicit_buckets')
R = z3.RealVal
rpow = z3.Function('rpow', z3.RealSort(), z3.IntSort(), z3.RealSort())


class D:
    """logical view of a Distribution value"""

    def __init__(self, v, kind=None):
        self.v = v
        M = self.M = P.msg(DIST)
        self.count, self.mean = P.raw(M, v, 'count'), P.raw(M, v, 'mean')
        self.min, self.max = P.raw(M, v, 'minimum'), P.raw(M, v, 'maximum')
        self.ssd = P.raw(M, v, 'sum_of_squared_deviation')
        self.case = P.raw(M, v, 'bucket_option_case')
        self.bc = P.raw(M, v, 'bucket_counts')
        self.q = M.by['bucket_counts'].seq
        self.nb, self.arr = self.q.len(self.bc), self.q.arr(self.bc)
        if kind:
            f = M.by[kind]
            self.kind, self.num = kind, f.num
            self.opt = o = P.raw(M, v, kind)
            sm = f.msg
            if kind == 'linear_buckets':
                self.n, self.width, self.offset = [P.raw(sm, o, x) for x in ('num_finite_buckets', 'width', 'offset')]
                self.total = self.n + 2
            elif kind == 'exponential_buckets':
                self.n, self.growth, self.scale = [P.raw(sm, o, x) for x in
                                                   ('num_finite_buckets', 'growth_factor', 'scale')]
                self.total = self.n + 2
            else:
                self.bounds = P.raw(sm, o, 'bounds')
                self.bq = sm.by['bounds'].seq
                self.nbounds = self.bq.len(self.bounds)
                self.total = self.nbounds + 1

    def bound(self, i):
        return self.bq.at(self.bounds, i)

    def options(self):
        return And(*[self.case] and [Eq(self.case, self.case)])


def same_options(M, a, b):
    return And(*[Eq(P.raw(M, a, f), P.raw(M, b, f)) for f in ('bucket_option_case',) + KINDS])


def initialised(d, finite=True, sized=True):
    """what a successfully initialised distribution satisfies (C06), kept by AddSample and Merge"""
    out = [d.case == d.num, d.count >= 0] + ([d.nb == d.total] if sized else [d.nb >= 0])
    i, j = z3.Ints('wi wj')
    if d.kind == 'linear_buckets':
        out += [d.n > 0, zbool(d_lt(dconst(0.0), d.width))]
        if finite:
            out += [is_fin(d.width), is_fin(d.offset)]
    elif d.kind == 'exponential_buckets':
        out += [d.n > 0, zbool(d_lt(dconst(1.0), d.growth)), zbool(d_lt(dconst(0.0), d.scale))]
        if finite:
            out += [is_fin(d.growth), is_fin(d.scale)]
    else:
        out += [forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < d.nbounds), zbool(d_lt(d.bound(i), d.bound(j))))),
                forall([i], z3.Implies(z3.And(0 <= i, i < d.nbounds), Not(is_nan(d.bound(i)))))]
        if finite:
            out += [forall([i], z3.Implies(z3.And(0 <= i, i < d.nbounds), is_fin(d.bound(i))))]
    out += [d.n <= 2 ** 31 - 3] if d.kind != 'explicit_buckets' else []
    out += [forall([i], z3.Implies(z3.And(0 <= i, i < d.nb), z3.And(d.arr[i] >= 0, d.arr[i] <= d.count)))]
    return out


def finite_stats(d):
    return [is_fin(d.mean), is_fin(d.min), is_fin(d.max), is_fin(d.ssd)]


def stores(t):
    """indices stored to in an array term: witnesses for 'exactly one cell changed'"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_store(x):
            out.append(x.arg(1))
        todo.extend(x.children())
    return out


# ------------------------------------------------------------------ AddSample
def setup_add(u, kind, finite, finsample):
    ret = u.block('ret', 40)
    pd, v = u.message('d', DIST)
    d = D(v, kind)
    u.assume(*initialised(d, finite))
    u.assume(d.count < 2 ** 62)
    x = fresh(Dbl, 'value')
    if finsample:
        u.assume(is_fin(x), *finite_stats(d))
    u.v.update(d=d, pd=pd, x=x, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), x, pd]


def setup_add_unknown(u):
    ret = u.block('ret', 40)
    pd, v = u.message('d', DIST)
    u.assume(D(v).case == 0)
    u.v.update(d=D(v), pd=pd, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), fresh(Dbl, 'value'), pd]


def post_unknown(u, st, ret):
    u.check(st, 'no-bucket-option-is-invalid-argument', Eq(lib.scode(u.read(st, u.v['ret'])), 3))
    u.check(st, 'no-bucket-option-leaves-distribution-unchanged', Eq(u.read(st, u.v['pd']), u.v['d'].v))


def bump_witness(u, st, d, e):
    """(formula, index) per candidate: exactly the count at index was raised by one"""
    out = []
    for c in stores(e.arr):
        out.append((And(c >= 0, c < zint(d.nb), Eq(e.nb, d.nb), e.arr == z3.Store(d.arr, c, d.arr[c] + 1)), c))
    return out


def post_stats(u, st, ret):
    d, x = u.v['d'], u.v['x']
    e = D(u.read(st, u.v['pd']), d.kind)
    u.check(st, 'sample-accepted', Eq(lib.scode(u.read(st, u.v['ret'])), 0))
    u.check(st, 'count-plus-one', Eq(e.count, d.count + 1))
    ws = bump_witness(u, st, d, e)
    u.check(st, 'exactly-one-bucket-plus-one', Or(*[f for f, _ in ws]))
    u.check(st, 'bucket-definition-unchanged', same_options(d.M, d.v, e.v))
    r, n = rval(x), z3.ToReal(d.count)
    first = d.count == 0
    u.check(st, 'minimum', And(d_isfin(e.min), d_r(e.min) == z3.If(z3.Or(first, r < rval(d.min)), r, rval(d.min))))
    u.check(st, 'maximum', And(d_isfin(e.max), d_r(e.max) == z3.If(z3.Or(first, r > rval(d.max)), r, rval(d.max))))
    u.check(st, 'mean', And(d_isfin(e.mean), z3.If(first, d_r(e.mean) == r,
                                                  d_r(e.mean) * (n + 1) == n * rval(d.mean) + r)))
    u.check(st, 'sum-of-squared-deviation',
            And(d_isfin(e.ssd), z3.If(first, d_r(e.ssd) == 0,
                                     d_r(e.ssd) == rval(d.ssd) + (r - rval(d.mean)) * (r - d_r(e.mean)))))


def post_bucket(u, st, ret):
    d, x = u.v['d'], u.v['x']
    e = D(u.read(st, u.v['pd']), d.kind)
    alts = []
    hints = []
    nan = is_nan(x)
    ninf, pinf, r = is_ninf(x), is_pinf(x), rval(x)
    for f, c in bump_witness(u, st, d, e):
        if d.kind == 'linear_buckets':
            lo, w, n = rval(d.offset), rval(d.width), z3.ToReal(d.n)
            low = z3.Or(ninf, z3.And(is_fin(x), r < lo))
            high = z3.Or(pinf, z3.And(is_fin(x), r >= lo + n * w))
            k = z3.ToReal(c)
            mid = z3.And(lo + (k - 1) * w <= r, r < lo + k * w)
            last = d.n + 1
            p = (r - lo) / w
            # lemma (proved below, unit 'lemma'): w>0 -> p*w = r-lo, (k<=p <-> k*w<=p*w)
            hints.append(z3.Implies(w > 0, p * w == r - lo))
            for kk in (k - 1, k, n):
                hints.append(z3.Implies(w > 0, (kk <= p) == (kk * w <= p * w)))
        elif d.kind == 'exponential_buckets':
            g, s = rval(d.growth), rval(d.scale)
            qv = r / s
            low = z3.Or(ninf, z3.And(is_fin(x), r < s))
            high = z3.Or(pinf, z3.And(is_fin(x), qv >= rpow(g, d.n)))
            mid = z3.And(rpow(g, c - 1) <= qv, qv < rpow(g, c))
            last = d.n + 1
            hints.append(z3.Implies(s > 0, (r >= s) == (qv >= 1)))
            for L in RLOG.values():
                lg, lq = L(g), L(qv)
                hints.append(z3.Implies(g > 1, lg > 0))
                hints.append(z3.Implies(qv >= 1, lq >= 0))
                hints.append(z3.Implies(lg > 0, (lq / lg) * lg == lq))
                for kk in (c - 1, c, d.n):
                    pw = rpow(g, kk)
                    kr = z3.ToReal(kk)
                    hints.append(z3.Implies(g > 1, z3.And(pw > 0, L(pw) == kr * lg)))
                    hints.append(z3.Implies(z3.And(pw > 0, qv > 0), (pw <= qv) == (L(pw) <= lq)))
                    hints.append(z3.Implies(lg > 0, (kr <= lq / lg) == (kr * lg <= lq)))
        else:
            m = d.nbounds
            low = And(m > 0, d_lt(x, d.bound(0)))
            high = Or(m == 0, d_le(d.bound(m - 1), x))
            mid = And(d_le(d.bound(c - 1), x), d_lt(x, d.bound(c)))
            last = m
        alts.append(And(f, Implies(Not(nan), z3.If(zbool(low), c == 0, z3.If(zbool(high), c == last, z3.And(
            c >= 1, c < last, zbool(mid)))))))
    u.check(st, 'sample-lands-in-covering-bucket', Or(*alts), hints=hints)


def post_index(u, st, ret):
    d = u.v['d']
    e = D(u.read(st, u.v['pd']), d.kind)
    u.check(st, 'exactly-one-bucket-plus-one', Or(*[f for f, _ in bump_witness(u, st, d, e)]))


# ------------------------------------------------------------------ lemma
def setup_lemma(u):
    u.args = []


def post_lemma(u, st, ret):
    p, w, k, x = z3.Reals('p w k x')
    u.ex.oblige(u.st, 'lemma-scaling', z3.Implies(w > 0, z3.And(z3.Implies(k <= p, k * w <= p * w), z3.Implies(k * w <= p * w, k <= p))))
    u.ex.oblige(u.st, 'lemma-division', z3.Implies(w > 0, (x / w) * w == x))
    u.ex.oblige(u.st, 'lemma-ratio', z3.Implies(w > 0, (x >= w) == (x / w >= 1)))


# ------------------------------------------------------------------ Merge
TOL = R('1/100000')


def absr(x):
    return z3.If(x >= 0, x, -x)


def equal_or_far(a, b):
    """(equal, clearly different) of two finite parameters; between them the contract is silent"""
    x, y = rval(a), rval(b)
    d = absr(x - y)
    return x == y, z3.And(d > TOL * absr(x) * 2, d > TOL * absr(y) * 2)


def setup_merge(u, kf, kt):
    ret = u.block('ret', 40)
    pf, f = u.message('from', DIST)
    pt, t = u.message('to', DIST)
    df, dt = D(f, kf), D(t, kt)
    u.assume(*initialised(df, sized=False), *initialised(dt, sized=False), *finite_stats(df), *finite_stats(dt))
    u.assume(df.count < 2 ** 62, dt.count < 2 ** 62)
    u.v.update(df=df, dt=dt, pf=pf, pt=pt, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), pf, pt]


def params(d):
    if d.kind == 'linear_buckets':
        return [d.n], [d.width, d.offset]
    if d.kind == 'exponential_buckets':
        return [d.n], [d.growth, d.scale]
    return None


def matching(df, dt):
    """(definitely matching, definitely not matching)"""
    if df.kind != dt.kind:
        return False, True
    if df.kind != 'explicit_buckets':
        (nf,), pf = params(df)
        (nt,), pt = params(dt)
        eqs, fars = zip(*[equal_or_far(a, b) for a, b in zip(pf, pt)])
        return And(Eq(nf, nt), *eqs), Or(nf != nt, *fars)
    i = z3.Int(fresh_name('mi'))
    e, f = equal_or_far(df.bound(i), dt.bound(i))
    inr = z3.And(i >= 0, i < df.nbounds)
    return And(df.nbounds == dt.nbounds, forall([i], z3.Implies(inr, e))), \
        Or(df.nbounds != dt.nbounds, z3.Exists([i], z3.And(inr, f)))


def post_merge(u, st, ret):
    df, dt = u.v['df'], u.v['dt']
    code = lib.scode(u.read(st, u.v['ret']))
    tv = u.read(st, u.v['pt'])
    e = D(tv, dt.kind)
    yes, no = matching(df, dt)
    yes, no = And(yes, Eq(df.nb, dt.nb)), Or(no, Not(Eq(df.nb, dt.nb)))
    u.check(st, 'source-unchanged', Eq(u.read(st, u.v['pf']), df.v))
    u.check(st, 'mismatch-is-rejected', Implies(no, Eq(code, 3)))
    u.check(st, 'match-is-accepted', Implies(yes, Eq(code, 0)))
    u.check(st, 'status-is-ok-or-invalid-argument', Or(Eq(code, 0), Eq(code, 3)))
    if Eq(code, 0) is False or u.ex.must(st, Eq(code, 3)):
        u.check(st, 'rejected-merge-changes-nothing', Eq(tv, dt.v))
        return
    ok = Eq(code, 0)
    nf, nt = df.count, dt.count
    u.check(st, 'count-is-sum', Implies(ok, Eq(e.count, nf + nt)))
    i = z3.Int(fresh_name('bi'))
    u.check(st, 'bucket-counts-are-sums', Implies(ok, And(
        Eq(e.nb, dt.nb), forall([i], z3.Implies(z3.And(i >= 0, i < zint(dt.nb)), e.arr[i] == dt.arr[i] + df.arr[i])))))
    u.check(st, 'bucket-option-kept', Implies(ok, And(Eq(e.case, dt.num), Or(same_options(e.M, tv, dt.v), And(
        Eq(nt, 0), same_options(e.M, tv, df.v))))))
    some = nf + nt > 0
    a, b = rval(df.min), rval(dt.min)
    u.check(st, 'minimum', Implies(And(ok, some), And(d_isfin(e.min), d_r(e.min) == z3.If(
        nt == 0, a, z3.If(z3.Or(nf == 0, b <= a), b, a)))))
    a, b = rval(df.max), rval(dt.max)
    u.check(st, 'maximum', Implies(And(ok, some), And(d_isfin(e.max), d_r(e.max) == z3.If(
        nt == 0, a, z3.If(z3.Or(nf == 0, b >= a), b, a)))))
    rf, rt = z3.ToReal(nf), z3.ToReal(nt)
    m1, m2, m = rval(df.mean), rval(dt.mean), d_r(e.mean)
    u.check(st, 'mean', Implies(And(ok, some), And(d_isfin(e.mean), z3.If(nt == 0, m == m1, z3.If(
        nf == 0, m == m2, m * (rf + rt) == rf * m1 + rt * m2)))))
    u.check(st, 'sum-of-squared-deviation', Implies(And(ok, some), And(d_isfin(e.ssd), z3.If(nt == 0, d_r(e.ssd) == rval(
        df.ssd), z3.If(nf == 0, d_r(e.ssd) == rval(dt.ssd), d_r(e.ssd) == rval(df.ssd) + rval(dt.ssd) + rf * (m - m1) * (
            m - m1) + rt * (m - m2) * (m - m2))))))
    u.check(st, 'nothing-changes-for-empty-source', Implies(And(ok, Eq(nf, 0), nt > 0), same_stats(e, dt)))


def same_stats(a, b):
    return And(Eq(a.count, b.count), Eq(a.mean, b.mean), Eq(a.min, b.min), Eq(a.max, b.max), Eq(a.ssd, b.ssd))


def inv_close(c):
    """explicit bounds compared so far were close (not clearly different)"""
    df, dt = c.init.ghost['df'], c.init.ghost['dt']
    j = z3.Int('ij')
    e, f = equal_or_far(df.bound(j), dt.bound(j))
    return forall([j], z3.Implies(z3.And(j >= 0, j < c.k), z3.Not(f)))


def inv_sum(c):
    """bucket counts below k are summed, the rest and all other fields are as at loop entry"""
    df, pt = c.init.ghost['df'], c.init.ghost['pt']
    t0, t1 = D(c.rd(pt, c.s0)), D(c.rd(pt))
    j = z3.Int('ij')
    others = [Eq(P.raw(t0.M, t0.v, f), P.raw(t0.M, t1.v, f)) for f in t0.M.fields if f.name != 'bucket_counts']
    return And(*(others + [Eq(t0.nb, t1.nb), forall([j], z3.Implies(
        z3.And(j >= 0, j < zint(t0.nb)), t1.arr[j] == t0.arr[j] + z3.If(j < c.k, df.arr[j], 0)), patterns=[t1.arr[j]])]))


def setup_merge2(u, kf, kt):
    setup_merge(u, kf, kt)
    u.st.ghost.update(df=Const(u.v['df']), dt=Const(u.v['dt']), pt=u.v['pt'])
    for k in ('df', 'dt'):
        u.st.ghost[k] = u.v[k]


class Const:
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ Init
def setup_init(u, kind):
    ret = u.block('ret', 40)
    M = P.msg(DIST)
    pd = u.obj('d', M.default)
    u.v.update(pd=pd, ret=Ptr(ret.id), kind=kind)
    if kind == 'explicit_buckets':
        q = S.seq_of(Dbl)
        b = fresh(q.sort, 'bounds')
        u.assume(q.len(b) >= 0, q.len(b) < 2 ** 31 - 2)
        pb = u.obj('bounds', b)
        u.v.update(b=b, q=q, pb=pb)
        u.st.ghost.update(b=b, pd=pd)
        u.args = [Ptr(ret.id), pb, pd]
    else:
        n = u.int('num_finite_buckets', 32)
        u.assume(n <= 2 ** 31 - 3)
        a, b = fresh(Dbl, 'a'), fresh(Dbl, 'b')
        u.v.update(n=n, a=a, b=b)
        u.args = [Ptr(ret.id), n, a, b, pd]


def post_init(u, st, ret):
    kind = u.v['kind']
    M = P.msg(DIST)
    code = lib.scode(u.read(st, u.v['ret']))
    e = D(u.read(st, u.v['pd']), kind)
    j = z3.Int(fresh_name('j'))
    if kind == 'linear_buckets':
        good = And(u.v['n'] > 0, d_lt(dconst(0.0), u.v['a']))
        stored = And(Eq(e.n, u.v['n']), Eq(e.width, u.v['a']), Eq(e.offset, u.v['b']))
        total = u.v['n'] + 2
    elif kind == 'exponential_buckets':
        good = And(u.v['n'] > 0, d_lt(dconst(1.0), u.v['a']), d_lt(dconst(0.0), u.v['b']))
        stored = And(Eq(e.n, u.v['n']), Eq(e.growth, u.v['a']), Eq(e.scale, u.v['b']))
        total = u.v['n'] + 2
    else:
        q, b = u.v['q'], u.v['b']
        at = lambda i: q.at(b, i)
        n = q.len(b)
        good = forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            z3.Not(is_nan(at(j))), z3.Implies(j > 0, zbool(d_lt(at(j - 1), at(j)))))))
        stored = And(Eq(e.nbounds, n), forall([j], z3.Implies(z3.And(j >= 0, j < n), e.bound(j) == at(j))))
        total = n + 1
        u.check(st, 'argument-unchanged', Eq(u.read(st, u.v['pb']), b))
    u.check(st, 'valid-definition-accepted', Implies(good, Eq(code, 0)))
    u.check(st, 'invalid-definition-rejected', Implies(Not(good), Eq(code, 3)))
    u.check(st, 'rejection-changes-nothing', Implies(Not(Eq(code, 0)), Eq(e.v, M.default)))
    ok = Eq(code, 0)
    u.check(st, 'definition-stored', Implies(ok, And(Eq(e.case, e.num), stored)))
    u.check(st, 'one-zero-count-per-bucket', Implies(ok, And(Eq(e.nb, total), forall([j], z3.Implies(
        z3.And(j >= 0, j < zint(e.nb)), e.arr[j] == 0)))))
    z = fin(z3.RealVal(0))
    u.check(st, 'statistics-stay-empty', Implies(ok, And(Eq(e.count, 0), Eq(e.mean, z), Eq(e.min, z), Eq(e.max, z),
                                                        Eq(e.ssd, z))))


def inv_copy(c):
    b, pd = c.init.ghost['b'], c.init.ghost['pd']
    q = S.seq_of(Dbl)
    e0, e = D(c.rd(pd, c.s0), 'explicit_buckets'), D(c.rd(pd), 'explicit_buckets')
    j = z3.Int('ij')
    others = [Eq(P.raw(e.M, e.v, f), P.raw(e.M, e0.v, f)) for f in e.M.fields if f.name != 'explicit_buckets']
    return And(Eq(e.nbounds, c.k), forall([j], z3.Implies(z3.And(j >= 0, j < c.k), e.bound(j) == q.at(b, j)),
                                            patterns=[e.bound(j)]), *others)


def inv_scan(c):
    """elements seen so far are not NaN"""
    b = c.init.ghost['b']
    q = S.seq_of(Dbl)
    j = z3.Int('ij')
    return forall([j], z3.Implies(z3.And(j >= 0, j < c.k), z3.Not(is_nan(q.at(b, j)))), patterns=[q.at(b, j)])


def inv_ascending(c):
    b = c.init.ghost['b']
    q = S.seq_of(Dbl)
    j = z3.Int('ij')
    return forall([j], z3.Implies(z3.And(j >= 1, j <= c.k, j < q.len(b)), zbool(d_lt(q.at(b, j - 1), q.at(b, j)))),
                     patterns=[q.at(b, j)])


UNITS = []
ADD = r'^scc::DistributionHelper::AddSample\('
for k in KINDS:
    short = k.split('_')[0]
    UNITS += [
        Unit('C03', 'AddSample/%s/statistics' % short, TU, ADD, lambda u, k=k: setup_add(u, k, True, True), post_stats,
             opts=dict(timeout=30000)),
        Unit('C04', 'AddSample/%s/bucket' % short, TU, ADD, lambda u, k=k: setup_add(u, k, True, False), post_bucket,
             opts=dict(timeout=30000)),
        Unit('C04', 'AddSample/%s/any-parameters-and-overflow' % short, TU, ADD,
             lambda u, k=k: setup_add(u, k, False, False), post_index, opts=dict(fp_overflow=True)),
        Unit('C06', 'Init/%s' % short, TU, r'^scc::DistributionHelper::Init%s\(' % short.capitalize(),
             lambda u, k=k: setup_init(u, k), post_init,
             opts=dict(candidates=[('bounds-copied', inv_copy), ('bounds-scanned-not-nan', inv_scan),
                                   ('ascending', inv_ascending)])),
    ]
    for k2 in KINDS:
        UNITS.append(Unit('C05', 'Merge/%s-into-%s' % (short, k2.split('_')[0]), TU, r'^scc::DistributionHelper::Merge\(',
                          lambda u, k=k, k2=k2: setup_merge2(u, k, k2), post_merge,
                          opts=dict(timeout=30000, candidates=[('bounds-close', inv_close), ('counts-summed', inv_sum)])))
UNITS += [
    Unit(['C03'], 'AddSample/no-bucket-option', TU, ADD, setup_add_unknown, post_unknown),
    Unit(['C04'], 'lemmas', TU, None, setup_lemma, post_lemma),
]
