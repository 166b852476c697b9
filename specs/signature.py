"""C07, C08: src/signature.cc.

The bytes each generator feeds into the digest are specified exactly, as a fold
over the *identifying content* of the request:
  labels(S, m)   S followed, for the keys of m in std::map order, by NUL key NUL value
  names(S, d)    S followed, for the names in set d in std::set order, by NUL name
  values(S, q)   S followed by the labels of every metric value of q in order
  sets(S, d, c)  S followed, for the metric names of d in order, by NUL name values(c[name])
C07 is then: every fold depends on the content only (std::map order is a function
of the key set), and no other field occurs.  C08 is: the folds are injective on
NUL-free text (proved over token sequences below), so keys differ unless md5
collides."""
from dv.unit import *
from dv.lib import md5, set_like


TU = 'src/signature.cc'
MD5TU = 'utils/md5.cc'
SC = '.google.api.servicecontrol.v1.'
NUL = lit(b'\0')
LM = map_of(Str, Str)
NS = map_of(Str, z3.BoolSort())
I = z3.IntSort()
KD = z3.ArraySort(Str, z3.BoolSort())
card = z3.Function('card', KD, I)

F_labels = z3.Function('labels_fold', Str, KD, z3.ArraySort(Str, Str), I, Str)
F_names = z3.Function('names_fold', Str, KD, I, Str)


def pred(k):
    """k == j+1 -> j, else None"""
    if is_c(k):
        return k - 1
    k = zint(k)
    if z3.is_add(k) and k.num_args() == 2 and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 1:
        return k.arg(0)
    return None


def is0(k):
    return (is_c(k) and k == 0) or (z3.is_expr(k) and z3.is_int_value(k) and k.as_long() == 0)


def app(*parts):
    r = parts[0]
    for p in parts[1:]:
        r = s_cat(r, p)
    return r


def labels(S0, m, k):
    """definition unfolded at 0 and at j+1, symbolic otherwise"""
    d, v = LM.dom(m), LM.vals(m)
    if is0(k):
        return S0
    j = pred(k)
    if j is not None:
        key = LM.sord(d, zint(j))
        return app(labels_sym(S0, m, j), NUL, key, NUL, z3.Select(v, key))
    return labels_sym(S0, m, k)


def labels_sym(S0, m, k):
    if is0(k):
        return S0
    return F_labels(S0, LM.dom(m), LM.vals(m), zint(k))


def names(S0, d, k):
    if is0(k):
        return S0
    j = pred(k)
    if j is not None:
        return app(names(S0, d, j) if is_c(j) else F_names(S0, d, zint(j)), NUL, NS.sord(d, zint(j)))
    return F_names(S0, d, zint(k))


MV = None


def mvs_sort():
    return P.msg(SC + 'Operation').by['metric_value_sets'].seq


class Folds:
    """folds over metric values; built lazily because the sorts need the descriptors"""
    inst = None

    def __init__(self):
        self.mv = P.msg(SC + 'MetricValue')
        self.mvs = P.msg(SC + 'MetricValueSet')
        self.q = self.mvs.by['metric_values'].seq
        self.F_values = z3.Function('values_fold', Str, self.q.sort, I, Str)
        self.CM = z3.ArraySort(Str, self.q.sort)
        self.F_sets = z3.Function('sets_fold', Str, KD, self.CM, I, Str)

    def values(self, S0, q, k):
        if is0(k):
            return S0
        j = pred(k)
        if j is not None:
            s = S0 if is0(j) else self.F_values(S0, q, zint(j))
            m = P.raw(self.mv, self.q.at(q, j), 'labels')
            return labels_sym(s, m, LM.size(m))
        return self.F_values(S0, q, zint(k))

    def values_all(self, S0, q):
        n = self.q.len(q)
        return self.F_values(S0, q, zint(n))

    def sets(self, S0, d, c, k):
        if is0(k):
            return S0
        j = pred(k)
        if j is not None:
            s = S0 if is0(j) else self.F_sets(S0, d, c, zint(j))
            nm = NS.sord(d, zint(j))
            return self.values_all(app(s, NUL, nm), z3.Select(c, nm))
        return self.F_sets(S0, d, c, zint(k))


def folds():
    if Folds.inst is None:
        Folds.inst = Folds()
    return Folds.inst


# ------------------------------------------------------------------ candidate invariants
def iters(c, st=None):
    """iterator objects of the current frame: [(block, offset, iter)]"""
    st = st or c.st
    out = []
    for a in st.frames[-1].allocas:
        for o, v in st.mem[a].cells.items():
            if isinstance(v, Obj) and v.kind == 'iter' and v.mode == 'pos':
                out.append(v)
    return out


def fed(c, st=None):
    return c.rd(c.st.ghost['md5ctx'], st)


def one_iter(c, want):
    its = [i for i in iters(c, c.s0) if want(i)]
    if not its:
        raise KeyError('no iterator')
    # innermost loop's iterator: the one at position 0 at loop entry
    z = {}
    for i in its:
        if is_c(i.pos) and i.pos == 0 and (not isinstance(i.cs, S.MapS) or i.ordered):
            z[(i.c.b, i.c.o, str([x[2] for x in i.c.p]))] = i
    z = list(z.values())
    if len(z) != 1:
        raise KeyError('ambiguous iterator')
    return z[0]


def inv_labels(c):
    it = one_iter(c, lambda i: i.cs is LM)
    m = c.rd(it.c, c.s0)
    return Eq(fed(c), labels(fed(c, c.s0), m, c.k))


def inv_names(c):
    it = one_iter(c, lambda i: i.cs is NS)
    m = c.rd(it.c, c.s0)
    return Eq(fed(c), names(fed(c, c.s0), NS.dom(m), c.k))


def inv_values(c):
    f = folds()
    it = one_iter(c, lambda i: i.cs is f.q)
    return Eq(fed(c), f.values(fed(c, c.s0), c.rd(it.c, c.s0), c.k))


def inv_sets(c):
    f = folds()
    it = one_iter(c, lambda i: isinstance(i.cs, S.MapS) and i.cs.key == Str and i.cs.val == lib.PTRENC)
    m = c.rd(it.c, c.s0)
    return Eq(fed(c), f.sets(fed(c, c.s0), it.cs.dom(m), c.init.ghost['content'], c.k))


def set_built(c):
    """the set / map keyed by name being filled in this loop: its block cell"""
    for a in c.st.frames[-1].allocas:
        for o, v in c.s0.mem[a].cells.items():
            if z3.is_expr(v):
                m = S.map_sort(v.sort())
                if m is not None and m.key == Str:
                    v1 = c.st.mem[a].cells.get(o)
                    if v1 is not None and z3.is_expr(v1) and z3.eq(z3.simplify(m.dom(v)), z3.simplify(m.empty().arg(0))):
                        return m, v1
    raise KeyError('no map being filled')


def inv_domain(c):
    """the names collected so far are exactly those of the first k elements, and the size counts them"""
    m, v = set_built(c)
    q, at, n = c.init.ghost['names']
    j, s = z3.Int('dj'), z3.Const('ds', Str)
    first = z3.Function('first_pos', Str, I)     # Skolem: a position holding the name
    d = m.dom(v)
    return And(forall([j], z3.Implies(z3.And(j >= 0, j < c.k), z3.Select(d, at(j))), patterns=[at(j)]),
               forall([s], z3.Implies(z3.Select(d, s), z3.And(0 <= first(s), first(s) < c.k, at(first(s)) == s))),
               card(d) == zint(m.size(v)))


def inv_pointers(c):
    """each collected name maps to the metric values of an element with that name"""
    m, v = set_built(c)
    if m.val != lib.PTRENC:
        raise KeyError('not a pointer map')
    q, at, n = c.init.ghost['names']
    s = z3.Const('ds', Str)
    e = m.get(v, s)
    i = lib.penc_idx(e)
    return forall([s], z3.Implies(z3.Select(m.dom(v), s), z3.And(lib.penc_shape(e) == 1, i >= 0, i < c.k, at(i) == s)),
                  patterns=[z3.Select(m.dom(v), s)])


CANDS = [('labels-fed', inv_labels), ('names-fed', inv_names), ('values-fed', inv_values), ('sets-fed', inv_sets),
         ('names-collected', inv_domain), ('value-pointers', inv_pointers)]
OPTS = dict(candidates=CANDS, timeout=20000)


def card_axioms(u):
    d, k = z3.Const('cd', KD), z3.Const('ck', Str)
    u.assume(card(z3.K(Str, z3.BoolVal(False))) == 0)
    u.assume(z3.ForAll([d, k], z3.Implies(z3.Not(z3.Select(d, k)), card(z3.Store(d, k, True)) == card(d) + 1),
                       patterns=[card(z3.Store(d, k, True))]))


def setup(u, msg):
    r = u.block('ret', 32)
    p, v = u.message('request', SC + msg)
    u.v.update(ret=Ptr(r.id), v=v, p=p)
    u.args = [Ptr(r.id), p]
    if msg in ('CheckRequest', 'AllocateQuotaRequest'):
        card_axioms(u)
        f = folds()
        if msg == 'CheckRequest':
            R = P.msg(SC + 'CheckRequest')
            op = P.get(R, v, R.by['operation'])
            O = P.msg(SC + 'Operation')
            fd = O.by['metric_value_sets']
        else:
            R = P.msg(SC + 'AllocateQuotaRequest')
            op = P.get(R, v, R.by['allocate_operation'])
            O = P.msg(SC + 'QuotaOperation')
            fd = O.by['quota_metrics']
        q = P.raw(O, op, fd)
        n = fd.seq.len(q)
        at = lambda i: P.raw(f.mvs, fd.seq.at(q, i), 'metric_name')
        u.st.ghost['names'] = (q, at, n)
        # first_pos(s): the least position holding the name s (definition)
        j = z3.Int('fj')
        first = z3.Function('first_pos', Str, I)
        u.assume(forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
            first(at(j)) >= 0, first(at(j)) <= j, at(first(at(j))) == at(j))), patterns=[at(j)]))
        u.v.update(op=op, at=at, n=n, q=q, fd=fd)
        if msg == 'CheckRequest':
            i, j = z3.Ints('ni nj')
            cm = fresh(f.CM, 'content')
            # distinct metric names; content: name -> its metric values
            u.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) != at(j)), patterns=[]))
            u.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(cm, at(i)) == P.raw(
                f.mvs, fd.seq.at(q, i), 'metric_values')), patterns=[at(i)]))
            u.st.ghost['content'] = cm
            u.v['cm'] = cm


def finish(u, st, want):
    d = u.read(st, u.v['ret'])
    u.check(st, 'key-is-digest-of-exactly-the-identifying-content', Eq(d, md5(want)))
    u.check(st, 'request-unchanged', Eq(u.read(st, u.v['p']), u.v['v']))


def post_report(u, st, ret):
    O = P.msg(SC + 'Operation')
    v = u.v['v']
    m = P.raw(O, v, 'labels')
    finish(u, st, labels_sym(app(P.raw(O, v, 'consumer_id'), NUL, P.raw(O, v, 'operation_name')), m, LM.size(m)))


def post_metric(u, st, ret):
    m = P.raw(P.msg(SC + 'MetricValue'), u.v['v'], 'labels')
    finish(u, st, labels_sym(S.EMPTY, m, LM.size(m)))


def name_set(u, st, d):
    """d is exactly the set of metric names of the request"""
    j, s = z3.Int('dj'), z3.Const('ds', Str)
    at, n = u.v['at'], u.v['n']
    return And(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, at(j)))),
               forall([s], z3.Implies(z3.Select(d, s), z3.Exists([j], z3.And(j >= 0, j < n, at(j) == s)))))


def post_quota(u, st, ret):
    O = P.msg(SC + 'QuotaOperation')
    op = u.v['op']
    d = z3.Const('ND!', KD)          # the set of metric names of the request
    base = app(P.raw(O, op, 'method_name'), NUL, P.raw(O, op, 'consumer_id'))
    j, s = z3.Int('dj'), z3.Const('ds', Str)
    at, n = u.v['at'], u.v['n']
    w = z3.Function('nd_wit', Str, I)
    st.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, at(j))), patterns=[at(j)]))
    st.assume(forall([s], z3.Implies(z3.Select(d, s), z3.And(w(s) >= 0, w(s) < n, at(w(s)) == s)),
                     patterns=[z3.Select(d, s)]))
    same_set(u, st, d)
    finish(u, st, F_names(base, d, card(d)))


def same_set(u, st, d):
    """extensionality, instantiated: every set built on this path with the same members is d"""
    b = final_map(u, st)
    if b is None:
        return
    s = z3.Const(fresh_name('x'), Str)
    u.ex.oblige(st, 'collected-names-are-the-set-of-names', z3.ForAll([s], z3.Select(b, s) == z3.Select(d, s)), 'post')
    st.assume(b == d)


def final_map(u, st):
    """key set over which the last names/sets fold on this path ran"""
    t = u.read(st, u.v['ret'])
    todo, seen = [t] + list(st.pc), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in ('names_fold', 'sets_fold'):
            return x.arg(1)
        todo.extend(x.children())
    # no fold on the path: some set still exists in memory
    return None


def post_check(u, st, ret):
    O = P.msg(SC + 'Operation')
    f = folds()
    op = u.v['op']
    m = P.raw(O, op, 'labels')
    d = z3.Const('ND!', KD)
    j, s = z3.Int('dj'), z3.Const('ds', Str)
    at, n = u.v['at'], u.v['n']
    w = z3.Function('nd_wit', Str, I)
    st.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, at(j))), patterns=[at(j)]))
    st.assume(forall([s], z3.Implies(z3.Select(d, s), z3.And(w(s) >= 0, w(s) < n, at(w(s)) == s)),
                     patterns=[z3.Select(d, s)]))
    same_set(u, st, d)
    S1 = labels_sym(app(P.raw(O, op, 'operation_name'), NUL, P.raw(O, op, 'consumer_id'), NUL), m, LM.size(m))
    finish(u, st, app(f.F_sets(S1, d, u.v['cm'], card(d)), NUL))


# ------------------------------------------------------------------ helper contract
HELPER = r'^scc::UpdateHashLabels\(pb::Map<std::string, std::string> const&, scc::MD5\*\)'


def c_labels(ex, st, ci):
    """hasher has been fed the labels fold of the map (verified as unit UpdateHashLabels)"""
    p, h = ci.args
    ctx = st.ghost.get('md5ctx')
    if ctx is None or not isinstance(h, Ptr) or h.b != ctx.b:
        return NotImplemented
    m = ex.read(st, p)
    if not z3.is_expr(m) or m.sort() != LM.sort:
        return NotImplemented
    if not z3.is_int_value(LM.size(m)) if z3.is_expr(LM.size(m)) else False:
        st.assume(zint(LM.size(m)) >= 0)
    ex.write(st, ctx, labels_sym(ex.read(st, ctx), m, LM.size(m)))


HELPERS = [(re.compile(HELPER), c_labels)]


def setup_helper(u):
    L = u.layout('google::service_control_client::MD5')
    b = u.block('md5', L.size)
    s0 = fresh(Str, 'fed')
    u.assume(slen(s0) >= 0)
    oc = L.off('ctx_', 'MD5_CTX')
    b.cells[oc] = s0
    b.cells[L.off('finalized_', 'bool')] = 0
    m = fresh(LM.sort, 'labels')
    u.assume(LM.size(m) >= 0)
    pm = u.obj('map', m)
    u.st.ghost['md5ctx'] = Ptr(b.id, oc)
    u.v.update(s0=s0, m=m, pm=pm, ctx=Ptr(b.id, oc))
    u.args = [pm, Ptr(b.id)]


def post_helper(u, st, ret):
    m = u.v['m']
    u.check(st, 'labels-fed-in-key-order', Eq(u.read(st, u.v['ctx']), labels_sym(u.v['s0'], m, LM.size(m))))
    u.check(st, 'map-unchanged', Eq(u.read(st, u.v['pm']), m))


UNITS = [Unit(['C07', 'C08'], 'UpdateHashLabels', TU, HELPER, setup_helper, post_helper, opts=OPTS, mods=[MD5TU], optional=True)]
for nm, msg, post in (('ReportOperation', 'Operation', post_report), ('ReportMetricValue', 'MetricValue', post_metric),
                      ('AllocateQuotaRequest', 'AllocateQuotaRequest', post_quota),
                      ('CheckRequest', 'CheckRequest', post_check)):
    UNITS.append(Unit(['C07', 'C08'], 'Generate%sSignature' % nm, TU, r'^scc::Generate%sSignature\(' % nm,
                      lambda u, msg=msg: setup(u, msg), post, opts=OPTS, mods=[MD5TU], contracts=HELPERS))


# ------------------------------------------------------------------ C07 / C08 lemmas
# Text is (length, byte function); cat and nul-freedom are defined on those, and
# the lemmas below are proved from the definitions, so nothing about them is assumed.
NF = z3.Function('nul_free', Str, z3.BoolSort())


class Txt:
    def __init__(self, n):
        self.len, self.at = fresh(I, n + '_len'), z3.Function(fresh_name(n), I, I)

    def nulfree(self):
        i = z3.Int('ti')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len), self.at(i) != 0), patterns=[self.at(i)])


def joined(a, b):
    """length and byte function of a NUL b"""
    return a.len + 1 + b.len, lambda i: z3.If(i < a.len, a.at(i), z3.If(i == a.len, 0, b.at(i - a.len - 1)))


def same_text(a, b, u):
    i = fresh(I, 'pos')
    return And(a.len == b.len, z3.Implies(z3.And(0 <= i, i < a.len), a.at(i) == b.at(i)))


def consistent(u, st):
    """the hypotheses collected in st are not contradictory as far as the solver can tell"""
    if check_valid(st.pc, False, 1500)[0] == 'proved':
        raise Unsupported('contradictory lemma hypotheses')


def lemma_setup(u):
    u.args = []


def lemma_split(u, st, ret):
    """a NUL b = a' NUL b' with b, b' (or a, a') NUL-free: the parts are equal"""
    for side in ('last', 'first'):
        a, b, c, d = Txt('a'), Txt('b'), Txt('c'), Txt('d')
        s = st.copy()
        for t in (a, b, c, d):
            s.assume(t.len >= 0)
        for t in ((b, d) if side == 'last' else (a, c)):
            s.assume(t.nulfree())
        (n1, f1), (n2, f2) = joined(a, b), joined(c, d)
        i = z3.Int('wi')
        s.assume(n1 == n2)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), f1(i) == f2(i))))
        hint = [f1(a.len) == f2(a.len), f1(c.len) == f2(c.len)]
        inst = lambda k: z3.Implies(z3.And(0 <= k, k < n1), f1(k) == f2(k))
        for k in (a.len, c.len):
            s.assume(inst(k))
        u.check(s, 'split-at-%s-nul-lengths' % side, a.len == c.len)
        s.assume(a.len == c.len)
        p = fresh(I, 'p')
        s.assume(inst(p))
        s.assume(inst(p + a.len + 1))
        u.check(s, 'split-at-%s-nul-head' % side, Implies(And(0 <= p, p < a.len), a.at(p) == c.at(p)))
        consistent(u, s)
        u.check(s, 'split-at-%s-nul-tail' % side, Implies(And(0 <= p, p < b.len), b.at(p) == d.at(p)))


def split_last(a, b, c, d):
    """instance of the lemma: a NUL b = c NUL d, b and d NUL-free"""
    return z3.Implies(z3.And(app(a, NUL, b) == app(c, NUL, d), NF(b), NF(d)), z3.And(a == c, b == d))


def split_first(a, b, c, d):
    return z3.Implies(z3.And(app(a, NUL, b) == app(c, NUL, d), NF(a), NF(c)), z3.And(a == c, b == d))


def nul_free_map(m):
    s = z3.Const('ns', Str)
    return And(forall([s], z3.Implies(z3.Select(LM.dom(m), s), z3.And(NF(s), NF(z3.Select(LM.vals(m), s)))),
                      patterns=[z3.Select(LM.dom(m), s)]))


def agree(m1, m2, k):
    """the first k keys, and their values, agree"""
    i = z3.Int('ai')
    k1, k2 = LM.sord(LM.dom(m1), i), LM.sord(LM.dom(m2), i)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(k)), z3.And(
        k1 == k2, z3.Select(LM.vals(m1), k1) == z3.Select(LM.vals(m2), k2))), patterns=[k1])


def pair(u, st, name):
    m = fresh(LM.sort, name)
    st.assume(LM.size(m) >= 0)
    st.assume(nul_free_map(m))
    return m


def lemma_labels(u, st, ret):
    """equal label folds over equally many labels: equal prefixes and equal labels (induction on their number)"""
    m1, m2 = pair(u, st, 'm1'), pair(u, st, 'm2')
    S1, S2 = fresh(Str, 'S1'), fresh(Str, 'S2')
    u.check(st, 'labels-base', Implies(Eq(labels(S1, m1, 0), labels(S2, m2, 0)), Eq(S1, S2)))
    j = u.int('j')
    st.assume(z3.And(0 <= j, j < LM.size(m1), LM.size(m2) == LM.size(m1)))
    k1, k2 = (LM.sord(LM.dom(m), j) for m in (m1, m2))
    for m, k in ((m1, k1), (m2, k2)):
        st.assume(enum(m, j))
    P1, P2 = labels_sym(S1, m1, j), labels_sym(S2, m2, j)
    st.assume(z3.Implies(P1 == P2, z3.And(S1 == S2, agree(m1, m2, j))))       # induction hypothesis
    W1, W2 = labels(S1, m1, j + 1), labels(S2, m2, j + 1)
    st.assume(W1 == W2)
    v1, v2 = z3.Select(LM.vals(m1), k1), z3.Select(LM.vals(m2), k2)
    st.assume(split_last(app(P1, NUL, k1), v1, app(P2, NUL, k2), v2))
    st.assume(split_last(P1, k1, P2, k2))
    u.check(st, 'labels-step', And(S1 == S2, agree(m1, m2, j + 1)))


def enum(m, j):
    """the j-th key is a key"""
    return z3.Implies(z3.And(0 <= j, j < LM.size(m)), z3.Select(LM.dom(m), LM.sord(LM.dom(m), j)))


def rank(cs, d, n, s):
    """every key has a rank below the size (assumed of std::map/std::set, as in the iterator contracts)"""
    r = cs.sidx(d, s)
    return z3.Implies(z3.Select(d, s), z3.And(0 <= r, r < n, cs.sord(d, r) == s))


def lemma_maps(u, st, ret):
    """maps that agree on all their keys in order are equal as finite maps; equal finite maps have equal folds"""
    m1, m2 = pair(u, st, 'm1'), pair(u, st, 'm2')
    st.assume(LM.size(m1) == LM.size(m2))
    st.assume(agree(m1, m2, LM.size(m1)))
    s = fresh(Str, 's')
    for m in (m1, m2):
        st.assume(rank(LM, LM.dom(m), LM.size(m), s))
        i = z3.Int('ei')
        st.assume(z3.ForAll([i], enum(m, i), patterns=[LM.sord(LM.dom(m), i)]))
    u.check(st, 'equal-keys', z3.Select(LM.dom(m1), s) == z3.Select(LM.dom(m2), s))
    u.check(st, 'equal-values', Implies(z3.Select(LM.dom(m1), s), z3.Select(LM.vals(m1), s) == z3.Select(LM.vals(m2), s)))
    # C07: the fold reads labels only through the key set and the value of each key
    n1, n2 = fresh(LM.sort, 'n1'), fresh(LM.sort, 'n2')
    q = z3.Const('lq', Str)
    t = st.copy()
    t.assume(LM.dom(n1) == LM.dom(n2))
    t.assume(z3.ForAll([q], z3.Implies(z3.Select(LM.dom(n1), q), z3.Select(LM.vals(n1), q) == z3.Select(LM.vals(n2), q))))
    j, S0 = u.int('j2'), fresh(Str, 'S0')
    t.assume(j >= 0)
    t.assume(enum(n1, j))
    t.assume(j < LM.size(n1))
    t.assume(labels_sym(S0, n1, j) == labels_sym(S0, n2, j))
    u.check(t, 'labels-fold-depends-on-content-only-base', Eq(labels(S0, n1, 0), labels(S0, n2, 0)))
    consistent(u, t)
    u.check(t, 'labels-fold-depends-on-content-only-step', Eq(labels(S0, n1, j + 1), labels(S0, n2, j + 1)))


def lemma_count(u, st, ret):
    """the number of NULs counts the labels, so equal folds have equally many (report operations, metric values)"""
    nul = z3.Function('nul_count', Str, I)
    a, b = z3.Const('na', Str), z3.Const('nb', Str)
    st.assume(z3.ForAll([a, b], nul(S.cat(a, b)) == nul(a) + nul(b), patterns=[S.cat(a, b)]))    # definition of counting
    st.assume(nul(NUL) == 1)
    st.assume(z3.ForAll([a], z3.Implies(NF(a), nul(a) == 0), patterns=[NF(a)]))
    m = pair(u, st, 'm')
    S0, j = fresh(Str, 'S0'), u.int('j')
    st.assume(z3.And(0 <= j, j < LM.size(m), enum(m, j)))
    k = LM.sord(LM.dom(m), j)
    u.check(st, 'count-base', nul(labels(S0, m, 0)) == nul(S0))
    st.assume(nul(labels_sym(S0, m, j)) == nul(S0) + 2 * j)
    st.assume(z3.And(NF(k), NF(z3.Select(LM.vals(m), k))))
    u.check(st, 'count-step', nul(labels(S0, m, j + 1)) == nul(S0) + 2 * (j + 1))
    # names fold
    d = fresh(KD, 'd')
    x = NS.sord(d, j)
    st.assume(NF(x))
    st.assume(nul(F_names(S0, d, j)) == nul(S0) + j)
    u.check(st, 'count-names-step', nul(app(F_names(S0, d, j), NUL, x)) == nul(S0) + j + 1)
    # report operation: prefix consumer NUL operation
    c1, o1, c2, o2 = (fresh(Str, n) for n in ('c1', 'o1', 'c2', 'o2'))
    t = st.copy()
    for x in (c1, o1, c2, o2):
        t.assume(NF(x))
    P1, P2 = app(c1, NUL, o1), app(c2, NUL, o2)
    n1, n2 = u.int('n1'), u.int('n2')
    W1, W2 = fresh(Str, 'W1'), fresh(Str, 'W2')
    t.assume(nul(W1) == nul(P1) + 2 * n1)
    t.assume(nul(W2) == nul(P2) + 2 * n2)
    t.assume(W1 == W2)
    u.check(t, 'equal-keys-have-equally-many-labels', n1 == n2)
    t.assume(P1 == P2)
    t.assume(split_last(c1, o1, c2, o2))
    consistent(u, t)
    u.check(t, 'equal-prefix-equal-consumer-and-operation', And(c1 == c2, o1 == o2))


def lemma_names(u, st, ret):
    """equal name folds over sets of the same size: equal prefixes and equal sets"""
    d1, d2 = fresh(KD, 'd1'), fresh(KD, 'd2')
    S1, S2, j = fresh(Str, 'S1'), fresh(Str, 'S2'), u.int('j')
    n = u.int('n')
    st.assume(z3.And(0 <= j, j < n))
    i = z3.Int('ai')

    def ag(k):
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(k)), NS.sord(d1, i) == NS.sord(d2, i)),
                         patterns=[NS.sord(d1, i)])
    for d in (d1, d2):
        st.assume(NF(NS.sord(d, j)))
    P1, P2 = F_names(S1, d1, j), F_names(S2, d2, j)
    st.assume(z3.Implies(P1 == P2, z3.And(S1 == S2, ag(j))))
    st.assume(names(S1, d1, j + 1) == names(S2, d2, j + 1))
    st.assume(split_last(P1, NS.sord(d1, j), P2, NS.sord(d2, j)))
    u.check(st, 'names-step', And(S1 == S2, ag(j + 1)))
    t = st.copy()
    t.assume(ag(n))
    s = fresh(Str, 's')
    for d in (d1, d2):
        t.assume(rank(NS, d, n, s))
        t.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(d, NS.sord(d, i))), patterns=[NS.sord(d, i)]))
    consistent(u, t)
    u.check(t, 'equal-name-sets', z3.Select(d1, s) == z3.Select(d2, s))


def lemma_check(u, st, ret):
    """check requests: operation name and consumer always; with the same shape (numbers of labels, metrics,
    values and value labels) everything else too"""
    f = folds()
    # cat(S, x) prefix form: fold(S, ..) = S followed by fold(empty, ..)
    S0 = fresh(Str, 'S0')
    m = pair(u, st, 'm')
    j = u.int('j')
    st.assume(j >= 0)
    X = z3.Function('is_prefixed', Str, Str, z3.BoolSort())
    a, b = z3.Const('xa', Str), z3.Const('xb', Str)
    # is_prefixed(S, W): W = S followed by something.  Definition, closed under appending
    st.assume(z3.ForAll([a], X(a, a)))
    t0 = z3.Const('xt', Str)
    st.assume(z3.ForAll([a, b, t0], z3.Implies(X(a, b), X(a, S.cat(b, t0))), patterns=[z3.MultiPattern(X(a, b), S.cat(b, t0))]))
    u.check(st, 'labels-extend-base', X(S0, labels(S0, m, 0)))
    st.assume(X(S0, labels_sym(S0, m, j)))
    st.assume(X(labels_sym(S0, m, j), app(labels_sym(S0, m, j), NUL)))
    u.check(st, 'labels-extend-step', X(S0, labels(S0, m, j + 1)))
    # operation name and consumer: W = op NUL consumer NUL rest
    o1, c1, o2, c2, r1, r2 = (fresh(Str, n) for n in ('o1', 'c1', 'o2', 'c2', 'r1', 'r2'))
    t = st.copy()
    for x in (o1, c1, o2, c2):
        t.assume(NF(x))
    A1, A2 = S.cat(S.cat(c1, NUL), r1), S.cat(S.cat(c2, NUL), r2)
    t.assume(S.cat(S.cat(o1, NUL), A1) == S.cat(S.cat(o2, NUL), A2))
    one = lambda p, q, r, s: z3.Implies(z3.And(S.cat(S.cat(p, NUL), q) == S.cat(S.cat(r, NUL), s), NF(p), NF(r)),
                                        z3.And(p == r, q == s))
    t.assume(one(o1, A1, o2, A2))
    t.assume(one(c1, r1, c2, r2))
    consistent(u, t)
    u.check(t, 'operation-and-consumer-determined', And(o1 == o2, c1 == c2))
    # values: equal folds with equally many labels in each value
    q1, q2 = fresh(f.q.sort, 'q1'), fresh(f.q.sort, 'q2')
    S1, S2 = fresh(Str, 'S1'), fresh(Str, 'S2')
    i = z3.Int('vi')
    lab = lambda q, k: P.raw(f.mv, f.q.at(q, k), 'labels')
    same = lambda x, y: z3.And(LM.size(x) == LM.size(y), agree(x, y, LM.size(x)))
    t = st.copy()
    L1, L2 = lab(q1, j), lab(q2, j)
    V1, V2 = f.F_values(S1, q1, j), f.F_values(S2, q2, j)
    t.assume(LM.size(L1) == LM.size(L2))
    allv = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(k)), same(lab(q1, i), lab(q2, i))))
    t.assume(z3.Implies(V1 == V2, z3.And(S1 == S2, allv(j))))                   # induction hypothesis
    F1, F2 = labels_sym(V1, L1, LM.size(L1)), labels_sym(V2, L2, LM.size(L2))
    t.assume(z3.Implies(F1 == F2, z3.And(V1 == V2, agree(L1, L2, LM.size(L1)))))  # lemma labels
    t.assume(j >= 1)
    t.assume(f.values(S1, q1, j + 1) == f.values(S2, q2, j + 1))
    consistent(u, t)
    u.check(t, 'values-step', And(S1 == S2, allv(j + 1)))
    t = st.copy()
    K1, K2 = lab(q1, z3.IntVal(0)), lab(q2, z3.IntVal(0))
    F1, F2 = labels_sym(S1, K1, LM.size(K1)), labels_sym(S2, K2, LM.size(K2))
    t.assume(LM.size(K1) == LM.size(K2))
    t.assume(z3.Implies(F1 == F2, z3.And(S1 == S2, agree(K1, K2, LM.size(K1)))))
    t.assume(F1 == F2)
    consistent(u, t)
    u.check(t, 'values-first', And(S1 == S2, allv(1)))
    # sets: equal folds with the same number of values and value labels at each name
    d1, d2 = fresh(KD, 'e1'), fresh(KD, 'e2')
    C1, C2 = fresh(f.CM, 'C1'), fresh(f.CM, 'C2')
    t = st.copy()
    x1, x2 = NS.sord(d1, j), NS.sord(d2, j)
    Q1, Q2 = f.F_sets(S1, d1, C1, j), f.F_sets(S2, d2, C2, j)
    w1, w2 = z3.Select(C1, x1), z3.Select(C2, x2)
    t.assume(z3.And(NF(x1), NF(x2), f.q.len(w1) == f.q.len(w2)))
    vsame = z3.Function('same_values', f.q.sort, f.q.sort, z3.BoolSort())   # conclusion of lemma values, kept opaque
    alls = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(k)), z3.And(
        NS.sord(d1, i) == NS.sord(d2, i), vsame(z3.Select(C1, NS.sord(d1, i)), z3.Select(C2, NS.sord(d2, i))))),
        patterns=[NS.sord(d1, i)])
    t.assume(z3.Implies(Q1 == Q2, z3.And(S1 == S2, alls(j))))
    P1, P2 = app(Q1, NUL, x1), app(Q2, NUL, x2)
    G1, G2 = f.values_all(P1, w1), f.values_all(P2, w2)
    t.assume(z3.Implies(G1 == G2, z3.And(P1 == P2, vsame(w1, w2))))              # lemma values
    t.assume(split_last(Q1, x1, Q2, x2))
    t.assume(G1 == G2)
    consistent(u, t)
    u.check(t, 'sets-step', And(S1 == S2, alls(j + 1)))


for nm, fn, props in (('lemma-split-at-nul', lemma_split, ['C08']), ('lemma-labels', lemma_labels, ['C08']),
                      ('lemma-maps', lemma_maps, ['C07', 'C08']), ('lemma-count', lemma_count, ['C08']),
                      ('lemma-names', lemma_names, ['C08']), ('lemma-check', lemma_check, ['C08'])):
    UNITS.append(Unit(props, nm, MD5TU, None, lemma_setup, fn, opts=dict(timeout=20000)))
