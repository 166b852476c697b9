"""Logical sorts and total helper operations used by contracts.

 ints     : mathematical integers (Python int or z3 Int), wrapped explicitly at
            every machine operation that is not proved to stay in range
 bool     : Python bool or z3 Bool
 double   : Dbl = fin(Real) | pinf | ninf | nan.  Rounding is idealised (stated
            assumption), overflow to infinity is modelled when enabled.
 string   : uninterpreted sort Str with literals, length and concatenation
 sequences: (len, array);  maps: (domain, value array, size)
"""
import z3
from fractions import Fraction

Str = z3.DeclareSort('Str')
_D = z3.Datatype('Dbl')
_D.declare('fin', ('r', z3.RealSort()))
_D.declare('pinf')
_D.declare('ninf')
_D.declare('nan')
Dbl = _D.create()
fin, PINF, NINF, NAN, rval = Dbl.fin, Dbl.pinf, Dbl.ninf, Dbl.nan, Dbl.r
is_fin, is_pinf, is_ninf, is_nan = Dbl.is_fin, Dbl.is_pinf, Dbl.is_ninf, Dbl.is_nan

slen = z3.Function('slen', Str, z3.IntSort())
cat = z3.Function('cat', Str, Str, Str)
DBL_MAX = Fraction(2) ** 1024 - Fraction(2) ** 970

_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


def fresh(sort, p='h'):
    return z3.Const(fresh_name(p), sort)


# ------------------------------------------------------------------ literals
_lits = {}


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    t = _lits.get(b)
    if t is None:
        t = z3.Const('lit_%d_%s' % (len(_lits), b[:24].decode('latin1').encode('unicode_escape').decode()), Str)
        _lits[b] = t
        _lit_rev[t.get_id()] = b
    return t


_lit_rev = {}


def lit_bytes(t):
    return _lit_rev.get(t.get_id()) if z3.is_expr(t) else None


EMPTY = None


def lit_axioms():
    ts = list(_lits.items())
    out = []
    if len(ts) > 1:
        out.append(z3.Distinct(*[t for _, t in ts]))
    for b, t in ts:
        out.append(slen(t) == len(b))
    return out


EMPTY = lit(b'')


def s_cat(a, b):
    if a.eq(EMPTY):
        return b
    if b.eq(EMPTY):
        return a
    if _isctor(b, cat):                  # left-associated normal form
        return s_cat(s_cat(a, b.arg(0)), b.arg(1))
    ba, bb = lit_bytes(a), lit_bytes(b)
    if ba is not None and bb is not None:
        return lit(ba + bb)
    if bb is not None and _isctor(a, cat):
        bl = lit_bytes(a.arg(1))
        if bl is not None:
            return cat(a.arg(0), lit(bl + bb))
    return cat(a, b)


byte_at = z3.Function('byte_at', Str, z3.IntSort(), z3.IntSort())      # signed char value


# ------------------------------------------------------------------ int/bool
def is_c(v):
    return isinstance(v, (int, bool))


def toint(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return v
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int_value(v):
        return v.as_long()
    return v


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if z3.is_bool(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    return v != 0


def zint(v):
    v = toint(v)
    return z3.IntVal(v) if isinstance(v, int) else v


def zbool(v):
    v = tobool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


def And(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = tobool(x)
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Eq(a, b):
    if is_c(a) and is_c(b):
        return toint(a) == toint(b)
    if is_c(a) or is_c(b):
        if z3.is_expr(a) and z3.is_bool(a):
            return a if tobool(b) else Not(a)
        if z3.is_expr(b) and z3.is_bool(b):
            return b if tobool(a) else Not(b)
        return zint(a) == zint(b)
    if z3.is_bool(a) != z3.is_bool(b):
        return zint(a) == zint(b)
    if a.eq(b):
        return True
    ra, rb = lit_bytes(a), lit_bytes(b)
    if ra is not None and rb is not None:
        return ra == rb
    return a == b


def Ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if is_c(a) and is_c(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return z3.If(c, zbool(a), zbool(b))
    if is_c(a) or is_c(b):
        return z3.If(c, zint(a), zint(b))
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def unsigned(v, n):
    v = toint(v)
    if isinstance(v, int):
        return v % (1 << n)
    return z3.If(v < 0, v + (1 << n), v)


def in_range(v, n):
    v = toint(v)
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    if isinstance(v, int):
        return lo <= v <= hi
    return z3.And(v >= lo, v <= hi)


def wrap_term(v, n):
    v = toint(v)
    m, h = 1 << n, 1 << (n - 1)
    if isinstance(v, int):
        return (v + h) % m - h
    return (v + h) % m - h


# ------------------------------------------------------------------ doubles
def dconst(x):
    """Python float/Fraction -> Dbl term"""
    import math
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        x = Fraction(x)
    return fin(z3.RealVal(str(x)))


def _isctor(t, c):
    return z3.is_app(t) and t.decl().eq(c)


def d_isfin(a):
    if _isctor(a, fin):
        return True
    if a.eq(PINF) or a.eq(NINF) or a.eq(NAN):
        return False
    return is_fin(a)


def d_isnan(a):
    if _isctor(a, fin) or a.eq(PINF) or a.eq(NINF):
        return False
    if a.eq(NAN):
        return True
    return is_nan(a)


def d_is(a, c):
    if a.eq(c):
        return True
    if _isctor(a, fin) or a.eq(PINF) or a.eq(NINF) or a.eq(NAN):
        return False
    return {PINF.get_id(): is_pinf, NINF.get_id(): is_ninf}[c.get_id()](a)


def d_r(a):
    if _isctor(a, fin):
        return a.arg(0)
    return rval(a)


FP_OVERFLOW = [False]


def mkfin(r):
    if FP_OVERFLOW[0]:
        m = z3.RealVal(str(DBL_MAX))
        if z3.is_rational_value(r):
            return fin(r)
        return z3.If(r > m, PINF, z3.If(r < -m, NINF, fin(r)))
    return fin(r)


def d_ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def d_neg(a):
    return d_ite(d_isfin(a), fin(-d_r(a)), d_ite(d_is(a, PINF), NINF, d_ite(d_is(a, NINF), PINF, NAN)))


def d_add(a, b):
    fa, fb = d_isfin(a), d_isfin(b)
    return d_ite(And(fa, fb), mkfin(d_r(a) + d_r(b)),
                 d_ite(Or(d_isnan(a), d_isnan(b)), NAN,
                       d_ite(fa, b, d_ite(fb, a, d_ite(Eq(a, b), a, NAN)))))


def d_sub(a, b):
    fa, fb = d_isfin(a), d_isfin(b)
    return d_ite(And(fa, fb), mkfin(d_r(a) - d_r(b)),
                 d_ite(Or(d_isnan(a), d_isnan(b)), NAN,
                       d_ite(fa, d_neg(b), d_ite(fb, a, d_ite(Eq(a, b), NAN, a)))))


def d_sign(a):
    """-1/0/1 as a z3 Int (nan -> 0)"""
    return z3.If(zbool(d_isfin(a)), z3.If(d_r(a) > 0, 1, z3.If(d_r(a) < 0, -1, 0)),
                 z3.If(zbool(d_is(a, PINF)), 1, z3.If(zbool(d_is(a, NINF)), -1, 0)))


def _sgn_inf(s):
    return d_ite(s > 0, PINF, d_ite(s < 0, NINF, NAN))


def d_mul(a, b):
    return d_ite(And(d_isfin(a), d_isfin(b)), mkfin(d_r(a) * d_r(b)),
                 d_ite(Or(d_isnan(a), d_isnan(b)), NAN, _sgn_inf(d_sign(a) * d_sign(b))))


def d_div(a, b):
    # division by zero: sign of zero is not modelled, x/0 with x != 0 is an
    # arbitrary infinity of the sign of x (positive zero assumed)
    fa, fb = d_isfin(a), d_isfin(b)
    return d_ite(And(fa, fb),
                 d_ite(d_r(b) != 0, mkfin(d_r(a) / d_r(b)), _sgn_inf(d_sign(a))),
                 d_ite(Or(d_isnan(a), d_isnan(b)), NAN,
                       d_ite(fa, fin(z3.RealVal(0)),
                             d_ite(fb, _sgn_inf(d_sign(a) * z3.If(d_r(b) < 0, -1, 1)), NAN))))


def d_lt(a, b):
    return Or(And(d_isfin(a), d_isfin(b), d_r(a) < d_r(b)),
              And(d_is(a, NINF), Or(d_isfin(b), d_is(b, PINF))),
              And(d_isfin(a), d_is(b, PINF)))


def d_eq(a, b):
    """IEEE =="""
    if a.eq(b):
        return Not(d_isnan(a))
    return Or(And(d_isfin(a), d_isfin(b), d_r(a) == d_r(b)), And(d_is(a, PINF), d_is(b, PINF)),
              And(d_is(a, NINF), d_is(b, NINF)))


def d_le(a, b):
    return Or(d_lt(a, b), d_eq(a, b))


def i2d(v):
    v = toint(v)
    return fin(z3.RealVal(v) if isinstance(v, int) else z3.ToReal(v))


# ------------------------------------------------------------------ seq / map / option sorts
_seqs, _maps, _opts = {}, {}, {}


def sname(s):
    return str(s).replace(' ', '_').replace('(', '_').replace(')', '_').replace(',', '_')


class SeqS:
    def __init__(self, elem):
        self.elem = elem
        n = sname(elem)
        d = z3.Datatype('Seq_' + n)
        d.declare('mkseq_' + n, ('len_' + n, z3.IntSort()), ('arr_' + n, z3.ArraySort(z3.IntSort(), elem)))
        self.sort = d.create()
        self.mk = self.sort.constructor(0)
        self._len = self.sort.accessor(0, 0)
        self._arr = self.sort.accessor(0, 1)

    def len(self, s):
        if _isctor(s, self.mk):
            return toint(s.arg(0))
        return self._len(s)

    def arr(self, s):
        if _isctor(s, self.mk):
            return s.arg(1)
        return self._arr(s)

    def at(self, s, i):
        return z3.Select(self.arr(s), zint(i))

    def make(self, n, a):
        return self.mk(zint(n), a)

    def empty(self, base=None):
        return self.mk(z3.IntVal(0), base if base is not None else self.noarr())

    def noarr(self):
        return z3.Const('noarr_' + sname(self.elem), z3.ArraySort(z3.IntSort(), self.elem))

    def push(self, s, v):
        n = self.len(s)
        return self.mk(zint(toint(n) + 1 if isinstance(n, int) else n + 1), z3.Store(self.arr(s), zint(n), v))

    def set(self, s, i, v):
        return self.mk(zint(self.len(s)), z3.Store(self.arr(s), zint(i), v))

    def eq(self, a, b):
        """content equality"""
        i = z3.Int(fresh_name('i'))
        return And(Eq(self.len(a), self.len(b)),
                   z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(self.len(a))),
                                             z3.Select(self.arr(a), i) == z3.Select(self.arr(b), i))))


def seq_of(elem):
    k = sname(elem)
    if k not in _seqs:
        _seqs[k] = SeqS(elem)
        _byseq[_seqs[k].sort.get_id()] = _seqs[k]
    return _seqs[k]


_byseq, _bymap, _byopt = {}, {}, {}


def seq_sort(sort):
    return _byseq.get(sort.get_id())


def map_sort(sort):
    return _bymap.get(sort.get_id())


def opt_sort(sort):
    return _byopt.get(sort.get_id())


class MapS:
    def __init__(self, key, val):
        self.key, self.val = key, val
        n = sname(key) + '_' + sname(val)
        d = z3.Datatype('Map_' + n)
        d.declare('mkmap_' + n, ('dom_' + n, z3.ArraySort(key, z3.BoolSort())),
                  ('val_' + n, z3.ArraySort(key, val)), ('msize_' + n, z3.IntSort()))
        self.sort = d.create()
        self.mk = self.sort.constructor(0)
        self._acc = [self.sort.accessor(0, i) for i in range(3)]
        # order in which std::map / std::set iterate: a function of the key set
        self.sord = z3.Function('sord_' + sname(key), z3.ArraySort(key, z3.BoolSort()), z3.IntSort(), key)
        self.sidx = z3.Function('sidx_' + sname(key), z3.ArraySort(key, z3.BoolSort()), key, z3.IntSort())

    def _get(self, m, i):
        if _isctor(m, self.mk):
            return m.arg(i)
        return self._acc[i](m)

    def dom(self, m):
        return self._get(m, 0)

    def vals(self, m):
        return self._get(m, 1)

    def size(self, m):
        return toint(self._get(m, 2))

    def has(self, m, k):
        return z3.Select(self.dom(m), k)

    def get(self, m, k):
        return z3.Select(self.vals(m), k)

    def novals(self):
        return z3.Const('noval_' + sname(self.key) + '_' + sname(self.val), z3.ArraySort(self.key, self.val))

    def empty(self):
        return self.mk(z3.K(self.key, z3.BoolVal(False)), self.novals(), z3.IntVal(0))

    def put(self, m, k, v, known=None):
        """insert or overwrite"""
        h = self.has(m, k) if known is None else known
        sz = self.size(m)
        nsz = Ite(h, sz, sz + 1)
        dom = self.dom(m)
        if known is not True:
            dom = z3.Store(dom, k, z3.BoolVal(True))
        return self.mk(dom, z3.Store(self.vals(m), k, v), zint(nsz))

    def remove(self, m, k, known=None):
        h = self.has(m, k) if known is None else known
        sz = self.size(m)
        return self.mk(z3.Store(self.dom(m), k, z3.BoolVal(False)), self.vals(m), zint(Ite(h, sz - 1, sz)))

    def eq(self, a, b):
        k = z3.Const(fresh_name('k'), self.key)
        return z3.ForAll([k], z3.And(self.has(a, k) == self.has(b, k),
                                     z3.Implies(self.has(a, k), self.get(a, k) == self.get(b, k))))


def map_of(k, v):
    n = sname(k) + '|' + sname(v)
    if n not in _maps:
        _maps[n] = MapS(k, v)
        _bymap[_maps[n].sort.get_id()] = _maps[n]
    return _maps[n]


class OptS:
    def __init__(self, t):
        n = sname(t)
        d = z3.Datatype('Opt_' + n)
        d.declare('none_' + n)
        d.declare('some_' + n, ('the_' + n, t))
        self.elem = t
        self.sort = d.create()
        self.none = self.sort.constructor(0)()
        self.some = self.sort.constructor(1)
        self._the = self.sort.accessor(1, 0)
        self._is = self.sort.recognizer(1)

    def the(self, o):
        if _isctor(o, self.some):
            return o.arg(0)
        return self._the(o)

    def has(self, o):
        if _isctor(o, self.some):
            return True
        if o.eq(self.none):
            return False
        return self._is(o)


def opt_of(t):
    n = sname(t)
    if n not in _opts:
        _opts[n] = OptS(t)
        _byopt[_opts[n].sort.get_id()] = _opts[n]
    return _opts[n]


def _pattern_ok(t):
    todo, seen = [t], set()
    hasvar = False
    while todo:
        x = todo.pop()
        if z3.is_var(x):
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        k = x.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE,
                 z3.Z3_OP_LT, z3.Z3_OP_GT):
            return False
        todo.extend(x.children())
    return True


def forall(vs, body, patterns=()):
    """ForAll dropping patterns z3 does not admit"""
    ps = [p for p in patterns if z3.is_app(p) and p.num_args() and _pattern_ok(p)]
    body = zbool(body)
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
