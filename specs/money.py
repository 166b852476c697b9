"""C01, C02: src/money_utils.cc against exact integer arithmetic in nanos."""
from dv.unit import *

TU = 'src/money_utils.cc'
MONEY = '.google.type.Money'
BIL = 10 ** 9
LIM = 2 ** 63
TOTMAX = (LIM - 1) * BIL + BIL - 1
TOTMIN = -LIM * BIL - (BIL - 1)


def parts(v):
    M = P.msg(MONEY)
    return P.raw(M, v, 'currency_code'), P.raw(M, v, 'units'), P.raw(M, v, 'nanos')


def amount_ok(v):
    _, u, n = parts(v)
    return And(n > -BIL, n < BIL, Not(And(u > 0, n < 0)), Not(And(u < 0, n > 0)), in_range(u, 64))


def total(v):
    _, u, n = parts(v)
    return u * BIL + n


def setup_add(u, same):
    ret = u.block('ret', 40)
    pa, a = u.message('a', MONEY)
    pb, b = u.message('b', MONEY)
    ps, s = u.message('sum', MONEY)
    u.assume(amount_ok(a), amount_ok(b))
    ca, cb = parts(a)[0], parts(b)[0]
    u.assume(ca == cb if same else ca != cb)
    u.v.update(a=a, b=b, pa=pa, pb=pb, ps=ps, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), pa, pb, ps]


def sum_clauses(u, st, s, code=None):
    a, b = u.v['a'], u.v['b']
    T = total(a) + total(b)
    fits = And(T >= TOTMIN, T <= TOTMAX)
    _, su, sn = parts(s)
    if code is not None:
        u.check(st, 'ok-exactly-when-representable', Implies(fits, Eq(code, 0)))
        u.check(st, 'out-of-range-when-not-representable', Implies(Not(fits), Eq(code, 11)))
    u.check(st, 'sum-is-exact', Implies(fits, total(s) == T))
    u.check(st, 'sum-is-valid-amount', amount_ok(s))
    u.check(st, 'saturates-upwards', Implies(T > TOTMAX, And(su == LIM - 1, sn == BIL - 1)))
    u.check(st, 'saturates-downwards', Implies(T < TOTMIN, And(su == -LIM, sn == -(BIL - 1))))
    u.check(st, 'sum-keeps-currency', parts(s)[0] == parts(a)[0])


def frame(u, st):
    u.check(st, 'operands-unchanged', And(Eq(u.read(st, u.v['pa']), u.v['a']), Eq(u.read(st, u.v['pb']), u.v['b'])))


def post_add(u, st, ret):
    s = u.read(st, u.v['ps'])
    code = lib.scode(u.read(st, u.v['ret']))
    sum_clauses(u, st, s, code)
    frame(u, st)


def post_diff(u, st, ret):
    s = u.read(st, u.v['ps'])
    cc, su, sn = parts(s)
    u.check(st, 'different-currency-is-invalid-argument', Eq(lib.scode(u.read(st, u.v['ret'])), 3))
    u.check(st, 'different-currency-clears-result', And(Eq(cc, S.EMPTY), Eq(su, 0), Eq(sn, 0)))
    frame(u, st)


def setup_sat(u):
    ret = u.block('ret', 40)
    pa, a = u.message('a', MONEY)
    pb, b = u.message('b', MONEY)
    u.assume(amount_ok(a), amount_ok(b), parts(a)[0] == parts(b)[0])
    u.v.update(a=a, b=b, pa=pa, pb=pb, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), pa, pb]


def post_sat(u, st, ret):
    sum_clauses(u, st, u.read(st, u.v['ret']))
    frame(u, st)


def setup_val(u):
    ret = u.block('ret', 40)
    pa, a = u.message('a', MONEY)
    u.v.update(a=a, pa=pa, ret=Ptr(ret.id))
    u.args = [Ptr(ret.id), pa]


def post_val(u, st, ret):
    code = lib.scode(u.read(st, u.v['ret']))
    a = u.v['a']
    good = And(amount_ok(a), slen(parts(a)[0]) == 3)
    u.check(st, 'valid-money-accepted', Implies(good, Eq(code, 0)))
    u.check(st, 'invalid-money-rejected-as-invalid-argument', Implies(Not(good), Eq(code, 3)))
    u.check(st, 'operand-unchanged', Eq(u.read(st, u.v['pa']), a))


def setup_sign(u):
    pa, a = u.message('a', MONEY)
    u.assume(amount_ok(a))
    u.v.update(a=a, pa=pa)
    u.args = [pa]


def post_sign(u, st, ret):
    T = total(u.v['a'])
    u.check(st, 'sign-of-amount', Eq(ret, z3.If(T > 0, 1, z3.If(T < 0, -1, 0))))
    u.check(st, 'operand-unchanged', Eq(u.read(st, u.v['pa']), u.v['a']))


UNITS = [
    Unit('C01', 'TryAddMoney/same-currency', TU, r'^scc::TryAddMoney\(', lambda u: setup_add(u, True), post_add),
    Unit('C01', 'TryAddMoney/different-currency', TU, r'^scc::TryAddMoney\(', lambda u: setup_add(u, False), post_diff),
    Unit('C01', 'SaturatedAddMoney', TU, r'^scc::SaturatedAddMoney\(', setup_sat, post_sat),
    Unit('C02', 'ValidateMoney', TU, r'^scc::ValidateMoney\(', setup_val, post_val),
    Unit('C02', 'GetAmountSign', TU, r'^scc::GetAmountSign\(', setup_sign, post_sign),
]
