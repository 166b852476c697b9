// Replay driver for C01, C02: the real money functions against exact 128-bit
// arithmetic.
#include "common.h"
#include "src/money_utils.h"

using google::type::Money;
using namespace google::service_control_client;
using ::google::protobuf::util::StatusCode;
using namespace vd;

typedef __int128 i128;
static const i128 kB = 1000000000;
static i128 Total(const Money& m) { return (i128)m.units() * kB + m.nanos(); }
static i128 kMax() { return (i128)INT64_MAX * kB + kB - 1; }
static i128 kMin() { return (i128)INT64_MIN * kB - (kB - 1); }
static bool AmountOk(const Money& m) {
  return m.nanos() > -kB && m.nanos() < kB && !(m.units() > 0 && m.nanos() < 0) && !(m.units() < 0 && m.nanos() > 0);
}
static std::string S(const Money& m) { return Str("{", m.currency_code(), " units=", m.units(), " nanos=", m.nanos(), "}"); }

static int64_t RandUnits() {
  switch (R(0, 5)) {
    case 0: return R(-3, 3);
    case 1: return 0;
    case 2: return INT64_MAX - R(0, 3);
    case 3: return INT64_MIN + R(0, 3);
    case 4: return R(-1000000, 1000000);
    default: return (int64_t)Rng()();
  }
}
static int32_t RandNanos() {
  switch (R(0, 3)) {
    case 0: return R(-3, 3);
    case 1: return (Coin() ? 1 : -1) * (999999999 - R(0, 3));
    case 2: return (Coin() ? 1 : -1) * (500000000 + R(-2, 2));
    default: return R(-999999999, 999999999);
  }
}
static Money Valid(const std::string& cc) {
  Money m;
  m.set_currency_code(cc);
  int64_t u = RandUnits();
  int32_t n = RandNanos();
  if (u > 0 && n < 0) n = -n;
  if (u < 0 && n > 0) n = -n;
  m.set_units(u);
  m.set_nanos(n);
  return m;
}

static void CheckAdd(const Money& a, const Money& b) {
  CaseReset();
  Case(Str("a=", S(a), " b=", S(b)));
  Money a0 = a, b0 = b, sum;
  sum.set_currency_code("ZZZ"); sum.set_units(77); sum.set_nanos(5);
  auto st = TryAddMoney(a, b, &sum);
  Case(Str("TryAddMoney -> code ", (int)st.code(), " sum=", S(sum)));
  VCHECK(S(a) == S(a0) && S(b) == S(b0), "operand modified");
  if (a.currency_code() != b.currency_code()) {
    VCHECK(st.code() == StatusCode::kInvalidArgument, "currencies differ but no invalid-argument");
    VCHECK(sum.currency_code().empty() && sum.units() == 0 && sum.nanos() == 0, "currencies differ but sum not cleared");
    Evaluated(CaseHash(), true);
    return;
  }
  i128 t = Total(a) + Total(b);
  for (int k = 0; k < 2; k++) {
    if (k == 1) { sum = SaturatedAddMoney(a, b); Case(Str("SaturatedAddMoney -> ", S(sum))); }
    VCHECK(AmountOk(sum), "sum is not a valid amount");
    VCHECK(sum.currency_code() == a.currency_code(), "sum has another currency");
    if (t > kMax()) {
      VCHECK(sum.units() == INT64_MAX && sum.nanos() == kB - 1, "positive overflow does not saturate to the maximum");
    } else if (t < kMin()) {
      VCHECK(sum.units() == INT64_MIN && sum.nanos() == -(kB - 1), "negative overflow does not saturate to the minimum");
    } else {
      VCHECK(Total(sum) == t, "representable sum is not exact");
    }
    if (k == 0) VCHECK(st.code() == ((t > kMax() || t < kMin()) ? StatusCode::kOutOfRange : StatusCode::kOk), "wrong status code");
  }
  Evaluated(CaseHash(), true);
}

static void CheckValid(const Money& m) {
  CaseReset();
  Case(Str("m=", S(m)));
  auto st = ValidateMoney(m);
  Case(Str("ValidateMoney -> code ", (int)st.code()));
  bool good = m.currency_code().size() == 3 && AmountOk(m);
  VCHECK(st.code() == (good ? StatusCode::kOk : StatusCode::kInvalidArgument), "validation verdict is wrong");
  if (AmountOk(m)) {
    int s = GetAmountSign(m);
    i128 t = Total(m);
    VCHECK(s == (t > 0 ? 1 : t < 0 ? -1 : 0), Str("sign is ", s));
  }
  Evaluated(CaseHash(), true);
}

int main(int argc, char** argv) {
  Init(argc, argv);
  Arm(600);
  Rule() = "random valid amounts, biased to zero, one-unit and int64 boundaries; every case is non-trivial, distinct by text";
  const std::string cc[] = {"USD", "EUR", "", "US", "USDX", std::string("US\0", 3), std::string("USD\0", 4), std::string("US\0D", 4), std::string("\0\0\0", 3), std::string(300, 'A')};
  const std::string ok[] = {"USD", "EUR", std::string("US\0", 3)};
  if (argc > 7) {  // counterexample of the verifier: units and nanos of a and b
    Money a, b;
    a.set_currency_code("USD"); b.set_currency_code("USD");
    a.set_units(strtoll(argv[4], 0, 10)); a.set_nanos(strtoll(argv[5], 0, 10));
    b.set_units(strtoll(argv[6], 0, 10)); b.set_nanos(strtoll(argv[7], 0, 10));
    CheckAdd(a, b);
  }
  static const int64_t us[] = {INT64_MIN, INT64_MIN + 1, INT64_MIN / 2, -2, -1, 0, 1, 2, INT64_MAX / 2, INT64_MAX / 2 + 1, INT64_MAX - 1, INT64_MAX};
  static const int32_t ns[] = {-999999999, -500000000, -1, 0, 1, 500000000, 999999999};
  std::vector<Money> all;
  for (auto u : us) for (auto n : ns) { Money m; m.set_currency_code("USD"); m.set_units(u); m.set_nanos(n); if (AmountOk(m)) all.push_back(m); }
  if (Prop() != "C02") for (auto& a : all) for (auto& b : all) CheckAdd(a, b);
  for (auto& c : cc) for (auto u : us) for (int32_t n : {INT32_MIN, -1000000001, -1000000000, -999999999, -1, 0, 1, 999999999, 1000000000, 1000000001, INT32_MAX}) {
    Money m; m.set_currency_code(c); m.set_units(u); m.set_nanos(n);
    if (Prop() != "C01") CheckValid(m);
  }
  while (!TimeUp()) for (int i = 0; i < 1000; i++) {
    if (Prop() != "C02") CheckAdd(Valid(ok[R(0, 4) ? 0 : R(0, 2)]), Valid(ok[R(0, 9) ? 0 : R(0, 2)]));
    if (Prop() != "C01") {
      Money m; m.set_currency_code(cc[R(0, 9)]); m.set_units(RandUnits()); m.set_nanos(Coin(20) ? (int32_t)Rng()() : RandNanos());
      CheckValid(m);
    }
  }
  Stats();
  return 0;
}
