// Replay driver for C03-C06: the real distribution helper against a reference
// that keeps the raw samples and evaluates every statistic in long double.
#include "common.h"
#include <cmath>
#include <limits>
#include "utils/distribution_helper.h"

using google::api::servicecontrol::v1::Distribution;
using namespace google::service_control_client;
using ::google::protobuf::util::Status;
using ::google::protobuf::util::StatusCode;
using namespace vd;
typedef long double ld;

static const double kInf = std::numeric_limits<double>::infinity();
static const double kNaN = std::numeric_limits<double>::quiet_NaN();

struct Ref {
  int kind = 0;  // 0 linear 1 exponential 2 explicit
  int n = 0;
  double a = 0, b = 0;
  std::vector<double> bounds;
  std::vector<double> samples;
  int Buckets() const { return kind == 2 ? (int)bounds.size() + 1 : n + 2; }
  std::string S() const {
    std::string s = kind == 0 ? "linear" : kind == 1 ? "exponential" : "explicit";
    if (kind < 2) return Str(s, "(n=", n, ", ", a, ", ", b, ")");
    for (auto x : bounds) s += Str(" ", x);
    return s;
  }
};

static Status Init(const Ref& r, Distribution* d) {
  if (r.kind == 0) return DistributionHelper::InitLinear(r.n, r.a, r.b, d);
  if (r.kind == 1) return DistributionHelper::InitExponential(r.n, r.a, r.b, d);
  return DistributionHelper::InitExplicit(r.bounds, d);
}

static ld Lower(const Ref& r, int i) {  // lower bound of bucket i >= 1
  if (r.kind == 0) return (ld)r.b + (ld)(i - 1) * (ld)r.a;
  if (r.kind == 1) return (ld)r.b * powl((ld)r.a, i - 1);
  return r.bounds[i - 1];
}
static bool Near(ld x, ld y, ld scale) {
  if (std::isinf((double)x) || std::isinf((double)y)) return false;
  return fabsl(x - y) <= 1e-9L * (fabsl(x) + fabsl(y) + scale);
}
// is bucket i an acceptable home for x (rounding within 1e-9 of a bound is tolerated unless exact)
static bool Exact(double x) { return fabs(x) < 1e6 && x * 65536 == std::floor(x * 65536); }
static bool Covers(const Ref& r, int i, double x, bool exact) {
  if (r.kind != 2 && !Exact(x)) exact = false;
  int last = r.Buckets() - 1;
  ld scale = r.kind == 0 ? fabsl(r.b) + r.n * fabsl(r.a) : 0;
  if (i < 0 || i > last) return false;
  if (std::isnan(x)) return true;
  if (i > 0 && !((ld)x >= Lower(r, i)) && (exact || !Near(x, Lower(r, i), scale))) return false;
  if (i < last && !((ld)x < Lower(r, i + 1)) && (exact || !Near(x, Lower(r, i + 1), scale))) return false;
  return true;
}

static double Dy() {  // small dyadic number: sums and quotients are exact
  return (double)R(-64, 64) / (double)(1 << R(0, 3));
}
static double AnySample() {
  switch (R(0, 11)) {
    case 0: return kInf;
    case 1: return -kInf;
    case 2: return kNaN;
    case 3: return std::numeric_limits<double>::max();
    case 4: return -std::numeric_limits<double>::max();
    case 5: return std::numeric_limits<double>::denorm_min();
    case 6: return 1e300 * (Coin() ? 1 : -1);
    case 7: return (double)R(-5, 5) * 4294967296.0;
    default: return Dy();
  }
}

static Ref RandRef(bool dyadic) {
  Ref r;
  r.kind = R(0, 2);
  r.n = R(1, 8);
  if (r.kind == 0) { r.a = dyadic ? (double)(1 << R(0, 4)) / 8 : R(1, 1000) / 7.0; r.b = dyadic ? Dy() : R(-1000, 1000) / 3.0; }
  if (r.kind == 1) { r.a = dyadic ? (double)(1 << R(1, 2)) : 1.0 + R(1, 300) / 100.0; r.b = dyadic ? (double)(1 << R(0, 6)) / 8 : R(1, 1000) / 7.0; }
  if (r.kind == 2) {
    std::set<double> s;
    int m = R(0, 6);
    while ((int)s.size() < m) s.insert(Dy());
    r.bounds.assign(s.begin(), s.end());
  }
  return r;
}
static double NearBound(const Ref& r, bool dyadic) {
  if (r.Buckets() < 2) return Dy();
  double x = (double)Lower(r, R(1, r.Buckets() - 1));
  switch (R(0, 3)) {
    case 0: return x;
    case 1: return dyadic ? x - 1.0 / 1024 : std::nextafter(x, -kInf);
    case 2: return dyadic ? x + 1.0 / 1024 : std::nextafter(x, kInf);
    default: return Dy();
  }
}

static bool Close(ld got, ld want, ld scale) { return fabsl(got - want) <= 1e-9L * (fabsl(want) + scale + 1e-30L); }

static void CheckStats(const Ref& r, const Distribution& d, const char* what) {
  size_t n = r.samples.size();
  VCHECK(d.count() == (int64_t)n, what << ": count " << d.count() << " for " << n << " samples");
  VCHECK(d.bucket_counts_size() == r.Buckets(), what << ": number of buckets changed");
  int64_t tot = 0;
  for (int i = 0; i < d.bucket_counts_size(); i++) tot += d.bucket_counts(i);
  VCHECK(tot == (int64_t)n, what << ": bucket counts sum to " << tot << " for " << n << " samples");
  if (!n) return;
  ld sum = 0, mn = r.samples[0], mx = r.samples[0], ab = 0;
  for (auto x : r.samples) { sum += x; mn = std::min(mn, (ld)x); mx = std::max(mx, (ld)x); ab = std::max(ab, fabsl((ld)x)); }
  ld mean = sum / n, ssd = 0;
  for (auto x : r.samples) ssd += (x - mean) * (x - mean);
  VCHECK(d.minimum() == (double)mn, what << ": minimum " << d.minimum() << " should be " << (double)mn);
  VCHECK(d.maximum() == (double)mx, what << ": maximum " << d.maximum() << " should be " << (double)mx);
  VCHECK(Close(d.mean(), mean, ab), what << ": mean " << d.mean() << " should be " << (double)mean);
  VCHECK(Close(d.sum_of_squared_deviation(), ssd, ab * ab * n), what << ": sum of squared deviation " << d.sum_of_squared_deviation() << " should be " << (double)ssd);
}

static void AddCase() {
  CaseReset();
  bool dyadic = Coin(70);
  Ref r = RandRef(dyadic);
  Distribution d;
  Status st = Init(r, &d);
  Case("init " + r.S());
  VCHECK(st.ok(), "a valid definition is rejected");
  int n = R(1, 12);
  bool exactkind = r.kind == 2 || dyadic;
  bool stats = Prop() == "C03";
  for (int i = 0; i < n; i++) {
    double x = Coin(50) ? NearBound(r, dyadic) : (!stats && Coin(60)) ? AnySample() : Dy() * (Coin(10) ? 100 : 1);
    if (stats && !std::isfinite(x)) x = 1;
    Case(Str("add ", x));
    Distribution before = d;
    Arm();
    st = DistributionHelper::AddSample(x, &d);
    VCHECK(st.ok(), "sample rejected");
    VCHECK(d.bucket_counts_size() == before.bucket_counts_size(), "number of bucket counts changed");
    int hit = -1, changed = 0;
    for (int k = 0; k < d.bucket_counts_size(); k++)
      if (d.bucket_counts(k) != before.bucket_counts(k)) { changed++; hit = k; }
    VCHECK(changed == 1 && d.bucket_counts(hit) == before.bucket_counts(hit) + 1, "not exactly one bucket count went up by one");
    if (!stats) VCHECK(Covers(r, hit, x, exactkind), "sample " << x << " counted in bucket " << hit << " which does not cover it");
    r.samples.push_back(x);
    if (stats) CheckStats(r, d, "after the sample");
    Distribution e = d, f = before;
    for (auto* p : {&e, &f}) { p->clear_count(); p->clear_minimum(); p->clear_maximum(); p->clear_mean(); p->clear_sum_of_squared_deviation(); p->clear_bucket_counts(); }
    VCHECK(e.SerializeAsString() == f.SerializeAsString(), "another field changed");
  }
  Evaluated(CaseHash(), true);
}
static void UnknownCase() {
  CaseReset();
  Distribution d;
  if (Coin()) { d.set_count(R(0, 3)); d.set_mean(Dy()); for (int i = R(0, 3); i > 0; i--) d.add_bucket_counts(R(0, 3)); }
  std::string s = d.SerializeAsString();
  Case("add to a distribution without buckets: " + d.ShortDebugString());
  Status st = DistributionHelper::AddSample(Dy(), &d);
  VCHECK(st.code() == StatusCode::kInvalidArgument, "accepted without bucket options");
  VCHECK(d.SerializeAsString() == s, "changed although rejected");
  Evaluated(CaseHash(), true);
}

static void MergeCase() {
  CaseReset();
  Ref a = RandRef(true), b = a;
  int mode = R(0, 9);
  bool match = true;
  if (mode == 0) { do b = RandRef(true); while (b.S() == a.S()); match = false; }
  else if (mode <= 3) {
    match = false;
    int w = R(0, 2);
    if (a.kind == 2) {
      if (w == 0 || a.bounds.empty()) b.bounds.push_back(a.bounds.empty() ? 1 : a.bounds.back() + 5);
      else if (w == 1) { auto& x = b.bounds[R(0, b.bounds.size() - 1)]; x += 1.0 / 1024; std::sort(b.bounds.begin(), b.bounds.end()); }
      else b.bounds.pop_back();
    } else {
      if (w == 0) b.n++;
      else if (w == 1) b.a += 1.0 / 256;
      else b.b += 1.0 / 256;
    }
  }
  Distribution from, to;
  VCHECK(Init(a, &from).ok() && Init(b, &to).ok(), "a valid definition is rejected");
  for (int i = Coin(20) ? 0 : R(1, 6); i > 0; i--) { a.samples.push_back(Coin() ? NearBound(a, true) : Dy()); DistributionHelper::AddSample(a.samples.back(), &from); }
  for (int i = Coin(20) ? 0 : R(1, 6); i > 0; i--) { b.samples.push_back(Coin() ? NearBound(b, true) : Dy()); DistributionHelper::AddSample(b.samples.back(), &to); }
  if (match && Coin(15)) { match = false; if (Coin()) from.add_bucket_counts(Coin() ? 0 : 1); else if (to.bucket_counts_size() > 0) to.mutable_bucket_counts()->RemoveLast(); else to.add_bucket_counts(2); }
  Case("from " + from.ShortDebugString());
  Case("to   " + to.ShortDebugString());
  std::string f0 = from.SerializeAsString(), t0 = to.SerializeAsString();
  Distribution tb = to;
  Arm();
  Status st = DistributionHelper::Merge(from, &to);
  Case(Str("code ", (int)st.code(), " result ", to.ShortDebugString()));
  VCHECK(from.SerializeAsString() == f0, "the source changed");
  if (!match) {
    VCHECK(st.code() == StatusCode::kInvalidArgument, "mismatching distributions merged");
    VCHECK(to.SerializeAsString() == t0, "rejected merge changed the target");
  } else {
    VCHECK(st.ok(), "matching distributions not merged");
    Ref u = b;
    u.samples.insert(u.samples.end(), a.samples.begin(), a.samples.end());
    CheckStats(u, to, "after the merge");
    for (int i = 0; i < to.bucket_counts_size(); i++)
      VCHECK(to.bucket_counts(i) == from.bucket_counts(i) + tb.bucket_counts(i), "bucket " << i << " is not the sum");
  }
  Evaluated(CaseHash(), !a.samples.empty());
}

// A distribution that stands for many samples (statistics set directly).
static void BigDist(const Ref& r, Distribution* d) {
  Init(r, d);
  static const int64_t big[] = {1, 2, 3, 255, 65536, 1000003, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 5000000000LL, 1LL << 40, 1LL << 50};
  int64_t n = big[R(0, 12)];
  d->set_count(n);
  double m = Dy(), w = n == 1 ? 0 : fabs(Dy());
  d->set_mean(m); d->set_minimum(m - w); d->set_maximum(m + w); d->set_sum_of_squared_deviation(n == 1 ? 0 : w * w * 2);
  int k = R(0, r.Buckets() - 1);
  d->set_bucket_counts(k, n / 2); d->set_bucket_counts(R(0, r.Buckets() - 1), n - n / 2 + (0));
}
static void CheckUnion(const Distribution& a, ld nb, ld mb, ld sb, double lo, double hi, const Distribution& d) {
  ld na = a.count(), n = na + nb, m = (na * a.mean() + nb * mb) / n;
  ld s = (ld)a.sum_of_squared_deviation() + sb + na * (m - a.mean()) * (m - a.mean()) + nb * (m - mb) * (m - mb);
  VCHECK(d.count() == a.count() + (int64_t)nb, "count " << d.count() << " should be " << a.count() + (int64_t)nb);
  VCHECK(d.minimum() == std::min(a.minimum(), lo) && d.maximum() == std::max(a.maximum(), hi), "minimum or maximum wrong");
  VCHECK(fabsl(d.mean() - m) <= 1e-9L * (fabsl(a.mean()) + fabsl(mb) + 1), "mean " << d.mean() << " should be " << (double)m);
  VCHECK(fabsl(d.sum_of_squared_deviation() - s) <= 1e-6L * (fabsl(s) + 1), "sum of squared deviation " << d.sum_of_squared_deviation() << " should be " << (double)s);
}
static void BigAddCase() {
  CaseReset();
  Ref r = RandRef(true);
  Distribution d;
  BigDist(r, &d);
  Distribution b = d;
  double x = Dy();
  Case("distribution " + d.ShortDebugString());
  Case(Str("add ", x));
  Arm();
  VCHECK(DistributionHelper::AddSample(x, &d).ok(), "sample rejected");
  Case("result " + d.ShortDebugString());
  CheckUnion(b, 1, x, 0, x, x, d);
  int changed = 0;
  for (int k = 0; k < d.bucket_counts_size(); k++) if (d.bucket_counts(k) != b.bucket_counts(k)) { changed++; VCHECK(d.bucket_counts(k) == b.bucket_counts(k) + 1, "bucket count not raised by one"); }
  VCHECK(changed == 1, changed << " bucket counts changed");
  Evaluated(CaseHash(), true);
}
static void BigMergeCase() {
  CaseReset();
  Ref r = RandRef(true);
  Distribution f, t;
  BigDist(r, &f);
  BigDist(r, &t);
  Distribution b = t;
  Case("from " + f.ShortDebugString());
  Case("to   " + t.ShortDebugString());
  Arm();
  VCHECK(DistributionHelper::Merge(f, &t).ok(), "matching distributions not merged");
  Case("result " + t.ShortDebugString());
  CheckUnion(b, f.count(), f.mean(), f.sum_of_squared_deviation(), f.minimum(), f.maximum(), t);
  for (int i = 0; i < t.bucket_counts_size(); i++) VCHECK(t.bucket_counts(i) == f.bucket_counts(i) + b.bucket_counts(i), "bucket " << i << " is not the sum");
  Evaluated(CaseHash(), true);
}

static double AnyParam() {
  static const double v[] = {0, -0.0, 1, -1, 0.5, 1.5, 2, 3, 1e-300, 1e300, kInf, -kInf, kNaN, 1.0000000001, 0.9999999999};
  return v[R(0, 14)];
}
static void InitCase() {
  CaseReset();
  Ref r;
  r.kind = R(0, 2);
  bool valid;
  if (r.kind < 2) {
    r.n = Coin(70) ? R(1, 20) : (Coin() ? R(-3, 0) : INT32_MIN);
    r.a = AnyParam(); r.b = AnyParam();
    valid = r.n > 0 && (r.kind == 0 ? r.a > 0 : (r.a > 1 && r.b > 0));
  } else {
    valid = true;
    std::vector<double> s;
    for (int i = R(0, 6); i > 0; i--) s.push_back(Coin(20) ? AnyParam() : Dy());
    if (Coin(70)) { bool nan = false; for (auto x : s) nan |= std::isnan(x); if (!nan) std::sort(s.begin(), s.end()); }
    r.bounds = s;
    for (size_t i = 0; i < s.size(); i++) { if (std::isnan(s[i])) valid = false; if (i && !(s[i - 1] < s[i])) valid = false; }
  }
  Case("init " + r.S());
  Distribution d;
  Arm();
  Status st = Init(r, &d);
  Case(Str("code ", (int)st.code(), " result ", d.ShortDebugString()));
  VCHECK(st.ok() == valid, valid ? "valid definition rejected" : "invalid definition accepted");
  if (!valid) {
    VCHECK(st.code() == StatusCode::kInvalidArgument, "wrong error code");
    VCHECK(d.SerializeAsString().empty() && d.bucket_option_case() == 0, "rejected definition changed the distribution");
  } else {
    VCHECK(d.bucket_counts_size() == r.Buckets(), "number of bucket counts is " << d.bucket_counts_size());
    for (auto c : d.bucket_counts()) VCHECK(c == 0, "nonzero initial bucket");
    VCHECK(d.count() == 0 && d.mean() == 0 && d.minimum() == 0 && d.maximum() == 0 && d.sum_of_squared_deviation() == 0, "statistics not empty");
    if (r.kind == 0) VCHECK(d.linear_buckets().num_finite_buckets() == r.n && d.linear_buckets().width() == r.a && (d.linear_buckets().offset() == r.b || (std::isnan(r.b) && std::isnan(d.linear_buckets().offset()))), "stored definition differs");
    if (r.kind == 1) VCHECK(d.exponential_buckets().num_finite_buckets() == r.n && d.exponential_buckets().growth_factor() == r.a && d.exponential_buckets().scale() == r.b, "stored definition differs");
    if (r.kind == 2) {
      VCHECK(d.has_explicit_buckets() && d.explicit_buckets().bounds_size() == (int)r.bounds.size(), "stored bounds differ");
      for (size_t i = 0; i < r.bounds.size(); i++) VCHECK(d.explicit_buckets().bounds(i) == r.bounds[i], "stored bounds differ");
    }
  }
  Evaluated(CaseHash(), true);
}

int main(int argc, char** argv) {
  vd::Init(argc, argv);
  Rule() = "random definitions and samples (dyadic values where rounding is exact; bounds, their neighbours, infinities and NaN "
           "included); a case is one whole sequence, non-trivial if at least one sample, distinct by its text";
  while (!TimeUp()) {
    for (int k = 0; k < 64; k++) {
      if (Prop() == "C03") { if (Coin(10)) UnknownCase(); else if (Coin(30)) BigAddCase(); else AddCase(); }
      else if (Prop() == "C04") AddCase();
      else if (Prop() == "C05") { if (Coin(25)) BigMergeCase(); else MergeCase(); }
      else InitCase();
    }
  }
  Stats();
  return 0;
}
