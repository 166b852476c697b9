// Replay driver for C07 and C08: the real key generators on pairs of requests.
#include "common.h"
#include <algorithm>
#include "google/api/servicecontrol/v1/operation.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "src/signature.h"

using namespace google::api::servicecontrol::v1;
using namespace google::service_control_client;
using namespace vd;

typedef std::map<std::string, std::string> Labels;
typedef std::vector<std::pair<std::string, std::vector<Labels>>> Sets;

static std::string Text() {
  static const std::vector<std::string> v = {"", "a", "b", "ab", "ba", "aa", "c", "/", "a/b", "x\x01y", "\xff", "B", "abc", "\n", " "};
  if (Coin(10)) {
    std::string s;
    for (int n = R(1, 70); n > 0; n--) s += (char)R(1, 255);
    return s;
  }
  return Pick(v);
}
static Labels RandLabels(int max = 4) {
  Labels l;
  for (int n = R(0, max); n > 0; n--) l[Text()] = Text();
  return l;
}
static std::string Show(const Labels& l) {
  std::string s = "{";
  for (auto& x : l) s += x.first + ":" + x.second + ",";
  return s + "}";
}

// identity of a request, and everything else chosen at random when it is built
struct Id {
  std::string op, consumer;
  Labels labels;
  Sets sets;   // distinct names (quota: only the names matter)
  std::string S() const {
    std::string s = "op=" + op + " consumer=" + consumer + " labels=" + Show(labels) + " metrics=";
    for (auto& m : sets) {
      s += m.first + "[";
      for (auto& l : m.second) s += Show(l);
      s += "]";
    }
    return s;
  }
};
static Id RandId() {
  Id i;
  i.op = Text();
  i.consumer = Text();
  i.labels = RandLabels();
  std::set<std::string> names;
  for (int n = R(0, 4); n > 0; n--) names.insert(Text());
  for (auto& n : names) {
    std::vector<Labels> v;
    for (int k = R(0, 3); k > 0; k--) v.push_back(RandLabels(2));
    i.sets.push_back({n, v});
  }
  return i;
}

template <class M>
static void PutLabels(const Labels& l, M* m) {
  std::vector<std::pair<std::string, std::string>> v(l.begin(), l.end());
  std::shuffle(v.begin(), v.end(), Rng());
  if (Coin(20)) (*m)["zz-temporary"] = "x";        // leaves another internal table size behind
  for (auto& x : v) (*m)[x.first] = x.second;
  m->erase("zz-temporary");
  for (auto& x : v) (*m)[x.first] = x.second;
}
static void Value(MetricValue* v) {
  if (Coin()) v->mutable_start_time()->set_seconds(R(0, 1000));
  if (Coin()) v->mutable_end_time()->set_nanos(R(0, 1000));
  switch (R(0, 5)) {
    case 0: v->set_int64_value(R(-5, 1000)); break;
    case 1: v->set_double_value(R(0, 100) / 3.0); break;
    case 2: v->set_string_value(Text()); break;
    case 3: v->set_bool_value(Coin()); break;
    case 4: v->mutable_distribution_value()->set_count(R(0, 9)); break;
  }
}
static MetricValue BuildMetric(const Labels& l) {
  MetricValue m;
  PutLabels(l, m.mutable_labels());
  Value(&m);
  return m;
}
static Operation BuildOp(const Id& id, bool withsets) {
  Operation o;
  o.set_operation_name(id.op);
  o.set_consumer_id(id.consumer);
  PutLabels(id.labels, o.mutable_labels());
  if (Coin()) o.set_operation_id(Text());
  if (Coin()) o.mutable_start_time()->set_seconds(R(0, 1000));
  if (Coin()) o.mutable_end_time()->set_seconds(R(0, 1000));
  for (int n = R(0, 2); n > 0; n--) o.add_log_entries()->set_name(Text());
  if (Coin(30)) o.set_importance(Operation::HIGH);
  if (withsets) {
    Sets s = id.sets;
    std::shuffle(s.begin(), s.end(), Rng());
    for (auto& m : s) {
      MetricValueSet* q = o.add_metric_value_sets();
      q->set_metric_name(m.first);
      for (auto& l : m.second) *q->add_metric_values() = BuildMetric(l);
    }
  } else {
    for (int n = R(0, 3); n > 0; n--) {
      MetricValueSet* q = o.add_metric_value_sets();
      q->set_metric_name(Text());
      for (int k = R(0, 2); k > 0; k--) *q->add_metric_values() = BuildMetric(RandLabels(2));
    }
  }
  return o;
}
static std::string ReportKey(const Id& id) { return GenerateReportOperationSignature(BuildOp(id, false)); }
static std::string MetricKey(const Id& id) { return GenerateReportMetricValueSignature(BuildMetric(id.labels)); }
static std::string CheckKey(const Id& id) {
  CheckRequest r;
  if (Coin()) r.set_service_config_id(Text());
  *r.mutable_operation() = BuildOp(id, true);
  return GenerateCheckRequestSignature(r);
}
static std::string QuotaKey(const Id& id) {
  AllocateQuotaRequest r;
  QuotaOperation* o = r.mutable_allocate_operation();
  o->set_method_name(id.op);
  o->set_consumer_id(id.consumer);
  if (Coin()) o->set_operation_id(Text());
  if (Coin()) o->set_quota_mode(QuotaOperation::BEST_EFFORT);
  Sets s = id.sets;
  std::shuffle(s.begin(), s.end(), Rng());
  for (auto& m : s) {
    for (int n = Coin(20) ? 2 : 1; n > 0; n--) {     // a set of names: repeating one changes nothing
      MetricValueSet* q = o->add_quota_metrics();
      q->set_metric_name(m.first);
      for (int k = R(0, 2); k > 0; k--) *q->add_metric_values() = BuildMetric(RandLabels(2));
    }
  }
  return GenerateAllocateQuotaRequestSignature(r);
}
typedef std::string (*KeyFn)(const Id&);
static const char* kKind[4] = {"report operation", "metric value", "check request", "quota request"};
static const KeyFn kFn[4] = {ReportKey, MetricKey, CheckKey, QuotaKey};

// text fed in for an identity, components in key order (used to recognise the ambiguity D7)
static std::string Flat(int kind, const Id& i) {
  std::string z(1, '\0'), s;
  auto lab = [&](const Labels& l) { for (auto& x : l) s += z + x.first + z + x.second; };
  if (kind == 0) { s = i.consumer + z + i.op; lab(i.labels); }
  if (kind == 1) lab(i.labels);
  if (kind == 2) {
    s = i.op + z + i.consumer + z;
    lab(i.labels);
    for (auto& m : i.sets) { s += z + m.first; for (auto& l : m.second) lab(l); }
    s += z;
  }
  if (kind == 3) { s = i.op + z + i.consumer; for (auto& m : i.sets) s += z + m.first; }
  return s;
}
static std::string Identity(int kind, const Id& i) {
  Id j;
  if (kind != 1) { j.op = i.op; j.consumer = i.consumer; }
  if (kind != 3) j.labels = i.labels;
  if (kind >= 2) j.sets = i.sets;
  if (kind == 3) for (auto& m : j.sets) m.second.clear();
  // unambiguous rendering
  std::string s;
  auto t = [&](const std::string& x) { s += std::to_string(x.size()) + ":" + x; };
  auto l = [&](const Labels& m) { s += "{"; for (auto& x : m) { t(x.first); t(x.second); } s += "}"; };
  t(j.op); t(j.consumer); l(j.labels);
  for (auto& m : j.sets) { s += "["; t(m.first); for (auto& x : m.second) l(x); s += "]"; }
  return s;
}

static void SameCase() {
  CaseReset();
  int k = R(0, 3);
  Id id = RandId();
  Case(std::string(kKind[k]) + " " + id.S());
  Arm();
  std::string a = kFn[k](id);
  for (int n = 0; n < 4; n++) {
    std::string b = kFn[k](id);
    VCHECK(a == b, "two " << kKind[k] << "s equal in their identifying fields (labels and metrics listed in another order, other "
                          << "times, ids, values, log entries) get different keys");
  }
  Evaluated(CaseHash(), id.labels.size() + id.sets.size() > 1);
}

static Id Mutate(const Id& a, int k) {
  Id b = a;
  for (int tries = 0; tries < 1 + R(0, 1); tries++) switch (R(0, 9)) {
    case 0: b.op = Text(); break;
    case 1: b.consumer = Text(); break;
    case 2: std::swap(b.op, b.consumer); break;
    case 3: if (!b.labels.empty()) { auto it = b.labels.begin(); std::advance(it, R(0, b.labels.size() - 1)); it->second = Text(); } break;
    case 4: b.labels[Text()] = Text(); break;
    case 5: if (!b.labels.empty()) { auto it = b.labels.begin(); std::advance(it, R(0, b.labels.size() - 1)); b.labels.erase(it); } break;
    case 6: {  // a label's key and value change places
      if (b.labels.empty()) break;
      auto x = *b.labels.begin();
      b.labels.erase(x.first);
      b.labels[x.second] = x.first;
      break;
    }
    case 7: {
      if (b.sets.empty()) break;
      b.sets.erase(b.sets.begin() + R(0, b.sets.size() - 1));
      break;
    }
    case 8: {
      if (b.sets.empty()) break;
      auto& m = b.sets[R(0, b.sets.size() - 1)];
      if (m.second.empty() || Coin()) m.second.push_back(RandLabels(2));
      else m.second[R(0, m.second.size() - 1)] = RandLabels(2);
      break;
    }
    case 9: {
      std::string n = Text();
      bool has = false;
      for (auto& m : b.sets) has |= m.first == n;
      if (!has) { b.sets.push_back({n, {}}); std::sort(b.sets.begin(), b.sets.end()); }
      break;
    }
  }
  return b;
}
static bool g_d7 = false;
static void Compare(int k, const Id& a, const Id& b) {
  if (Identity(k, a) == Identity(k, b)) return;
  Arm();
  std::string x = kFn[k](a), y = kFn[k](b);
  if (x == y) {
    bool names = k == 1 || (a.op == b.op && a.consumer == b.consumer);
    if (k == 2 && names && Flat(k, a) == Flat(k, b)) {
      if (!g_d7) printf("FINDING D7 two different check requests get the same key: %s  versus  %s\n", a.S().c_str(), b.S().c_str());
      g_d7 = true;
      return;
    }
    Fail(std::string("two ") + kKind[k] + "s that differ in their identity get the same key");
  }
  Evaluated(CaseHash(), true);
}
static void DifferCase() {
  CaseReset();
  int k = R(0, 3);
  Id a = RandId(), b = Coin(90) ? Mutate(a, k) : RandId();
  Case(std::string(kKind[k]) + "\n  " + a.S() + "\n  " + b.S());
  Compare(k, a, b);
}

int main(int argc, char** argv) {
  Init(argc, argv);
  Rule() = Prop() == "C07" ? "an identity with at least two labels or metrics, each case built in five random orders with random other fields"
                           : "pairs of requests that differ in one or two identifying components";
  if (Prop() == "C08") {   // known ambiguity: a label and two metric names
    Id a, b;
    a.labels["a"] = "b";
    b.sets = {{"a", {}}, {"b", {}}};
    CaseReset();
    Compare(2, a, b);
  }
  while (!TimeUp()) Prop() == "C07" ? SameCase() : DifferCase();
  Stats();
  return 0;
}
