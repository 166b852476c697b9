// C09, C10, C11: random sequences of merges against a reference model.
#include "common.h"
#include "google/protobuf/util/message_differencer.h"
#include "src/operation_aggregator.h"
#include "src/quota_operation_aggregator.h"
#include "utils/distribution_helper.h"

using namespace vd;
using namespace google::service_control_client;
using google::api::MetricDescriptor;
using google::api::servicecontrol::v1::Distribution;
using google::api::servicecontrol::v1::MetricValue;
using google::api::servicecontrol::v1::MetricValueSet;
using google::api::servicecontrol::v1::Operation;
using google::api::servicecontrol::v1::QuotaOperation;
using google::protobuf::Timestamp;

typedef std::map<std::string, std::string> Labels;
static Labels L(const MetricValue& v) { return Labels(v.labels().begin(), v.labels().end()); }
static std::string Canon(MetricValue v) {
  std::string s;
  for (auto& l : L(v)) s += l.first + "=" + l.second + ";";
  v.clear_labels();
  return s + v.ShortDebugString();
}
static bool Before(const Timestamp& a, const Timestamp& b) { return std::make_pair(a.seconds(), a.nanos()) < std::make_pair(b.seconds(), b.nanos()); }

static void RandTime(Timestamp* t) {
  static const int64_t ext[] = {INT64_MIN, INT64_MAX, INT64_MIN / 2 - 7, INT64_MAX / 2 + 7, 1LL << 31, 1LL << 32, -(1LL << 32), (1LL << 53) + 1};
  t->set_seconds(R(0, 3) ? R(-2, 3) : Coin() ? R(-5, 5) * 4294967296LL : ext[R(0, 7)]);
  t->set_nanos(Coin(95) ? R(0, 2) * 400000000 : Coin() ? INT32_MIN : INT32_MAX);
}
static MetricValue RandValue(bool quota) {
  MetricValue v;
  int n = R(0, 2);
  for (int i = 0; i < n; i++) (*v.mutable_labels())[std::string(1, 'a' + R(0, 1))] = std::string(R(0, 1), 'x');
  if (Coin(70)) RandTime(v.mutable_start_time());
  if (Coin(70)) RandTime(v.mutable_end_time());
  switch (quota ? (Coin(90) ? 1 : R(0, 5)) : R(0, 9)) {
    case 0: break;
    default: v.set_int64_value(Coin(80) ? R(-5, 9) : R(-(1LL << 40), 1LL << 40)); break;
    case 2: case 3: v.set_double_value(R(-64, 64) / 8.0); break;
    case 4: v.set_string_value(std::string(R(0, 2), 's')); break;
    case 5: v.set_bool_value(Coin()); break;
    case 6: case 7: {
      Distribution* d = v.mutable_distribution_value();
      if (Coin(80)) DistributionHelper::InitLinear(R(1, 2), 1, 0, d); else DistributionHelper::InitExponential(2, 2, 1, d);
      for (int k = R(0, 3); k > 0; k--) DistributionHelper::AddSample(R(-4, 16) / 4.0, d);
      break;
    }
  }
  return v;
}
static void Widen(const MetricValue& f, MetricValue* t) {
  if (f.has_start_time() && (!t->has_start_time() || Before(f.start_time(), t->start_time()))) *t->mutable_start_time() = f.start_time();
  if (f.has_end_time() && (!t->has_end_time() || Before(t->end_time(), f.end_time()))) *t->mutable_end_time() = f.end_time();
}
// reference merge of a newer value into an older one
static MetricValue Merge(bool delta, const MetricValue& newer, const MetricValue& older, bool quota = false) {
  if (!delta) return Before(newer.end_time(), older.end_time()) ? older : newer;
  MetricValue r = older;
  if (newer.value_case() != older.value_case()) return r;
  Widen(newer, &r);
  if (r.value_case() == MetricValue::kInt64Value) r.set_int64_value((int64_t)((uint64_t)older.int64_value() + (uint64_t)newer.int64_value()));
  if (!quota && r.value_case() == MetricValue::kDoubleValue) r.set_double_value(older.double_value() + newer.double_value());
  if (!quota && r.value_case() == MetricValue::kDistributionValue) {
    Distribution d = older.distribution_value();
    DistributionHelper::Merge(newer.distribution_value(), &d);
    *r.mutable_distribution_value() = d;
  }
  return r;
}
static const char* kNames[] = {"m0", "m1", "m2", ""};

static Operation RandOp() {
  Operation o;
  if (Coin()) o.set_operation_id(Str("id", R(0, 9)));
  o.set_operation_name(Str("op", R(0, 1)));
  o.set_consumer_id(Str("c", R(0, 1)));
  if (Coin()) (*o.mutable_labels())["k"] = Str(R(0, 1));
  if (Coin(70)) RandTime(o.mutable_start_time());
  if (Coin(70)) RandTime(o.mutable_end_time());
  o.set_importance(Coin() ? Operation::LOW : Operation::HIGH);
  int n = R(0, 3);
  for (int i = 0; i < n; i++) {
    MetricValueSet* s = o.add_metric_value_sets();
    s->set_metric_name(kNames[R(0, 3)]);
    for (int k = Coin(10) ? 0 : R(1, 3); k > 0; k--) *s->add_metric_values() = RandValue(false);
  }
  n = Coin(70) ? R(0, 3) : 0;
  if (Coin(4)) n = R(40, 70);
  for (int i = 0; i < n; i++) { auto* e = o.add_log_entries(); e->set_name(Str("n", R(0, 9))); e->set_text_payload(Str("p", R(0, 999))); }
  return o;
}
static void ReportCase() {
  CaseReset();
  std::unordered_map<std::string, MetricDescriptor::MetricKind> kinds;
  for (int i = 0; i < 4; i++)
    if (Coin(60)) { kinds[kNames[i]] = (MetricDescriptor::MetricKind)R(0, 3); Case(Str("kind of '", kNames[i], "' = ", (int)kinds[kNames[i]])); }
  bool given = Coin(85);
  if (!given) { kinds.clear(); Case("no kinds given"); }
  auto delta = [&](const std::string& n) { return !kinds.count(n) || kinds[n] == MetricDescriptor::DELTA; };
  std::map<std::string, std::map<Labels, MetricValue>> ref;
  std::vector<std::string> logs;
  Operation first, all;
  std::unique_ptr<OperationAggregator> agg;
  int steps = R(1, 5);
  for (int k = 0; k < steps; k++) {
    Operation o = RandOp();
    Case("merge " + o.ShortDebugString());
    Operation copy = o;
    for (auto& s : o.metric_value_sets())
      for (auto& v : s.metric_values()) {
        auto& m = ref[s.metric_name()];
        auto it = m.find(L(v));
        if (it == m.end()) m[L(v)] = v; else it->second = Merge(delta(s.metric_name()), v, it->second);
      }
    for (auto& e : o.log_entries()) logs.push_back(e.SerializeAsString());
    Arm();
    if (k == 0) {
      first = o;
      all = o;
      agg.reset(new OperationAggregator(o, given ? &kinds : nullptr));
    } else {
      if (o.has_start_time() && (!all.has_start_time() || Before(o.start_time(), all.start_time()))) *all.mutable_start_time() = o.start_time();
      if (o.has_end_time() && (!all.has_end_time() || Before(all.end_time(), o.end_time()))) *all.mutable_end_time() = o.end_time();
      agg->MergeOperation(o);
    }
    VCHECK(google::protobuf::util::MessageDifferencer::Equals(o, copy), "the merged operation was modified");
    VCHECK(agg->TooBig() == (logs.size() >= 100), "TooBig with " << logs.size() << " log entries");
    if (k + 1 < steps && Coin(60)) continue;
    Operation r = agg->ToOperationProto();
    Case("result " + r.ShortDebugString());
    std::map<std::string, std::map<Labels, MetricValue>> got;
    std::set<std::string> names;
    for (auto& s : r.metric_value_sets()) {
      VCHECK(names.insert(s.metric_name()).second, "two sets for metric '" << s.metric_name() << "'");
      for (auto& v : s.metric_values())
        VCHECK(got[s.metric_name()].emplace(L(v), v).second, "two values for one (metric, labels) pair of '" << s.metric_name() << "'");
    }
    for (auto& n : ref)
      for (auto& v : n.second) {
        VCHECK(got.count(n.first) && got[n.first].count(v.first), "a value of '" << n.first << "' is missing");
        VCHECK(Canon(got[n.first][v.first]) == Canon(v.second), "value of '" << n.first << "' is " << Canon(got[n.first][v.first]) << " should be " << Canon(v.second));
      }
    for (auto& n : got) VCHECK(!n.second.size() || (ref.count(n.first) && n.second.size() == ref[n.first].size()), "a value that never occurred in '" << n.first << "'");
    VCHECK(r.log_entries_size() == (int)logs.size(), r.log_entries_size() << " log entries instead of " << logs.size());
    for (int i = 0; i < r.log_entries_size(); i++) VCHECK(r.log_entries(i).SerializeAsString() == logs[i], "log entry " << i << " differs");
    Operation a = r, b = all;
    for (auto* p : {&a, &b}) { p->clear_metric_value_sets(); p->clear_log_entries(); }
    VCHECK(google::protobuf::util::MessageDifferencer::Equals(a, b), "other fields are " << a.ShortDebugString() << " should be " << b.ShortDebugString());
  }
  Evaluated(CaseHash(), steps > 1);
}
static void QuotaCase() {
  CaseReset();
  std::map<std::string, MetricValue> ref;
  QuotaOperation first;
  std::unique_ptr<QuotaOperationAggregator> agg;
  int steps = R(1, 5);
  for (int k = 0; k < steps; k++) {
    QuotaOperation o;
    if (Coin()) o.set_operation_id(Str("id", R(0, 9)));
    o.set_method_name(Str("m", R(0, 1)));
    o.set_consumer_id(Str("c", R(0, 1)));
    if (Coin()) (*o.mutable_labels())["k"] = Str(R(0, 1));
    o.set_quota_mode((QuotaOperation::QuotaMode)R(0, 2));
    int n = R(0, 4);
    for (int i = 0; i < n; i++) {
      MetricValueSet* s = o.add_quota_metrics();
      s->set_metric_name(kNames[R(0, 3)]);
      *s->add_metric_values() = RandValue(true);
    }
    Case("merge " + o.ShortDebugString());
    QuotaOperation copy = o;
    for (auto& s : o.quota_metrics()) {
      auto it = ref.find(s.metric_name());
      if (it == ref.end()) ref[s.metric_name()] = s.metric_values(0); else it->second = Merge(true, s.metric_values(0), it->second, true);
    }
    Arm();
    if (k == 0) { first = o; agg.reset(new QuotaOperationAggregator(o)); } else agg->MergeOperation(o);
    VCHECK(google::protobuf::util::MessageDifferencer::Equals(o, copy), "the merged operation was modified");
    if (k + 1 < steps && Coin(60)) continue;
    QuotaOperation r = agg->ToOperationProto();
    Case("result " + r.ShortDebugString());
    std::set<std::string> names;
    for (auto& s : r.quota_metrics()) {
      VCHECK(names.insert(s.metric_name()).second, "two entries for metric '" << s.metric_name() << "'");
      VCHECK(s.metric_values_size() == 1, "not exactly one value for '" << s.metric_name() << "'");
      VCHECK(ref.count(s.metric_name()), "a metric that never occurred: '" << s.metric_name() << "'");
      VCHECK(Canon(s.metric_values(0)) == Canon(ref[s.metric_name()]), "amount of '" << s.metric_name() << "' is " << Canon(s.metric_values(0)) << " should be " << Canon(ref[s.metric_name()]));
    }
    VCHECK(names.size() == ref.size(), "a metric is missing");
    QuotaOperation a = r, b = first;
    for (auto* p : {&a, &b}) p->clear_quota_metrics();
    VCHECK(google::protobuf::util::MessageDifferencer::Equals(a, b), "other fields are " << a.ShortDebugString() << " should be " << b.ShortDebugString());
  }
  Evaluated(CaseHash(), steps > 1);
}

int main(int argc, char** argv) {
  vd::Init(argc, argv);
  google::protobuf::LogSilencer quiet;
  Rule() = "random sequences of one to five merges over three metric names, a few label sets, all value types, absent and equal "
           "times, given and missing kinds; non-trivial if at least two operations, distinct by text";
  while (!TimeUp())
    for (int k = 0; k < 32; k++) { if (Prop() == "C11") QuotaCase(); else ReportCase(); }
  Stats();
  return 0;
}
