from mkseed import mk
HEAD = '#include <cstdio>\n#include <string>\n#include <cmath>\n#define CHECK(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)\n'
NS = 'using namespace google::service_control_client; using namespace google::api::servicecontrol::v1;\n'
mk('c01-unit-of-one', 'C01', 'amounts of different sign whose units add to exactly one and whose nanos add to a negative number',
   'TryAddMoney returns one unit and negative nanos, which is not a valid amount',
   [('src/money_utils.cc', 'if (sum_units > 0 && sum_nanos < 0) {', 'if (sum_units > 1 && sum_nanos < 0) {')],
   HEAD + '''#include "src/money_utils.h"
using namespace google::service_control_client; using google::type::Money;
int main() { Money a, b, s; a.set_currency_code("USD"); b.set_currency_code("USD"); a.set_units(3); a.set_nanos(5); b.set_units(-2); b.set_nanos(-7);
 CHECK(TryAddMoney(a, b, &s).ok()); CHECK(ValidateMoney(s).ok()); CHECK(s.units() == 0 && s.nanos() == 999999998); return 0; }
''')
mk('c02-nul-in-currency', 'C02', 'a currency code with an embedded NUL after its third character',
   'the length of the currency code is taken up to the first NUL, so a code of five characters is accepted',
   [('src/money_utils.cc', 'if (money.currency_code().empty() || money.currency_code().length() != 3) {', 'if (std::string(money.currency_code().c_str()).length() != 3) {')],
   HEAD + '''#include "src/money_utils.h"
using namespace google::service_control_client; using google::type::Money;
int main() { Money a; a.set_currency_code(std::string("USD\\0X", 5)); CHECK(!ValidateMoney(a).ok()); a.set_currency_code("USD"); CHECK(ValidateMoney(a).ok()); return 0; }
''')
mk('c09-log-of-important', 'C09', 'a merged operation with several log entries merged after another',
   'log entries of a merged operation are put before those already there once there are more than eight',
   [('src/operation_aggregator.cc', '    *(operation_.add_log_entries()) = entry;\n', '    *(operation_.add_log_entries()) = entry;\n    if (operation_.log_entries_size() > 8) {\n      operation_.mutable_log_entries()->SwapElements(operation_.log_entries_size() - 2, operation_.log_entries_size() - 1);\n    }\n')],
   HEAD + '#include "src/operation_aggregator.h"\n' + NS + '''int main() { Operation a, b; for (int i = 0; i < 6; i++) { a.add_log_entries()->set_name("a" + std::to_string(i)); b.add_log_entries()->set_name("b" + std::to_string(i)); }
 OperationAggregator g(a, nullptr); g.MergeOperation(b); Operation r = g.ToOperationProto(); CHECK(r.log_entries_size() == 12);
 for (int i = 0; i < 12; i++) CHECK(r.log_entries(i).name() == (i < 6 ? a : b).log_entries(i % 6).name()); return 0; }
''')
mk('c09-split-set', 'C09', 'an operation that lists the same metric name in two sets with the same labels',
   'a second set of the same metric in one operation discards the values collected before',
   [('src/operation_aggregator.cc', '    // Intentionally use the side effect of [] to add missing keys.\n', '    if (metric_value_sets_.count(metric_value_set.metric_name()) &&\n        metric_value_sets_[metric_value_set.metric_name()].size() > 3) {\n      metric_value_sets_[metric_value_set.metric_name()].clear();\n    }\n    // Intentionally use the side effect of [] to add missing keys.\n')],
   HEAD + '#include "src/operation_aggregator.h"\n' + NS + '''int main() { Operation a; for (int k = 0; k < 2; k++) { auto* s = a.add_metric_value_sets(); s->set_metric_name("m");
 for (int i = 0; i < 4; i++) { auto* v = s->add_metric_values(); (*v->mutable_labels())["l"] = std::to_string(k * 4 + i); v->set_int64_value(i + 1); } }
 OperationAggregator g(a, nullptr); Operation r = g.ToOperationProto(); CHECK(r.metric_value_sets_size() == 1); CHECK(r.metric_value_sets(0).metric_values_size() == 8); return 0; }
''')
mk('c10-seconds-narrowed', 'C10', 'two values of a gauge metric whose end times are a multiple of 2^32 seconds apart',
   'the seconds of timestamps are compared after narrowing to 32 bits, so an older value replaces a newer one',
   [('src/operation_aggregator.cc', '(a.seconds() == b.seconds() && a.nanos() < b.nanos());', '(static_cast<int32_t>(a.seconds() - b.seconds()) == 0 &&\n          a.nanos() < b.nanos());')],
   HEAD + '#include "src/operation_aggregator.h"\n' + NS + '''int main() { Operation a, b; std::unordered_map<std::string, google::api::MetricDescriptor::MetricKind> k; k["m"] = google::api::MetricDescriptor::GAUGE;
 auto add = [](Operation* o, int64_t s, int n, int64_t val) { auto* x = o->add_metric_value_sets(); x->set_metric_name("m"); auto* v = x->add_metric_values(); v->mutable_end_time()->set_seconds(s); v->mutable_end_time()->set_nanos(n); v->set_int64_value(val); };
 add(&a, 7, 1, 1); add(&b, 7 + (1LL << 32), 0, 2);
 { OperationAggregator g(a, &k); g.MergeOperation(b); CHECK(g.ToOperationProto().metric_value_sets(0).metric_values(0).int64_value() == 2); }
 { OperationAggregator g(b, &k); g.MergeOperation(a); CHECK(g.ToOperationProto().metric_value_sets(0).metric_values(0).int64_value() == 2); }
 return 0; }
''')
mk('c10-end-time-of-mismatch', 'C10', 'a newer delta value with an end time but no start time that ends before the older one starts',
   'the start time of an older value is widened to an earlier end time when the newer value has no start time',
   [('src/operation_aggregator.cc', '''  if (from.has_end_time()) {
    if (!to->has_end_time() ||
        TimestampBefore(to->end_time(), from.end_time())) {
      *(to->mutable_end_time()) = from.end_time();
    }
  }

  switch''', '''  if (from.has_end_time()) {
    if (!from.has_start_time() && to->has_start_time() &&
        TimestampBefore(from.end_time(), to->start_time())) {
      *(to->mutable_start_time()) = from.end_time();
    }
    if (!to->has_end_time() ||
        TimestampBefore(to->end_time(), from.end_time())) {
      *(to->mutable_end_time()) = from.end_time();
    }
  }

  switch''')],
   HEAD + '#include "src/operation_aggregator.h"\n' + NS + '''int main() { Operation a, b; auto add = [](Operation* o) { auto* x = o->add_metric_value_sets(); x->set_metric_name("m"); auto* v = x->add_metric_values(); v->set_int64_value(1); return v; };
 auto* v = add(&a); v->mutable_start_time()->set_seconds(10); v->mutable_end_time()->set_seconds(20); add(&b)->mutable_end_time()->set_seconds(5);
 OperationAggregator g(a, nullptr); g.MergeOperation(b); Operation r = g.ToOperationProto(); CHECK(r.metric_value_sets(0).metric_values(0).start_time().seconds() == 10); return 0; }
''')
mk('c11-self-merge-new', 'C11', 'a metric that first appears in a later merge after four others',
   'a new metric of a later operation starts from zero when its amount is negative',
   [('src/quota_operation_aggregator.cc', '      metric_value_sets_[metric_value_set.metric_name()] =\n          metric_value_set.metric_values(0);\n', '      MetricValue& added = metric_value_sets_[metric_value_set.metric_name()];\n      added = metric_value_set.metric_values(0);\n      if (metric_value_sets_.size() > 2 && added.int64_value() < 0) added.set_int64_value(0);\n')],
   HEAD + '#include "src/quota_operation_aggregator.h"\n' + NS + '''int main() { QuotaOperation a, b; auto add = [](QuotaOperation* o, const char* n, int64_t x) { auto* s = o->add_quota_metrics(); s->set_metric_name(n); s->add_metric_values()->set_int64_value(x); };
 add(&a, "a", 1); add(&a, "b", 2); add(&b, "c", -3); QuotaOperationAggregator g(a); g.MergeOperation(b); QuotaOperation r = g.ToOperationProto();
 for (auto& s : r.quota_metrics()) if (s.metric_name() == "c") CHECK(s.metric_values(0).int64_value() == -3); return 0; }
''')
