from mkseed import mk
HEAD = '#include <cstdio>\n#include <string>\n#include <cmath>\n#define CHECK(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)\n'
mk('c01-nanos-boundary', 'C01', 'two negative amounts whose nanos add to exactly minus one billion',
mk('c01-nanos-boundary', 'C01', 'two negative amounts whose nanos add to exactly minus one billion',
   'TryAddMoney leaves nanos at -1000000000, an invalid amount, and loses the carry',
   'TryAddMoney leaves nanos at -1000000000, an invalid amount, and loses the carry',
   [('src/money_utils.cc', 'sum_nanos <= -kBillion', 'sum_nanos < -kBillion')],
   [('src/money_utils.cc', 'sum_nanos <= -kBillion', 'sum_nanos < -kBillion')],
   HEAD + '''#include "src/money_utils.h"
   HEAD + '''#include "src/money_utils.h"
using namespace google::service_control_client; using google::type::Money;
using namespace google::service_control_client; using google::type::Money;
int main() { Money a, b, s; a.set_currency_code("USD"); b.set_currency_code("USD"); a.set_units(-3); a.set_nanos(-400000000); b.set_units(-4); b.set_nanos(-600000000);
int main() { Money a, b, s; a.set_currency_code("USD"); b.set_currency_code("USD"); a.set_units(-3); a.set_nanos(-400000000); b.set_units(-4); b.set_nanos(-600000000);
 CHECK(TryAddMoney(a, b, &s).ok()); CHECK(ValidateMoney(s).ok()); CHECK(s.units() == -8 && s.nanos() == 0); return 0; }
 CHECK(TryAddMoney(a, b, &s).ok()); CHECK(ValidateMoney(s).ok()); CHECK(s.units() == -8 && s.nanos() == 0); return 0; }
''')
''')
mk('c03-count-narrowed', 'C03', 'a distribution that already holds more than 2^31 samples',
mk('c03-count-narrowed', 'C03', 'a distribution that already holds more than 2^31 samples',
   'the old count is narrowed to int, so count and mean are wrong after the next sample',
   'the old count is narrowed to int, so count and mean are wrong after the next sample',
   [('utils/distribution_helper.cc', '    int64_t count = distribution->count();\n    double mean = distribution->mean();', '    int count = distribution->count();\n    double mean = distribution->mean();')],
   [('utils/distribution_helper.cc', '    int64_t count = distribution->count();\n    double mean = distribution->mean();', '    int count = distribution->count();\n    double mean = distribution->mean();')],
   HEAD + '''#include "utils/distribution_helper.h"
   HEAD + '''#include "utils/distribution_helper.h"
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
int main() { Distribution d; CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &d).ok());
int main() { Distribution d; CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &d).ok());
 d.set_count(5000000000LL); d.set_mean(1.5); d.set_minimum(0); d.set_maximum(3); d.set_bucket_counts(1, 5000000000LL);
 d.set_count(5000000000LL); d.set_mean(1.5); d.set_minimum(0); d.set_maximum(3); d.set_bucket_counts(1, 5000000000LL);
 CHECK(DistributionHelper::AddSample(1.5, &d).ok()); CHECK(d.count() == 5000000001LL); CHECK(std::fabs(d.mean() - 1.5) < 1e-9); return 0; }
 CHECK(DistributionHelper::AddSample(1.5, &d).ok()); CHECK(d.count() == 5000000001LL); CHECK(std::fabs(d.mean() - 1.5) < 1e-9); return 0; }
''')
''')
mk('c05-empty-target-first', 'C05', 'merging into an empty target whose number of bucket counts differs from the source',
mk('c05-empty-target-first', 'C05', 'merging into an empty target whose number of bucket counts differs from the source',
   'the empty-target shortcut is taken before the bucket count sizes are compared: the target is overwritten and OK returned',
   'the empty-target shortcut is taken before the bucket count sizes are compared: the target is overwritten and OK returned',
   [('utils/distribution_helper.cc', '  // TODO(chengliang): Make merging more tolerant here.\n', '  if (to->count() <= 0 && from.count() > 0) {\n    *to = from;\n    return OkStatus();\n  }\n\n  // TODO(chengliang): Make merging more tolerant here.\n')],
   [('utils/distribution_helper.cc', '  // TODO(chengliang): Make merging more tolerant here.\n', '  if (to->count() <= 0 && from.count() > 0) {\n    *to = from;\n    return OkStatus();\n  }\n\n  // TODO(chengliang): Make merging more tolerant here.\n')],
   HEAD + '''#include "utils/distribution_helper.h"
   HEAD + '''#include "utils/distribution_helper.h"
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
int main() { Distribution a, b; CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &a).ok()); CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &b).ok());
int main() { Distribution a, b; CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &a).ok()); CHECK(DistributionHelper::InitLinear(3, 1.0, 0.0, &b).ok());
 CHECK(DistributionHelper::AddSample(1.5, &a).ok()); a.mutable_bucket_counts()->Add(0); Distribution c = b;
 CHECK(DistributionHelper::AddSample(1.5, &a).ok()); a.mutable_bucket_counts()->Add(0); Distribution c = b;
 CHECK(!DistributionHelper::Merge(a, &b).ok()); CHECK(b.SerializeAsString() == c.SerializeAsString()); return 0; }
 CHECK(!DistributionHelper::Merge(a, &b).ok()); CHECK(b.SerializeAsString() == c.SerializeAsString()); return 0; }
''')
''')
mk('c05-explicit-last-bound', 'C05', 'explicit buckets that agree on all bounds but the last',
mk('c05-explicit-last-bound', 'C05', 'explicit buckets that agree on all bounds but the last',
   'distributions with different explicit bounds are merged instead of rejected',
   'distributions with different explicit bounds are merged instead of rejected',
   [('utils/distribution_helper.cc', 'for (int i = 0; i < first_explicit.bounds_size(); ++i) {', 'for (int i = 0; i + 1 < first_explicit.bounds_size() || i == 0; ++i) {\n        if (i >= first_explicit.bounds_size()) break;')],
   [('utils/distribution_helper.cc', 'for (int i = 0; i < first_explicit.bounds_size(); ++i) {', 'for (int i = 0; i + 1 < first_explicit.bounds_size() || i == 0; ++i) {\n        if (i >= first_explicit.bounds_size()) break;')],
   HEAD + '''#include "utils/distribution_helper.h"
   HEAD + '''#include "utils/distribution_helper.h"
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
using namespace google::service_control_client; using google::api::servicecontrol::v1::Distribution;
int main() { Distribution a, b; CHECK(DistributionHelper::InitExplicit({0, 1, 2}, &a).ok()); CHECK(DistributionHelper::InitExplicit({0, 1, 5}, &b).ok());
int main() { Distribution a, b; CHECK(DistributionHelper::InitExplicit({0, 1, 2}, &a).ok()); CHECK(DistributionHelper::InitExplicit({0, 1, 5}, &b).ok());
 CHECK(DistributionHelper::AddSample(1.5, &a).ok()); CHECK(DistributionHelper::AddSample(3, &b).ok()); Distribution c = b;
 CHECK(DistributionHelper::AddSample(1.5, &a).ok()); CHECK(DistributionHelper::AddSample(3, &b).ok()); Distribution c = b;
 CHECK(!DistributionHelper::Merge(a, &b).ok()); CHECK(b.SerializeAsString() == c.SerializeAsString()); return 0; }
 CHECK(!DistributionHelper::Merge(a, &b).ok()); CHECK(b.SerializeAsString() == c.SerializeAsString()); return 0; }
''')
''')
mk('c07-value-in-key', 'C07', 'a metric value that carries a string value',
mk('c07-value-in-key', 'C07', 'a metric value that carries a string value',
   'the measured value becomes part of the metric value key',
   'the measured value becomes part of the metric value key',
   [('src/signature.cc', '  UpdateHashLabels(metric_value.labels(), hasher);\n}', '  UpdateHashLabels(metric_value.labels(), hasher);\n  if (metric_value.value_case() == MetricValue::kStringValue) {\n    hasher->Update(metric_value.string_value());\n  }\n}')],
   [('src/signature.cc', '  UpdateHashLabels(metric_value.labels(), hasher);\n}', '  UpdateHashLabels(metric_value.labels(), hasher);\n  if (metric_value.value_case() == MetricValue::kStringValue) {\n    hasher->Update(metric_value.string_value());\n  }\n}')],
   HEAD + '''#include "src/signature.h"
   HEAD + '''#include "src/signature.h"
using namespace google::service_control_client; using google::api::servicecontrol::v1::MetricValue;
using namespace google::service_control_client; using google::api::servicecontrol::v1::MetricValue;
int main() { MetricValue a; (*a.mutable_labels())["k"] = "v"; MetricValue b = a; a.set_string_value("x"); b.set_string_value("y");
int main() { MetricValue a; (*a.mutable_labels())["k"] = "v"; MetricValue b = a; a.set_string_value("x"); b.set_string_value("y");
 CHECK(GenerateReportMetricValueSignature(a) == GenerateReportMetricValueSignature(b)); return 0; }
 CHECK(GenerateReportMetricValueSignature(a) == GenerateReportMetricValueSignature(b)); return 0; }
''')
''')
mk('c08-empty-label-dropped', 'C08', 'operations that differ only in a label with an empty value',
mk('c08-empty-label-dropped', 'C08', 'operations that differ only in a label with an empty value',
   'labels with empty values are left out of the key, so different operations share a cache entry',
   'labels with empty values are left out of the key, so different operations share a cache entry',
   [('src/signature.cc', '  for (const auto& label : ordered_labels) {\n', '  for (const auto& label : ordered_labels) {\n    if (label.second.empty()) continue;\n')],
   [('src/signature.cc', '  for (const auto& label : ordered_labels) {\n', '  for (const auto& label : ordered_labels) {\n    if (label.second.empty()) continue;\n')],
   HEAD + '''#include "src/signature.h"
   HEAD + '''#include "src/signature.h"
using namespace google::service_control_client; using google::api::servicecontrol::v1::Operation;
using namespace google::service_control_client; using google::api::servicecontrol::v1::Operation;
int main() { Operation a, b; a.set_consumer_id("c"); b.set_consumer_id("c"); (*a.mutable_labels())["k"] = "";
int main() { Operation a, b; a.set_consumer_id("c"); b.set_consumer_id("c"); (*a.mutable_labels())["k"] = "";
 CHECK(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(b)); return 0; }
 CHECK(GenerateReportOperationSignature(a) != GenerateReportOperationSignature(b)); return 0; }
''')
''')
mk('c31-strlen', 'C31', 'a string with an embedded NUL',
mk('c31-strlen', 'C31', 'a string with an embedded NUL',
   'the string form of Update stops at the first NUL',
   'the string form of Update stops at the first NUL',
   [('utils/md5.h', 'return Update(str.data(), str.size());', 'return Update(str.c_str());')],
   [('utils/md5.h', 'return Update(str.data(), str.size());', 'return Update(str.c_str());')],
   HEAD + '''#include "utils/md5.h"
   HEAD + '''#include "utils/md5.h"
using namespace google::service_control_client;
using namespace google::service_control_client;
int main() { google::service_control_client::MD5 a, b; std::string s("ab\\0cd", 5); a.Update(s); b.Update(s.data(), s.size()); CHECK(a.Digest() == b.Digest()); return 0; }
int main() { google::service_control_client::MD5 a, b; std::string s("ab\\0cd", 5); a.Update(s); b.Update(s.data(), s.size()); CHECK(a.Digest() == b.Digest()); return 0; }
''')
''')
