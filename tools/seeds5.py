from mkseed import mk
F = 'src/service_control_client_impl.cc'
HEAD = '''#include <malloc.h>
#include <sys/time.h>
#include <atomic>
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "google/protobuf/stubs/logging.h"
#include "include/service_control_client.h"
#define CHECK_(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)
using namespace google::service_control_client;
using namespace google::api::servicecontrol::v1;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
static CheckRequest MakeCheck(const std::string& op) {
  CheckRequest r; r.set_service_name("s"); r.mutable_operation()->set_operation_name(op); r.mutable_operation()->set_consumer_id("project:c"); return r; }
static AllocateQuotaRequest MakeQuota(const std::string& name, const std::string& service = "s") {
  AllocateQuotaRequest r; r.set_service_name(service); auto* o = r.mutable_allocate_operation(); o->set_method_name("m"); o->set_consumer_id("project:c"); o->set_quota_mode(QuotaOperation::BEST_EFFORT);
  auto* m = o->add_quota_metrics(); m->set_metric_name(name); m->add_metric_values()->set_int64_value(1); return r; }
static ReportRequest MakeReport(const std::string& op, int n) {
  ReportRequest r; r.set_service_name("s"); for (int i = 0; i < n; i++) { auto* o = r.add_operations(); o->set_operation_name(op); o->set_consumer_id("project:c"); } return r; }
struct Timer : PeriodicTimer { std::function<void()> on_stop; ~Timer() override {} void Stop() override { if (on_stop) on_stop(); } };
static std::vector<TransportDoneFunc> held;
static int checks, quotas, reports, report_ops;
static ServiceControlClientOptions Options(int entries, int cf = 1000, int ce = 2000, int qf = 1000, int rf = 1000) {
  ServiceControlClientOptions o(CheckAggregationOptions(entries, cf, ce), QuotaAggregationOptions(entries, qf, 100000), ReportAggregationOptions(entries, rf));
  o.check_transport = [](const CheckRequest&, CheckResponse*, TransportDoneFunc d) { checks++; held.push_back(d); };
  o.quota_transport = [](const AllocateQuotaRequest&, AllocateQuotaResponse*, TransportDoneFunc d) { quotas++; held.push_back(d); };
  o.report_transport = [](const ReportRequest& r, ReportResponse*, TransportDoneFunc d) { reports++; report_ops += r.operations_size(); held.push_back(d); };
  return o; }
static void Complete(Status s) { auto h = held; held.clear(); for (auto& d : h) d(s); }
'''
mk('c26-failed-check-errors-cached', 'C26', 'a check whose transport fails after filling in check errors',
   'a response that came with a failure is cached when it carries check errors, and answers later checks',
   [(F, '''                      if (status.ok()) {
                        (void)check_aggregator_copy->CacheResponse(''', '''                      if (status.ok() ||
                          check_response->check_errors_size() > 0) {
                        (void)check_aggregator_copy->CacheResponse(''')],
   HEAD + '''int main() { google::protobuf::LogSilencer quiet; auto o = Options(10); o.check_transport = [&](const CheckRequest&, CheckResponse* p, TransportDoneFunc d) { checks++; p->add_check_errors()->set_code(CheckError::NOT_FOUND); d(Status(StatusCode::kUnavailable, "x")); };
  auto c = CreateServiceControlClient("s", "1", o); CheckResponse a, b; auto done = [&](const Status&) {}; c->Check(MakeCheck("op"), &a, done); c->Check(MakeCheck("op"), &b, done); CHECK_(checks == 2); return 0; }
''')
mk('c27-operations-counted-by-load-store', 'C27', 'two threads sending reports at the same time',
   'report operations are added by a load and a store, so operations sent by two threads at once are lost from the statistics',
   [(F, '''    ++send_reports_in_flight_;
    send_report_operations_ += report_request.operations_size();
''', '''    ++send_reports_in_flight_;
    send_report_operations_ =
        send_report_operations_ + report_request.operations_size();
''')],
   HEAD + '''int main() { std::atomic<int> ops(0); auto o = Options(0); o.report_transport = [&](const ReportRequest& r, ReportResponse*, TransportDoneFunc d) { ops += r.operations_size(); d(Status()); };
  auto c = CreateServiceControlClient("s", "1", o); std::vector<std::thread> t;
  for (int i = 0; i < 4; i++) t.emplace_back([&] { auto r = MakeReport("op", 3); ReportResponse p; for (int k = 0; k < 30000; k++) c->Report(r, &p, [](const Status&) {}); });
  for (auto& x : t) x.join(); Statistics s; c->GetStatistics(&s); CHECK_(s.send_report_operations == ops.load()); return 0; }
''')
mk('c25-empty-report-not-sent', 'C25', 'a report without operations on a client without report cache',
   'a report without operations completes without being sent although no cache handled it',
   [(F, '''  Status status = report_aggregator_->Report(report_request);
  if (status.code() == StatusCode::kNotFound) {''', '''  Status status = report_aggregator_->Report(report_request);
  if (report_request.operations_size() == 0 &&
      status.code() == StatusCode::kNotFound) {
    // Nothing to report.
    status = OkStatus();
  }
  if (status.code() == StatusCode::kNotFound) {''')],
   HEAD + '''int main() { auto o = Options(0); auto c = CreateServiceControlClient("s", "1", o); ReportResponse r; Status st; int n = 0; c->Report(MakeReport("m", 0), &r, [&](const Status& s) { n++; st = s; }); CHECK_(reports == 1); CHECK_(n == 0); Complete(Status(StatusCode::kInternal, "x")); CHECK_(n == 1); CHECK_(st.code() == StatusCode::kInternal); return 0; }
''')
mk('c25-report-completes-twice-on-failure', 'C25', 'a report that is sent and fails with the aborted status',
   'a report whose transport reports that the request was aborted is sent a second time, and completes only with the second status',
   [(F, '''    report_transport(report_request, report_response, on_report_done);
''', '''    report_transport(report_request, report_response,
                     [on_report_done](const Status& status) {
                       // The server asks for this operation to be retried.
                       if (status.code() == StatusCode::kAborted) {
                         on_report_done(Status(StatusCode::kUnavailable,
                                               status.message()));
                         return;
                       }
                       on_report_done(status);
                     });
''')],
   HEAD + '''int main() { auto o = Options(0); auto c = CreateServiceControlClient("s", "1", o); ReportResponse r; Status st; int n = 0; auto q = MakeReport("m", 1); c->Report(q, &r, [&](const Status& s) { n++; st = s; }); Complete(Status(StatusCode::kAborted, "x")); CHECK_(n == 1); CHECK_(st.code() == StatusCode::kAborted); return 0; }
''')
mk('c28-failed-quota-uses-client', 'C28', 'a quota request sent by the call itself, failing after the client was destroyed',
   'the completion of a failed quota request goes through the client, which may be gone',
   [(F, '''                        (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);

                        GOOGLE_LOG(ERROR) << "Failed in Quota call: "''', '''                        (void)quota_aggregator_->CacheResponse(
                            *quota_request_copy, dummy_response);

                        GOOGLE_LOG(ERROR) << "Failed in Quota call: "''')],
   HEAD + '''#include <signal.h>
#include <string.h>
#include <unistd.h>
void operator delete(void* p) noexcept { if (p) { memset(p, 0xa5, malloc_usable_size(p)); free(p); } } void operator delete(void* p, size_t) noexcept { operator delete(p); }
static void segv(int) { _exit(1); }
int main() { signal(SIGSEGV, segv); signal(SIGBUS, segv); auto o = Options(0); auto c = CreateServiceControlClient("s", "1", o); AllocateQuotaResponse r; int n = 0; auto q = MakeQuota("m"); c->Quota(q, &r, [&](const Status& s) { n++; }); CHECK_(quotas == 1); c.reset(); Complete(Status(StatusCode::kUnavailable, "x")); CHECK_(n == 1); return 0; }
''')
mk('c28-failed-check-leaks-copy', 'C28', 'a check whose transport fails',
   'the copy of a check request is freed only if the transport succeeds',
   [(F, '''                        (void)check_aggregator_copy->CacheResponse(
                            *check_request_copy, *check_response);
                      } else {
                        GOOGLE_LOG(ERROR) << "Failed in Check call: "
                                          << status.message();
                      }
                      delete check_request_copy;
''', '''                        (void)check_aggregator_copy->CacheResponse(
                            *check_request_copy, *check_response);
                        delete check_request_copy;
                      } else {
                        GOOGLE_LOG(ERROR) << "Failed in Check call: "
                                          << status.message();
                      }
''')],
   HEAD + '''static long live; void* operator new(size_t n) { live++; return malloc(n); } void operator delete(void* p) noexcept { if (p) live--; free(p); } void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
int main() { auto o = Options(0); auto c = CreateServiceControlClient("s", "1", o); CheckResponse r; int n = 0; auto q = MakeCheck("op"); auto once = [&]() { c->Check(q, &r, [&](const Status& s) { n++; }); Complete(Status(StatusCode::kUnavailable, "x")); };
  google::protobuf::LogSilencer quiet; once(); once(); long before = live; for (int i = 0; i < 50; i++) once(); CHECK_(n == 52); CHECK_(live == before); return 0; }
'''.replace('#include', '#include'))
mk('c30-smallest-interval-quota-forgotten', 'C30', 'a quota interval below the report interval, which is below the check interval',
   'the timer is made with the report interval when it is smaller than the check interval, however small the quota interval is',
   [(F, '''  return std::min(check_interval, std::min(quota_interval, report_interval));''', '''  if (report_interval < check_interval) {
    return report_interval;
  }
  return std::min(check_interval, quota_interval);''')],
   HEAD + '''int main() { int ms = 0; auto o = Options(10, 4000, 5000, 1000, 3000); o.periodic_timer = [&](int i, std::function<void()>) { ms = i; return std::unique_ptr<PeriodicTimer>(new Timer); }; auto c = CreateServiceControlClient("s", "1", o); CHECK_(ms == 1000); return 0; }
''')
mk('c30-stop-before-flush', 'C30', 'observing the order of the last flush and Stop on the timer',
   'the timer is stopped before the last flush when the client is destroyed',
   [(F, '''  // Flush out all cached data
  (void)FlushAll();
  if (flush_timer_) {
    flush_timer_->Stop();
  }
''', '''  if (flush_timer_) {
    flush_timer_->Stop();
  }
  // Flush out all cached data
  (void)FlushAll();
''')],
   HEAD + '''int main() { int at = -1; auto o = Options(10); o.periodic_timer = [&](int i, std::function<void()>) { auto* t = new Timer; t->on_stop = [&] { at = reports; }; return std::unique_ptr<PeriodicTimer>(t); }; auto c = CreateServiceControlClient("s", "1", o); ReportResponse r; c->Report(MakeReport("m", 1), &r, [](const Status&) {}); CHECK_(reports == 0); c.reset(); CHECK_(at == 1); CHECK_(reports == 1); return 0; }
''')
