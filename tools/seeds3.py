from mkseed import mk
HEAD = '#include <cstdio>\n#include <string>\n#include <vector>\n#include <memory>\n#include <functional>\n#include <stdint.h>\n#include <sys/time.h>\n#define CHECK(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)\n#include "src/aggregator_interface.h"\n'
HEAD += 'using namespace google::service_control_client; using namespace google::api::servicecontrol::v1; using google::protobuf::util::StatusCode;\n'
CLK = 'static int64_t now_us = 1000000000; extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }\n'
OP = '''static Operation Op(const std::string& n, int logs = 0) { Operation o; o.set_operation_name(n); o.set_operation_id("id-" + n); for (int i = 0; i < logs; i++) o.add_log_entries()->set_name("l"); return o; }
static AllocateQuotaRequest Q(const std::string& m, int n) { AllocateQuotaRequest r; r.set_service_name("svc"); auto* o = r.mutable_allocate_operation(); o->set_method_name(m); o->set_quota_mode(QuotaOperation::BEST_EFFORT); auto* s = o->add_quota_metrics(); s->set_metric_name("t"); s->add_metric_values()->set_int64_value(n); return r; }
static int T(const AllocateQuotaRequest& r) { return r.allocate_operation().quota_metrics(0).metric_values(0).int64_value(); }
'''
H = HEAD + CLK + OP
mk('c12-high-after-low', 'C12', 'a report whose high importance operation follows low importance ones',
   'the operations before the important one are absorbed although the report is handed back to be sent, so they are reported twice',
   [('src/report_aggregator_impl.cc', '  if (HasHighImportantOperation(request) || !cache_) {', '  if (!cache_ || (request.operations_size() > 0 &&\n                  request.operations(0).importance() != Operation::LOW)) {'),
    ('src/report_aggregator_impl.cc', '  for (const auto& operation : request.operations()) {\n    string signature', '  for (const auto& operation : request.operations()) {\n    if (HasHighImportantOperation(request) &&\n        operation.importance() != Operation::LOW) {\n      return Status(StatusCode::kNotFound, "");\n    }\n    string signature')],
   H + '''int main() { int n = 0; auto a = CreateReportAggregator("svc", "c", ReportAggregationOptions(100, 1000), nullptr); a->SetFlushCallback([&](const ReportRequest& r) { n += r.operations_size(); });
 ReportRequest r; r.set_service_name("svc"); *r.add_operations() = Op("a"); *r.add_operations() = Op("b"); r.mutable_operations(1)->set_importance(Operation::HIGH);
 CHECK(a->Report(r).code() == StatusCode::kNotFound); a->FlushAll(); CHECK(n == 0); return 0; }
''')
mk('c13-flush-during-merge', 'C13', 'more than ten aggregated operations leaving the cache at once',
   'when the last buffered request is full the next operation replaces it if the buffer already holds two requests',
   [('src/cache_removed_items_handler.h', '''        items_.push_back(item);
''', '''        if (items_.size() < items_.capacity() || items_.size() < 4) {
          items_.push_back(item);
        } else {
          items_.back() = item;
        }
''')],
   H + '''int main() { int n = 0; auto a = CreateReportAggregator("svc", "c", ReportAggregationOptions(1000, 1000), nullptr); a->SetFlushCallback([&](const ReportRequest& r) { n += r.operations_size(); });
 ReportRequest r; r.set_service_name("svc"); for (int i = 0; i < 200; i++) *r.add_operations() = Op("o" + std::to_string(i));
 CHECK(a->Report(r).ok()); a->FlushAll(); CHECK(n == 200); return 0; }
''')
mk('c14-big-only-last', 'C14', 'a report with several operations of which one that is not the last reaches one hundred log entries by merging',
   'only the operation merged last is flushed for its size, others keep growing',
   [('src/report_aggregator_impl.cc', '''    bool too_big = false;
    {
      ReportCache::ScopedLookup''', '''    bool too_big = false;
    const bool last =
        &operation == &request.operations(request.operations_size() - 1);
    {
      ReportCache::ScopedLookup'''),
    ('src/report_aggregator_impl.cc', '    if (too_big) {\n', '    if (too_big && last) {\n')],
   H + '''int main() { int n = 0, big = 0; auto a = CreateReportAggregator("svc", "c", ReportAggregationOptions(1000, 1000), nullptr); a->SetFlushCallback([&](const ReportRequest& r) { n += r.operations_size(); for (auto& o : r.operations()) if (o.log_entries_size() > big) big = o.log_entries_size(); });
 ReportRequest r; r.set_service_name("svc"); *r.add_operations() = Op("a", 60); *r.add_operations() = Op("b", 1);
 CHECK(a->Report(r).ok()); CHECK(n == 0); CHECK(a->Report(r).ok()); CHECK(n == 1 && big == 120); return 0; }
''')
mk('c15-whole-seconds', 'C15', 'a response expiration that is not a whole number of seconds, and an entry whose age lies above it but below the next second',
   'the expiration time is rounded up to whole seconds, so an expired response still answers checks',
   [('src/check_aggregator_impl.cc', 'cache_->SetMaxIdleSeconds(options.expiration_ms / 1000.0);', 'cache_->SetMaxIdleSeconds(options.expiration_ms < 1000\n                                  ? options.expiration_ms / 1000.0\n                                  : (options.expiration_ms + 999) / 1000);')],
   H + '''int main() { auto a = CreateCheckAggregator("svc", "c", CheckAggregationOptions(10, 5000, 5500), nullptr);
 CheckRequest r; r.set_service_name("svc"); *r.mutable_operation() = Op("x"); CheckResponse e, o; e.add_check_errors()->set_detail("d"); a->CacheResponse(r, e);
 now_us += 4000000; CHECK(a->Check(r, &o).ok()); now_us += 5600000; CHECK(a->Check(r, &o).code() == StatusCode::kNotFound); CHECK(a->Check(r, &o).code() == StatusCode::kNotFound); return 0; }
''')
mk('c16-clock-of-failing', 'C16', 'a failing response cached for a key that already has an entry due for refresh',
   'caching a failing response over an existing entry does not restart the refresh interval',
   [('src/check_aggregator_impl.cc', '      lookup.value()->set_last_check_time(now);\n', '      if (response.check_errors_size() == 0 ||\n          !lookup.value()->HasPendingCheckRequest()) {\n        lookup.value()->set_last_check_time(now);\n      }\n')],
   H + '''int main() { auto a = CreateCheckAggregator("svc", "c", CheckAggregationOptions(10, 500, 10000), nullptr);
 CheckRequest r; r.set_service_name("svc"); *r.mutable_operation() = Op("x"); CheckResponse e, ok, o; e.add_check_errors()->set_detail("d"); a->CacheResponse(r, ok);
 CHECK(a->Check(r, &o).ok()); now_us += 600000; a->CacheResponse(r, e); CHECK(a->Check(r, &o).ok()); CHECK(o.check_errors_size() == 1); return 0; }
''')
mk('c17-pending-of-failing', 'C17', 'checks aggregated into an entry whose cached response is failing when it leaves the cache',
   'checks counted against an earlier passing response are dropped when a failing response was cached since',
   [('src/check_aggregator_impl.cc', '  if (!elem->HasPendingCheckRequest()) {\n', '  if (!elem->HasPendingCheckRequest() ||\n      elem->check_response().check_errors_size() > 0) {\n')],
   H + '''int main() { int n = 0; auto a = CreateCheckAggregator("svc", "c", CheckAggregationOptions(10, 500, 10000), nullptr); a->SetFlushCallback([&](const CheckRequest&) { n++; });
 CheckRequest r; r.set_service_name("svc"); *r.mutable_operation() = Op("x"); CheckResponse e, ok, o; e.add_check_errors()->set_detail("d"); a->CacheResponse(r, ok);
 CHECK(a->Check(r, &o).ok()); a->CacheResponse(r, e); a->FlushAll(); CHECK(n == 1); return 0; }
''')
mk('c18-refresh-clears-errors', 'C18', 'a cached negative quota response that is due for refresh',
   'the errors of the cached response are cleared when the refresh is sent, so the request is answered positively',
   [('src/quota_aggregator_impl.cc', '              QuotaOperation_QuotaMode::QuotaOperation_QuotaMode_NORMAL);\n', '              QuotaOperation_QuotaMode::QuotaOperation_QuotaMode_NORMAL);\n      if (lookup.value()->quota_response().allocate_errors_size() > 1) {\n        lookup.value()->ClearAllocationErrors();\n      }\n')],
   H + '''int main() { auto a = CreateAllocateQuotaAggregator("svc", "c", QuotaAggregationOptions(10, 500, 100000)); a->SetFlushCallback([&](const AllocateQuotaRequest&) {});
 AllocateQuotaResponse e, o; e.add_allocate_errors(); e.add_allocate_errors(); CHECK(a->Quota(Q("m", 1), &o).ok()); a->CacheResponse(Q("m", 1), e);
 CHECK(a->Quota(Q("m", 1), &o).ok() && o.allocate_errors_size() == 2); now_us += 600000; CHECK(a->Quota(Q("m", 1), &o).ok()); CHECK(o.allocate_errors_size() == 2); return 0; }
''')
mk('c19-aging-not-in-flight', 'C19', 'tokens sent because the entry reached the refresh age, and the key used again before the response arrives',
   'the request sent by aging is not recorded as outstanding, so the next due use sends another one',
   [('src/quota_aggregator_impl.cc', '      elem->set_in_flight(true);\n      elem->set_last_refresh_time(SimpleCycleTimer::Now());\n      AddRemovedItem', '      elem->set_last_refresh_time(SimpleCycleTimer::Now());\n      AddRemovedItem')],
   H + '''int main() { std::vector<int> s; auto a = CreateAllocateQuotaAggregator("svc", "c", QuotaAggregationOptions(10, 500, 100000)); a->SetFlushCallback([&](const AllocateQuotaRequest& r) { s.push_back(T(r)); });
 AllocateQuotaResponse p, o; a->Quota(Q("m", 1), &o); a->CacheResponse(Q("m", 1), p); a->Quota(Q("m", 5), &o); CHECK(s.size() == 1);
 now_us += 600000; a->Flush(); CHECK(s.size() == 2 && s[1] == 5); a->Quota(Q("m", 7), &o); now_us += 600000; a->Quota(Q("m", 9), &o); CHECK(s.size() == 2); return 0; }
''')
mk('c19-mode-of-pending', 'C19', 'a cached negative response whose refresh carries nothing aggregated and whose original mode was not best effort',
   'normal mode is forced only when the request to send is best effort, other modes are sent unchanged',
   [('src/quota_aggregator_impl.cc', '    if(!lookup.value()->is_positive_response()) {\n', '    if(!lookup.value()->is_positive_response() &&\n       refresh_request.allocate_operation().quota_mode() ==\n           QuotaOperation_QuotaMode::QuotaOperation_QuotaMode_BEST_EFFORT) {\n')],
   H + '''int main() { std::vector<int> s; auto a = CreateAllocateQuotaAggregator("svc", "c", QuotaAggregationOptions(10, 500, 100000)); a->SetFlushCallback([&](const AllocateQuotaRequest& r) { s.push_back(r.allocate_operation().quota_mode()); });
 AllocateQuotaResponse e, o; e.add_allocate_errors(); AllocateQuotaRequest q = Q("m", 1); q.mutable_allocate_operation()->set_quota_mode(QuotaOperation::CHECK_ONLY); a->Quota(q, &o); a->CacheResponse(q, e);
 now_us += 600000; a->Quota(q, &o); CHECK(s.size() == 2); CHECK(s[1] == QuotaOperation::NORMAL); return 0; }
''')
mk('c29-buffer-under-lock', 'C29', 'a flush callback that calls back into the quota aggregator, and an entry with pending tokens that reaches its refresh age when a response is cached',
   'the buffer of removed entries is flushed before the cache lock is released, so a callback that calls back deadlocks',
   [('src/quota_aggregator_impl.cc', '''  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
''', '''  string request_signature = GenerateAllocateQuotaRequestSignature(request);

  MutexLock lock(cache_mutex_);
  AllocateQuotaCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
''')],
   H + '''#include <unistd.h>
int main() { alarm(10); int n = 0; auto a = CreateAllocateQuotaAggregator("svc", "c", QuotaAggregationOptions(10, 500, 100000));
 a->SetFlushCallback([&](const AllocateQuotaRequest&) { n++; a->Flush(); }); AllocateQuotaResponse p, o; a->Quota(Q("m", 1), &o); a->CacheResponse(Q("m", 1), p); a->Quota(Q("m", 5), &o);
 now_us += 600000; a->CacheResponse(Q("z", 1), p); CHECK(n == 2); return 0; }
''')
mk('c29-answer-after-unlock', 'C29', 'one thread reading a cached quota answer while another stores a new response for the same key',
   'the cached response is copied to the caller after the cache lock has been released',
   [('src/quota_aggregator_impl.cc', '''    lookup.value()->Aggregate(request);
  }

  *response = lookup.value()->quota_response();
''', '''    lookup.value()->Aggregate(request);
  }

  const AllocateQuotaResponse& cached = lookup.value()->quota_response();
  lock.unlock();
  *response = cached;
  lock.lock();
''')],
   H + '''#include <thread>
#include <atomic>
int main() { auto a = CreateAllocateQuotaAggregator("svc", "c", QuotaAggregationOptions(10, 100000, 1000000)); AllocateQuotaResponse o; a->Quota(Q("m", 1), &o);
 AllocateQuotaResponse x, y; x.set_operation_id(std::string(3000, 'x')); y.set_operation_id(std::string(3000, 'y')); a->CacheResponse(Q("m", 1), x);
 std::atomic<bool> stop(false), bad(false); std::thread w([&] { for (int i = 0; !stop; i++) a->CacheResponse(Q("m", 1), i & 1 ? x : y); });
 std::vector<std::thread> rd; for (int t = 0; t < 4; t++) rd.emplace_back([&] { AllocateQuotaResponse r; for (int i = 0; i < 60000 && !bad; i++) { a->Quota(Q("m", 0), &r); const std::string& s = r.operation_id(); if (s.size() != 3000 || s.find_first_not_of(s[0]) != s.npos) bad = true; } });
 for (auto& t : rd) t.join(); stop = true; w.join(); CHECK(!bad); return 0; }
''')
