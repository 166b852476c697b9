// C25..C28, C30: random histories of the client with scripted transports and timers.
#include "common.h"
#include <atomic>
#include <chrono>
#include <climits>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include "google/protobuf/stubs/logging.h"
#include "include/service_control_client.h"

using namespace vd;
using namespace google::service_control_client;
using namespace google::api::servicecontrol::v1;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;

static std::atomic<int64_t> g_now{1000000000};      // microseconds
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t t = g_now.load(std::memory_order_relaxed);
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
#define VFOR(props, cond, what) \
  do { if (std::string(props).find(Prop()) != std::string::npos) VCHECK(cond, what); } while (0)

enum { kCheck, kQuota, kReport };
static const char* kNames[] = {"check", "quota", "report"};
static const char kService[] = "svc", kConfig[] = "cfg";

struct Call {
  int kind, id, key;
  bool sync = false, sent = false, nullt = false, keep = true;
  int own = 0;
  CheckRequest c; AllocateQuotaRequest q; ReportRequest r;
  std::unique_ptr<google::protobuf::Message> resp;
  int done = 0;
  Status got, transported;
  bool completed = false;
  bool expect_known = false, expect_sent = false;
  std::string wire;
  CheckResponse want_c; AllocateQuotaResponse want_q;
  bool want = false, nested = false;
};

struct Send {
  int kind, token;
  std::shared_ptr<Call> call;            // null: sent by flushing
  const google::protobuf::Message* req;
  google::protobuf::Message* resp;
  std::string wire;
  int key;
  std::function<void(const Status&)> done;
};

struct World {
  std::unique_ptr<ServiceControlClient> client;
  std::deque<std::unique_ptr<Send>> pending;
  std::vector<std::shared_ptr<Call>> calls;
  std::shared_ptr<Call> current;
  std::mutex mu;
  int inline_pct = 30, fail_pct = 30;
  uint64_t total[3] = {0, 0, 0}, inflight[3] = {0, 0, 0}, flushed[3] = {0, 0, 0}, ops = 0;
  std::set<std::string> unreported;      // operations accepted and not sent yet
  bool cached[3];
  // what the check cache holds: key -> response of the last success
  std::map<int, CheckResponse> checks;
  bool checks_known = true, quotas_known = true;
  struct Q { int outstanding = 0; bool known = false; AllocateQuotaResponse resp; int64_t asked = 0; };
  std::map<int, Q> quotas;
  bool alive = true, stopped = false, destroying = false;
  bool thread_complete = false;
  std::vector<std::thread> threads;
  std::function<void()> tick;
  int timers = 0, timer_ms = 0;
  std::vector<std::string> log;
};
static World* w;
static int g_serial = 0;

static Status RandStatus(bool ok) {
  if (ok) return Status();
  return Status(static_cast<StatusCode>(R(1, 16)), Str("failure ", R(0, 9)));
}
static std::string Show(const Status& s) { return s.ok() ? "OK" : Str((int)s.code(), " ", std::string(s.message())); }

static void Complete(std::unique_ptr<Send> s, bool from_thread = false) {
  bool ok = !Coin(w->fail_pct);
  Status st = RandStatus(ok);
  bool owned = s->call ? s->kind != kReport : s->kind == kQuota;
  if (owned) {
    std::string now;
    s->req->SerializeToString(&now);
    VFOR("C28", now == s->wire, "the request copy changed before its completion");
  }
  int n = ++g_serial;
  bool deny = false;
  if (s->kind == kCheck) static_cast<CheckResponse*>(s->resp)->set_operation_id(Str("answer ", n));
  else if (s->kind == kQuota) {
    auto* a = static_cast<AllocateQuotaResponse*>(s->resp);
    a->set_operation_id(Str("answer ", n));
    if ((deny = Coin(25))) a->add_allocate_errors()->set_code(QuotaError::RESOURCE_EXHAUSTED);
  } else static_cast<ReportResponse*>(s->resp)->add_report_errors()->set_operation_id(Str("answer ", n));
  Case(Str("  completion of ", s->call ? Str("call ", s->call->id) : Str("flushed ", kNames[s->kind]), " with ", Show(st), deny ? " denied" : "", w->alive ? "" : " (client gone)"));
  if (s->call) { s->call->transported = st; s->call->completed = true; }
  if (s->kind == kCheck && s->call && ok) w->checks[s->key] = *static_cast<CheckResponse*>(s->resp);
  if (s->kind == kQuota) {
    auto& q = w->quotas[s->key];
    q.outstanding--;
    q.known = true;
    q.resp.Clear();
    if (ok) q.resp = *static_cast<AllocateQuotaResponse*>(s->resp);
  }
  auto call = s->call;
  auto done = std::move(s->done);
  s->done = nullptr;
  int before = call ? call->done : 0;
  done(st);
  done = nullptr;
  if (call && !call->sync) VFOR("C25", call->done == before + 1, "the completion callback of call " << call->id << " ran " << call->done - before << " times at the completion of its request");
}

static void Sent(int kind, int token, const google::protobuf::Message& req, google::protobuf::Message* resp, std::function<void(const Status&)> done, int key) {
  std::unique_ptr<Send> s(new Send);
  s->kind = kind;
  s->token = token;
  s->req = &req;
  s->resp = resp;
  s->key = key;
  s->done = std::move(done);
  req.SerializeToString(&s->wire);
  VFOR("C25 C28", resp != nullptr, "a transport was called without a response");
  VFOR("C25", s->done != nullptr, "a transport was called without a completion");
  VFOR("C30", !w->stopped, "a " << kNames[kind] << " request was sent after the timer had been stopped");
  if (w->current && resp == w->current->resp.get()) s->call = w->current;
  if (s->call) {
    auto c = s->call;
    VFOR("C25", c->kind == kind, "the request of call " << c->id << " was sent through the " << kNames[kind] << " transport");
    VFOR("C25", !c->sent, "the request of call " << c->id << " was sent twice");
    VFOR("C25", s->wire == c->wire, "the request of call " << c->id << " was sent modified");
    VFOR("C25", token == c->own, "the request of call " << c->id << " was sent through the wrong transport");
    c->sent = true;
    w->inflight[kind]++;
    Case(Str("  sent call ", c->id));
  } else {
    VFOR("C25 C30", token == 0, "a flushed request was sent through a transport given for a call");
    w->flushed[kind]++;
    Case(Str("  sent flushed ", kNames[kind]));
  }
  if (kind == kReport) {
    auto& r = static_cast<const ReportRequest&>(req);
    w->ops += r.operations_size();
    for (auto& o : r.operations()) w->unreported.erase(o.operation_name());
  }
  if (kind == kQuota) { w->quotas[key].outstanding++; w->quotas[key].asked = g_now; }
  if (s->call && s->call->sync && w->thread_complete) {
    Send* p = s.release();
    w->threads.emplace_back([p]() {
      std::this_thread::sleep_for(std::chrono::microseconds(p->key * 40));
      Complete(std::unique_ptr<Send>(p), true);
    });
    return;
  }
  if (Coin(w->inline_pct) || (s->call && s->call->sync)) Complete(std::move(s));
  else w->pending.push_back(std::move(s));
}
static int KeyOf(const AllocateQuotaRequest& r) {
  return r.allocate_operation().quota_metrics_size() ? atoi(r.allocate_operation().quota_metrics(0).metric_name().c_str() + 1) : -1;
}
static int KeyOf(const CheckRequest& r) { return atoi(r.operation().operation_name().c_str() + 1); }
static TransportCheckFunc CheckT(int token) {
  return [token](const CheckRequest& r, CheckResponse* p, TransportDoneFunc d) { Sent(kCheck, token, r, p, d, KeyOf(r)); };
}
static TransportQuotaFunc QuotaT(int token) {
  return [token](const AllocateQuotaRequest& r, AllocateQuotaResponse* p, TransportDoneFunc d) { Sent(kQuota, token, r, p, d, KeyOf(r)); };
}
static TransportReportFunc ReportT(int token) {
  return [token](const ReportRequest& r, ReportResponse* p, TransportDoneFunc d) { Sent(kReport, token, r, p, d, 0); };
}

class FakeTimer : public PeriodicTimer {
 public:
  explicit FakeTimer(World* x) : x_(x) {}
  ~FakeTimer() override {}
  void Stop() override {
    Case("timer stopped");
    VFOR("C30", x_->destroying, "the timer was stopped while the client is in use");
    VFOR("C30", !x_->stopped, "the timer was stopped twice");
    VFOR("C30", x_->unreported.empty(), "the timer was stopped before " << x_->unreported.size() << " pending operations were flushed");
    x_->stopped = true;
  }
  World* x_;
};

static void Statistics_() {
  if (!w->alive) return;
  Statistics s, t;
  for (int i = 0; i < 2; i++) {
    Statistics& x = i ? t : s;
    memset(&x, 0x5a, sizeof x);
    VFOR("C27", w->client->GetStatistics(&x).ok(), "GetStatistics failed");
    uint64_t want[] = {w->total[kQuota], w->flushed[kQuota], w->inflight[kQuota], w->total[kCheck], w->flushed[kCheck], w->inflight[kCheck], w->total[kReport], w->flushed[kReport], w->inflight[kReport], w->ops};
    uint64_t got[] = {x.total_called_quotas, x.send_quotas_by_flush, x.send_quotas_in_flight, x.total_called_checks, x.send_checks_by_flush, x.send_checks_in_flight, x.total_called_reports, x.send_reports_by_flush, x.send_reports_in_flight, x.send_report_operations};
    static const char* n[] = {"total_called_quotas", "send_quotas_by_flush", "send_quotas_in_flight", "total_called_checks", "send_checks_by_flush", "send_checks_in_flight", "total_called_reports", "send_reports_by_flush", "send_reports_in_flight", "send_report_operations"};
    for (int k = 0; k < 10; k++) VFOR("C27", got[k] == want[k], n[k] << " is " << got[k] << ", counted are " << want[k]);
  }
}

static std::shared_ptr<Call> NewCall(int kind) {
  auto c = std::make_shared<Call>();
  c->kind = kind;
  c->id = ++g_serial;
  c->key = R(1, 4);
  if (kind == kCheck) {
    c->c.set_service_name(Coin(95) ? kService : "other");
    auto* o = c->c.mutable_operation();
    o->set_operation_id(Str("id", c->id));
    o->set_operation_name(Str("k", c->key));
    o->set_consumer_id("project:x");
    if (Coin(10)) o->set_importance(Operation::HIGH);
    c->resp.reset(new CheckResponse);
    c->c.SerializeToString(&c->wire);
  } else if (kind == kQuota) {
    c->q.set_service_name(Coin(95) ? kService : "other");
    auto* o = c->q.mutable_allocate_operation();
    o->set_operation_id(Str("id", c->id));
    o->set_method_name("m");
    o->set_quota_mode(QuotaOperation::BEST_EFFORT);
    auto* m = o->add_quota_metrics();
    m->set_metric_name(Str("k", c->key));
    m->add_metric_values()->set_int64_value(R(1, 5));
    c->resp.reset(new AllocateQuotaResponse);
    c->q.SerializeToString(&c->wire);
  } else {
    c->r.set_service_name(Coin(95) ? kService : "other");
    int n = R(0, 3);
    for (int i = 0; i < n; i++) {
      auto* o = c->r.add_operations();
      o->set_operation_id(Str("id", c->id));
      o->set_operation_name(Str("op", R(1, 4)));
      o->set_consumer_id("project:x");
      if (Coin(10)) o->set_importance(Operation::HIGH);
    }
    c->resp.reset(new ReportResponse);
    c->r.SerializeToString(&c->wire);
  }
  return c;
}

static void Start(std::shared_ptr<Call> c) {
  c->sync = !c->nested && Coin(15);
  bool own = !c->sync && Coin(40);
  c->nullt = own && Coin(15);
  c->own = own ? 1 : 0;
  w->calls.push_back(c);
  w->total[c->kind]++;
  w->thread_complete = c->sync && Coin();
  auto on_done = [c](const Status& s) {
    c->done++;
    c->got = s;
    // the callback repeats the check
    if (c->kind == kCheck && c->sent && s.ok() && w->alive && !w->destroying && w->cached[kCheck] && !c->nested && c->c.operation().importance() != Operation::HIGH && Coin(20)) {
      auto n = NewCall(kCheck);
      n->key = c->key;
      n->c = c->c;
      n->c.SerializeToString(&n->wire);
      n->nested = true;
      auto cur = w->current;
      Case("  its callback repeats it:");
      Start(n);
      w->current = cur;
    }
  };
  if (c->kind == kCheck && w->cached[kCheck] && (w->checks_known || c->nested) && !c->nullt && c->c.service_name() == kService && c->c.operation().importance() != Operation::HIGH) {
    auto it = w->checks.find(c->key);
    c->expect_known = true;
    c->expect_sent = it == w->checks.end();
    if (!c->expect_sent) { c->want = true; c->want_c = it->second; }
  }
  if (c->kind == kQuota && w->cached[kQuota] && !c->nullt && c->q.service_name() == kService) {
    c->expect_known = true;
    c->expect_sent = false;
    auto it = w->quotas.find(c->key);
    if (w->quotas_known && it != w->quotas.end() && it->second.known && it->second.outstanding == 0) { c->want = true; c->want_q = it->second.resp; }
  }
  if (!w->cached[c->kind] && !c->nullt) {
    std::string svc = c->kind == kCheck ? c->c.service_name() : c->kind == kQuota ? c->q.service_name() : c->r.service_name();
    if (svc == kService) c->expect_known = c->expect_sent = true;
  }
  bool foreign = (c->kind == kCheck ? c->c.service_name() : c->kind == kQuota ? c->q.service_name() : c->r.service_name()) != kService;
  Case(Str(c->sync ? "sync " : "", kNames[c->kind], " call ", c->id, " key ", c->key, foreign ? " for another service" : "", c->nullt ? " no transport" : own ? " own transport" : ""));
  w->current = c;
  uint64_t flushed = w->flushed[kQuota];
  int was_outstanding = c->kind == kQuota && w->quotas.count(c->key) ? w->quotas[c->key].outstanding : 0;
  // a request lives only for the duration of the call
  std::unique_ptr<CheckRequest> cr(new CheckRequest(c->c));
  std::unique_ptr<AllocateQuotaRequest> qr(new AllocateQuotaRequest(c->q));
  std::unique_ptr<ReportRequest> rr(new ReportRequest(c->r));
  auto& cl = *w->client;
  if (c->sync) {
    Status s;
    if (c->kind == kCheck) s = cl.Check(*cr, (CheckResponse*)c->resp.get());
    else if (c->kind == kQuota) s = cl.Quota(*qr, (AllocateQuotaResponse*)c->resp.get());
    else s = cl.Report(*rr, (ReportResponse*)c->resp.get());
    for (auto& t : w->threads) t.join();
    w->threads.clear();
    c->got = s;
    c->done++;
    VFOR("C25", !c->sent || c->completed, "a synchronous call returned before its request completed");
  } else if (!own) {
    if (c->kind == kCheck) cl.Check(*cr, (CheckResponse*)c->resp.get(), on_done);
    else if (c->kind == kQuota) cl.Quota(*qr, (AllocateQuotaResponse*)c->resp.get(), on_done);
    else cl.Report(*rr, (ReportResponse*)c->resp.get(), on_done);
  } else {
    if (c->kind == kCheck) cl.Check(*cr, (CheckResponse*)c->resp.get(), on_done, c->nullt ? nullptr : CheckT(1));
    else if (c->kind == kQuota) cl.Quota(*qr, (AllocateQuotaResponse*)c->resp.get(), on_done, c->nullt ? nullptr : QuotaT(1));
    else cl.Report(*rr, (ReportResponse*)c->resp.get(), on_done, c->nullt ? nullptr : ReportT(1));
  }
  cr.reset(); qr.reset(); rr.reset();
  w->current = nullptr;
  (void)flushed;
  VFOR("C25", !c->nullt || !c->sent, "a call without transport was sent");
  VFOR("C25", !c->nullt || c->done == 1, "a call without transport completed " << c->done << " times");
  VFOR("C25", !c->nullt || c->got.code() == StatusCode::kInvalidArgument, "a call without transport completed with " << Show(c->got));
  if (foreign && !c->nullt) {
    VFOR("C25", !c->sent, "call " << c->id << " for another service was sent");
    VFOR("C25", c->got.code() == StatusCode::kInvalidArgument, "call " << c->id << " for another service completed with " << Show(c->got));
  }
  if (c->expect_known) {
    VFOR(c->kind == kReport ? "C25" : "C25 C26", c->sent == c->expect_sent, "the " << kNames[c->kind] << " of call " << c->id << (c->sent ? " was sent although the cache holds an answer" : " was not sent although the cache holds no answer"));
  }
  if (c->sent && !c->completed) VFOR("C25", c->done == 0, "call " << c->id << " completed before its request did");
  if (!c->sent && !c->nullt) {
    VFOR("C25", c->done == 1, "call " << c->id << " was answered locally and completed " << c->done << " times");
    VFOR("C25", c->got.code() != StatusCode::kNotFound, "call " << c->id << " was not handled by the cache and not sent");
  }
  if (c->want && !c->sent) {
    if (c->kind == kCheck) VFOR("C26", static_cast<CheckResponse*>(c->resp.get())->SerializeAsString() == c->want_c.SerializeAsString(), "call " << c->id << " was answered with " << c->resp->ShortDebugString() << ", the last response received for its key is " << c->want_c.ShortDebugString());
    else VFOR("C26", static_cast<AllocateQuotaResponse*>(c->resp.get())->SerializeAsString() == c->want_q.SerializeAsString(), "call " << c->id << " was answered with " << c->resp->ShortDebugString() << ", the cache should hold " << c->want_q.ShortDebugString());
  }
  if (c->kind == kQuota && c->expect_known && !c->expect_sent && was_outstanding) c->want = false;
  if (c->kind == kReport && !c->sent && !c->nullt && c->got.ok()) for (auto& o : c->r.operations()) w->unreported.insert(o.operation_name());
}

static void CheckDone() {
  for (auto& c : w->calls) {
    if (c->sent && !c->completed) continue;
    VFOR("C25", c->done == 1, "call " << c->id << " completed " << c->done << " times");
    if (c->sent) VFOR("C25", c->got == c->transported, "call " << c->id << " completed with " << Show(c->got) << ", its transport with " << Show(c->transported));
  }
}

static void Run() {
  CaseReset();
  World world;
  w = &world;
  g_now += 100000000;
  w->inline_pct = Pick(std::vector<int>{0, 30, 100});
  w->fail_pct = Pick(std::vector<int>{0, 30, 100});
  for (auto& c : w->cached) c = Coin(75);
  static const std::vector<int> ms = {1, 100, 500, 1000, 30000, 60000};
  int cf = Pick(ms), ce = Pick(ms), qr = Pick(ms), rf = Pick(ms);
  if (Coin(10)) qr = 0;
  if (Coin(10)) rf = 0;
  ServiceControlClientOptions o(CheckAggregationOptions(w->cached[kCheck] ? 100 : 0, cf, ce), QuotaAggregationOptions(w->cached[kQuota] ? 100 : 0, qr, 100000000), ReportAggregationOptions(w->cached[kReport] ? 100 : 0, rf));
  int expiration = std::max(cf + 1, ce);
  o.check_transport = CheckT(0);
  o.quota_transport = QuotaT(0);
  o.report_transport = ReportT(0);
  bool timer = Coin(80);
  if (timer) o.periodic_timer = [](int interval, std::function<void()> f) {
    w->timers++;
    w->timer_ms = interval;
    w->tick = f;
    return std::unique_ptr<PeriodicTimer>(new FakeTimer(w));
  };
  Case(Str("check cache ", w->cached[kCheck] ? Str(cf, "/", ce) : "off", ", quota cache ", w->cached[kQuota] ? Str(qr) : "off", ", report cache ", w->cached[kReport] ? Str(rf) : "off", timer ? ", timer" : ""));
  w->client = CreateServiceControlClient(kService, kConfig, o);
  int want = INT_MAX;
  if (w->cached[kCheck] && expiration > 0) want = std::min(want, expiration);
  if (w->cached[kQuota] && qr > 0) want = std::min(want, qr);
  if (w->cached[kReport] && rf > 0) want = std::min(want, rf);
  if (!timer) VFOR("C30", w->timers == 0, "a timer was made without a timer function");
  else if (want != INT_MAX) {
    VFOR("C30", w->timers == 1, w->timers << " timers were made");
    VFOR("C30", w->timer_ms == want, "the timer was made with an interval of " << w->timer_ms << "ms, the smallest asked for is " << want << "ms");
  }
  // an entry that expires or is refreshed at once is not predicted
  w->checks_known = true;
  // refreshed at every call
  w->quotas_known = qr > 0;
  int n = R(2, 25);
  bool nontrivial = false;
  for (int i = 0; i < n; i++) {
    int what = R(0, 19);
    if (what < 11) {
      auto c = NewCall(R(0, 2));
      Start(c);
      nontrivial |= c->sent;
    } else if (what < 16) {
      if (!w->pending.empty()) {
        int k = R(0, w->pending.size() - 1);
        auto s = std::move(w->pending[k]);
        w->pending.erase(w->pending.begin() + k);
        Complete(std::move(s));
      }
    } else if (what < 18) {
      Statistics_();
    } else if (w->tick && what == 18) {
      // a tick after everything is due
      int64_t d = Coin() ? 0 : 70000000;
      g_now += d;
      if (d) { w->checks.clear(); w->checks_known = false; }
      Case(Str("clock +", d, ", tick"));
      w->tick();
      if (d) {
        VFOR("C30", !w->cached[kReport] || w->unreported.empty(), "a tick after the flush interval left " << w->unreported.size() << " operations pending");
        w->checks.clear();
        w->checks_known = w->pending.empty();
      }
    } else if (what == 19) {
      // quota fails open: once every request was answered and the refresh interval is over the next call sends one
      int64_t d = 70000000;
      g_now += d;
      w->checks.clear();
      w->checks_known = false;
      Case(Str("clock +", d));
      auto c = NewCall(kQuota);
      auto it = w->quotas.find(c->key);
      bool due = w->quotas_known && w->cached[kQuota] && it != w->quotas.end() && it->second.known && it->second.outstanding == 0 && c->q.service_name() == kService;
      uint64_t f = w->flushed[kQuota], in = w->inflight[kQuota];
      int key = c->key;
      int out = it == w->quotas.end() ? 0 : it->second.outstanding;
      (void)key; (void)out;
      Start(c);
      if (due && !c->nullt) VFOR("C26", w->flushed[kQuota] + w->inflight[kQuota] > f + in, "the quota key " << c->key << " waits for an answer although every request for it was answered");
      w->checks_known = false;
    }
    CheckDone();
    if (Coin(30)) Statistics_();
  }
  // shutdown
  bool late = Coin(70);
  if (!late) while (!w->pending.empty()) { auto s = std::move(w->pending.front()); w->pending.pop_front(); Complete(std::move(s)); }
  Statistics_();
  Case("destroy");
  w->destroying = true;
  w->client.reset();
  w->alive = false;
  VFOR("C30", w->timers == 0 || w->stopped, "the client went away without stopping its timer");
  VFOR("C30", w->unreported.empty(), "destroying the client left " << w->unreported.size() << " operations unsent");
  w->stopped = false;
  bool ticks = w->tick && Coin(30);
  if (ticks) { Case("a tick that was running"); uint64_t a = w->flushed[0] + w->flushed[1] + w->flushed[2]; w->tick(); VFOR("C28 C30", a == w->flushed[0] + w->flushed[1] + w->flushed[2], "a disconnected cache flushed into the client's transports"); }
  while (!w->pending.empty()) {
    nontrivial = true;
    int k = R(0, w->pending.size() - 1);
    auto s = std::move(w->pending[k]);
    w->pending.erase(w->pending.begin() + k);
    Complete(std::move(s));
  }
  w->tick = nullptr;
  CheckDone();
  for (auto& c : w->calls) VFOR("C25", c->done == 1, "call " << c->id << " completed " << c->done << " times");
  Evaluated(CaseHash(), nontrivial);
  w = nullptr;
}

// Calls from several threads at once: every count must be there afterwards.
static void RunThreads() {
  CaseReset();
  g_now += 100000000;
  bool cached = Coin(30);
  int nt = R(2, 4), n = R(500, 1500);
  std::atomic<uint64_t> sent[3], ops, calls[3];
  for (auto& s : sent) s = 0;
  for (auto& s : calls) s = 0;
  ops = 0;
  ServiceControlClientOptions o(CheckAggregationOptions(cached ? 100 : 0, 1000, 1000), QuotaAggregationOptions(cached ? 100 : 0, 1000, 100000000), ReportAggregationOptions(cached ? 100 : 0, 1000));
  o.check_transport = [&](const CheckRequest&, CheckResponse*, TransportDoneFunc d) { sent[kCheck]++; d(Status()); };
  o.quota_transport = [&](const AllocateQuotaRequest&, AllocateQuotaResponse*, TransportDoneFunc d) { sent[kQuota]++; d(Status()); };
  o.report_transport = [&](const ReportRequest& r, ReportResponse*, TransportDoneFunc d) { sent[kReport]++; ops += r.operations_size(); d(Status()); };
  Case(Str(nt, " threads make ", n, " calls each", cached ? ", caches on" : ", caches off"));
  auto client = CreateServiceControlClient(kService, kConfig, o);
  uint64_t seed = R(1, 1 << 30);
  auto body = [&](int id) {
    std::mt19937_64 g(seed + id);
    CheckRequest c;
    AllocateQuotaRequest q;
    ReportRequest r;
    c.set_service_name(kService);
    c.mutable_operation()->set_consumer_id("project:x");
    q.set_service_name(kService);
    q.mutable_allocate_operation()->set_method_name("m");
    auto* m = q.mutable_allocate_operation()->add_quota_metrics();
    m->set_metric_name("k");
    m->add_metric_values()->set_int64_value(1);
    r.set_service_name(kService);
    for (int i = 0; i < 3; i++) r.add_operations()->set_operation_name(Str("op", i));
    CheckResponse cp;
    AllocateQuotaResponse qp;
    ReportResponse rp;
    auto done = [](const Status&) {};
    for (int i = 0; i < n; i++) {
      int k = g() % 3;
      calls[k]++;
      if (k == kCheck) c.mutable_operation()->set_operation_name(Str("op", g() % 5)), client->Check(c, &cp, done);
      else if (k == kQuota) client->Quota(q, &qp, done);
      else client->Report(r, &rp, done);
    }
  };
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; i++) ts.emplace_back(body, i);
  for (auto& t : ts) t.join();
  Statistics st;
  Status s = client->GetStatistics(&st);
  VFOR("C27", s.ok(), "GetStatistics returned " << Show(s));
  uint64_t called[3] = {st.total_called_checks, st.total_called_quotas, st.total_called_reports};
  uint64_t sends[3] = {st.send_checks_in_flight + st.send_checks_by_flush, st.send_quotas_in_flight + st.send_quotas_by_flush, st.send_reports_in_flight + st.send_reports_by_flush};
  for (int k = 0; k < 3; k++) {
    VFOR("C27", called[k] == calls[k], "the statistics report " << called[k] << " " << kNames[k] << " calls, " << calls[k] << " were made by " << nt << " threads");
    VFOR("C27", sends[k] == sent[k], "the statistics report " << sends[k] << " " << kNames[k] << " requests sent, the transport received " << sent[k] << " from " << nt << " threads");
  }
  VFOR("C27", st.send_report_operations == ops, "the statistics report " << st.send_report_operations << " report operations sent, the transport received " << ops);
  client.reset();
  Evaluated(CaseHash(), true);
}

int main(int argc, char** argv) {
  google::protobuf::LogSilencer silent;
  Init(argc, argv);
  Rule() = "a request was sent, or a completion arrived after the client was destroyed";
  while (!TimeUp()) {
    Arm(20);
    if (std::string(argv[1]) == "C27" && Coin(1)) RunThreads();
    else Run();
  }
  Stats();
  return 0;
}
