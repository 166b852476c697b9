// C12..C20, C29: random histories of the three aggregators against reference
// models, on a simulated clock.
#include "common.h"
#include <atomic>
#include <thread>
#include "google/protobuf/util/message_differencer.h"
#include "src/aggregator_interface.h"

using namespace vd;
using namespace google::service_control_client;
using namespace google::api::servicecontrol::v1;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;

static std::atomic<int64_t> g_now{1000000000};      // microseconds
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t t = g_now.load(std::memory_order_relaxed);
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
#ifdef VERIF_TSAN
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void*) { FailRaw("ThreadSanitizer: memory or locks used without the protocol (report on stderr)"); }
#endif

static const char kService[] = "svc", kConfig[] = "cfg-7";
static bool Is(const char* p) { return Prop() == p; }
// a check that judges only the properties named
#define VFOR(props, cond, what) \
  do { if (std::string(props).find(Prop()) != std::string::npos) VCHECK(cond, what); } while (0)

static std::string CodeName(const Status& s) { return s.ok() ? "OK" : std::string(s.code() == StatusCode::kNotFound ? "NOT_FOUND" : s.code() == StatusCode::kInvalidArgument ? "INVALID" : "OTHER"); }

// steps that land on, before and after the intervals configured
static std::vector<int64_t> g_marks;
static void Marks(std::initializer_list<int> ms) {
  g_marks.clear();
  for (int64_t m : ms) for (int64_t d : {-1, 0, 1, 700, 400000}) g_marks.push_back(m * 1000 + d > 0 ? m * 1000 + d : 0);
}
static void Advance() {
  if (Coin() && !g_marks.empty()) {
    int64_t d = Pick(g_marks);
    g_now += d;
    Case(Str("clock +", d, "us"));
    return;
  }
  static const int64_t steps[] = {0, 1, 999, 1000, 50000, 100000, 100001, 250000, 499999, 500000, 500001, 1000000, 1000001, 3000000, 10000000};
  int64_t d = steps[R(0, 14)];
  g_now += d;
  Case(Str("clock +", d, "us"));
}

// ------------------------------------------------------------------ operations
struct OpId {
  int name, consumer, labels;
  bool operator<(const OpId& o) const { return std::tie(name, consumer, labels) < std::tie(o.name, o.consumer, o.labels); }
  bool operator==(const OpId& o) const { return std::tie(name, consumer, labels) == std::tie(o.name, o.consumer, o.labels); }
};
static OpId RandId(int spread) { return OpId{(int)R(0, spread), (int)R(0, spread / 2), (int)R(0, 1)}; }
static void Fill(const OpId& id, Operation* op) {
  op->set_operation_name(Str("op", id.name));
  op->set_consumer_id(Str("consumer", id.consumer));
  if (id.labels) (*op->mutable_labels())["l"] = "1";
}
static OpId IdOf(const Operation& op) {
  OpId id;
  id.name = atoi(op.operation_name().c_str() + 2);
  id.consumer = atoi(op.consumer_id().c_str() + 8);
  id.labels = op.labels().size();
  return id;
}
struct Content {
  std::string operation_id;             // of the first operation
  int64_t sum = 0;
  bool has_sum = false;
  std::vector<std::string> logs;
  bool operator<(const Content& o) const { return std::tie(operation_id, sum, has_sum, logs) < std::tie(o.operation_id, o.sum, o.has_sum, o.logs); }
  bool operator==(const Content& o) const { return std::tie(operation_id, sum, has_sum, logs) == std::tie(o.operation_id, o.sum, o.has_sum, o.logs); }
  void Add(const Content& o) {
    sum += o.sum;
    has_sum |= o.has_sum;
    logs.insert(logs.end(), o.logs.begin(), o.logs.end());
  }
};
static int g_serial = 0;
static Operation RandOp(const OpId& id, int maxlogs, bool metric = false) {
  Operation op;
  Fill(id, &op);
  op.set_operation_id(Str("id", ++g_serial));
  if (metric || Coin(80)) {  // metric names are part of a check's key
    MetricValueSet* s = op.add_metric_value_sets();
    s->set_metric_name("m");
    s->add_metric_values()->set_int64_value(R(1, 1000));
  }
  for (int n = R(0, maxlogs); n > 0; n--) op.add_log_entries()->set_name(Str("log", ++g_serial));
  return op;
}
static Content ContentOf(const Operation& op) {
  Content c;
  c.operation_id = op.operation_id();
  for (auto& s : op.metric_value_sets())
    for (auto& v : s.metric_values()) { c.sum += v.int64_value(); c.has_sum = true; }
  for (auto& l : op.log_entries()) c.logs.push_back(l.name());
  return c;
}
static std::string Show(const OpId& id, const Content& c) {
  return Str("op", id.name, "/consumer", id.consumer, "/", id.labels, " first=", c.operation_id, " sum=", c.sum, " logs=", c.logs.size());
}
typedef std::multimap<OpId, Content> Ops;
static std::string Show(const Ops& o) {
  std::string s;
  for (auto& e : o) s += "[" + Show(e.first, e.second) + "] ";
  return s;
}
static bool Same(const Ops& a, const Ops& b) {
  std::multiset<std::pair<OpId, Content>> x(a.begin(), a.end()), y(b.begin(), b.end());
  return !(x < y) && !(y < x);
}

// ------------------------------------------------------------------ reports
struct ReportWorld {
  std::unique_ptr<ReportAggregator> agg;
  std::vector<ReportRequest> got;        // passed to the callback
  int depth = 0;
  bool reenter = false;
  int generation = 0, installed = 0;     // which callback is installed
  void Install() {
    int me = ++installed;
    agg->SetFlushCallback([this, me](const ReportRequest& r) { OnFlush(me, r); });
  }
  void OnFlush(int me, const ReportRequest& r) {
    VFOR("C13", me == installed, "a flushed request went to callback " << me << ", installed is " << installed);
    got.push_back(r);
    if (reenter && depth == 0) {
      depth++;
      Case("  (the callback calls back)");
      switch (R(0, 2)) {
        case 0: agg->GetNextFlushInterval(); agg->Flush(); break;
        case 1: Install(); break;
        case 2: { ReportRequest x; x.set_service_name("other"); agg->Report(x); agg->Flush(); break; }
      }
      depth--;
    }
  }
};

static void RunReport() {
  CaseReset();
  ReportWorld w;
  bool small = Coin(30), enabled = Coin(92);
  int cap = !enabled ? (Coin() ? 0 : -1) : small ? R(1, 3) : 10000;
  int interval = Pick<int>({100, 500, 1000});
  Marks({interval});
  w.reenter = Is("C29") ? Coin(60) : Coin(15);
  Case(Str("report aggregator: entries=", cap, " interval=", interval, "ms", w.reenter ? " reentrant callback" : ""));
  w.agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(cap, interval), std::make_shared<MetricKindMap>());
  bool cb = Coin(90);
  if (cb) w.Install(); else Case("no callback");
  struct E { Content c; int64_t born; };
  std::map<OpId, E> model;               // resident, exact when !small
  Ops submitted, flushed;                // small: conservation
  int n = R(1, 14);
  int heavy = Coin(25) ? 60 : 3;
  uint64_t nontrivial = 0;
  for (int step = 0; step <= n; step++) {
    w.got.clear();
    Ops expect;
    auto expire = [&] {
      for (auto it = model.begin(); it != model.end();)
        if (it->second.born < g_now - (int64_t)interval * 1000) { expect.insert({it->first, it->second.c}); it = model.erase(it); } else ++it;
    };
    int what = step == n ? 9 : R(0, 8);
    if (what <= 5) {
      ReportRequest r;
      r.set_service_name(Coin(95) ? kService : "other");
      int ops = Coin(15) ? R(8, 30) : R(0, 4);
      bool high = false;
      for (int i = 0; i < ops; i++) {
        Operation op = RandOp(RandId(small ? 8 : ops > 4 ? 20 : 3), heavy);
        if (Coin(2)) { op.set_importance(Operation::HIGH); high = true; }
        if (Coin(1)) { op.set_importance((Operation::Importance)2); high = true; }
        *r.add_operations() = op;
      }
      std::string text;
      for (auto& op : r.operations()) text += " " + Show(IdOf(op), ContentOf(op));
      Case(Str("Report service=", r.service_name(), high ? " (high)" : "", ":", text));
      ReportRequest before = r;
      Status s = w.agg->Report(r);
      VFOR("C12", google::protobuf::util::MessageDifferencer::Equals(before, r), "the request was modified");
      const char* want = r.service_name() != kService ? "INVALID" : high || !enabled ? "NOT_FOUND" : "OK";
      VFOR("C12", CodeName(s) == want, "Report returned " << CodeName(s) << ", expected " << want);
      if (CodeName(s) != want) return;
      if (std::string(want) == "OK" && ops) {
        nontrivial++;
        if (!small) expire();
        for (auto& op : r.operations()) {
          OpId id = IdOf(op);
          Content c = ContentOf(op);
          if (small) { submitted.insert({id, c}); continue; }
          auto it = model.find(id);
          if (it == model.end()) { model[id] = E{c, g_now}; continue; }
          it->second.c.Add(c);
          if (it->second.c.logs.size() >= 100) { expect.insert({id, it->second.c}); model.erase(it); }
        }
      } else if (std::string(want) != "OK") {
        VFOR("C12", w.got.empty(), "a report that is not absorbed caused a flush");
      }
    } else if (what == 6) {
      Advance();
      continue;
    } else if (what == 7) {
      Case("Flush");
      w.agg->Flush();
      expire();
    } else if (what == 8) {
      if (!cb) continue;
      Case("SetFlushCallback(another)");
      w.Install();
      continue;
    } else {
      Case("FlushAll");
      w.agg->FlushAll();
      for (auto& e : model) expect.insert({e.first, e.second.c});
      model.clear();
    }
    Ops got;
    for (auto& r : w.got) {
      VFOR("C13", r.service_name() == kService && r.service_config_id() == kConfig, "flushed request names service '" << r.service_name() << "' config '" << r.service_config_id() << "'");
      VFOR("C14", r.operations_size() <= 10, "a flushed request has " << r.operations_size() << " operations");
      VFOR("C13 C14", r.operations_size() >= 1, "a flushed request is empty");
      for (auto& op : r.operations()) got.insert({IdOf(op), ContentOf(op)});
    }
    if (!cb) { VFOR("C13", w.got.empty(), "flushed without a callback"); continue; }
    if (!small) {
      VFOR("C13 C14", Same(got, expect), "flushed " << Show(got) << "; expected " << Show(expect));
    } else {
      flushed.insert(got.begin(), got.end());
    }
  }
  if (small && cb && enabled) {
    // conservation per identity
    std::map<OpId, int64_t> a, b;
    std::map<std::string, int> la, lb;
    for (auto& e : submitted) { a[e.first] += e.second.sum; for (auto& l : e.second.logs) la[l]++; }
    for (auto& e : flushed) { b[e.first] += e.second.sum; for (auto& l : e.second.logs) lb[l]++; }
    VFOR("C13", a == b, "the amounts flushed are not those absorbed: absorbed " << Show(submitted) << "; flushed " << Show(flushed));
    VFOR("C13", la == lb, "the log entries flushed are not those absorbed");
  }
  Evaluated(CaseHash(), nontrivial > 1);
}

// ------------------------------------------------------------------ checks
static CheckResponse RandCheckResponse() {
  CheckResponse r;
  r.set_operation_id(Str("resp", ++g_serial));
  if (Coin(35)) for (int i = R(1, 2); i > 0; i--) r.add_check_errors()->set_detail("no");
  return r;
}
static CheckRequest RandCheck(int spread) {
  CheckRequest r;
  r.set_service_name(Coin(96) ? kService : "other");
  if (Coin(96)) {
    *r.mutable_operation() = RandOp(RandId(spread), 2, true);
    if (Coin(5)) r.mutable_operation()->set_importance(Operation::HIGH);
  }
  return r;
}

static void RunCheck() {
  CaseReset();
  bool small = Coin(25), enabled = Coin(94);
  int cap = !enabled ? 0 : small ? R(1, 3) : 10000;
  int flush = small ? 1000000 : Pick<int>({0, 100, 500});
  int exp = small ? 2000000 : Pick<int>({200, 500, 1000, 1300, 2700, 3000});
  CheckAggregationOptions opt(cap, flush, exp);
  exp = opt.expiration_ms;
  Marks({flush, exp, exp - flush});
  if (small) g_marks.clear();
  std::unique_ptr<CheckAggregator> agg = CreateCheckAggregator(kService, kConfig, opt, std::make_shared<MetricKindMap>());
  std::vector<CheckRequest> got;
  int depth = 0, installed = 0;
  bool reenter = Is("C29") ? Coin(60) : Coin(15), cb = Coin(92);
  Case(Str("check aggregator: entries=", cap, " flush=", flush, "ms expiration=", exp, "ms", reenter ? " reentrant callback" : "", cb ? "" : " no callback"));
  std::function<void()> install = [&] {
    int me = ++installed;
    agg->SetFlushCallback([&, me](const CheckRequest& r) {
      VFOR("C17", me == installed, "a flushed check went to a callback that is not installed");
      got.push_back(r);
      if (reenter && depth == 0) {
        depth++;
        Case("  (the callback calls back)");
        switch (R(0, 2)) {
          case 0: agg->GetNextFlushInterval(); agg->Flush(); break;
          case 1: install(); break;
          case 2: { CheckRequest x; CheckResponse y; x.set_service_name("other"); agg->Check(x, &y); agg->Flush(); break; }
        }
        depth--;
      }
    });
  };
  if (cb) install();
  struct E { CheckResponse resp; int64_t last, used; bool has = false; Content c; };
  std::map<OpId, E> model;
  Ops submitted, flushed;
  int n = R(2, 18);
  uint64_t nontrivial = 0;
  int spread = small ? 6 : 2;
  for (int step = 0; step <= n; step++) {
    got.clear();
    Ops expect;
    auto expire = [&] {
      for (auto it = model.begin(); it != model.end();)
        if (it->second.used < g_now - (int64_t)exp * 1000) {
          if (it->second.has) expect.insert({it->first, it->second.c});
          it = model.erase(it);
        } else ++it;
    };
    int what = step == n ? 9 : R(0, 8);
    if (what <= 3) {
      CheckRequest r = RandCheck(spread);
      CheckResponse resp, untouched;
      untouched.set_operation_id("untouched");
      resp = untouched;
      OpId id = IdOf(r.operation());
      Case(Str("Check service=", r.service_name(), r.has_operation() ? "" : " (no operation)", r.operation().importance() ? " (high)" : "", " ", Show(id, ContentOf(r.operation()))));
      Status s = agg->Check(r, &resp);
      std::string code = CodeName(s);
      if (r.service_name() != kService || !r.has_operation()) {
        VFOR("C15", code == "INVALID", "Check returned " << code << ", expected INVALID");
        VFOR("C15", got.empty(), "a rejected check caused a flush");
      } else if (r.operation().importance() != Operation::LOW || !enabled) {
        VFOR("C15", code == "NOT_FOUND", "Check returned " << code << ", expected NOT_FOUND");
      } else if (small) {
        VFOR("C15", code == "OK" || code == "NOT_FOUND", "Check returned " << code);
        if (code == "OK" && resp.check_errors_size() == 0) submitted.insert({id, ContentOf(r.operation())});
        if (code == "OK") nontrivial++;
      } else {
        expire();
        auto it = model.find(id);
        if (it == model.end()) {
          VFOR("C15", code == "NOT_FOUND", "Check returned " << code << " for a key that is not cached");
          if (code != "NOT_FOUND") return;
        } else {
          E& e = it->second;
          bool due = g_now - e.last >= (int64_t)flush * 1000;
          nontrivial++;
          VFOR("C15 C16", code == (due ? "NOT_FOUND" : "OK"), "Check returned " << code << " for an entry " << (due ? "due" : "not due") << " for refresh, age " << g_now - e.last << "us");
          if (code != (due ? "NOT_FOUND" : "OK")) return;
          if (!due) VFOR("C15", google::protobuf::util::MessageDifferencer::Equals(resp, e.resp), "the answer " << resp.ShortDebugString() << " is not the cached response " << e.resp.ShortDebugString());
          if (due) e.last = g_now;
          e.used = g_now;
          if (e.resp.check_errors_size() == 0) {
            Content c = ContentOf(r.operation());
            if (e.has) e.c.Add(c); else e.c = c;
            e.has = true;
          }
        }
      }
      if (code != "OK") VFOR("C15", google::protobuf::util::MessageDifferencer::Equals(resp, untouched), "the caller's response was changed without a local answer");
    } else if (what <= 5) {
      CheckRequest r;
      r.set_service_name(kService);
      *r.mutable_operation() = RandOp(RandId(spread), 2, true);
      CheckResponse resp = RandCheckResponse();
      OpId id = IdOf(r.operation());
      Case(Str("CacheResponse ", Show(id, ContentOf(r.operation())), " ", resp.ShortDebugString()));
      Status s = agg->CacheResponse(r, resp);
      VFOR("C16", s.ok(), "CacheResponse failed");
      if (enabled && !small) {
        expire();
        E& e = model[id];
        e.resp = resp;
        e.last = e.used = g_now;
      }
    } else if (what == 6) {
      if (small && Coin()) continue;
      Advance();
      continue;
    } else if (what == 7) {
      Case("Flush");
      agg->Flush();
      expire();
    } else if (what == 8) {
      if (!cb) continue;
      Case("SetFlushCallback(another)");
      install();
      continue;
    } else {
      Case("FlushAll");
      agg->FlushAll();
      for (auto& e : model) if (e.second.has) expect.insert({e.first, e.second.c});
      model.clear();
    }
    Ops out;
    for (auto& r : got) {
      VFOR("C17", r.service_name() == kService && r.service_config_id() == kConfig && r.has_operation(), "flushed check: " << r.ShortDebugString());
      out.insert({IdOf(r.operation()), ContentOf(r.operation())});
    }
    if (!cb) { VFOR("C17", got.empty(), "flushed without a callback"); continue; }
    if (!small) VFOR("C16 C17", Same(out, expect), "flushed " << Show(out) << "; expected " << Show(expect));
    else flushed.insert(out.begin(), out.end());
  }
  if (small && cb && enabled) {
    std::map<OpId, int64_t> a, b;
    std::map<std::string, int> la, lb;
    for (auto& e : submitted) { a[e.first] += e.second.sum; for (auto& l : e.second.logs) la[l]++; }
    for (auto& e : flushed) { b[e.first] += e.second.sum; for (auto& l : e.second.logs) lb[l]++; }
    for (auto it = a.begin(); it != a.end();) if (!it->second && !b.count(it->first)) it = a.erase(it); else ++it;
    for (auto it = b.begin(); it != b.end();) if (!it->second && !a.count(it->first)) it = b.erase(it); else ++it;
    VFOR("C17", a == b && la == lb, "counted checks: " << Show(submitted) << "; flushed: " << Show(flushed));
  }
  Evaluated(CaseHash(), nontrivial > 0);
}

// ------------------------------------------------------------------ quota
struct QId {
  int method, consumer, metrics;        // metrics: bit set of metric names
  bool operator<(const QId& o) const { return std::tie(method, consumer, metrics) < std::tie(o.method, o.consumer, o.metrics); }
};
static QId RandQ(int spread) { return QId{(int)R(0, spread), (int)R(0, 1), (int)R(1, spread > 2 ? 3 : 2)}; }
typedef std::map<std::string, int64_t> Tokens;
static AllocateQuotaRequest MakeQuota(const QId& id) {
  AllocateQuotaRequest r;
  r.set_service_name(kService);
  r.set_service_config_id(Coin() ? kConfig : "callers");
  QuotaOperation* op = r.mutable_allocate_operation();
  op->set_operation_id(Str("id", ++g_serial));
  op->set_method_name(Str("m", id.method));
  op->set_consumer_id(Str("c", id.consumer));
  op->set_quota_mode(Coin(70) ? QuotaOperation::BEST_EFFORT : (QuotaOperation::QuotaMode)R(0, 4));
  for (int i = 0; i < 2; i++)
    if (id.metrics & (1 << i)) {
      MetricValueSet* s = op->add_quota_metrics();
      s->set_metric_name(Str("metric", i));
      s->add_metric_values()->set_int64_value(R(1, 50));
    }
  return r;
}
static QId QOf(const AllocateQuotaRequest& r) {
  QId id;
  id.method = atoi(r.allocate_operation().method_name().c_str() + 1);
  id.consumer = atoi(r.allocate_operation().consumer_id().c_str() + 1);
  id.metrics = 0;
  for (auto& s : r.allocate_operation().quota_metrics()) id.metrics |= 1 << atoi(s.metric_name().c_str() + 6);
  return id;
}
static Tokens TokensOf(const AllocateQuotaRequest& r) {
  Tokens t;
  for (auto& s : r.allocate_operation().quota_metrics())
    for (auto& v : s.metric_values()) t[s.metric_name()] += v.int64_value();
  return t;
}
// what a sent request amounts to
struct Sent {
  std::string service, config, operation_id;
  int mode;
  QId id;
  Tokens t;
  bool operator<(const Sent& o) const { return std::tie(service, config, operation_id, mode, id, t) < std::tie(o.service, o.config, o.operation_id, o.mode, o.id, o.t); }
  std::string Show() const {
    std::string s = Str("[", operation_id, " m", id.method, "/c", id.consumer, "/", id.metrics, " service=", service, " config=", config, " mode=", mode);
    for (auto& e : t) s += Str(" ", e.first, "=", e.second);
    return s + "]";
  }
};
static Sent SentOf(const AllocateQuotaRequest& r) {
  return Sent{r.service_name(), r.service_config_id(), r.allocate_operation().operation_id(), r.allocate_operation().quota_mode(), QOf(r), TokensOf(r)};
}
static std::string Show(const std::multiset<Sent>& s) {
  std::string o;
  for (auto& e : s) o += e.Show() + " ";
  return o.empty() ? "nothing" : o;
}

static void RunQuota() {
  CaseReset();
  bool small = Is("C20") ? Coin(45) : Coin(Is("C29") ? 10 : 25), enabled = Coin(95);
  int cap = !enabled ? 0 : small ? R(1, 3) : 10000;
  int refresh = small ? 100000000 : Pick<int>({0, 100, 500, 1000});
  int exp = small ? 200000000 : Pick<int>({500, 1000, 1900, 3000, 10000, 100000});
  Marks({refresh, exp, exp - refresh});
  if (small) g_marks.clear();

  std::unique_ptr<QuotaAggregator> agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(cap, refresh, exp));
  std::vector<AllocateQuotaRequest> got;
  int depth = 0, installed = 0;
  bool reenter = Is("C29") ? Coin(60) : Coin(10), answer = small && Coin(30);
  Case(Str("quota aggregator: entries=", cap, " refresh=", refresh, "ms expiration=", exp, "ms", reenter ? " reentrant callback" : "", answer ? " answered at once" : ""));
  std::function<void()> install = [&] {
    int me = ++installed;
    agg->SetFlushCallback([&, me](const AllocateQuotaRequest& r) {
      VFOR("C19 C20", me == installed, "a request went to a callback that is not installed");
      got.push_back(r);
      if (answer) { AllocateQuotaResponse ok; agg->CacheResponse(r, ok); }
      if (reenter && depth == 0) {
        depth++;
        Case("  (the callback calls back)");
        switch (R(0, 2)) {
          case 0: agg->GetNextFlushInterval(); agg->Flush(); break;
          case 1: install(); break;
          case 2: { AllocateQuotaRequest x; AllocateQuotaResponse y; x.set_service_name("other"); agg->Quota(x, &y); agg->Flush(); break; }
        }
        depth--;
      }
    });
  };
  install();
  struct E { AllocateQuotaRequest req; AllocateQuotaResponse resp; int64_t last, born; bool inflight, has; AllocateQuotaRequest first; Tokens t; };
  std::map<QId, E> model;
  Tokens submitted, sent_total;
  int n = Is("C20") && small ? R(5, 40) : R(2, 20);
  uint64_t nontrivial = 0;
  int spread = small ? 5 : 1;
  for (int step = 0; step <= n; step++) {
    got.clear();
    std::multiset<Sent> expect;
    auto aggregated = [&](const E& e) {
      Sent s = SentOf(e.first);
      s.service = kService;
      s.config = kConfig;
      s.t = e.t;
      return s;
    };
    auto expire = [&] {
      for (auto it = model.begin(); it != model.end();) {
        E& e = it->second;
        if (e.born < g_now - (int64_t)refresh * 1000) {
          if (g_now - e.last >= (int64_t)exp * 1000) { it = model.erase(it); continue; }
          e.born = g_now;
          if (!e.inflight && e.has) {
            expect.insert(aggregated(e));
            e.inflight = true;
            e.last = g_now;
            e.has = false;
          }
        }
        ++it;
      }
    };
    int what = step == n ? 9 : R(0, 8);
    if (what <= 4) {
      QId id = RandQ(spread);
      AllocateQuotaRequest r = MakeQuota(id);
      if (Coin(3)) r.set_service_name("other");
      if (Coin(3)) r.clear_allocate_operation();
      Case(Str("Quota ", SentOf(r).Show(), r.has_allocate_operation() ? "" : " (no operation)"));
      AllocateQuotaResponse resp;
      resp.set_operation_id("untouched");
      AllocateQuotaResponse untouched = resp;
      Status s = agg->Quota(r, &resp);
      std::string code = CodeName(s);
      bool bad = r.service_name() != kService || !r.has_allocate_operation();
      std::string want = bad ? "INVALID" : enabled ? "OK" : "NOT_FOUND";
      VFOR("C18", code == want, "Quota returned " << code << ", expected " << want);
      if (code != want) return;
      if (want != "OK") {
        VFOR("C18", got.empty(), "a request that is not handled was sent");
        VFOR("C18", google::protobuf::util::MessageDifferencer::Equals(resp, untouched), "the response was changed");
      } else if (small) {
        for (auto& e : TokensOf(r)) submitted[e.first] += e.second;
        nontrivial++;
      } else {
        expire();
        auto it = model.find(id);
        if (it == model.end()) {
          expect.insert(SentOf(r));
          E e;
          e.req = r;
          e.last = e.born = g_now;
          e.inflight = true;
          e.has = false;
          model[id] = e;
          VFOR("C18", google::protobuf::util::MessageDifferencer::Equals(resp, AllocateQuotaResponse()), "a new key was answered with " << resp.ShortDebugString());
        } else {
          E& e = it->second;
          nontrivial++;
          bool neg = e.resp.allocate_errors_size() > 0;
          if (!e.inflight && g_now - e.last >= (int64_t)refresh * 1000) {
            e.inflight = true;
            e.last = g_now;
            Sent x = e.has ? aggregated(e) : SentOf(e.req);
            e.has = false;
            if (neg) x.mode = QuotaOperation::NORMAL;
            expect.insert(x);
          }
          if (!neg) {
            if (!e.has) { e.first = r; e.t.clear(); e.has = true; }
            for (auto& t : TokensOf(r)) e.t[t.first] += t.second;
          }
          VFOR("C18", google::protobuf::util::MessageDifferencer::Equals(resp, e.resp), "answered with " << resp.ShortDebugString() << ", cached is " << e.resp.ShortDebugString());
        }
      }
    } else if (what == 5) {
      QId id = RandQ(spread);
      AllocateQuotaRequest r = MakeQuota(id);
      AllocateQuotaResponse resp;
      resp.set_operation_id(Str("resp", ++g_serial));
      if (!small && Coin(30)) for (int i = R(1, 3); i > 0; i--) resp.add_allocate_errors()->set_description("no");
      Case(Str("CacheResponse ", SentOf(r).Show(), " ", resp.ShortDebugString()));
      agg->CacheResponse(r, resp);
      if (enabled && !small) {
        expire();
        auto it = model.find(id);
        if (it != model.end()) {
          it->second.inflight = false;
          it->second.resp = resp;
          if (resp.allocate_errors_size() > 0) it->second.has = false;
        }
      }
    } else if (what == 6) {
      Advance();
      continue;
    } else if (what == 7) {
      Case("Flush");
      agg->Flush();
      if (enabled) expire();
    } else if (what == 8) {
      if (Coin(80) || small) continue;
      Case("FlushAll");
      agg->FlushAll();
      model.clear();
    } else {
      if (small && enabled) {
        // displace everything: what was pending must be sent
        for (int i = 0; i < cap; i++) {
          AllocateQuotaRequest r = MakeQuota(QId{100 + i, 0, 1});
          Case(Str("Quota ", SentOf(r).Show(), " (displaces)"));
          AllocateQuotaResponse resp;
          agg->Quota(r, &resp);
          for (auto& e : TokensOf(r)) submitted[e.first] += e.second;
        }
      } else {
        Case("FlushAll");
        agg->FlushAll();
        model.clear();
      }
    }
    std::multiset<Sent> out;
    for (auto& r : got) out.insert(SentOf(r));
    if (!small) VFOR("C18 C19 C20", !(out < expect) && !(expect < out), "sent " << Show(out) << "; expected " << Show(expect));
    else for (auto& r : got) for (auto& e : TokensOf(r)) sent_total[e.first] += e.second;
  }
  if (small && enabled) VFOR("C20", submitted == sent_total, "the tokens sent are not those submitted: metric0 " << sent_total["metric0"] << "/" << submitted["metric0"] << " metric1 " << sent_total["metric1"] << "/" << submitted["metric1"]);
  Evaluated(CaseHash(), nontrivial > 0);
}

// ------------------------------------------------------------------ threads
// Several threads use one aggregator; races are reported by ThreadSanitizer.
static void RunThreads() {
  CaseReset();
  static const int kThreads = 3;
  int kind = R(0, 2), cap = Coin() ? R(1, 2) : 100;
  std::atomic<int> flushed{0};
  std::unique_ptr<ReportAggregator> ra;
  std::unique_ptr<CheckAggregator> ca;
  std::unique_ptr<QuotaAggregator> qa;
  if (kind == 0) ra = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(cap, 1), std::make_shared<MetricKindMap>());
  if (kind == 1) ca = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(cap, 1, 3), std::make_shared<MetricKindMap>());
  if (kind == 2) qa = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(cap, 1, 5));
  auto install = [&] {
    if (ra) ra->SetFlushCallback([&](const ReportRequest&) { flushed.fetch_add(1, std::memory_order_relaxed); });
    if (ca) ca->SetFlushCallback([&](const CheckRequest&) { flushed.fetch_add(1, std::memory_order_relaxed); });
    if (qa) qa->SetFlushCallback([&](const AllocateQuotaRequest&) { flushed.fetch_add(1, std::memory_order_relaxed); });
  };
  install();
  // the operations each thread performs, chosen beforehand
  struct Op { int what; ReportRequest r; CheckRequest c; AllocateQuotaRequest q; CheckResponse cr; AllocateQuotaResponse qr; };
  std::vector<std::vector<Op>> plan(kThreads);
  Case(Str(kThreads, " threads on one ", kind == 0 ? "report" : kind == 1 ? "check" : "quota", " aggregator, entries=", cap));
  for (int t = 0; t < kThreads; t++) {
    std::string s = Str("thread ", t, ":");
    for (int i = R(6, 16); i > 0; i--) {
      Op o;
      static const char* names[] = {"use", "use", "use", "cache-response", "flush", "flush-all", "next-interval", "set-callback", "clock"};
      o.what = R(0, 9) % 9;
      if (kind && Coin(25)) o.what = 3;
      s += Str(" ", names[o.what]);
      o.r.set_service_name(kService);
      *o.r.add_operations() = RandOp(RandId(1), R(0, 60));
      *o.r.add_operations() = RandOp(RandId(1), R(0, 60));
      o.c.set_service_name(kService);
      *o.c.mutable_operation() = RandOp(RandId(0), 1, true);
      o.q = MakeQuota(RandQ(0));
      o.cr.set_operation_id(std::string(R(1, 40), 'c'));
      o.qr.set_operation_id(std::string(R(1, 40), 'q'));
      plan[t].push_back(o);
    }
    Case(s);
  }
  std::vector<std::thread> th;
  for (int t = 0; t < kThreads; t++)
    th.emplace_back([&, t] {
      for (auto& o : plan[t]) {
        CheckResponse cr;
        AllocateQuotaResponse qr;
        switch (o.what) {
          case 0: case 1: case 2:
            if (ra) ra->Report(o.r);
            if (ca) ca->Check(o.c, &cr);
            if (qa) qa->Quota(o.q, &qr);
            break;
          case 3:
            if (ca) ca->CacheResponse(o.c, o.cr);
            if (qa) qa->CacheResponse(o.q, o.qr);
            break;
          case 4: if (ra) ra->Flush(); if (ca) ca->Flush(); if (qa) qa->Flush(); break;
          case 5: if (ra) ra->FlushAll(); if (ca) ca->FlushAll(); if (qa) qa->FlushAll(); break;
          case 6: if (ra) ra->GetNextFlushInterval(); if (ca) ca->GetNextFlushInterval(); if (qa) qa->GetNextFlushInterval(); break;
          case 7: install(); break;
          case 8: g_now.fetch_add(1500, std::memory_order_relaxed); break;
        }
      }
    });
  for (auto& t : th) t.join();
  Evaluated(CaseHash(), true);
}

int main(int argc, char** argv) {
  google::protobuf::LogSilencer silent;
  Init(argc, argv);
  Rule() = "at least one operation was absorbed, answered or aggregated by a cache";
  bool rep = Is("C12") || Is("C13") || Is("C14"), chk = Is("C15") || Is("C16") || Is("C17"), quo = Is("C18") || Is("C19") || Is("C20");
  if (!rep && !chk && !quo) rep = chk = quo = true;
  while (!TimeUp()) {
    Arm(20);
    bool all = Is("C29");
    if (rep) RunReport();
    if (chk) for (int i = all ? 5 : 1; i > 0; i--) RunCheck();
    if (quo) for (int i = all ? 20 : 1; i > 0; i--) RunQuota();
    if (all) for (int i = 0; i < 3; i++) RunThreads();
  }
  Stats();
  return 0;
}
