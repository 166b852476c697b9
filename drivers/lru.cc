// C21..C24: random histories of the LRU cache against a reference model, on a
// simulated clock.
#include "common.h"
#include <algorithm>
#include <list>
#include <functional>
#include <limits>
#include <memory>
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

using namespace vd;
using namespace google::service_control_client;

static int64_t g_now = 1000000000;      // microseconds
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  tv->tv_sec = g_now / 1000000;
  tv->tv_usec = g_now % 1000000;
  return 0;
}

static bool Is(const char* p) { return Prop() == p; }
struct Stop {};
// a difference breaks the properties named; the history ends there
#define VFOR(props, cond, what)                                          \
  do {                                                                   \
    if (!(cond)) {                                                       \
      if (std::string(props).find(Prop()) != std::string::npos) VCHECK(false, what); \
      throw Stop();                                                      \
    }                                                                    \
  } while (0)

struct Val {
  int id;
  std::string text;                     // heap memory, so that a use after disposal is seen
};
typedef std::function<void(Val*)> Del;
typedef SimpleLRUCacheWithDeleter<std::string, Val, Del> Cache;

enum Why { kRemoved, kExpired, kCapacity };
struct E {
  std::string key;
  Val* v;
  int id;
  int64_t units;
  std::vector<bool> pins;               // options of the outstanding lookups
  int64_t stamp;                        // last use, or insertion in age mode
};
struct Model {
  bool lru = true;
  int64_t max_units = 0, max_idle = -1;
  std::list<std::shared_ptr<E>> order;  // eviction order, oldest first
  std::map<std::string, std::shared_ptr<E>> table;
  std::vector<std::shared_ptr<E>> deferred;
  std::vector<std::pair<std::shared_ptr<E>, Why>> disposed;   // expected by this operation
  int64_t size() const {
    int64_t s = 0;
    for (auto& e : table) s += e.second->units;
    for (auto& e : deferred) s += e->units;
    return s;
  }
  void Unlist(const std::shared_ptr<E>& e) { order.remove(e); }
  void List(const std::shared_ptr<E>& e) {
    order.remove(e);
    order.push_back(e);
  }
  void Take(std::shared_ptr<E> e, Why why) {   // out of the table
    table.erase(e->key);
    Unlist(e);
    if (e->pins.empty()) disposed.push_back({e, why}); else deferred.push_back(e);
  }
  bool over() const { return size() > max_units; }
  void Collect() {
    auto o = order;
    for (auto& e : o) {
      if (!over()) break;
      if (e->pins.empty()) Take(e, kCapacity);
    }
  }
  void Expire() {
    if (max_idle < 0) return;
    auto o = order;
    for (auto& e : o)
      // in idle mode an entry looked up without updating the order stays listed while in use
      if (e->stamp < g_now - max_idle && (!lru || e->pins.empty())) Take(e, kExpired);
  }
};

static std::map<int, int> g_disposals;      // by value id
static std::vector<int> g_log;              // this operation
static std::set<int> g_pinned;              // ids pinned by this history

static void RunHistory() {
  CaseReset();
  g_disposals.clear();
  g_pinned.clear();
  bool age = Coin(40);
  // some lookups leave the eviction order alone
  bool quiet = Coin(15);
  static const int64_t kScales[] = {1, 1, 1, 1, 1, 1, 1000, 1LL << 20, 1LL << 31, 1LL << 48};
  const int64_t scale = kScales[R(0, 9)];
  auto units = [scale](int64_t hi) { int64_t u = R(0, hi) * scale; return scale > 1 && Coin(30) ? u + R(0, 2) : u; };
  int64_t max = units(9);
  int serial = 0;
  auto& live = *new std::map<int, std::unique_ptr<Val>>;
  // never destroyed when the history ends early: it may hold entries
  Cache& cache = *new Cache(max, [&](Val* v) {
    int id = v->id;
    g_log.push_back(id);
    g_disposals[id]++;
    VFOR("C23", live.count(id), "value " << id << " was disposed of twice");
    VFOR("C23", !g_pinned.count(id), "value " << id << " was disposed of while pinned");
    live.erase(id);
  });
  Model m;
  m.max_units = max;
  m.lru = !age;
  Case(Str(age ? "age" : "idle", " mode, capacity ", max));
  bool limit = Is("C24") ? Coin(90) : Coin(60);
  if (limit) {
    double secs = Pick<double>({0, 0.0005, 0.5, 1, 1.75, 3600, 1e300});
    Case(Str("limit ", secs, "s"));
    m.max_idle = secs >= 1e20 ? std::numeric_limits<int64_t>::max() : (int64_t)(secs * 1000000);
    if (age) cache.SetAgeBasedEviction(secs); else cache.SetMaxIdleSeconds(secs);
  } else if (age) {
    cache.SetAgeBasedEviction(Coin() ? -1 : std::numeric_limits<double>::infinity());
  }
  struct Pin { std::string key; std::shared_ptr<E> e; bool upd; };
  std::vector<Pin> pins;
  int nontrivial = 0;
  auto find = [&](const std::string& k) { auto it = m.table.find(k); return it == m.table.end() ? nullptr : it->second; };
  auto release = [&](std::shared_ptr<E> e, bool upd) {
    e->pins.erase(std::find(e->pins.begin(), e->pins.end(), upd));
    auto d = std::find(m.deferred.begin(), m.deferred.end(), e);
    if (d != m.deferred.end()) {
      if (e->pins.empty()) { m.deferred.erase(d); m.disposed.push_back({e, kRemoved}); }
      return;
    }
    if (m.lru && upd) e->stamp = g_now;
    if (e->pins.empty()) {
      if (m.lru && std::find(m.order.begin(), m.order.end(), e) == m.order.end()) {
        e->stamp = g_now;
        m.List(e);
      }
      if (m.over()) m.Take(e, kCapacity);
    }
  };
  int n = R(1, 25);
  const int kFinal = 3;
  for (int step = 0; step < n + kFinal; step++) {
    Arm(20);
    m.disposed.clear();
    g_log.clear();
    std::string k(1, 'a' + R(0, 4));
    int what = R(0, 19);
    if (step == n) what = 100;
    if (step == n + 1) what = 101;
    if (step == n + 2) what = 102;
    if (what <= 4) {
      bool pinned = what == 4;
      auto e = std::make_shared<E>();
      e->key = k;
      e->units = Coin(70) ? scale : units(12);
      e->id = ++serial;
      e->v = new Val{e->id, std::string(30, 'v')};
      live[e->id].reset(e->v);
      e->stamp = g_now;
      Case(Str(pinned ? "InsertPinned " : "Insert ", k, " value ", e->id, " units ", e->units));
      if (auto old = find(k)) m.Take(old, kRemoved);
      m.table[k] = e;
      e->pins.push_back(true);
      if (!m.lru) m.List(e);
      m.Collect();
      if (pinned) {
        g_pinned.insert(e->id);
        cache.InsertPinned(k, e->v, e->units);
        pins.push_back({k, e, true});
      } else {
        release(e, true);
        cache.Insert(k, e->v, e->units);
      }
    } else if (what <= 8) {
      bool upd = quiet ? Coin() : true;
      Case(Str("Lookup ", k, upd ? "" : " leaving the order alone"));
      m.Expire();
      auto e = find(k);
      SimpleLRUCacheOptions o;
      o.set_update_eviction_order(upd);
      bool was = e && g_pinned.count(e->id);
      if (e) {
        if (m.lru && upd) m.Unlist(e);
        e->pins.push_back(upd);
      }
      Val* got = cache.LookupWithOptions(k, o);
      if (e && !got) for (auto& x : g_log) VFOR("C21 C22 C24", x != e->id, "Lookup of " << k << " dropped value " << e->id << ", which has not expired");
      VFOR("C21", (got != nullptr) == (e != nullptr), "Lookup of " << k << (got ? " found a value, none is expected" : " found nothing, a value is expected"));
      (void)was;
      if (e) {
        VFOR("C21", got == e->v, "Lookup of " << k << " returned value " << got->id << ", the last inserted is " << e->id);
        g_pinned.insert(e->id);
        pins.push_back({k, e, upd});
        nontrivial++;
      }
    } else if (what <= 12 || what == 100) {
      // release (all of them at the end)
      while (!pins.empty()) {
        int i = R(0, pins.size() - 1);
        Pin p = pins[i];
        pins.erase(pins.begin() + i);
        Case(Str("Release ", p.key, " value ", p.e->id));
        release(p.e, p.upd);
        if (p.e->pins.empty()) g_pinned.erase(p.e->id);
        SimpleLRUCacheOptions o;
        o.set_update_eviction_order(p.upd);
        VFOR("C23", live.count(p.e->id), "a pinned value is gone");
        cache.ReleaseWithOptions(p.key, p.e->v, o);
        nontrivial++;
        if (what != 100) break;
      }
    } else if (what == 13) {
      Case(Str("Remove ", k));
      if (auto e = find(k)) m.Take(e, kRemoved);
      cache.Remove(k);
    } else if (what == 14) {
      static const int64_t steps[] = {0, 1, 499, 500, 501, 400000, 499999, 500000, 500001, 999999, 1000000, 1000001, 1750000, 3600000000LL, 3600000001LL};
      int64_t d = steps[R(0, 14)];
      g_now += d;
      Case(Str("clock +", d, "us"));
    } else if (what == 15) {
      Case("RemoveExpiredEntries");
      m.Expire();
      cache.RemoveExpiredEntries();
    } else if (what == 16) {
      auto e = find(k);
      int64_t u = units(12);
      std::shared_ptr<E> d;
      for (auto& x : m.deferred) if (x->key == k) d = x;
      Val* v = nullptr;
      if (e && Coin()) { v = e->v; d = nullptr; }
      else if (d && Coin()) { v = d->v; if (e && e->v != v) e = nullptr; }
      Case(Str("UpdateSize ", k, v ? Str(" value ", v->id) : "", " units ", u));
      if (e) e->units = u;
      else for (auto& x : m.deferred) if (x->key == k && (!v || x->v == v)) x->units = u;
      m.Collect();
      cache.UpdateSize(k, v, u);
    } else if (what == 17) {
      int64_t u = units(9);
      Case(Str("SetMaxSize ", u));
      m.max_units = u;
      m.Collect();
      cache.SetMaxSize(u);
    } else if (what == 18) {
      if (Coin(70)) continue;
      Case("RemoveUnpinned");
      auto t = m.table;
      for (auto& e : t) if (e.second->pins.empty()) m.Take(e.second, kRemoved);
      cache.RemoveUnpinned();
    } else if (what == 19) {
      if (!m.max_idle || Coin(70)) continue;
      bool clear = pins.empty() && Coin();
      Case(clear ? "Clear" : "RemoveAll");
      auto t = m.table;
      for (auto& e : t) m.Take(e.second, kRemoved);
      if (clear) cache.Clear(); else cache.RemoveAll();
    } else if (what == 101) {
      if (Coin()) continue;
      Case("SetMaxSize 0");
      m.max_units = 0;
      m.Collect();
      cache.SetMaxSize(0);
    } else {
      Case("RemoveAll");
      auto t = m.table;
      for (auto& e : t) m.Take(e.second, kRemoved);
      cache.RemoveAll();
    }
    // disposals of this operation
    std::set<int> got(g_log.begin(), g_log.end()), want;
    for (auto& d : m.disposed) {
      int id = d.first->id;
      want.insert(id);
      const char* p = d.second == kExpired ? "C24 C23" : d.second == kCapacity ? "C22 C23" : "C23";
      VFOR(p, got.count(id), "value " << id << " of key " << d.first->key << " was not disposed of although it was " << (d.second == kExpired ? "expired" : d.second == kCapacity ? "the oldest over capacity" : "removed"));
    }
    for (int id : got) VFOR("C21 C22 C24", want.count(id), "value " << id << " was discarded although it should have been kept");
    // what the cache reports
    int64_t pinned = 0, dsize = 0;
    for (auto& e : m.table) if (!e.second->pins.empty()) pinned += e.second->units;
    for (auto& e : m.deferred) dsize += e->units;
    VFOR("C21", cache.Size() == m.size(), "Size() is " << cache.Size() << ", held are " << m.size());
    VFOR("C21", cache.Entries() == (int64_t)m.table.size(), "Entries() is " << cache.Entries() << ", held are " << m.table.size());
    VFOR("C21", cache.PinnedSize() == pinned, "PinnedSize() is " << cache.PinnedSize() << ", pinned are " << pinned);
    VFOR("C21", cache.DeferredSize() == dsize, "DeferredSize() is " << cache.DeferredSize() << ", deferred are " << dsize);
    VFOR("C21", cache.DeferredEntries() == (int64_t)m.deferred.size(), "DeferredEntries() is " << cache.DeferredEntries() << ", deferred are " << m.deferred.size());
    VFOR("C21", cache.MaxSize() == m.max_units, "MaxSize() is " << cache.MaxSize());
    VFOR("C22", m.order.empty() || cache.AgeOfLRUItemInMicroseconds() == g_now - m.order.front()->stamp, "the age of the LRU item is " << cache.AgeOfLRUItemInMicroseconds() << ", expected " << g_now - m.order.front()->stamp);
    size_t seen = 0;
    for (auto it = cache.begin(); it != cache.end(); ++it, ++seen) {
      auto e = find(it->first);
      VFOR("C21", e && e->v == it->second, "iteration shows another value for " << it->first);
      VFOR("C24", it.last_use_time() == e->stamp, "iteration shows time " << it.last_use_time() << " for " << it->first << ", expected " << e->stamp);
    }
    VFOR("C21", seen == m.table.size(), "iteration shows " << seen << " entries of " << m.table.size());
    for (char c = 'a'; c <= 'e'; c++) {
      std::string key(1, c);
      auto e = find(key);
      bool def = false;
      for (auto& d : m.deferred) {
        if (d->key == key) def = true;
        VFOR("C21", cache.StillInUse(d->key, d->v), "a deferred value is not reported in use");
      }
      VFOR("C21", cache.StillInUse(key) == (e || def), "StillInUse(" << key << ") is " << cache.StillInUse(key));
      int64_t t = m.lru ? cache.GetLastUseTime(key) : cache.GetInsertionTime(key);
      VFOR("C24", t == (e ? e->stamp : -1), "the time of " << key << " is " << t << ", expected " << (e ? e->stamp : -1));
    }
  }
  delete &cache;
  VFOR("C23", live.empty(), live.size() << " values were never disposed of, the first is " << live.begin()->first);
  Evaluated(CaseHash(), nontrivial > 0);
}

// ---- mode with removal hooks that insert the value again (as the quota cache does)
static void RunReinsert() {
  CaseReset();
  int64_t max = R(1, 6);
  std::map<std::string, int> disposals;
  struct V { std::string key; int64_t born; };
  std::function<void(V*)> del;
  auto& cache = *new SimpleLRUCacheWithDeleter<std::string, V, std::function<void(V*)>>(max, [&](V* v) { del(v); });
  int64_t limit = Pick<int64_t>({0, 500000, 1000000});
  std::map<std::string, int64_t> table;
  bool again = true;
  std::vector<std::string> expect, got;
  del = [&](V* v) {
    got.push_back(v->key);
    if (again && cache.Size() < cache.MaxSize()) cache.Insert(v->key, v, 1); else delete v;
  };
  cache.SetAgeBasedEviction(limit / 1000000.0);
  Case(Str("age mode, capacity ", max, ", limit ", limit, "us, entries removed are inserted again below capacity"));
  std::list<std::pair<std::string, int64_t>> order;
  auto expire = [&] {
    auto o = order;
    for (auto& e : o)
      if (e.second < g_now - limit) {
        expect.push_back(e.first);
        order.remove(e);
        order.push_back({e.first, g_now});
      }
  };
  int n = R(1, 25), nontrivial = 0;
  for (int step = 0; step < n; step++) {
    Arm(20);
    expect.clear();
    got.clear();
    std::string k(1, 'a' + R(0, 7));
    switch (R(0, 3)) {
      case 0: case 1: {
        Case(Str("Lookup or insert ", k));
        expire();
        bool have = false;
        for (auto& e : order) have |= e.first == k;
        if (!have) {
          order.push_back({k, g_now});
          if ((int64_t)order.size() > max) { expect.push_back(order.front().first); order.pop_front(); }
        }
        V* v = cache.Lookup(k);
        VFOR("C21 C24", (v != nullptr) == have, "Lookup of " << k << (v ? " found a value" : " found nothing"));
        if (v) cache.Release(k, v); else cache.Insert(k, new V{k, g_now}, 1);
        break;
      }
      case 2: { int64_t d = Pick<int64_t>({1, 400000, 500000, 500001, 1000001}); g_now += d; Case(Str("clock +", d, "us")); break; }
      case 3: Case("RemoveExpiredEntries"); expire(); cache.RemoveExpiredEntries(); break;
    }
    nontrivial += expect.size();
    VFOR("C22 C23 C24", got == expect, "removed: " << got.size() << " entries, expected " << expect.size());
    VFOR("C21", cache.Size() == (int64_t)order.size() && cache.Entries() == (int64_t)order.size(), "Size() is " << cache.Size() << ", expected " << order.size());
  }
  again = false;
  cache.RemoveAll();
  delete &cache;
  Evaluated(CaseHash(), nontrivial > 0);
}

int main(int argc, char** argv) {
  Init(argc, argv);
  Rule() = "at least one lookup found a value or one pin was released";
  while (!TimeUp()) {
    try { RunHistory(); } catch (Stop&) {}
    if (Coin(20)) try { RunReinsert(); } catch (Stop&) {}
  }
  Stats();
  return 0;
}
