from mkseed import mk
F = 'utils/simple_lru_cache_inl.h'
HEAD = '''#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <limits>
#include <stdint.h>
#include <sys/time.h>
#define CHECK(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
using namespace google::service_control_client;
static int64_t now_us = 1000000000; extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }
struct V { int id; }; static std::vector<int> gone; struct Del { void operator()(V* v) { gone.push_back(v->id); delete v; } };
typedef SimpleLRUCacheWithDeleter<std::string, V, Del> C;
static V* N(int i) { V* v = new V; v->id = i; return v; }
'''
mk('c24-limit-inclusive', 'C24', 'an entry looked at when its idle time is exactly the limit',
   'an entry whose idle time equals the limit is dropped although it does not exceed it',
   [(F, '(e->last_use_ < threshold)', '(e->last_use_ <= threshold)')],
   HEAD + '''int main() { C c(100); c.SetMaxIdleSeconds(2); c.Insert("a", N(1), 1); now_us += 2000000; V* v = c.Lookup("a"); CHECK(v != nullptr); c.Release("a", v); c.Clear(); return 0; }
''')
mk('c21-resize-deferred-pinned', 'C21', 'UpdateSize on a removed entry that is still pinned, found by key only, while another entry with that key was removed before it',
   'resizing removed entries of a key stops after two of them, so the total size is wrong from the third on',
   [(F, '''          e->units = units;
          units_ += e->units;
        }
        e = e->prev;
      } while (e != head);
    }
  }
  GarbageCollect();''', '''          e->units = units;
          units_ += e->units;
        }
        e = e->prev;
      } while (e != head && e != head->next);
    }
  }
  GarbageCollect();''')],
   HEAD + '''int main() { C c(100); std::vector<V*> v; for (int i = 0; i < 4; i++) { v.push_back(N(i)); c.InsertPinned("a", v[i], 2); } c.Remove("a"); CHECK(c.DeferredEntries() == 4); c.UpdateSize("a", nullptr, 5); CHECK(c.Size() == 20); CHECK(c.DeferredSize() == 20);
 for (auto x : v) c.Release("a", x); CHECK(c.Size() == 0); return 0; }
''')
mk('c22-age-stops-at-pinned', 'C22', 'age based eviction, the oldest entry pinned and newer entries unpinned while over capacity',
   'making room stops at the first pinned entry in the age order, so the cache stays over capacity with unpinned entries',
   [(F, '''      table_.erase(iter);
      e->Unlink();
      Discard(e);
    }
    e = prev;''', '''      table_.erase(iter);
      e->Unlink();
      Discard(e);
    } else if (prev->pin > 0) {
      break;
    }
    e = prev;''')],
   HEAD + '''int main() { C c(3); c.SetAgeBasedEviction(-1); V *a = N(1), *b = N(2); c.InsertPinned("a", a, 1); now_us++; c.InsertPinned("b", b, 1); now_us++; c.Insert("c", N(3), 1); now_us++; c.Insert("d", N(4), 1); CHECK(c.Size() == 3); CHECK(gone.size() == 1 && gone[0] == 3); c.Release("a", a); c.Release("b", b); c.Clear(); return 0; }
''')
mk('c23-deferred-key-lost', 'C23', 'three removed and still pinned entries under one key, the head of their list released first, then the others',
   'releasing the head of the removed entries of a key keeps the list only if it had exactly two, so later releases find no entry',
   [(F, '''            if (e->prev != e) {
              defer_[e->prev->key] = e->prev;''', '''            if (e->prev != e && (e->prev == e->next || e->prev->pin > 1 || lru_)) {
              defer_[e->prev->key] = e->prev;''')],
   HEAD + '''int main() { C c(100); c.SetAgeBasedEviction(100); V *v[3]; for (int i = 0; i < 3; i++) { v[i] = N(i); c.InsertPinned("a", v[i], 1); } c.Remove("a"); c.Release("a", v[0]); CHECK(gone.size() == 1); CHECK(c.DeferredEntries() == 2); c.Release("a", v[1]); c.Release("a", v[2]); CHECK(gone.size() == 3); return 0; }
''')
mk('c23-removeall-pinned-twice', 'C23', 'RemoveAll with a pinned entry whose key already has a removed and pinned entry',
   'an entry removed while pinned is disposed of at once when another one with its key is waiting and it has a single pin',
   [(F, '''  e->Unlink();
  if (e->pin > 0) {
    pinned_units_ -= e->units;
''', '''  e->Unlink();
  if (e->pin > 0 && e->pin == 1 && !lru_ && defer_.count(e->key) > 0 &&
      max_idle_ >= 0 && e->last_use_ + max_idle_ < SimpleCycleTimer::Now()) {
    pinned_units_ -= e->units;
    e->pin = 0;
    Discard(e);
  } else if (e->pin > 0) {
    pinned_units_ -= e->units;
''')],
   HEAD + '''int main() { C c(100); c.SetAgeBasedEviction(1); V *a = N(1), *b = N(2); c.InsertPinned("k", a, 1); c.InsertPinned("k", b, 1); now_us += 1000001; CHECK(c.Lookup("k") == nullptr); CHECK(gone.empty()); c.Release("k", b); c.Release("k", a); CHECK(gone.size() == 2); return 0; }
''')
mk('c21-pinned-size-capped', 'C21', 'an entry of more than a million units inserted pinned',
   'the pinned size counts at most a million units of a new entry',
   [(F, '''  units_ += units;
  pinned_units_ += units;
  table_[k] = e;''', '''  units_ += units;
  if (!(units == 0 && !lru_)) pinned_units_ += units > 1000000 ? 1000000 : units;
  table_[k] = e;''')],
   HEAD + '''int main() { C c(100000000); V* v = N(1); c.InsertPinned("a", v, 2000000); CHECK(c.PinnedSize() == 2000000); c.Release("a", v); CHECK(c.PinnedSize() == 0); c.Clear(); return 0; }
''')
