// Instantiates the cache template of /repo for an opaque value type, so that the verifier sees every member function.
#include <functional>
#include <limits>
#include <string>
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

namespace verif {
struct Val;  // opaque
typedef long Key;
typedef google::service_control_client::SimpleLRUCacheElem<Key, Val> Elem;
typedef std::unordered_map<Key, Elem*> Map;
typedef google::service_control_client::SimpleLRUCacheBase<Key, Val, Map, std::equal_to<Key>> Base;

class Cache : public Base {
 public:
  explicit Cache(int64_t n) : Base(n) {}
  virtual void Anchor();                      // emits the virtual table here

 protected:
  void RemoveElement(const Key& k, Val* v) override;  // contract only
};

void Cache::Anchor() {}

// reference every member of the interface, so that its code is emitted
void Use(Cache* c, const Key& k, Val* v, const google::service_control_client::SimpleLRUCacheOptions& o, double d, int64_t n) {
  c->SetMaxSize(n);
  c->SetMaxIdleSeconds(d);
  c->SetAgeBasedEviction(d);
  c->Lookup(k);
  c->LookupWithOptions(k, o);
  c->Release(k, v);
  c->ReleaseWithOptions(k, v, o);
  c->Insert(k, v, n);
  c->InsertPinned(k, v, n);
  c->UpdateSize(k, v, n);
  c->StillInUse(k);
  c->StillInUse(k, v);
  c->Remove(k);
  c->RemoveAll();
  c->RemoveUnpinned();
  c->Clear();
  c->RemoveExpiredEntries();
  c->Size();
  c->Entries();
  c->DeferredSize();
  c->DeferredEntries();
  c->PinnedSize();
  c->MaxSize();
  c->AgeOfLRUItemInMicroseconds();
  c->GetLastUseTime(k);
  c->GetInsertionTime(k);
  { Base::ScopedLookup s(c, k); s.Found(); }
  { Base::ScopedLookup s(c, k, o); s.value(); }
  for (Base::const_iterator i = c->begin(); i != c->end(); ++i) (*i), i.last_use_time();
}
Cache* New(int64_t n) { return new Cache(n); }
void Delete(Cache* c) { delete c; }
}  // namespace verif
