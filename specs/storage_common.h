#ifndef STORAGE_COMMON_H
#define STORAGE_COMMON_H
#ifndef CURRENT_MOCK_TIME
#define CURRENT_MOCK_TIME  // Now() is the mutex-protected mock clock; its reading is an input of every contract
#endif
#include "irv_std.h"
#include "storage/storage.h"
using namespace current::storage;
CURRENT_STRUCT(Item) {
  CURRENT_FIELD(key, int64_t, 0);
  CURRENT_FIELD(value, int64_t, 0);
  CURRENT_CONSTRUCTOR(Item)(int64_t key = 0, int64_t value = 0) : key(key), value(value) {}
};
CURRENT_STRUCT(Cell) {
  CURRENT_FIELD(row, int64_t, 0);
  CURRENT_FIELD(col, int64_t, 0);
  CURRENT_FIELD(value, int64_t, 0);
  CURRENT_CONSTRUCTOR(Cell)(int64_t row = 0, int64_t col = 0, int64_t value = 0) : row(row), col(col), value(value) {}
};
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, Item, ItemPersisted);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, Cell, O2OPersisted);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedMany, Cell, O2MPersisted);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, Cell, M2MPersisted);
using Dict = container::UnorderedDictionary<Item, ItemPersistedUpdated, ItemPersistedDeleted>;
using O2O = container::UnorderedOneToUnorderedOne<Cell, O2OPersistedUpdated, O2OPersistedDeleted>;
using O2M = container::UnorderedOneToUnorderedMany<Cell, O2MPersistedUpdated, O2MPersistedDeleted>;
using M2M = container::UnorderedManyToUnorderedMany<Cell, M2MPersistedUpdated, M2MPersistedDeleted>;

// The clock: an arbitrary reading that then advances, as the mock clock does.
inline void any_clock() {
  auto& c = current::Singleton<current::time::MockNowImpl>();
  const int64_t t = irv::any<int64_t>();
  irv_assume((t > 0) & (t < (1ll << 60)));
  c.mock_now_value = std::chrono::microseconds(t);
  c.max_mock_now_value = std::chrono::microseconds(1ll << 61);
}

// Applies the persisted events to `c`, in the order they are published.
template <class UPD, class DEL, class C>
void replay(const MutationJournal& j, C& c) {
  for (const auto& e : j.commit_log) {
    if (const UPD* u = dynamic_cast<const UPD*>(e.get())) c(*u);
    else if (const DEL* d = dynamic_cast<const DEL*>(e.get())) c(*d);
    else irv_fail("an event of an unknown type is persisted");
  }
}
#endif
