// irv-opt: sroa
// Dictionary: Add / Erase against the abstract map, rollback, replay of the persisted events.
#include "storage_common.h"
namespace {
struct World {
  MutationJournal journal, journal2;
  Dict d, replica;
  World() : d("d", journal), replica("d", journal2) { any_clock(); }
  // Decides what the container holds for `k`: an entry (then with a last modified time), or none, deleted or never seen.
  void explore(int64_t k) {
    if (d.last_modified_.count(k) || d.map_.count(k)) return;
    const bool present = irv::any<bool>();
    if (present || irv::any<bool>()) {
      const auto us = std::chrono::microseconds(irv::any<int64_t>());
      d.last_modified_[k] = us;
      replica.last_modified_[k] = us;
    } else {
      irv::absent(d.last_modified_, k);
      irv::absent(replica.last_modified_, k);
    }
    if (present) {
      const int64_t v = irv::any<int64_t>();
      d.map_[k] = Item(k, v);
      replica.map_[k] = Item(k, v);
    } else {
      irv::absent(d.map_, k);
      irv::absent(replica.map_, k);
    }
  }
  void seal() {
    const size_t n = irv::rest_count();
    irv::seal(d.map_, n);
    irv::seal(replica.map_, n);
    irv::seal(d.last_modified_, irv::rest_count());
    irv::seal(replica.last_modified_, irv::rest_count());
  }
};
struct Snap {
  bool has, get, lm;
  int64_t key, value, us;
  size_t size;
  bool empty;
  Snap(const Dict& d, int64_t k) : has(d.Has(k)), get(Exists(d[k])), lm(Exists(d.LastModified(k))), key(0), value(0), us(0), size(d.Size()), empty(d.Empty()) {
    if (get) {
      key = Value(d[k]).key;
      value = Value(d[k]).value;
    }
    if (lm) us = Value(d.LastModified(k)).count();
  }
  bool consistent(int64_t k) const { return (has == get) & (!get | (key == k)) & (!has | lm) & (empty == (size == 0)); }
  bool same(const Snap& s) const { return (has == s.has) & (get == s.get) & (lm == s.lm) & (key == s.key) & (value == s.value) & (us == s.us) & (size == s.size); }
};
int64_t last_event_us(const MutationJournal& j) {
  const auto* e = j.commit_log.back().get();
  if (const auto* u = dynamic_cast<const ItemPersistedUpdated*>(e)) return u->us.count();
  if (const auto* u = dynamic_cast<const ItemPersistedDeleted*>(e)) return u->us.count();
  return -1;
}
void add(World& w, int64_t k, int64_t v, int64_t o) {
  const Snap b(w.d, o), bk(w.d, k);
  const size_t events = w.journal.commit_log.size();
  w.d.Add(Item(k, v));
  const Snap a(w.d, o), ak(w.d, k);
  irv_check(a.consistent(o) & ak.consistent(k), "Add: lookups agree with each other");
  irv_check(ak.has & (ak.key == k) & (ak.value == v), "Add: the added entry is found by its key");
  irv_check(a.size == b.size + (bk.has ? 0 : 1), "Add: the size grows exactly when the key is new");
  irv_check((o == k) | ((a.has == b.has) & (a.value == b.value) & (a.lm == b.lm) & (a.us == b.us)), "Add: other entries stay");
  irv_check((w.journal.commit_log.size() == events + 1) & (w.journal.rollback_log.size() == events + 1), "Add: one event and one undo step are logged");
  irv_check(ak.us == last_event_us(w.journal), "Add: the last modified time is the time of the persisted event");
}
void erase(World& w, int64_t k, int64_t o) {
  const Snap b(w.d, o), bk(w.d, k);
  const size_t events = w.journal.commit_log.size();
  w.d.Erase(k);
  const Snap a(w.d, o), ak(w.d, k);
  irv_check(a.consistent(o) & ak.consistent(k), "Erase: lookups agree with each other");
  irv_check(!ak.has, "Erase: the key is gone");
  irv_check(a.size == b.size - (bk.has ? 1 : 0), "Erase: the size shrinks exactly when the key was there");
  irv_check((o == k) | ((a.has == b.has) & (a.value == b.value) & (a.lm == b.lm) & (a.us == b.us)), "Erase: other entries stay");
  irv_check((w.journal.commit_log.size() == events + (bk.has ? 1 : 0)) & (w.journal.rollback_log.size() == w.journal.commit_log.size()), "Erase: an event is logged exactly when something is erased");
  if (bk.has) irv_check(ak.us == last_event_us(w.journal), "Erase: the last modified time is the time of the persisted event");
  else irv_check(ak.same(bk), "Erase: nothing changes when the key is not there");
}
void undo(World& w, const Snap& before, int64_t o) {
  w.journal.Rollback();
  irv_check(Snap(w.d, o).same(before), "rollback restores every entry, the last modified times and the size");
  irv_check(w.journal.commit_log.empty() & w.journal.rollback_log.empty(), "rollback leaves the journal empty");
}
void check_replay(World& w, int64_t o) {
  replay<ItemPersistedUpdated, ItemPersistedDeleted>(w.journal, w.replica);
  irv_check(Snap(w.replica, o).same(Snap(w.d, o)), "replaying the persisted events gives the same contents");
}
}  // namespace
IRV_HARNESS(dict_add_state) {
  World w;
  const int64_t k = irv::any<int64_t>(), v = irv::any<int64_t>(), o = irv::any<int64_t>();
  w.explore(k); w.explore(o); w.seal();
  add(w, k, v, o);
  irv_cover("end");
}
IRV_HARNESS(dict_erase_state) {
  World w;
  const int64_t k = irv::any<int64_t>(), o = irv::any<int64_t>();
  w.explore(k); w.explore(o); w.seal();
  erase(w, k, o);
  irv_cover("end");
}
// One or two mutations in one transaction: the undo steps run in the reverse order.
enum Aspect { UNDO, REPLAY };
static void mutations(int n, Aspect aspect) {
  World w;
  const int64_t k = irv::any<int64_t>(), k2 = irv::any<int64_t>(), o = irv::any<int64_t>();
  w.explore(k); if (n == 2) w.explore(k2);
  w.explore(o); w.seal();
  const Snap before(w.d, o);
  if (irv::any<bool>()) w.d.Add(Item(k, irv::any<int64_t>())); else w.d.Erase(k);
  if (n == 2) { if (irv::any<bool>()) w.d.Add(Item(k2, irv::any<int64_t>())); else w.d.Erase(k2); }
  if (aspect == UNDO) undo(w, before, o); else check_replay(w, o);
  irv_cover("end");
}
IRV_HARNESS(dict_one_undo) { mutations(1, UNDO); }
IRV_HARNESS(dict_two_undo) { mutations(2, UNDO); }
IRV_HARNESS(dict_one_replay) { mutations(1, REPLAY); }
IRV_HARNESS(dict_two_replay) { mutations(2, REPLAY); }
// Replaying persisted events onto any contents.
IRV_HARNESS(dict_event_update_replay) {
  World w;
  const int64_t k = irv::any<int64_t>(), v = irv::any<int64_t>(), o = irv::any<int64_t>(), us = irv::any<int64_t>();
  w.explore(k); w.explore(o); w.seal();
  const Snap b(w.d, o), bk(w.d, k);
  w.d(ItemPersistedUpdated(std::chrono::microseconds(us), Item(k, v)));
  const Snap a(w.d, o), ak(w.d, k);
  irv_check(ak.consistent(k) & ak.has & (ak.value == v) & (ak.us == us) & (ak.size == b.size + (bk.has ? 0 : 1)), "replay of an update stores the entry and its time");
  irv_check((o == k) | ((a.has == b.has) & (a.value == b.value) & (a.us == b.us)), "replay of an update leaves other entries");
  irv_check(w.journal.commit_log.empty() & w.journal.rollback_log.empty(), "replay does not touch the journal");
  irv_cover("end");
}
IRV_HARNESS(dict_event_delete_replay) {
  World w;
  const int64_t k = irv::any<int64_t>(), o = irv::any<int64_t>(), us = irv::any<int64_t>();
  w.explore(k); w.explore(o); w.seal();
  const Snap b(w.d, o), bk(w.d, k);
  w.d(ItemPersistedDeleted(std::chrono::microseconds(us), Item(k, 0)));
  const Snap a(w.d, o), ak(w.d, k);
  irv_check(ak.consistent(k) & !ak.has & (ak.us == us) & (ak.size == b.size - (bk.has ? 1 : 0)), "replay of a delete removes the entry and records its time");
  irv_check((o == k) | ((a.has == b.has) & (a.value == b.value) & (a.us == b.us)), "replay of a delete leaves other entries");
  irv_cover("end");
}
