// irv-opt: sroa
// Transactions: the real StorageImpl and transaction policy over a persister given by its contract.
#include "storage_common.h"
namespace {
struct P {  // what the persister has seen
  bool master = true, journal_was_consistent = true, locked = true;
  int persisted = 0;
  size_t events = 0;
  int64_t begin_us = 0, end_us = 0;
} g;
struct ContractStream {
  struct I { mutable std::mutex publishing_mutex; } impl;
  using publisher_t = int;
  using entry_t = int;
  template <class A, class B> using SubscriberScope = int;
  I* Impl() { return &impl; }
  const I* Impl() const { return &impl; }
};
std::mutex* stream_mutex;
std::function<void(MutationJournal&)>* on_persist;
template <typename VARIANT, typename PARAM>
struct ContractPersister {
  using variant_t = VARIANT;
  using transaction_t = Transaction<VARIANT>;
  using stream_t = ContractStream;
  using fields_update_function_t = std::function<void(const variant_t&)>;
  struct Master {};
  struct Following {};
  current::Borrowed<stream_t> stream;
  template <class MODE> ContractPersister(MODE, fields_update_function_t, current::Borrowed<stream_t> s) : stream(std::move(s)) {}
  current::Borrowed<stream_t>& Stream() { return stream; }
  current::Borrowed<stream_t> const& Stream() const { return stream; }
  template <current::locks::MutexLockStatus MLS> bool IsMasterStoragePersister() const { return g.master; }
  template <current::locks::MutexLockStatus MLS> std::chrono::microseconds LastAppliedTimestampPersister() const { return std::chrono::microseconds(0); }
  // Contract: publishes the whole journal as one entry, then clears it.
  void PersistJournalFromLockedSection(MutationJournal& journal) {
    ++g.persisted;
    g.locked = g.locked && irv_locked(stream_mutex);
    g.events = journal.commit_log.size();
    g.begin_us = journal.transaction_meta.begin_us.count();
    g.end_us = journal.transaction_meta.end_us.count();
    (*on_persist)(journal);
    journal.Clear();
  }
};
CURRENT_STORAGE(TestStorage) { CURRENT_STORAGE_FIELD(d, ItemPersisted); };
using storage_t = TestStorage<ContractPersister>;
using fields_t = CURRENT_STORAGE_FIELDS_TestStorage<DeclareFields>;
struct MyError : std::exception { int64_t x; explicit MyError(int64_t x) : x(x) {} };

enum How { RETURN, ROLLBACK_VALUE, ROLLBACK, ERROR_ };
struct Snap {
  bool has, lm;
  int64_t value = 0, us = 0;
  size_t size;
  Snap(const Dict& d, int64_t k) : has(Exists(d[k])), lm(Exists(d.LastModified(k))), size(d.Size()) {
    if (has) value = Value(d[k]).value;
    if (lm) us = Value(d.LastModified(k)).count();
  }
  bool same(const Snap& s) const { return (has == s.has) & (lm == s.lm) & (value == s.value) & (us == s.us) & (size == s.size); }
};
struct World {
  current::Owned<ContractStream> stream;
  storage_t s;
  How how;
  int n = 0, runs = 0;                   // mutations made by the transaction, times it was run
  int64_t k[2], v[2], ret, err;
  bool add[2], locked_in_f = true, logged = true, meta;
  World() : stream(current::MakeOwned<ContractStream>()), s(typename storage_t::persister_t::Master(), typename storage_t::UseExistingStream(), current::Borrowed<ContractStream>(stream)) {
    any_clock();
    g = P();
    stream_mutex = &stream->impl.publishing_mutex;
    how = static_cast<How>(irv::any<uint8_t>() % 4);
    n = irv::any<uint8_t>() % 3;
    for (int i = 0; i < 2; ++i) { k[i] = irv::any<uint8_t>() % 2; v[i] = irv::any<int64_t>(); add[i] = irv::any<bool>(); }
    ret = irv::any<int64_t>();
    err = irv::any<int64_t>();
    meta = irv::any<bool>();
    // what the storage holds before
    if (irv::any<bool>()) { d().map_[0] = Item(0, irv::any<int64_t>()); d().last_modified_[0] = std::chrono::microseconds(irv::any<int64_t>()); }
  }
  Dict& d() { return s.fields_.d; }
  MutationJournal& journal() { return s.fields_.current_storage_mutation_journal_; }
  bool unlocked() { return !irv_locked(stream_mutex); }
  void mutate(fields_t& f) {
    ++runs;
    locked_in_f = locked_in_f && irv_locked(stream_mutex);
    if (meta) f.SetTransactionMetaField("a", "b");
    for (int i = 0; i < n; ++i) { if (add[i]) f.d.Add(Item(k[i], v[i])); else f.d.Erase(k[i]); }
  }
  void look() { ++runs; locked_in_f = locked_in_f && irv_locked(stream_mutex); }
  void leave() {
    if (how == ROLLBACK_VALUE) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int64_t, ret);
    if (how == ROLLBACK) CURRENT_STORAGE_THROW_ROLLBACK();
    if (how == ERROR_) throw MyError(err);
  }
  void leave_void() {
    if (how == ROLLBACK || how == ROLLBACK_VALUE) CURRENT_STORAGE_THROW_ROLLBACK();
    if (how == ERROR_) throw MyError(err);
  }
  bool journal_empty() {
    const auto& j = journal();
    return (j.transaction_meta.begin_us.count() == 0) & (j.transaction_meta.end_us.count() == 0) & j.transaction_meta.fields.empty() & j.commit_log.empty() & j.rollback_log.empty();
  }
};
// The outcome of a transaction, as its caller sees it.
struct Outcome { int kind = -1; bool exists = false; int64_t value = 0; };  // 0 committed, 1 rolled back, 2 MyError, 3 shutdown, 4 follower
template <class F>
Outcome outcome_of_int(F&& f) {
  Outcome o;
  try {
    auto r = f().Go();
    o.kind = current::storage::WasCommitted(r) ? 0 : 1;
    o.exists = Exists(r);
    if (o.exists) o.value = Value(r);
  } catch (const MyError& e) { o.kind = 2; o.value = e.x; }
  catch (const current::storage::StorageInGracefulShutdownException&) { o.kind = 3; }
  catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) { o.kind = 4; }
  return o;
}
template <class F>
Outcome outcome_of_void(F&& f) {
  Outcome o;
  try {
    auto r = f().Go();
    o.kind = current::storage::WasCommitted(r) ? 0 : 1;
  } catch (const MyError& e) { o.kind = 2; o.value = e.x; }
  catch (const current::storage::StorageInGracefulShutdownException&) { o.kind = 3; }
  catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) { o.kind = 4; }
  return o;
}
enum Gate { OPEN, SHUTDOWN, FOLLOWER };
enum Kind { INT, VOID, TWO };
void run(bool rw, Kind kind) {
  World w;
  const Gate gate = irv::any<bool>() ? OPEN : irv::any<bool>() ? SHUTDOWN : FOLLOWER;
  if (gate == SHUTDOWN) w.s.transaction_policy_.GracefulShutdown();
  g.master = gate != FOLLOWER;
  const Snap b0(w.d(), 0), b1(w.d(), 1);
  bool after = true;
  size_t logged = 0;
  MutationJournal jr;
  Dict replica("d", jr);
  if (b0.has) { replica.map_[0] = Item(0, b0.value); replica.last_modified_[0] = std::chrono::microseconds(b0.us); }
  std::function<void(MutationJournal&)> p = [&](MutationJournal& j) {
    after = after && w.runs == 1;  // persisted after the transaction was run
    logged = j.commit_log.size();
    replay<ItemPersistedUpdated, ItemPersistedDeleted>(j, replica);
  };
  on_persist = &p;
  int f2_runs = 0;
  int64_t f2_arg = 0;
  bool f2_after = true, f2_locked = true;
  const auto f2 = [&](int64_t x) {
    ++f2_runs; f2_arg = x; f2_locked = f2_locked && irv_locked(stream_mutex);
    f2_after = f2_after && (!rw || (w.how == RETURN ? g.persisted == 1 : g.persisted == 0));
  };
  Outcome o;
  const storage_t& cs = w.s;
  if (kind == INT) {
    if (rw) o = outcome_of_int([&] { return w.s.ReadWriteTransaction([&](fields_t& f) -> int64_t { w.mutate(f); w.leave(); return w.ret; }); });
    else o = outcome_of_int([&] { return cs.ReadOnlyTransaction([&](const fields_t&) -> int64_t { w.look(); w.leave(); return w.ret; }); });
  } else if (kind == VOID) {
    if (rw) o = outcome_of_void([&] { return w.s.ReadWriteTransaction([&](fields_t& f) { w.mutate(f); w.leave_void(); }); });
    else o = outcome_of_void([&] { return cs.ReadOnlyTransaction([&](const fields_t&) { w.look(); w.leave_void(); }); });
  } else {
    if (rw) o = outcome_of_void([&] { return w.s.ReadWriteTransaction([&](fields_t& f) -> int64_t { w.mutate(f); w.leave(); return w.ret; }, f2); });
    else o = outcome_of_void([&] { return cs.ReadOnlyTransaction([&](const fields_t&) -> int64_t { w.look(); w.leave(); return w.ret; }, f2); });
  }
  irv_check(w.unlocked(), "the publishing mutex is released after the transaction");
  irv_check(w.journal_empty(), "nothing of the transaction is left behind for the next one");
  irv_check(w.locked_in_f, "the transaction runs under the publishing mutex");
  const Snap a0(w.d(), 0), a1(w.d(), 1);
  const bool same = a0.same(b0) & a1.same(b1);
  if (gate == SHUTDOWN || (rw && gate == FOLLOWER)) {
    irv_check(w.runs == 0 && g.persisted == 0 && same && f2_runs == 0, "a refused transaction is not run");
    irv_check(o.kind == (gate == SHUTDOWN ? 3 : 4), "a refused transaction reports why");
    irv_cover("refused");
    return;
  }
  irv_check(w.runs == 1, "the transaction is run exactly once");
  const bool with_value = kind == INT && w.how == ROLLBACK_VALUE;
  if (w.how == RETURN) {
    irv_check(o.kind == 0, "a transaction that returns is reported committed");
    if (kind == INT) irv_check(o.exists && o.value == w.ret, "the value returned is reported");
    if (rw) {
      irv_check(g.persisted == 1 && g.locked && after, "a committed transaction is persisted exactly once, under the mutex, after it was run");
      irv_check(Snap(replica, 0).same(a0) && Snap(replica, 1).same(a1), "the persisted mutations are those that the transaction made");
      irv_check(g.begin_us > 0 && g.begin_us <= g.end_us, "the persisted entry carries the begin and end time of the transaction");
    }
  } else {
    irv_check(g.persisted == 0, "nothing is persisted of a transaction that did not commit");
    irv_check(o.kind == (w.how == ERROR_ ? 2 : 1), "rollback and exceptions are reported as such");
    if (w.how == ERROR_) irv_check(o.value == w.err, "the exception reported is the one thrown");
    if (kind == INT && o.kind == 1) irv_check(o.exists == with_value && (!with_value || o.value == w.ret), "the value of a rollback is reported");
  }
  if (!rw || w.how != RETURN) irv_check(same, "a transaction that did not commit leaves the storage as it was");
  if (!rw) irv_check(g.persisted == 0, "a read-only transaction persists nothing");
  if (kind == TWO) {
    irv_check(f2_runs == (w.how == RETURN || w.how == ROLLBACK_VALUE ? 1 : 0), "the second step runs once when the first gave a value");
    if (f2_runs == 1) irv_check(f2_arg == w.ret && f2_after && f2_locked, "the second step gets the value after the first is persisted or rolled back");
  }
  irv_cover("end");
}
}  // namespace
IRV_HARNESS(rw_value) { run(true, INT); }
IRV_HARNESS(rw_void) { run(true, VOID); }
IRV_HARNESS(rw_two_steps) { run(true, TWO); }
IRV_HARNESS(ro_value) { run(false, INT); }
IRV_HARNESS(ro_void) { run(false, VOID); }
IRV_HARNESS(ro_two_steps) { run(false, TWO); }
// The second step of a two-step transaction throws: by then the first step is committed.
IRV_HARNESS(rw_second_step_throws) {
  World w;
  irv_assume(w.how == RETURN);
  std::function<void(MutationJournal&)> p = [](MutationJournal&) {};
  on_persist = &p;
  const bool rollback = irv::any<bool>();
  const Snap b0(w.d(), 0), b1(w.d(), 1);
  const Outcome o = outcome_of_void([&] {
    return w.s.ReadWriteTransaction([&](fields_t& f) -> int64_t { w.mutate(f); return w.ret; }, [&](int64_t) { if (rollback) CURRENT_STORAGE_THROW_ROLLBACK(); throw MyError(w.err); });
  });
  irv_check(w.unlocked() && w.journal_empty(), "the storage is ready for the next transaction");
  irv_check(g.persisted == 1, "the first step is persisted exactly once");
  if (rollback) irv_check(o.kind != 1, "a transaction that was persisted is not reported as rolled back");
  else irv_check(o.kind == 2 && o.value == w.err, "the exception reported is the one thrown");
  irv_cover("end");
}
