// irv-opt: sroa
// The in-memory persister: any number of entries, any interference of other threads allowed by the locking discipline.
#ifndef CURRENT_MOCK_TIME
#define CURRENT_MOCK_TIME
#endif
#include "irv_std.h"
#include <deque>
#include "blocks/persistence/memory.h"
namespace {
using us = std::chrono::microseconds;
using current::locks::MutexLockStatus;
CURRENT_STRUCT(E) {
  CURRENT_FIELD(x, int64_t, 0);
  CURRENT_CONSTRUCTOR(E)(int64_t x = 0) : x(x) {}
};
using persister_t = current::persistence::Memory<E>;
using container_t = current::persistence::impl::MemoryPersister<E>::Container;
using entry_t = container_t::entry_t;
#ifdef IRV_SYMBOLIC
int64_t havoc64() { return static_cast<int64_t>(irv_ghost_bits(64)); }
#endif

struct World {
  std::mutex publishing;
  persister_t p;
  container_t& c;
  int64_t head = -1;          // the true value of the head, while this thread does not own it
  bool interference = false;  // other threads publish and update the head whenever this one does not hold their locks
  bool real = false;          // the code under verification is running
  size_t n0 = 0;
  World() : p(publishing, current::ss::StreamNamespaceName("ns", "e")), c(*p.container_) {
    auto& clock = current::Singleton<current::time::MockNowImpl>();
    clock.mock_now_value = us(irv::any<int64_t>() & 0xff);
    clock.max_mock_now_value = us(1ll << 61);
#ifdef IRV_SYMBOLIC
    n0 = irv_ghost_bits(64);
    irv_assume(n0 < (1ull << 40));
    head = havoc64();
    irv_assume((head >= -1) & (head < (1ll << 62)));
    c.entries_.irv_make_symbolic(n0, build, this);
    c.entries_.irv_on_access(accessed, this);
    irv_monitor(&c.memory_persister_container_mutex_, this, reinterpret_cast<void*>(acquired), reinterpret_cast<void*>(released));
    hide();
    irv_assume((n0 == 0) | (head >= 0));
#else
    n0 = irv::any<uint8_t>() % 6;
    for (size_t i = 0; i < n0; ++i) {
      head += 1 + irv::any<uint8_t>() % 4;
      c.entries_.emplace_back(us(head), E(irv::any<int64_t>()));
    }
    if (n0 || irv::any<bool>()) head += irv::any<uint8_t>() % 3;
    c.head_ = us(head);
#endif
  }
  // Specification's view, which needs no lock.
  entry_t& peek(size_t i) {
#ifdef IRV_SYMBOLIC
    return c.entries_.irv_find(i);
#else
    return c.entries_[i];
#endif
  }
  size_t size() {
#ifdef IRV_SYMBOLIC
    return c.entries_.irv_size();
#else
    return c.entries_.size();
#endif
  }
  int64_t t(size_t i) { return peek(i).first.count(); }
  int64_t current_head() {
#ifdef IRV_SYMBOLIC
    return head;
#else
    return c.head_.count();
#endif
  }
  // Any position: what is said about it is said about every one.
  size_t any_index(size_t n) {
    const size_t i = irv::any<uint8_t>();
#ifdef IRV_SYMBOLIC
    const size_t j = i | irv_ghost_bits(64) << 8;
    irv_assume(j < n);
    return j;
#else
    irv_assume(n > 0);
    return i % n;
#endif
  }
  template <class F> auto call(F f) {
    struct Running { World& w; bool l; Running(World& w) : w(w), l(irv_locked(&w.publishing)) { w.real = true; } ~Running() {
      w.real = false;
      irv_check(!irv_locked(&w.c.memory_persister_container_mutex_) && irv_locked(&w.publishing) == l, "the locks are left as they were");
    } } r(*this);
    return f();
  }
#ifdef IRV_SYMBOLIC
  // An entry not seen yet: the timestamps strictly increase and do not exceed the head.
  static entry_t build(size_t i, void* ctx) {
    World& w = *reinterpret_cast<World*>(ctx);
    const int64_t t = havoc64();
    irv_assume((t >= 0) & (t <= w.head));
    w.c.entries_.irv_each_known([&](size_t k, const entry_t& e) {
      const int64_t d = e.first.count();
      irv_assume(((k < i) & (d < t)) | ((k > i) & (d > t)));
    });
    return entry_t(us(t), E(havoc64()));
  }
  static void accessed(void* ctx) {
    World& w = *reinterpret_cast<World*>(ctx);
    if (w.real) irv_check(irv_locked(&w.c.memory_persister_container_mutex_), "entries are accessed under the mutex that guards them");
  }
  int64_t poison = 0;
  void hide() { poison = havoc64(); c.head_ = us(poison); }
  static void acquired(void* ctx) {
    World& w = *reinterpret_cast<World*>(ctx);
    irv_check(w.c.head_.count() == w.poison, "the head is modified under the mutex that guards it");
    if (w.interference && !irv_locked(&w.publishing)) {
      const size_t more = irv_ghost_bits(64);
      irv_assume(more < (1ull << 20));
      const int64_t h = havoc64();
      irv_assume((h >= w.head) & (h < (1ll << 62)));
      irv_assume((more == 0) | (h > w.head));
      w.head = h;
      w.c.entries_.irv_grow(more);
      w.n0 += more;
    }
    w.c.head_ = us(w.head);
    w.n_in = w.c.entries_.irv_size();
  }
  size_t n_in = 0;
  static void released(void* ctx) {
    World& w = *reinterpret_cast<World*>(ctx);
    irv_check(irv_locked(&w.publishing) || (w.c.head_.count() == w.head && w.c.entries_.irv_size() == w.n_in), "publishing and moving the head is done under the mutex subscribers wait on");
    w.head = w.c.head_.count();
    w.hide();
  }
#endif
};
enum Result { DONE, INCONSISTENT, NO_ENTRIES, BAD_RANGE };
template <MutexLockStatus MLS> struct Held {
  World& w;
  Held(World& w) : w(w) { if (MLS == MutexLockStatus::AlreadyLocked) w.publishing.lock(); }
  ~Held() { if (MLS == MutexLockStatus::AlreadyLocked) w.publishing.unlock(); }
};
template <MutexLockStatus MLS> void publish(bool given) {
  World w;
  const int64_t t = given ? irv::any<int64_t>() : current::Singleton<current::time::MockNowImpl>().mock_now_value.count();
  const int64_t x = irv::any<int64_t>();
  const size_t n = w.n0;
  const int64_t head = w.head;
  const bool probe = n && irv::any<bool>();
  const size_t j = probe ? w.any_index(n) : 0;
  const entry_t before = probe ? w.peek(j) : entry_t();
  Result r = DONE;
  idxts_t idxts;
  int64_t expected = 0;
  {
    Held<MLS> h(w);
    try { idxts = w.call([&]() { return given ? w.p.Publish<MLS>(E(x), us(t)) : w.p.Publish<MLS>(E(x)); }); }
    catch (const current::ss::InconsistentTimestampException&) { r = INCONSISTENT; }
  }
  irv_check((r == DONE) == (t > head), "an entry is published exactly when its timestamp is above the head");
  irv_check(w.size() == n + (r == DONE), "exactly one entry is appended, or none");
  irv_check(w.current_head() == (r == DONE ? t : head), "the head is the timestamp of the entry published");
  if (r == DONE) {
    irv_check((idxts.index == n) & (idxts.us.count() == t), "the next index and the given timestamp are reported");
    irv_check((w.t(n) == t) & (w.peek(n).second.x == x), "the entry is stored as given");
  }
  if (probe) irv_check((w.t(j) == before.first.count()) & (w.peek(j).second.x == before.second.x), "entries published before are not changed");
  irv_cover("end");
}
template <MutexLockStatus MLS> void update_head(bool given) {
  World w;
  const int64_t t = given ? irv::any<int64_t>() : current::Singleton<current::time::MockNowImpl>().mock_now_value.count();
  const size_t n = w.n0;
  const int64_t head = w.head;
  Result r = DONE;
  {
    Held<MLS> h(w);
    try { w.call([&]() { if (given) w.p.UpdateHead<MLS>(us(t)); else w.p.UpdateHead<MLS>(); return 0; }); }
    catch (const current::ss::InconsistentTimestampException&) { r = INCONSISTENT; }
  }
  irv_check((r == DONE) == (t > head), "the head is moved exactly when the timestamp is above it");
  irv_check(w.current_head() == (r == DONE ? t : head), "the head only moves to the timestamp given");
  irv_check(w.size() == n, "moving the head publishes nothing");
  irv_cover("end");
}
// The state reported is that of one moment: the content does not change between the parts of one answer.
template <MutexLockStatus MLS> void queries() {
  World w;
  w.interference = true;
  Held<MLS> h(w);
  const uint64_t size = w.call([&]() { return w.p.Size<MLS>(); });
  irv_check(size == w.n0, "the size is the number of entries published");
  const bool empty = w.call([&]() { return w.p.Empty<MLS>(); });
  irv_check(empty == (w.n0 == 0), "empty means that nothing is published");
  const int64_t head = w.call([&]() { return w.p.CurrentHead<MLS>(); }).count();
  irv_check(head == w.current_head(), "the head is reported");
  Result r = DONE;
  idxts_t last;
  try { last = w.call([&]() { return w.p.LastPublishedIndexAndTimestamp<MLS>(); }); }
  catch (const current::persistence::NoEntriesPublishedYet&) { r = NO_ENTRIES; }
  irv_check((r == DONE) == (w.n0 > 0), "no last entry only when nothing is published");
  if (r == DONE) irv_check((last.index + 1 == w.n0) & (last.us.count() == w.t(w.n0 - 1)), "the last entry is reported");
  const auto both = w.call([&]() { return w.p.HeadAndLastPublishedIndexAndTimestamp<MLS>(); });
  irv_check(both.head.count() == w.current_head(), "the head is reported along with the last entry");
  irv_check(Exists(both.idxts) == (w.n0 > 0), "the last entry is reported along with the head exactly when there is one");
  if (Exists(both.idxts)) irv_check((Value(both.idxts).index + 1 == w.n0) & (Value(both.idxts).us.count() == w.t(w.n0 - 1)), "the last entry is reported along with the head");
  irv_cover("end");
}
template <MutexLockStatus MLS> void range_by_time() {
  World w;
  w.interference = true;
  Held<MLS> h(w);
  const int64_t from = irv::any<int64_t>(), till = irv::any<int64_t>();
  const auto r = w.call([&]() { return w.p.IndexRangeByTimestampRange<MLS>(us(from), us(till)); });
  const uint64_t none = static_cast<uint64_t>(-1);
  const size_t n = w.n0;
  irv_check(r.first == none || r.first < n, "the range begins at an entry");
  irv_check(r.second == none || r.second < n, "the range ends at an entry");
  if (n) {
    const size_t j = w.any_index(n);
    irv_check((w.t(j) >= from) == (r.first != none && j >= r.first), "the range begins with the first entry at or after the lower bound");
    if (till > 0) irv_check((w.t(j) > till) == (r.second != none && j >= r.second), "the range ends before the first entry after the upper bound");
    else irv_check(r.second == none, "without an upper bound the range has no end");
  }
  irv_cover("end");
}
template <MutexLockStatus MLS> void iterate() {
  World w;
  w.interference = true;
  Held<MLS> h(w);
  const uint64_t begin = irv::any<uint64_t>(), end = irv::any<uint64_t>();
  Result r = DONE;
  try {
    auto range = w.call([&]() { return w.p.Iterate<MLS>(begin, end); });
    const size_t n = w.n0;
    const uint64_t e = end == static_cast<uint64_t>(-1) ? n : end;
    irv_check((e <= n) & (begin <= e), "a range that is not within the entries published is refused");
    auto b = w.call([&]() { return range.begin(); });
    auto f = w.call([&]() { return range.end(); });
    irv_check((b == f) == (begin == e), "the range is empty exactly when it is asked to be");
    if (begin != e) {
      const size_t j = begin + w.any_index(e - begin);
      irv_assume((j >= begin) & (j < e));
      irv_check((b.i_ == begin) & (f.i_ == e), "the range has exactly the entries asked for");
      b.i_ = j;
      const auto v = w.call([&]() { return *b; });
      irv_check((v.idx_ts.index == j) & (v.idx_ts.us.count() == w.t(j)) & (v.entry.x == w.peek(j).second.x), "every position of the range yields its entry");
      ++b;
      irv_check(b.i_ == j + 1, "iteration proceeds one entry at a time");
    }
  } catch (const current::persistence::InvalidIterableRangeException&) {
    const size_t n = w.n0;
    const uint64_t e = end == static_cast<uint64_t>(-1) ? n : end;
    irv_check((e > n) | (begin > e), "a range within the entries published is accepted");
  }
  irv_cover("end");
}
template <MutexLockStatus MLS> void iterate_by_time() {
  World w;
  w.interference = true;
  Held<MLS> h(w);
  const int64_t from = irv::any<int64_t>(), till = irv::any<int64_t>();
  const size_t n = w.n0;  // published before
  try {
    auto range = w.call([&]() { return w.p.Iterate<MLS>(us(from), us(till)); });
    irv_check(till <= 0 || from <= till, "a range of timestamps that ends before it begins is refused");
    auto b = w.call([&]() { return range.begin(); });
    auto f = w.call([&]() { return range.end(); });
    irv_check((b.i_ <= f.i_) & (f.i_ <= w.n0), "the range is within the entries published");
    if (w.n0) {
      const size_t j = w.any_index(w.n0);
      const bool in = (j >= b.i_) & (j < f.i_);
      const bool wanted = (w.t(j) >= from) & ((till <= 0) | (w.t(j) <= till));
      irv_check(!in || wanted, "the range has only entries with timestamps asked for");
      irv_check(!wanted || j >= n || in, "the range has every entry with a timestamp asked for");
    }
  } catch (const current::persistence::InvalidIterableRangeException&) {
    irv_check(till > 0 && from > till, "a range of timestamps is refused only when it ends before it begins");
  }
  irv_cover("end");
}
// Publishing a line as it was stored: index and timestamp, a tab, the entry.
struct Line { bool tab, bad_idxts, bad_entry; uint64_t tab_at, index; int64_t t, x; std::string s; bool parsed_idxts = false, parsed_entry = false; } *line;
#ifdef IRV_SYMBOLIC
void same_bytes(const std::string& a, uint64_t from, uint64_t n) {
  irv_check(a.size() == n, "exactly the part of the line around the first tab is parsed");
  const uint64_t i = irv_ghost_bits(64);
  if (irv_decide(i < n)) irv_check(irv_str_at(&a, i) == irv_str_at(&line->s, from + i), "the part of the line around the first tab is parsed as it is");
}
// Contracts of the parser: a value, or an exception.
idxts_t parse_idxts(const std::string& s) {
  same_bytes(s, 0, line->tab_at);
  if (line->bad_idxts) throw current::serialization::json::InvalidJSONException("");
  return idxts_t(line->index, us(line->t));
}
E parse_entry(const std::string& s) {
  same_bytes(s, line->tab_at + 1, irv_str_len(&line->s) - line->tab_at - 1);
  if (line->bad_entry) throw current::serialization::json::InvalidJSONException("");
  return E(line->x);
}
#endif
template <MutexLockStatus MLS> void publish_line() {
  World w;
  Line l;
  line = &l;
  l.tab = irv::any<bool>();
  l.bad_idxts = irv::any<bool>();
  l.bad_entry = irv::any<bool>();
  l.index = irv::any<uint64_t>();
#ifndef IRV_SYMBOLIC
  if (l.index % 4) l.index = w.n0;
#endif
  l.t = irv::any<int64_t>();
  l.x = irv::any<int64_t>();
#ifdef IRV_SYMBOLIC
  irv_replace("ParseJSON<current::ss::CSI_IndexAndTimestamp.*[(]std::", reinterpret_cast<void*>(parse_idxts));
  irv_replace("ParseJSON<[^,]*::CSI_E<.*[(]std::", reinterpret_cast<void*>(parse_entry));
  irv::any_string(l.s);
  const uint64_t len = irv_str_len(&l.s);
  l.tab_at = l.s.find('\t');
  l.tab = l.tab_at != std::string::npos;
#else
  l.s = l.bad_idxts ? "{" : JSON(idxts_t(l.index, us(l.t)));
  l.tab_at = l.s.size();
  if (l.tab) l.s += "\t" + (l.bad_entry ? "}" : JSON(E(l.x)));
#endif
  const size_t n = w.n0;
  const int64_t head = w.head;
  bool done = true;
  idxts_t idxts;
  {
    Held<MLS> h(w);
    try { idxts = w.call([&]() { return w.p.template PersisterPublishUnsafeImpl<MLS>(l.s); }); }
    catch (const std::exception&) { done = false; }
  }
  irv_check(done == (l.tab & !l.bad_idxts & !l.bad_entry & (l.index == n) & (l.t > head)), "a stored line is published exactly when it is the next one");
  irv_check(w.size() == n + done, "exactly one entry is appended, or none");
  irv_check(w.current_head() == (done ? l.t : head), "the head is the timestamp of the entry published");
  if (done) irv_check((idxts.index == n) & (idxts.us.count() == l.t) & (w.t(n) == l.t) & (w.peek(n).second.x == l.x), "the entry is stored as it was");
  irv_cover("end");
}
}  // namespace
#define BOTH(name, f, ...) \
  IRV_HARNESS(name) { f<MutexLockStatus::NeedToLock>(__VA_ARGS__); } \
  IRV_HARNESS(name##_locked) { f<MutexLockStatus::AlreadyLocked>(__VA_ARGS__); }
BOTH(publish_at, publish, true)
BOTH(publish_now, publish, false)
BOTH(update_head_at, update_head, true)
BOTH(update_head_now, update_head, false)
BOTH(publish_line, publish_line)
BOTH(queries, queries)
BOTH(range_by_time, range_by_time)
BOTH(iterate, iterate)
BOTH(iterate_by_time, iterate_by_time)
