// Owned and Borrowed: registration is exact, the owner outlives its borrowers, no access after destruction.
#ifdef IRV_SYMBOLIC
#define IRV_SYM_MAP
#endif
#include "irv_std.h"
#include "bricks/sync/owned_borrowed.h"
#include <memory>
#include <new>
#include <vector>
namespace {
struct Thing {
  int64_t v;
  explicit Thing(int64_t v) : v(v) {}
};
using unique_t = current::sync::impl::UniqueInstance<Thing>;
using owned_t = current::Owned<Thing>;
using borrowed_t = current::Borrowed<Thing>;
using callback_t = current::BorrowedWithCallback<Thing>;
using weak_t = current::WeakBorrowed<Thing>;
int g_called[4];
void reset_called() { for (int& c : g_called) c = 0; }

// An object with any number of borrowers; other threads borrow and release it whenever the lock is free.
struct World {
  unique_t* u = nullptr;
  owned_t* owned = nullptr;
  size_t mine[4] = {0, 0, 0, 0};  // the borrowers that this thread has, which others do not release
  int n_mine = 0;
  bool others = true;             // other threads act whenever the lock is free
  bool dying = false;             // the owner is being destructed in another thread
  size_t total = 0, count = 0;    // while the lock is free
  size_t total_inside = 0, count_inside = 0;
  size_t sections = 0;
#ifdef IRV_SYMBOLIC
  using map_t = std::map<size_t, std::function<void()>>;
  size_t poison = 0;
  map_t aside;
  static std::function<void()> other(const size_t& k, void* p) { irv_assume(k >= 1 && k <= static_cast<World*>(p)->total); return []() {}; }
#endif
  std::vector<std::unique_ptr<borrowed_t>> more;
  void start(owned_t& o) {
    owned = &o;
    u = o.p_actual_instance_;
    const size_t extra = irv::any<uint8_t>() % 4;
#ifdef IRV_SYMBOLIC
    irv_abstract();
    (void)extra;
    n_mine = 0;
    reset_called();
    total = irv::havoc<size_t>();
    irv_assume(total < (1ull << 62));
    havoc_map(aside);
    count = aside.size();
    irv_trace_reset();
    irv_monitor(&u->mutex_, this, reinterpret_cast<void*>(acquired), reinterpret_cast<void*>(released));
    hide();
#else
    for (size_t i = 0; i < extra; ++i) more.push_back(std::make_unique<borrowed_t>(o));
    if (extra > 1) more.erase(more.begin());
#endif
  }
  size_t now_total() {
#ifdef IRV_SYMBOLIC
    return total;
#else
    return u->total_borrowers_spawned_throughout_lifetime_;
#endif
  }
  size_t now_count() {
#ifdef IRV_SYMBOLIC
    return count;
#else
    return u->borrowers_.size();
#endif
  }
  bool registered(size_t k) {
#ifdef IRV_SYMBOLIC
    return aside.count(k) == 1;
#else
    return u->borrowers_.count(k) == 1;
#endif
  }
  std::function<void()>& callback(size_t k) {
#ifdef IRV_SYMBOLIC
    return aside.at(k);
#else
    return u->borrowers_.at(k);
#endif
  }
  void have(size_t k) { mine[n_mine++] = k; }
  void have_not(size_t k) { for (int i = 0; i < n_mine; ++i) if (mine[i] == k) { mine[i] = mine[--n_mine]; return; } }
  void finish() {
    more.clear();
#ifdef IRV_SYMBOLIC
    // the destruction itself is verified separately
    irv_monitor(&u->mutex_, this, nullptr, nullptr);
    u->borrowers_.clear();
#endif
  }
#ifdef IRV_SYMBOLIC
  void hide() { poison = irv_ghost_bits(64); u->total_borrowers_spawned_throughout_lifetime_ = poison; }
  void havoc_map(map_t& m) {
    map_t fresh;
    fresh.irv_make_symbolic(other, this);
    size_t rest = fresh.size();
    for (int i = 0; i < n_mine; ++i) { fresh.irv_absent(mine[i]); fresh.emplace(mine[i], aside.at(mine[i])); }
    m = std::move(fresh);
    irv_assume(rest <= total);
  }
  static void acquired(void* p) {
    World& w = *static_cast<World*>(p);
    irv_check(w.u->total_borrowers_spawned_throughout_lifetime_ == w.poison && w.u->borrowers_.empty(), "the borrowers are registered and unregistered under the lock only");
    if (w.others) {
      const size_t t = irv_ghost_bits(64);
      irv_assume(t >= w.total && t < (1ull << 62));
      w.total = t;
      w.havoc_map(w.u->borrowers_);
    } else {
      w.u->borrowers_ = std::move(w.aside);
    }
    w.u->total_borrowers_spawned_throughout_lifetime_ = w.total;
    w.total_inside = w.total;
    w.count_inside = w.u->borrowers_.size();
    w.sections++;
  }
  static void released(void* p) {
    World& w = *static_cast<World*>(p);
    w.total = w.u->total_borrowers_spawned_throughout_lifetime_;
    w.count = w.u->borrowers_.size();
    w.aside = std::move(w.u->borrowers_);
    w.hide();
    if (w.dying && w.count == 0) {
      irv_check(w.count_inside == 0 || irv_trace_count("notify", &w.u->condition_variable_) > 0, "the owner that waits for its borrowers is notified as the last one leaves");
      irv_kill(w.u);  // the object may be gone as soon as the lock is released
    }
  }
#endif
};
owned_t& make() { return *new owned_t(Thing(irv::any<int64_t>())); }

template <class B> void registered_as(World& w, B& b, const weak_t& from, size_t t0, bool quiet) {
  (void)quiet;
  irv_check(b.p_actual_instance_ == w.u && &*b == &w.u->instance_, "a borrower uses the object that is owned");
#ifdef IRV_SYMBOLIC
  irv_check(w.total == w.total_inside + 1 && w.count == w.count_inside + 1, "a borrower is registered once");
#else
  irv_check(w.now_total() == t0 + 1, "a borrower is registered once");
#endif
  irv_check(b.key_ == w.now_total() && b.key_ > t0 && b.key_ != from.key_, "a borrower is registered under a key that no other one has had");
  irv_check(w.registered(b.key_), "the borrower is registered");
  irv_check(!irv_locked(&w.u->mutex_), "the lock is released");
}
void borrow(bool from_borrowed, bool with_callback) {
  owned_t& o = make();
  World w; w.start(o);
  borrowed_t& first = *new borrowed_t(o);
  w.have(first.key_);
  const size_t t0 = w.now_total();
  const weak_t& from = from_borrowed ? static_cast<const weak_t&>(first) : o;
  if (with_callback) {
    callback_t& b = *new callback_t(from, []() { ++g_called[1]; });
    registered_as(w, b, from, t0, false);
    const int before = g_called[1];
    w.callback(b.key_)();
    irv_check(g_called[1] == before + 1, "the callback registered is the one given");
    b.key_ = 0;
#ifndef IRV_SYMBOLIC
    w.u->borrowers_.erase(w.now_total());
#endif
  } else {
    borrowed_t& b = from_borrowed ? *new borrowed_t(first) : *new borrowed_t(o);
    registered_as(w, b, from, t0, false);
#ifndef IRV_SYMBOLIC
    b = nullptr;
#endif
  }
  irv_check(w.registered(first.key_) && first.p_actual_instance_ == w.u, "other borrowers stay registered");
#ifndef IRV_SYMBOLIC
  first = nullptr;
  w.more.clear();
  delete &o;
#endif
  irv_cover("end");
}
// A borrower leaves: by the end of its scope, or by having nullptr assigned.
void leave(int how) {
  owned_t& o = make();
  World w; w.start(o);
  borrowed_t& first = *new borrowed_t(o);
  w.have(first.key_);
  borrowed_t* second = new borrowed_t(o);
  w.have(second->key_);
  const size_t k1 = first.key_, k2 = second->key_;
  const bool only = irv::any<bool>();
  if (only) { first = nullptr; w.have_not(k1); }
  w.dying = irv::any<bool>();
#ifdef IRV_SYMBOLIC
  irv_trace_reset();
  if (w.dying) w.u->destructing_ = true;
#else
  if (w.dying) w.u->destructing_ = true;
#endif
  const size_t c0 = w.now_count();
  (void)c0;
  if (how == 0) delete second;
  else { *second = nullptr; irv_check(second->key_ == 0 && second->p_actual_instance_ == nullptr && !second->IsValid(), "a borrower that left is not valid"); }
#ifdef IRV_SYMBOLIC
  irv_check(w.count + 1 == w.count_inside && w.total == w.total_inside, "exactly one borrower is unregistered");
  if (how == 1 && irv::any<bool>()) { const size_t s = w.sections; delete second; irv_check(w.sections == s, "a borrower that left does not use the object any more"); }
#else
  irv_check(w.now_count() + 1 == c0, "exactly one borrower is unregistered");
  if (how == 1 && irv::any<bool>()) delete second;
#endif
  w.have_not(k2);
  irv_check(!w.registered(k2), "the borrower is not registered any more");
  if (!only) irv_check(w.registered(k1), "other borrowers stay registered");
#ifndef IRV_SYMBOLIC
  if (!only) first = nullptr;
  w.more.clear();
  delete &o;
#endif
  irv_cover("end");
}
// Moving a borrower keeps one registration; assigning over a borrower releases it.
void move_constructs(bool with_callback) {
  owned_t& o = make();
  World w; w.start(o);
  borrowed_t& first = *new borrowed_t(o);
  w.have(first.key_);
  const size_t k = first.key_, t0 = w.now_total(), c0 = w.now_count();
  (void)t0; (void)c0;
  weak_t* to;
  if (with_callback) to = new callback_t(std::move(static_cast<weak_t&>(first)), []() { ++g_called[2]; });
  else to = new borrowed_t(std::move(first));
#ifdef IRV_SYMBOLIC
  irv_check(w.count == w.count_inside && w.total == w.total_inside, "moving a borrower neither registers nor unregisters one");
#else
  irv_check(w.now_count() == c0 && w.now_total() == t0, "moving a borrower neither registers nor unregisters one");
#endif
  irv_check(w.registered(k) && to->key_ == k && to->p_actual_instance_ == w.u, "the registration is taken over");
  irv_check(first.key_ == 0 && !first.IsValid(), "a borrower moved from is not valid");
  if (with_callback) { const int before = g_called[2]; w.callback(k)(); irv_check(g_called[2] == before + 1, "the callback is replaced by the new one"); }
#ifdef IRV_SYMBOLIC
  { const size_t s = w.sections; delete &first; irv_check(w.sections == s, "a borrower moved from does not use the object any more"); }
#else
  delete &first;
  irv_check(w.now_count() == c0, "a borrower moved from does not use the object any more");
  w.u->borrowers_.erase(k);
  w.more.clear();
  delete &o;
#endif
  irv_cover("end");
}
template <class B> void move_assigns() {
  owned_t& o = make();
  World w; w.start(o);
  B& first = *new B(static_cast<weak_t&>(o));
  w.have(first.key_);
  B& second = *new B(static_cast<weak_t&>(o));
  w.have(second.key_);
  const size_t k1 = first.key_, k2 = second.key_, t0 = w.now_total();
  (void)t0;
  const bool released = irv::any<bool>(), self = irv::any<bool>();
  if (released) { first = nullptr; w.have_not(k1); }
  w.others = false;
  const size_t c0 = w.now_count(), t1 = w.now_total();
  if (self) {
    B& alias = second;
    second = std::move(alias);
    irv_check(w.now_count() == c0 && w.now_total() == t1, "assigning a borrower to itself changes nothing");
    irv_check(second.key_ == k2 && second.p_actual_instance_ == w.u && w.registered(k2), "the borrower stays registered");
    if (!released) irv_check(w.registered(k1), "other borrowers stay registered");
  } else {
    first = std::move(second);
    irv_check(first.key_ == k2 && first.p_actual_instance_ == w.u && w.registered(k2), "the registration is taken over");
    irv_check(!w.registered(k1) && w.now_count() == c0 - !released && w.now_total() == t1, "what was borrowed before is released");
    irv_check(second.key_ == 0 && !second.IsValid(), "a borrower moved from is not valid");
  }
#ifndef IRV_SYMBOLIC
  first = nullptr;
  if (self) second = nullptr;
  w.more.clear();
  delete &o;
#endif
  irv_cover("end");
}
void access() {
  owned_t& o = make();
  World w; w.start(o);
  borrowed_t& b = *new borrowed_t(o);
  w.have(b.key_);
  const borrowed_t& cb = b;
  const bool d = irv::any<bool>();
  w.u->destructing_ = d;
  irv_check(b.IsValid() == !d && bool(b) == !d && o.IsValid() == !d, "a borrower tells whether the object is being destructed");
  irv_check(&*b == &*o && &*cb == &*o && b.operator->() == &*o && cb.operator->() == &*o, "owner and borrowers use the same object");
  const int64_t x = irv::any<int64_t>();
  bool in = false;
  const int how = irv::any<uint8_t>() % 3;
  bool threw = false;
  if (how == 0) {
    b.ExclusiveUse([&](Thing& t) { in = irv_locked(&w.u->mutex_); t.v = x; });
    irv_check((*o).v == x, "the function is applied to the object");
  } else if (how == 1) {
    const int64_t r = cb.template ExclusiveUse<int64_t>([&](const Thing& t) { in = irv_locked(&w.u->mutex_); return t.v; });
    irv_check(r == (*o).v, "what the function returns is returned");
  } else {
    try { b.ExclusiveUse([&](Thing& t) { in = irv_locked(&w.u->mutex_); throw 1; }); } catch (int) { threw = true; }
    irv_check(threw, "an exception of the function reaches the caller");
  }
  irv_check(in, "exclusive use is under the lock");
  irv_check(!irv_locked(&w.u->mutex_), "the lock is released");
#ifdef IRV_SYMBOLIC
  const size_t n = b.NumberOfActiveBorrowers();
  irv_check(n == w.count_inside && n >= 1, "the number of borrowers is the number registered");
  const size_t t = b.TotalBorrowersSpawnedThroughoutLifetime();
  irv_check(t == w.total_inside, "the number of borrowers ever registered is told");
#else
  irv_check(b.NumberOfActiveBorrowers() == w.more.size() + 1, "the number of borrowers is the number registered");
  w.u->destructing_ = false;
  b = nullptr;
  w.more.clear();
  delete &o;
#endif
  irv_cover("end");
}
// Moving the owner: the object stays where it is; what the assigned owner owned before is destructed.
void owner_moves(bool assign) {
  owned_t& o = make();
  World w; w.start(o);
  borrowed_t& b = *new borrowed_t(o);
  w.have(b.key_);
  Thing* const t = &*o;
  const size_t c0 = w.now_count();
  (void)c0;
  owned_t* p;
  if (assign) {
    p = &make();
    Thing* const old = &*(*p);
    *p = std::move(o);
#ifdef IRV_SYMBOLIC
    irv_check(!irv_alive(old), "what was owned before is destructed");
#else
    (void)old;
#endif
  } else {
    p = new owned_t(std::move(o));
  }
  irv_check(&*(*p) == t && &*b == t && p->IsValid() && b.IsValid(), "the object stays as it is when its owner is moved");
  irv_check(!o.IsValid(), "an owner moved from is not valid");
#ifdef IRV_SYMBOLIC
  irv_check(irv_alive(t), "the object is not destructed by moving its owner");
  const size_t s = w.sections;
  delete &o;
  irv_check(w.sections == s && irv_alive(t), "an owner moved from does not use the object any more");
#else
  delete &o;
  irv_check(w.u->borrowers_.size() == c0, "the borrowers stay registered");
  b = nullptr;
  w.more.clear();
  delete p;
#endif
  irv_cover("end");
}
// ---------------------------------------------------------------- destruction, with up to three borrowers
struct Closing {
  unique_t* u = nullptr;
  int n = 0;
  callback_t* b[3] = {nullptr, nullptr, nullptr};
  bool leaves_in_callback[3] = {false, false, false};
  bool gone[3] = {false, false, false};
  bool locked_in_callback = false, not_marked = false, called_when_gone = false, slept_wrongly = false, slept_before = false;
  int called[3] = {0, 0, 0};
  void drop(int i) { if (b[i] && !gone[i]) { gone[i] = true; *b[i] = nullptr; } }
  void on_callback(int i) {
    ++called[i];
    if (gone[i]) called_when_gone = true;
    if (irv_locked(&u->mutex_)) locked_in_callback = true;
    if (!u->destructing_) not_marked = true;
    if (leaves_in_callback[i]) drop(i);
  }
#ifdef IRV_SYMBOLIC
  // While the owner sleeps, some of the borrowers leave.
  static void sleeping(void* p, void* cv, int) {
    Closing& c = *static_cast<Closing*>(p);
    if (cv != static_cast<void*>(&c.u->condition_variable_) || c.u->borrowers_.empty()) c.slept_wrongly = true;
    for (int i = 0; i < c.n; ++i) if (!c.called[i]) c.slept_before = true;
  }
  static void acquired(void* p) {
    Closing& c = *static_cast<Closing*>(p);
    if (c.u->destructing_) for (int i = 0; i < c.n; ++i) if (c.called[i] && !c.gone[i] && irv_ghost_bits(1)) {
      c.gone[i] = true;
      c.u->borrowers_.erase(c.b[i]->key_);
    }
  }
#endif
};
void destroy(bool cross) {
  Closing& c = *new Closing();
  alignas(owned_t) static char place[sizeof(owned_t)];
  owned_t* o = new (place) owned_t(Thing(1));
  c.u = o->p_actual_instance_;
  c.n = cross ? 2 : irv::any<uint8_t>() % 4;
  if (!cross) irv_concretize(c.n);
  for (int i = 0; i < 3; ++i) if (i < c.n) {
    c.b[i] = new callback_t(*o, [&c, i, cross]() { c.on_callback(i); if (cross && i == 0) c.drop(1); });
    c.leaves_in_callback[i] = true;
#ifdef IRV_SYMBOLIC
    if (!cross) c.leaves_in_callback[i] = irv_decide(irv::any<bool>());
#endif
  }
#ifdef IRV_SYMBOLIC
  irv_on_sleep(reinterpret_cast<void*>(Closing::sleeping), &c);
  if (!cross) irv_monitor(&c.u->mutex_, &c, reinterpret_cast<void*>(Closing::acquired), nullptr);
#endif
  o->~owned_t();
  irv_check(!c.called_when_gone, "the callback of a borrower is not called once the borrower left");
  if (!cross) for (int i = 0; i < 3; ++i) if (i < c.n) irv_check(c.called[i] == 1, "every borrower is told once that the object is being destructed");
  for (int i = 0; i < 3; ++i) if (i < c.n) irv_check(c.gone[i], "the object is destructed only after all its borrowers left");
  irv_check(!c.locked_in_callback && !c.not_marked, "borrowers are told without the lock, as the object is marked as being destructed");
  irv_check(!c.slept_wrongly && !c.slept_before, "the owner sleeps only while there are borrowers, all of them told");
  irv_cover("end");
}
}  // namespace
IRV_HARNESS(borrow_from_owner) { borrow(false, false); }
IRV_HARNESS(borrow_from_borrower) { borrow(true, false); }
IRV_HARNESS(borrow_with_callback) { borrow(irv::any<bool>(), true); }
IRV_HARNESS(leave_by_scope) { leave(0); }
IRV_HARNESS(leave_by_nullptr) { leave(1); }
IRV_HARNESS(move_construct) { move_constructs(false); }
IRV_HARNESS(move_into_callback) { move_constructs(true); }
IRV_HARNESS(move_assign) { move_assigns<borrowed_t>(); }
IRV_HARNESS(move_assign_guaranteed) { move_assigns<current::BorrowedOfGuaranteedLifetime<Thing>>(); }
IRV_HARNESS(access) { access(); }
IRV_HARNESS(owner_move) { owner_moves(false); }
IRV_HARNESS(owner_move_assign) { owner_moves(true); }
IRV_HARNESS(bounded_destroy) { destroy(false); }
IRV_HARNESS(callback_after_leave) { destroy(true); }
