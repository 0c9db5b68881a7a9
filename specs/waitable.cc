// WaitableAtomic and WaitableTerminateSignal: mutual exclusion, no lost wake-up, no wait that outlives the object.
#include "irv_std.h"
#include "bricks/sync/waitable_atomic.h"
#include "bricks/util/waitable_terminate_signal.h"
#include <chrono>
#include <new>
namespace {
// The predicate of a waiter: any function of the value, evaluated under the lock only.

bool predicate_of(int64_t v) {
#ifdef IRV_SYMBOLIC
  return irv_uf("predicate", static_cast<uint64_t>(v), 0, 0) & 1;
#else
  return (v & 1) != 0;
#endif
}
template <class A> struct World {
  A& a;
  int64_t value = 0;      // the true value while no lock is held by this thread
  int64_t inside = 0;     // the value as it was when this thread took the lock
  int notified_inside = 0;
  bool owed = false;      // a change was made by this thread that waiters are not notified of
  bool others = true;     // other threads change the value whenever the lock is free
  explicit World(A& a) : a(a) {
    value = irv::any<int64_t>();
    a.data_ = value;
#ifdef IRV_SYMBOLIC
    irv_abstract();
    irv_trace_reset();
    irv_monitor(&a.data_mutex_, this, reinterpret_cast<void*>(acquired), reinterpret_cast<void*>(released));
    hide();
#endif
  }
  int64_t now() {
#ifdef IRV_SYMBOLIC
    return value;
#else
    return a.data_;
#endif
  }
  int64_t inside_value() { return a.data_; }
  bool locked() { return irv_locked(&a.data_mutex_); }
#ifdef IRV_SYMBOLIC
  int64_t poison = 0;
  int count() { return irv_trace_count("notify_all", &a.data_condition_variable_); }
  void hide() { poison = static_cast<int64_t>(irv_ghost_bits(64)); a.data_ = poison; }
  static void acquired(void* p) {
    World& w = *static_cast<World*>(p);
    irv_check(w.a.data_ == w.poison, "the value is modified under the lock only");
    if (w.others) w.value = static_cast<int64_t>(irv_ghost_bits(64));
    w.a.data_ = w.value;
    w.inside = w.value;
    w.notified_inside = w.count();
  }
  static void released(void* p) {
    World& w = *static_cast<World*>(p);
    // A notification made before the change does not count: there is no way to tell, so it has to be made at the end.
    if (w.a.data_ != w.inside && w.count() == w.notified_inside) w.owed = true;
    w.value = w.a.data_;
    w.hide();
  }
  void settle() { irv_check(!owed || count() > notified_inside, "threads that wait are notified of a change"); }
#else
  void settle() {}
#endif
};
struct MyError {};
using atomic_t = current::WaitableAtomic<int64_t>;
using intrusive_t = current::WaitableAtomic<int64_t, true>;
enum Op { SET, SET_IF, MUTABLE_USE, MUTABLE_THROWS, POTENTIALLY, SCOPED, SCOPED_UNMODIFIED };
template <class A> void mutate(Op op) {
  A a;
  World<A> w(a);
  w.others = false;
  const int64_t v0 = w.value, x = irv::any<int64_t>();
  const bool yes = irv::any<bool>();
  bool in = false, pass = false, threw = false;
  int64_t seen = v0, expect = x;
  const auto visit = [&](int64_t& d) { in = w.locked(); seen = d; d = x; };
  switch (op) {
    case SET: a.SetValue(x); in = true; break;
    case SET_IF: a.SetValueIf([&](const int64_t& d) { in = w.locked(); seen = d; return yes; }, x); if (!yes) expect = v0; break;
    case MUTABLE_USE: pass = a.MutableUse([&](int64_t& d) { visit(d); return yes; }) == yes; irv_check(pass, "what the function returns is returned"); break;
    case MUTABLE_THROWS:
      try { a.MutableUse([&](int64_t& d) { visit(d); if (yes) throw MyError(); return true; }); } catch (const MyError&) { threw = true; }
      irv_check(threw == yes, "an exception of the function reaches the caller");
      break;
    case POTENTIALLY:
      pass = a.PotentiallyMutableUse([&](int64_t& d) { in = w.locked(); seen = d; if (yes) d = x; return yes; }) == yes;
      irv_check(pass, "what the function returns is returned");
      if (!yes) expect = v0;
      break;
    case SCOPED: { auto s = a.MutableScopedAccessor(); visit(*s); break; }
    case SCOPED_UNMODIFIED: { auto s = a.MutableScopedAccessor(); in = w.locked(); seen = *s; s.MarkAsUnmodified(); expect = v0; break; }
  }
  irv_check(in, "the value is used under the lock");
  irv_check(seen == v0, "the current value is seen");
  irv_check(w.now() == expect, "the value becomes what it is set to");
  irv_check(!w.locked(), "the lock is released");
  w.settle();
  irv_cover("end");
}
template <class A> void look() {
  A a;
  World<A> w(a);
  const int64_t got = a.GetValue();
  irv_check(got == w.now(), "the current value is returned");
  bool in = false;
  const int64_t r = a.ImmutableUse([&](const int64_t& d) { in = w.locked(); return d; });
  irv_check(in, "the value is used under the lock");
  irv_check(r == w.now(), "what the function returns is returned");
  {
    auto s = a.ImmutableScopedAccessor();
    irv_check(w.locked() && *s == w.inside_value(), "the accessor holds the lock and shows the current value");
  }
  irv_check(!w.locked(), "the lock is released");
  irv_cover("end");
}
template <class A> void wait(bool with_time) {
  A a;
  World<A> w(a);
  bool in = true;
  int64_t last = 0;
  const auto pred = [&](const int64_t& d) { in = in && w.locked(); last = d; return predicate_of(d); };
#ifdef IRV_SYMBOLIC
  const int64_t ms = irv::any<uint32_t>();
#else
  const int64_t ms = 2;
  if (!with_time) irv_assume(predicate_of(w.value));
#endif
  const bool r = with_time ? a.WaitFor(pred, std::chrono::milliseconds(ms)) : a.Wait(pred);
  irv_check(in, "the condition is evaluated under the lock");
  irv_check(last == w.now(), "the wait ends with the value the condition was evaluated on");
  irv_check(r == predicate_of(w.now()), "the wait succeeds exactly when the condition holds as it ends");
  if (!with_time) irv_check(r, "a wait without a time limit ends only as the condition holds");
  irv_check(!w.locked(), "the lock is released");
  irv_cover("end");
}

// ---- the intrusive one: clients, and destruction
struct IWorld {
  intrusive_t& a;
  int64_t value = 0, inside = 0, poison = 0;
  bool destructing = false, was_destructing = false, owed = false;
  size_t clients = 0, mine = 1;   // registered by other threads; the rest of the counter
  bool closing = false;           // this thread destroys the object
  bool leaving = false;           // this thread has unregistered its client: the object may be gone once the lock is free
  int at_entry = 0;
  size_t count_inside = 0;
  explicit IWorld(intrusive_t& a) : a(a) {
    value = irv::any<int64_t>();
    clients = irv::any<uint8_t>() % 5;
    destructing = irv::any<bool>();
    a.data_ = value;
#ifdef IRV_SYMBOLIC
    irv_abstract();
#endif
  }
  void start() {
    if (closing) destructing = false;
    mine = destructing ? 0 : 1;    // the reference of the owner is given up as the destruction begins
    a.data_ = value;
    a.destructing_ = destructing;
    a.ref_count_ = clients + mine;
#ifdef IRV_SYMBOLIC
    irv_trace_reset();
    irv_monitor(&a.data_mutex_, this, reinterpret_cast<void*>(acquired), reinterpret_cast<void*>(released));
    irv_on_sleep(reinterpret_cast<void*>(sleeping), this);
#endif
  }
#ifdef IRV_SYMBOLIC
  bool waiter_of_data = true;
  int wakes() { return irv_trace_count("notify_all", &a.data_condition_variable_); }
  int releases() { return irv_trace_count("notify", &a.cv_); }
  static void acquired(void* p) {
    IWorld& w = *static_cast<IWorld*>(p);
    irv_check(w.a.ref_count_ == w.clients + w.mine && bool(w.a.destructing_) == w.destructing, "the state is modified under the lock only");
    if (!w.closing && irv::havoc<bool>() && !w.destructing) { w.destructing = true; --w.mine; }
    const size_t c = irv_ghost_bits(8);
    irv_assume(!w.destructing || c <= w.clients);
    w.clients = c;
    w.value = static_cast<int64_t>(irv_ghost_bits(64));
    w.a.data_ = w.value;
    w.a.ref_count_ = c + w.mine;
    w.a.destructing_ = w.destructing;
    w.was_destructing = w.destructing;
    w.at_entry = w.wakes();
    w.releases_at_entry = w.releases();
    w.count_inside = w.a.ref_count_;
  }
  int releases_at_entry = 0;
  static void released(void* p) {
    IWorld& w = *static_cast<IWorld*>(p);
    w.destructing = w.a.destructing_;
    if (w.destructing && !w.was_destructing && w.wakes() == w.at_entry) w.owed = true;
    w.mine = w.a.ref_count_ - w.clients;
    w.value = w.a.data_;
    if (w.leaving && w.a.ref_count_ < w.count_inside) {
      irv_check(w.a.ref_count_ > 0 || w.releases() > w.releases_at_entry, "the owner that waits for its clients is notified before the object may be gone");
      irv_kill(&w.a);
    }
  }
  // A thread may sleep only as long as nothing it waits for has happened.
  static void sleeping(void* p, void* cv, int timed) {
    IWorld& w = *static_cast<IWorld*>(p);
    if (cv == static_cast<void*>(&w.a.data_condition_variable_)) irv_check(!w.a.destructing_ && !predicate_of(w.a.data_), "a waiting thread sleeps only while its condition does not hold and the object is not being destroyed");
    else irv_check(w.a.ref_count_ > 0, "the destructor sleeps only while there are clients");
  }
#endif
};
void intrusive_wait(bool with_time) {
  intrusive_t& a = *new intrusive_t();
  IWorld w(a);
  bool in = true, seen = false;
  int64_t last = 0;
  const auto pred = [&](const int64_t& d) { in = in && irv_locked(&a.data_mutex_); last = d; seen = true; return predicate_of(d); };
#ifdef IRV_SYMBOLIC
  const int64_t ms = irv::any<uint32_t>();
#else
  const int64_t ms = 2;
  if (!with_time) irv_assume(w.destructing || predicate_of(w.value));
#endif
  w.start();
  const bool r = with_time ? a.WaitFor(pred, std::chrono::milliseconds(ms)) : a.Wait(pred);
  irv_check(in, "the condition is evaluated under the lock");
  const bool d = a.destructing_;
  if (r) irv_check(seen && last == w.value && predicate_of(last) && !d, "the wait succeeds only when the condition holds and the object is not being destroyed");
  else if (with_time) irv_check(d || !predicate_of(w.value), "the wait fails only when the condition does not hold as it ends, or the object is being destroyed");
  else irv_check(d, "a wait without a time limit fails only when the object is being destroyed");
  irv_check(!irv_locked(&a.data_mutex_), "the lock is released");
  irv_cover("end");
}
void client_registers() {
  intrusive_t& a = *new intrusive_t();
  IWorld w(a);
  w.start();
  const size_t before = w.clients + w.mine;
  (void)before;
  auto c = a.RegisterScopedClient();
  const size_t mine = w.mine;
#ifdef IRV_SYMBOLIC
  const bool registered = c.intrusive_object_ != nullptr;
  const bool d = w.was_destructing;  // at the moment of registration, under the lock
  irv_check(registered == !d, "a client is registered exactly when the object is not being destroyed");
  irv_check(mine == size_t(!d) + registered, "a registered client is counted once");
#else
  irv_check(a.ref_count_ == w.clients + w.mine + (w.destructing ? 0 : 1), "a registered client is counted once");
#endif
  auto c2 = std::move(c);
  irv_check(c.intrusive_object_ == nullptr, "a client moved from is not registered any more");
#ifdef IRV_SYMBOLIC
  irv_check(w.mine == mine, "moving a client does not change the count");
  const bool alive = c2;
  irv_check(alive == (registered && !w.destructing), "a client tells whether it is registered with an object that is not being destroyed");
#endif
  c2.intrusive_object_ = nullptr;
  irv_cover("end");
}
void client_leaves() {
  intrusive_t& a = *new intrusive_t();
  IWorld w(a);
  w.start();
  const bool registered = irv::any<bool>();
  {
    current::IntrusiveClient c(nullptr);
    if (registered) { c.intrusive_object_ = &a; ++w.mine; ++a.ref_count_; w.leaving = true; }
  }
#ifdef IRV_SYMBOLIC
  if (!registered) irv_check(irv_trace_count("lock", &a.data_mutex_) == 0, "a client that is not registered does not use the object");
  else irv_check(w.mine + w.clients + 1 == w.count_inside, "the client is not counted any more");
#else
  irv_check(a.ref_count_ == w.clients + (w.destructing ? 0 : 1), "the client is not counted any more");
#endif
  irv_cover("end");
}
struct OnDestruct : current::CustomWaitableAtomicDestructor {
  IWorld* w = nullptr;
  int calls = 0;
  void WaitableAtomicDestructing() override { ++calls; irv_check(!irv_locked(&w->a.data_mutex_) && w->a.destructing_, "the callback of the destruction is called as it begins, without the lock"); }
};
void destroy() {
  OnDestruct cb;
  const bool with_callback = irv::any<bool>();
  intrusive_t* a = new intrusive_t(with_callback ? &cb : nullptr);
  IWorld w(*a);
  cb.w = &w;
  w.closing = true;
#ifndef IRV_SYMBOLIC
  w.clients = 0;
#endif
  w.start();
  a->~intrusive_t();
  irv_check(w.clients == 0, "the object is not destroyed while it has clients");
  irv_check(cb.calls == with_callback, "the callback of the destruction is called once");
#ifdef IRV_SYMBOLIC
  irv_check(w.destructing, "the object is marked as being destroyed");
  irv_check(!w.owed || w.wakes() > w.at_entry, "threads that wait are notified of the destruction");
#endif
  irv_cover("end");
}
// ---- the signal to terminate
struct SWorld {
  std::mutex m;
  current::WaitableTerminateSignal s;
  bool happened = false, in = true;
  static void acquired(void* p) { SWorld& w = *static_cast<SWorld*>(p); w.happened = irv::havoc<bool>(); w.other_thread(); }
  void other_thread() { if (irv::havoc<bool>()) s.stop_signal_ = true; }
  // The signal is sent without the lock that the waiting thread holds, so that a notification may be missed.
  static void sleeping(void* p, void* cv, int timed) {
    SWorld& w = *static_cast<SWorld*>(p);
    irv_check(cv == static_cast<void*>(&w.s.condition_variable_), "the thread sleeps where it is notified");
    irv_check(timed, "a signal sent without the lock is noticed within a bounded time");
    irv_check(!w.happened, "the thread sleeps only while the condition it waits for does not hold");
  }
};
void wait_until() {
  SWorld& w = *new SWorld();
  w.happened = irv::any<bool>();
  w.s.stop_signal_ = irv::any<bool>();
#ifdef IRV_SYMBOLIC
  irv_abstract();
  irv_monitor(&w.m, &w, reinterpret_cast<void*>(SWorld::acquired), nullptr);
  irv_on_sleep(reinterpret_cast<void*>(SWorld::sleeping), &w);
  irv_loop("WaitableTerminateSignal::WaitUntil", 0, reinterpret_cast<void*>(+[](void* p) { SWorld& w = *static_cast<SWorld*>(p); w.happened = irv::havoc<bool>(); w.s.stop_signal_ = irv::havoc<bool>(); w.in = true; }),
           reinterpret_cast<void*>(+[](void* p) { return static_cast<SWorld*>(p)->in; }), &w);
#else
  irv_assume(w.happened || w.s.stop_signal_);
#endif
  std::unique_lock<std::mutex> lock(w.m);
  const bool r = w.s.WaitUntil(lock, [&]() { w.in = w.in && irv_locked(&w.m); return w.happened; });
  irv_check(lock.owns_lock() && irv_locked(&w.m), "the lock is held as the wait ends");
  irv_check(w.in, "the condition is evaluated under the lock");
  irv_check(r == bool(w.s.stop_signal_), "it is reported whether the thread has to terminate");
  irv_check(w.happened || w.s.stop_signal_, "the wait ends only as the condition holds or the thread has to terminate");
  irv_cover("end");
}
void signal() {
  current::WaitableTerminateSignal s;
  s.stop_signal_ = irv::any<bool>();
  const bool terminate = irv::any<bool>(), before = s;
#ifdef IRV_SYMBOLIC
  irv_trace_reset();
#endif
  if (terminate) s.SignalExternalTermination(); else s.NotifyOfExternalWaitableEvent();
  irv_check(bool(s) == (before || terminate), "the signal is set once it is sent, and not before");
#ifdef IRV_SYMBOLIC
  irv_check(irv_trace_count("notify_all", &s.condition_variable_) >= 1, "the waiting thread is notified");
#endif
  irv_cover("end");
}
void bulk() {
  current::WaitableTerminateSignalBulkNotifier b;
  current::WaitableTerminateSignal s[3];
  bool in[3];
  {
    for (int i = 0; i < 3; ++i) { in[i] = irv::any<bool>(); if (in[i]) b.RegisterPendingNotifier(s[i]); }
    if (irv::any<bool>()) { const int k = irv::any<uint8_t>() % 3; b.UnRegisterPendingNotifier(s[k]); in[k] = false; }
    if (irv::any<bool>()) { const int k = irv::any<uint8_t>() % 3; current::WaitableTerminateSignalBulkNotifier::Scope scope(b, s[k]); irv_check(b.active_signals_.count(&s[k]) == 1, "a signal is notified of events within its scope"); in[k] = false; }
  }
#ifdef IRV_SYMBOLIC
  irv_trace_reset();
#endif
  b.NotifyAllOfExternalWaitableEvent();
  for (int i = 0; i < 3; ++i) {
    irv_check(b.active_signals_.count(&s[i]) == in[i], "exactly the signals registered are notified");
#ifdef IRV_SYMBOLIC
    irv_check((irv_trace_count("notify_all", &s[i].condition_variable_) >= 1) == in[i], "exactly the signals registered are notified");
#endif
  }
  irv_cover("end");
}
}  // namespace
IRV_HARNESS(intrusive_set_value) { mutate<intrusive_t>(SET); }
IRV_HARNESS(intrusive_mutable_use) { mutate<intrusive_t>(MUTABLE_USE); }
IRV_HARNESS(intrusive_wait) { intrusive_wait(false); }
IRV_HARNESS(intrusive_wait_for) { intrusive_wait(true); }
IRV_HARNESS(client_registers) { client_registers(); }
IRV_HARNESS(client_leaves) { client_leaves(); }
IRV_HARNESS(destroy) { destroy(); }
IRV_HARNESS(wait_until) { wait_until(); }
IRV_HARNESS(signal) { signal(); }
IRV_HARNESS(bulk_notifier) { bulk(); }
IRV_HARNESS(set_value) { mutate<atomic_t>(SET); }
IRV_HARNESS(set_value_if) { mutate<atomic_t>(SET_IF); }
IRV_HARNESS(mutable_use) { mutate<atomic_t>(MUTABLE_USE); }
IRV_HARNESS(mutable_use_throws) { mutate<atomic_t>(MUTABLE_THROWS); }
IRV_HARNESS(potentially_mutable_use) { mutate<atomic_t>(POTENTIALLY); }
IRV_HARNESS(mutable_accessor) { mutate<atomic_t>(SCOPED); }
IRV_HARNESS(mutable_accessor_unmodified) { mutate<atomic_t>(SCOPED_UNMODIFIED); }
IRV_HARNESS(immutable_use) { look<atomic_t>(); }
IRV_HARNESS(wait) { wait<atomic_t>(false); }
IRV_HARNESS(wait_for) { wait<atomic_t>(true); }
