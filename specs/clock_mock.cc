// The mock clock: under its lock, never back.
#define CURRENT_MOCK_TIME
#include "irv_std.h"
#include "bricks/time/chrono.h"
namespace {
using us = std::chrono::microseconds;
using impl_t = current::time::MockNowImpl;
struct World {
  impl_t& impl = current::Singleton<impl_t>();
  int64_t value = 0, max = 0, inside = 0, inside_max = 0;
  int sections = 0;
  World() {
    value = irv::any<int64_t>();
    max = irv::any<int64_t>();
    irv_assume(value < INT64_MAX);
#ifdef IRV_SYMBOLIC
    irv_abstract();
    irv_monitor(&impl.mutex, this, reinterpret_cast<void*>(acquired), reinterpret_cast<void*>(released));
    hide();
#else
    inside = value;
    inside_max = max;
    impl.mock_now_value = us(value);
    impl.max_mock_now_value = us(max);
    sections = 1;
#endif
  }
  void end() {
#ifndef IRV_SYMBOLIC
    value = impl.mock_now_value.count();
    max = impl.max_mock_now_value.count();
    impl.mock_now_value = us(0);
#endif
    irv_check(!irv_locked(&impl.mutex) && sections == 1, "the clock is used in one step, under its lock");
  }
#ifdef IRV_SYMBOLIC
  int64_t poison = 0;
  void hide() { poison = static_cast<int64_t>(irv_ghost_bits(64)); impl.mock_now_value = us(poison); impl.max_mock_now_value = us(poison); }
  static void acquired(void* p) {
    World& w = *static_cast<World*>(p);
    irv_check(w.impl.mock_now_value.count() == w.poison && w.impl.max_mock_now_value.count() == w.poison, "the clock is changed under its lock only");
    w.value = static_cast<int64_t>(irv_ghost_bits(64));  // other threads
    w.max = static_cast<int64_t>(irv_ghost_bits(64));
    irv_assume(w.value < INT64_MAX);
    w.impl.mock_now_value = us(w.value);
    w.impl.max_mock_now_value = us(w.max);
    w.inside = w.value;
    w.inside_max = w.max;
    ++w.sections;
  }
  static void released(void* p) {
    World& w = *static_cast<World*>(p);
    w.value = w.impl.mock_now_value.count();
    w.max = w.impl.max_mock_now_value.count();
    w.hide();
  }
#endif
};
}  // namespace
IRV_HARNESS(mock_reading) {
  World& w = *new World();
  const int64_t r = current::time::Now().count();
  w.end();
  irv_check(r == w.inside, "the time that was set is read");
  irv_check(w.max == w.inside_max && w.value == (w.inside < w.max ? w.inside + 1 : w.inside), "the time moves on by one up to the given maximum");
  irv_cover("end");
}
IRV_HARNESS(mock_set) {
  World& w = *new World();
  const int64_t t = irv::any<int64_t>(), m = irv::any<int64_t>();
  const bool with_max = irv::any<bool>();
  irv_assume(t < INT64_MAX);
  bool threw = false;
#ifdef IRV_SYMBOLIC
  irv_replace("std::__cxx11::to_string", reinterpret_cast<void*>(+[](int64_t) -> std::string { return "N"; }));  // the text of the exception is not specified
#endif
  try { if (with_max) current::time::SetNow(us(t), us(m)); else current::time::SetNow(us(t)); } catch (const current::time::InconsistentSetNowException&) { threw = true; }
  w.end();
  irv_check(threw == (t < w.inside), "the time is not set back");
  if (threw) irv_check(w.value == w.inside && w.max == w.inside_max, "an attempt to set the time back changes nothing");
  else irv_check(w.value == t && w.max == (with_max ? m : 0), "the time and its maximum are set");
  irv_cover("end");
}
IRV_HARNESS(mock_reset) {
  World& w = *new World();
  current::time::ResetToZero();
  w.end();
  irv_check(w.value == 0 && w.max == 1000000000, "the time is reset");
  irv_cover("end");
}
