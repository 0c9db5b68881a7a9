// The clock: strictly increasing, and unique, over all threads and all jumps of the system clock.
#include "irv_std.h"
#include "bricks/time/chrono.h"
#include <atomic>
#include <set>
#include <thread>
#include <vector>
namespace {
using clock_type = current::time::EpochClockGuaranteeingMonotonicity;
struct World {
  clock_type c;
  int64_t at = 0, written = 0, reading = 0;
  bool wrote = false, read = false;
};
World* g = nullptr;
#ifdef IRV_SYMBOLIC
void rely(void* p) {
  World& w = *static_cast<World*>(p);
  const int64_t v = w.c.monotonic_now_us.load();
  const int64_t n = static_cast<int64_t>(irv_ghost_bits(64));
  irv_assume(n >= v && n < (1ll << 60));
  w.c.monotonic_now_us.store(n);
}
int guarantee(void* p, int64_t was, int64_t is) {
  World& w = *static_cast<World*>(p);
  irv_check(is > was, "the clock only moves forward");
  irv_check(!w.wrote, "the clock moves once per reading");
  w.at = was;
  w.written = is;
  w.wrote = true;
  return 1;
}
std::chrono::system_clock::time_point any_now() {
  const int64_t ns = static_cast<int64_t>(irv_ghost_bits(64));
  irv_assume(ns >= 0 && ns < (1ll << 62));
  g->reading = ns / 1000;
  g->read = true;
  return std::chrono::system_clock::time_point(std::chrono::nanoseconds(ns));
}
#endif
void reading() {
  World& w = *new World();
  g = &w;
  const int64_t v0 = irv::any<int64_t>();
  irv_assume(v0 >= 0 && v0 < (1ll << 60));
  w.c.monotonic_now_us = v0;
#ifdef IRV_SYMBOLIC
  irv_abstract();
  irv_shared(&w.c.monotonic_now_us, reinterpret_cast<void*>(rely), reinterpret_cast<void*>(guarantee), &w);
  irv_replace("std::chrono::_V2::system_clock::now", reinterpret_cast<void*>(any_now));
  irv_loop("EpochClockGuaranteeingMonotonicity::Now", 0, reinterpret_cast<void*>(+[](void* p) {
             World& w = *static_cast<World*>(p);
             w.reading = static_cast<int64_t>(irv_ghost_bits(64));
             w.read = true;
             const int64_t n = static_cast<int64_t>(irv_ghost_bits(64));
             irv_assume(n >= w.at && n < (1ll << 60));
             w.c.monotonic_now_us.store(n);
           }), reinterpret_cast<void*>(+[](void* p) { World& w = *static_cast<World*>(p); return !w.wrote && w.c.monotonic_now_us.load() >= w.at; }), &w);
  w.at = v0;
#endif
  const int64_t r = w.c.Now().count();
  irv_check(r > v0, "a reading is above all readings made before");
#ifdef IRV_SYMBOLIC
  irv_check(w.wrote && r == w.written, "the reading is the value that the clock was moved to, so that no other thread reads it");
  irv_check(w.read && r == (w.reading > w.at ? w.reading : w.at + 1), "the reading is that of the system clock, or else the next value");
#else
  irv_check(w.c.monotonic_now_us.load() == r, "the reading is the value that the clock was moved to, so that no other thread reads it");
  const int64_t sys = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  irv_check(r == v0 + 1 || r <= sys, "the reading is that of the system clock, or else the next value");
  if (v0 < sys - 5000000) irv_check(r > sys - 5000000, "the reading is that of the system clock, or else the next value");
#endif
  irv_cover("end");
}
// SleepUntil
int64_t g_slept = 0, g_sleeps = 0;
#ifdef IRV_SYMBOLIC
void sleep_for(const std::chrono::microseconds& us) { g_slept = us.count(); ++g_sleeps; }
#endif
void sleep_until() {
  g = new World();
  const int64_t v0 = irv::any<int64_t>();
  irv_assume(v0 >= 0 && v0 < (1ll << 60));
  auto& c = current::Singleton<clock_type>();
  const int64_t before = c.monotonic_now_us;
  (void)before;
#ifdef IRV_SYMBOLIC
  g_slept = g_sleeps = 0;
  c.monotonic_now_us = v0;
  irv_replace("std::chrono::_V2::system_clock::now", reinterpret_cast<void*>(any_now));
  irv_replace("void std::this_thread::sleep_for", reinterpret_cast<void*>(sleep_for));
  const int64_t moment = irv::any<int64_t>();
  irv_assume(moment >= 0 && moment < (1ll << 60));
  irv_abstract();
  current::time::SleepUntil(std::chrono::microseconds(moment));
  const int64_t now = c.monotonic_now_us;
  irv_check(now > v0, "a reading is above all readings made before");
  irv_check(g_sleeps ? g_sleeps == 1 && now < moment && g_slept == moment - now : now >= moment, "the thread sleeps exactly until the moment, if it is not yet past");
#else
  const int64_t delta = static_cast<int64_t>(irv::any<uint16_t>() % 3000) - 1500;
  const int64_t from = current::time::Now().count();
  current::time::SleepUntil(std::chrono::microseconds(from + delta));
  const int64_t till = current::time::Now().count();
  irv_check(till > from && till >= from + delta, "the thread sleeps exactly until the moment, if it is not yet past");
#endif
  irv_cover("end");
}
}  // namespace
IRV_HARNESS(reading) { reading(); }
IRV_HARNESS(sleep_until) { sleep_until(); }
#ifndef IRV_SYMBOLIC
// Bounded: four threads read the real clock concurrently.
IRV_HARNESS(bounded_threads) {
  clock_type c;
  if (irv::any<bool>()) c.monotonic_now_us = 1ll << 55;  // far ahead of the system clock: every reading is "the next value"
  std::vector<std::thread> t;
  std::vector<std::vector<int64_t>> r(4);
  std::atomic_int ready(0);
  for (int i = 0; i < 4; ++i) t.emplace_back([&, i]() { ++ready; while (ready < 4); for (int k = 0; k < 2000; ++k) r[i].push_back(c.Now().count()); });
  for (auto& x : t) x.join();
  std::set<int64_t> all;
  for (auto& l : r) for (size_t k = 0; k < l.size(); ++k) {
    irv_check(!k || l[k] > l[k - 1], "a reading is above all readings made before");
    irv_check(all.insert(l[k]).second, "no two readings are equal");
  }
  irv_cover("end");
}
#endif
