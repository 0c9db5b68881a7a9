// Arbitrary standard containers for specs, in both worlds.
#ifndef IRV_STD_H
#define IRV_STD_H
#include "irv.h"
#ifdef IRV_SYMBOLIC
#include "irv_shim.h"
#endif
#include <unordered_map>
#include <map>
namespace irv {
template <class M, class B>
void any_map(M& m, B build) {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
#ifdef IRV_SYMBOLIC
  static_assert(std::is_empty<B>::value, "the builder must not capture");
  m.irv_make_symbolic([](const K& k, void*) -> V { return (*reinterpret_cast<const B*>(&k))(k); }, nullptr);
#else
  const int id = irv_map_begin();
  const int n = irv_map_size(id);
  for (int i = 0; i < n; ++i) {
    irv_map_entry(id, true);
    K k = any<K>();
    m.emplace(k, build(k));
    irv_map_entry_end();
  }
#endif
}
// Adds `rest` unnamed entries next to the known ones / makes it known that a key is absent.
template <class M>
void seal(M& m, size_t rest) {
#ifdef IRV_SYMBOLIC
  m.irv_seal(rest);
#endif
}
template <class M, class K>
void absent(M& m, const K& k) {
#ifdef IRV_SYMBOLIC
  m.irv_absent(k);
#endif
}
// A number which is arbitrary in the proof and zero in a native run.
inline size_t rest_count() {
#ifdef IRV_SYMBOLIC
  const size_t n = irv_ghost_bits(64);
  irv_assume(n <= (1ull << 40));
  return n;
#else
  return 0;
#endif
}
}
#endif
