// Specification intrinsics.  The same spec file is compiled twice: by clang to LLVM IR, where the verifier interprets
// the intrinsics symbolically, and natively together with irv_native.cc, where they read one concrete input (the
// verifier's counterexample, or a random one) so that a failed obligation is replayed against the real code.
#ifndef IRV_H
#define IRV_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>

extern "C" {
int irv_symbolic();
uint64_t irv_any_bits(int bits);
uint64_t irv_any_len(uint64_t max);
uint64_t irv_ghost_bits(int bits);
void irv_record_bits(uint64_t);
void irv_assume(bool);
void irv_check(bool, const char* label);
void irv_check_aux(bool, const char* label);
void irv_cover(const char* label);
void irv_fail(const char* label);
void irv_end();
void irv_dead();
void irv_replace(const char* regex, void* fn);
void irv_unreplace();
void irv_loop(const char* regex, int index, void* havoc, void* inv, void* ctx);
void* irv_local(const char* name);
void* irv_local_n(uint64_t size, int k);
void irv_monitor(void* mutex, void* ctx, void* on_acquire, void* on_release);
void irv_shared(void* location, void* rely, void* guarantee, void* ctx);
int irv_decide(bool);
uint64_t irv_concretize(uint64_t);
int irv_map_begin();
void irv_map_entry(int map, bool present);
void irv_map_entry_end();
void irv_trace(const char*);
int irv_trace_count(const char*, void*);
void irv_trace_reset();
int irv_locked(void*);
void irv_set_locked(void*, int);
void irv_any_string(void*, uint64_t maxlen);
void irv_any_string_n(void*, uint64_t len);
void irv_none_in(const void*, uint64_t from, uint64_t to, const char* chars);
void irv_havoc_string(void*);
uint64_t irv_str_len(const void*);
uint8_t irv_str_at(const void*, uint64_t);
void irv_abstract();
void irv_on_sleep(void* hook, void* ctx);
void irv_kill(void*);
void irv_debug(const char*, uint64_t);
int irv_alive(const void*);
uint64_t irv_uf(const char* name, uint64_t, uint64_t, uint64_t);
// Native only: number of entries of the n-th symbolic map in the replayed input.
int irv_map_size(int map);
}

// One proof obligation group: precondition (assume), call of the real code, postcondition (check).
#ifdef IRV_NATIVE
struct irv_reg { irv_reg(const char* name, void (*f)()); };
#define IRV_HARNESS(name)             \
  extern "C" void irvh_##name();      \
  static irv_reg irv_reg_##name(#name, irvh_##name); \
  extern "C" void irvh_##name()
#else
#define IRV_HARNESS(name) extern "C" void irvh_##name()
#endif

namespace irv {
template <class T>
inline T any() {
  static_assert(std::is_integral<T>::value || std::is_enum<T>::value, "any<T>");
  return static_cast<T>(irv_any_bits(std::is_same<T, bool>::value ? 1 : static_cast<int>(sizeof(T) * 8)));
}
template <class T>
inline T havoc() {
  return static_cast<T>(irv_ghost_bits(std::is_same<T, bool>::value ? 1 : static_cast<int>(sizeof(T) * 8)));
}
template <class T>
inline void record(T x) { irv_record_bits(static_cast<uint64_t>(x)); }
template <class T>
inline T& local(const char* name) { return *reinterpret_cast<T*>(irv_local(name)); }
inline void any_string(std::string& s, uint64_t maxlen = 1ull << 30) { irv_any_string(&s, maxlen); }
}  // namespace irv
#endif
