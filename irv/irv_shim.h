#ifndef IRV_SHIM_H
#define IRV_SHIM_H
#include "irv.h"
extern "C" void irv_unsupported(const char* why);
namespace irv {
// How an arbitrary value of a key type is recorded in a counterexample, and rebuilt by the replay.
template <class T>
std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value> record_key(const T& x) { irv_record_bits(static_cast<uint64_t>(x)); }
template <class T>
auto record_key_class(const T& x, int) -> decltype(x.irv_record()) { return x.irv_record(); }
template <class T>
void record_key_class(const T&, long) { irv_unsupported("a symbolic map with a key type that cannot be recorded"); }
template <class T>
std::enable_if_t<!(std::is_integral<T>::value || std::is_enum<T>::value)> record_key(const T& x) { record_key_class(x, 0); }
template <class A, class B>
void record_key(const std::pair<A, B>& x) { record_key(x.first); record_key(x.second); }
}
#endif
