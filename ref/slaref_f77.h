// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.

#ifndef SLAREF_F77_UTILS_H_INCLUDED
#define SLAREF_F77_UTILS_H_INCLUDED
#include <cmath>
#include <type_traits>
namespace slaref {
template <class A, class B> inline auto r_max(A a, B b) -> typename std::common_type<A, B>::type { typename std::common_type<A, B>::type x = a, y = b; return x < y ? y : x; }
template <class A, class B> inline auto r_min(A a, B b) -> typename std::common_type<A, B>::type { typename std::common_type<A, B>::type x = a, y = b; return y < x ? y : x; }

template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
inline T f_sign(T a, T b) {
    const T aa = std::abs(a);
    return b >= 0.0? aa: -aa;
}
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
inline int f_nint(T n) { return (int) std::round(n); }
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
inline LDBL f_aint(T n) { return std::trunc(n); }
template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
inline LDBL f_anint(T n) { return std::round(n); }
} 
#endif 
