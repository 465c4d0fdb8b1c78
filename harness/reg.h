// Helpers for registering API entry points: each body is compiled twice, against the library and against the shadow model.
#pragma once
#include "vp.h"
#include "slalib.h"
#include "slaref.h"
#define VIN(T, n, p) GArr<T, 3> n(p)
#define VOUT(T, n) PArr<T, 3> n
#define MIN_(T, n, p) GMat<T> n(p)
#define MOUT(T, n) PMat<T> n
#define SIN_(T, n, a, b) Guard<L::Spherical<T>> n(L::Spherical<T>{(T) (a), (T) (b)})
#define SOUT(T, n) P<L::Spherical<T>> n
#define PUTS(n, k) o[k] = n.v.s_a; o[(k) + 1] = n.v.s_b
#define ROUT(T, n) P<T> n
template <class T> std::vector<T> n_of(int n, T v) { return std::vector<T>(n, v); }
inline Out lp(double s = 1.0) { return {'p', s}; }     // longitude of a longitude/latitude pair (weighted by cos latitude)
inline Out sc() { return {'S', 0}; }                    // value = absolute noise scale of the following outputs
inline std::vector<Out> lonlat(double s = 1.0) { return {lp(s), rl(s)}; }
#define DECODE_CHARS(buf, p, n, alphabet) char buf[(n) + 1]; for (int q = 0; q < (n); q++) buf[q] = (alphabet)[(int) (p)[q]]; buf[n] = 0
void post_rot9(Rng& r, double* x);       // x[0..8]: mostly rotation matrices
void post_none(Rng& r, double* x);

template <class T> T norm_n(const T* p, int n) { T q = 0; for (int k = 0; k < n; k++) q += p[k] * p[k]; return std::sqrt(q); }
// noise amplification 1/sin(separation) for bearings between directions given as two vectors / two longitude-latitude pairs
template <class T> T inv_sep_v(const T* a, const T* b) {
    T c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    T n = norm_n(c, 3), d = norm_n(a, 3) * norm_n(b, 3);
    return n > 0 ? d / n : (T) 0;
}
template <class T> T inv_sep_s(T a1, T b1, T a2, T b2) {
    T u[3] = {std::cos(a1) * std::cos(b1), std::sin(a1) * std::cos(b1), std::sin(b1)}, v[3] = {std::cos(a2) * std::cos(b2), std::sin(a2) * std::cos(b2), std::sin(b2)};
    return inv_sep_v(u, v);
}
