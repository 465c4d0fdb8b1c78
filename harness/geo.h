// Small extended-precision spherical geometry used by the independent oracles.
#pragma once
#include "vp.h"
struct V3 { LD x, y, z; };
inline V3 sph(LD a, LD b) { return {std::cos(a) * std::cos(b), std::sin(a) * std::cos(b), std::sin(b)}; }
inline LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator*(LD s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline V3 unit(V3 a) { LD n = len(a); return n > 0 ? (1 / n) * a : a; }
inline LD angsep(V3 a, V3 b) { return std::atan2(len(cross(a, b)), dot(a, b)); }
template <class T> inline V3 v3(const T* p) { return {(LD) p[0], (LD) p[1], (LD) p[2]}; }
inline V3 mulT(const LD m[9], V3 v) { return {m[0] * v.x + m[3] * v.y + m[6] * v.z, m[1] * v.x + m[4] * v.y + m[7] * v.z, m[2] * v.x + m[5] * v.y + m[8] * v.z}; }
inline V3 mul(const LD m[9], V3 v) { return {m[0] * v.x + m[1] * v.y + m[2] * v.z, m[3] * v.x + m[4] * v.y + m[5] * v.z, m[6] * v.x + m[7] * v.y + m[8] * v.z}; }
inline void mmul(const LD a[9], const LD b[9], LD c[9]) { LD t[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[3 * i + j] = 0; for (int k = 0; k < 3; k++) t[3 * i + j] += a[3 * i + k] * b[3 * k + j]; } for (int q = 0; q < 9; q++) c[q] = t[q]; }
inline void axrot(int axis, LD ang, LD m[9]) {       // frame rotation about x(0), y(1), z(2) by ang (as seen looking towards the origin)
    LD c = std::cos(ang), s = std::sin(ang); for (int q = 0; q < 9; q++) m[q] = q % 4 == 0;
    if (axis == 0) { m[4] = c; m[5] = s; m[7] = -s; m[8] = c; }
    if (axis == 1) { m[0] = c; m[2] = -s; m[6] = s; m[8] = c; }
    if (axis == 2) { m[0] = c; m[1] = s; m[3] = -s; m[4] = c; }
}
inline LD orthoerr(const LD m[9]) { LD e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD s = 0; for (int k = 0; k < 3; k++) s += m[3 * i + k] * m[3 * j + k]; e = std::max(e, std::fabs(s - (i == j))); } return e; }
inline LD det3(const LD m[9]) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
template <class T> inline void m9(const T (*m)[3], LD o[9]) { for (int q = 0; q < 9; q++) o[q] = m[q / 3][q % 3]; }
inline LD mdiff(const LD a[9], const LD b[9]) { LD e = 0; for (int q = 0; q < 9; q++) e = std::max(e, std::fabs(a[q] - b[q])); return e; }
