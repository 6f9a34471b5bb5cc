// Element-wise meaning of the vendored vector class library, for analysis only.
#pragma once
#include <math.h>
#ifdef VCL_NAMESPACE
namespace VCL_NAMESPACE {
#endif
class Vec2d {
public:
  double v0, v1;
  Vec2d() {}
  Vec2d(double x) { v0 = x; v1 = x; }
  Vec2d(double x0, double x1) { v0 = x0; v1 = x1; }
  Vec2d& load(double const* p) { v0 = p[0]; v1 = p[1]; return *this; }
  Vec2d& load_a(double const* p) { p = (double const*)__builtin_assume_aligned(p, 16); v0 = p[0]; v1 = p[1]; return *this; }
  void store(double* p) const { p[0] = v0; p[1] = v1; }
  void store_a(double* p) const { p = (double*)__builtin_assume_aligned(p, 16); p[0] = v0; p[1] = v1; }
  void store_nt(double* p) const { p = (double*)__builtin_assume_aligned(p, 16); p[0] = v0; p[1] = v1; }
  Vec2d& load_partial(int n, double const* p) { v0 = n > 0 ? p[0] : 0; v1 = n > 1 ? p[1] : 0; return *this; }
  void store_partial(int n, double* p) const { if (n > 0) p[0] = v0; if (n > 1) p[1] = v1; }
  Vec2d& cutoff(int n) { if (n <= 0) v0 = 0; if (n <= 1) v1 = 0; return *this; }
  double extract(int k) const { if (k == 0) return v0; return v1; }
  double operator[](int k) const { return extract(k); }
  Vec2d const insert(int k, double x) { if (k == 0) v0 = x; if (k == 1) v1 = x; return *this; }
  static int size() { return 2; }
};
static inline Vec2d operator+(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 + b.v0, a.v1 + b.v1); }
static inline Vec2d operator+(Vec2d const a, double b) { return Vec2d(a.v0 + b, a.v1 + b); }
static inline Vec2d operator+(double a, Vec2d const b) { return Vec2d(a + b.v0, a + b.v1); }
static inline Vec2d& operator+=(Vec2d& a, Vec2d const b) { a.v0 = a.v0 + b.v0; a.v1 = a.v1 + b.v1; return a; }
static inline Vec2d operator-(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 - b.v0, a.v1 - b.v1); }
static inline Vec2d operator-(Vec2d const a, double b) { return Vec2d(a.v0 - b, a.v1 - b); }
static inline Vec2d operator-(double a, Vec2d const b) { return Vec2d(a - b.v0, a - b.v1); }
static inline Vec2d& operator-=(Vec2d& a, Vec2d const b) { a.v0 = a.v0 - b.v0; a.v1 = a.v1 - b.v1; return a; }
static inline Vec2d operator*(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 * b.v0, a.v1 * b.v1); }
static inline Vec2d operator*(Vec2d const a, double b) { return Vec2d(a.v0 * b, a.v1 * b); }
static inline Vec2d operator*(double a, Vec2d const b) { return Vec2d(a * b.v0, a * b.v1); }
static inline Vec2d& operator*=(Vec2d& a, Vec2d const b) { a.v0 = a.v0 * b.v0; a.v1 = a.v1 * b.v1; return a; }
static inline Vec2d operator/(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 / b.v0, a.v1 / b.v1); }
static inline Vec2d operator/(Vec2d const a, double b) { return Vec2d(a.v0 / b, a.v1 / b); }
static inline Vec2d operator/(double a, Vec2d const b) { return Vec2d(a / b.v0, a / b.v1); }
static inline Vec2d& operator/=(Vec2d& a, Vec2d const b) { a.v0 = a.v0 / b.v0; a.v1 = a.v1 / b.v1; return a; }
static inline Vec2d operator-(Vec2d const a) { return Vec2d(-a.v0, -a.v1); }
static inline double horizontal_add(Vec2d const a) { return a.v0 + a.v1; }
static inline Vec2d log(Vec2d const a) { return Vec2d(::log(a.v0), ::log(a.v1)); }
static inline Vec2d exp(Vec2d const a) { return Vec2d(::exp(a.v0), ::exp(a.v1)); }
static inline Vec2d sqrt(Vec2d const a) { return Vec2d(::sqrt(a.v0), ::sqrt(a.v1)); }
static inline Vec2d abs(Vec2d const a) { return Vec2d(::fabs(a.v0), ::fabs(a.v1)); }
static inline Vec2d square(Vec2d const a) { return a * a; }
static inline Vec2d max(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 > b.v0 ? a.v0 : b.v0, a.v1 > b.v1 ? a.v1 : b.v1); }
static inline Vec2d min(Vec2d const a, Vec2d const b) { return Vec2d(a.v0 < b.v0 ? a.v0 : b.v0, a.v1 < b.v1 ? a.v1 : b.v1); }
static inline double horizontal_max(Vec2d const a) { double m = a.v0; if (a.v0 > m) m = a.v0; if (a.v1 > m) m = a.v1; return m; }
static inline Vec2d mul_add(Vec2d const a, Vec2d const b, Vec2d const c) { return Vec2d(a.v0 * b.v0 + c.v0, a.v1 * b.v1 + c.v1); }
static inline Vec2d mul_sub(Vec2d const a, Vec2d const b, Vec2d const c) { return Vec2d(a.v0 * b.v0 - c.v0, a.v1 * b.v1 - c.v1); }
static inline Vec2d nmul_add(Vec2d const a, Vec2d const b, Vec2d const c) { return Vec2d(c.v0 - a.v0 * b.v0, c.v1 - a.v1 * b.v1); }

class Vec4d {
public:
  double v0, v1, v2, v3;
  Vec4d() {}
  Vec4d(double x) { v0 = x; v1 = x; v2 = x; v3 = x; }
  Vec4d(double x0, double x1, double x2, double x3) { v0 = x0; v1 = x1; v2 = x2; v3 = x3; }
  Vec4d& load(double const* p) { v0 = p[0]; v1 = p[1]; v2 = p[2]; v3 = p[3]; return *this; }
  Vec4d& load_a(double const* p) { p = (double const*)__builtin_assume_aligned(p, 32); v0 = p[0]; v1 = p[1]; v2 = p[2]; v3 = p[3]; return *this; }
  void store(double* p) const { p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; }
  void store_a(double* p) const { p = (double*)__builtin_assume_aligned(p, 32); p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; }
  void store_nt(double* p) const { p = (double*)__builtin_assume_aligned(p, 32); p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; }
  Vec4d& load_partial(int n, double const* p) { v0 = n > 0 ? p[0] : 0; v1 = n > 1 ? p[1] : 0; v2 = n > 2 ? p[2] : 0; v3 = n > 3 ? p[3] : 0; return *this; }
  void store_partial(int n, double* p) const { if (n > 0) p[0] = v0; if (n > 1) p[1] = v1; if (n > 2) p[2] = v2; if (n > 3) p[3] = v3; }
  Vec4d& cutoff(int n) { if (n <= 0) v0 = 0; if (n <= 1) v1 = 0; if (n <= 2) v2 = 0; if (n <= 3) v3 = 0; return *this; }
  double extract(int k) const { if (k == 0) return v0; if (k == 1) return v1; if (k == 2) return v2; return v3; }
  double operator[](int k) const { return extract(k); }
  Vec4d const insert(int k, double x) { if (k == 0) v0 = x; if (k == 1) v1 = x; if (k == 2) v2 = x; if (k == 3) v3 = x; return *this; }
  static int size() { return 4; }
};
static inline Vec4d operator+(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 + b.v0, a.v1 + b.v1, a.v2 + b.v2, a.v3 + b.v3); }
static inline Vec4d operator+(Vec4d const a, double b) { return Vec4d(a.v0 + b, a.v1 + b, a.v2 + b, a.v3 + b); }
static inline Vec4d operator+(double a, Vec4d const b) { return Vec4d(a + b.v0, a + b.v1, a + b.v2, a + b.v3); }
static inline Vec4d& operator+=(Vec4d& a, Vec4d const b) { a.v0 = a.v0 + b.v0; a.v1 = a.v1 + b.v1; a.v2 = a.v2 + b.v2; a.v3 = a.v3 + b.v3; return a; }
static inline Vec4d operator-(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 - b.v0, a.v1 - b.v1, a.v2 - b.v2, a.v3 - b.v3); }
static inline Vec4d operator-(Vec4d const a, double b) { return Vec4d(a.v0 - b, a.v1 - b, a.v2 - b, a.v3 - b); }
static inline Vec4d operator-(double a, Vec4d const b) { return Vec4d(a - b.v0, a - b.v1, a - b.v2, a - b.v3); }
static inline Vec4d& operator-=(Vec4d& a, Vec4d const b) { a.v0 = a.v0 - b.v0; a.v1 = a.v1 - b.v1; a.v2 = a.v2 - b.v2; a.v3 = a.v3 - b.v3; return a; }
static inline Vec4d operator*(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 * b.v0, a.v1 * b.v1, a.v2 * b.v2, a.v3 * b.v3); }
static inline Vec4d operator*(Vec4d const a, double b) { return Vec4d(a.v0 * b, a.v1 * b, a.v2 * b, a.v3 * b); }
static inline Vec4d operator*(double a, Vec4d const b) { return Vec4d(a * b.v0, a * b.v1, a * b.v2, a * b.v3); }
static inline Vec4d& operator*=(Vec4d& a, Vec4d const b) { a.v0 = a.v0 * b.v0; a.v1 = a.v1 * b.v1; a.v2 = a.v2 * b.v2; a.v3 = a.v3 * b.v3; return a; }
static inline Vec4d operator/(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 / b.v0, a.v1 / b.v1, a.v2 / b.v2, a.v3 / b.v3); }
static inline Vec4d operator/(Vec4d const a, double b) { return Vec4d(a.v0 / b, a.v1 / b, a.v2 / b, a.v3 / b); }
static inline Vec4d operator/(double a, Vec4d const b) { return Vec4d(a / b.v0, a / b.v1, a / b.v2, a / b.v3); }
static inline Vec4d& operator/=(Vec4d& a, Vec4d const b) { a.v0 = a.v0 / b.v0; a.v1 = a.v1 / b.v1; a.v2 = a.v2 / b.v2; a.v3 = a.v3 / b.v3; return a; }
static inline Vec4d operator-(Vec4d const a) { return Vec4d(-a.v0, -a.v1, -a.v2, -a.v3); }
static inline double horizontal_add(Vec4d const a) { return a.v0 + a.v1 + a.v2 + a.v3; }
static inline Vec4d log(Vec4d const a) { return Vec4d(::log(a.v0), ::log(a.v1), ::log(a.v2), ::log(a.v3)); }
static inline Vec4d exp(Vec4d const a) { return Vec4d(::exp(a.v0), ::exp(a.v1), ::exp(a.v2), ::exp(a.v3)); }
static inline Vec4d sqrt(Vec4d const a) { return Vec4d(::sqrt(a.v0), ::sqrt(a.v1), ::sqrt(a.v2), ::sqrt(a.v3)); }
static inline Vec4d abs(Vec4d const a) { return Vec4d(::fabs(a.v0), ::fabs(a.v1), ::fabs(a.v2), ::fabs(a.v3)); }
static inline Vec4d square(Vec4d const a) { return a * a; }
static inline Vec4d max(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 > b.v0 ? a.v0 : b.v0, a.v1 > b.v1 ? a.v1 : b.v1, a.v2 > b.v2 ? a.v2 : b.v2, a.v3 > b.v3 ? a.v3 : b.v3); }
static inline Vec4d min(Vec4d const a, Vec4d const b) { return Vec4d(a.v0 < b.v0 ? a.v0 : b.v0, a.v1 < b.v1 ? a.v1 : b.v1, a.v2 < b.v2 ? a.v2 : b.v2, a.v3 < b.v3 ? a.v3 : b.v3); }
static inline double horizontal_max(Vec4d const a) { double m = a.v0; if (a.v0 > m) m = a.v0; if (a.v1 > m) m = a.v1; if (a.v2 > m) m = a.v2; if (a.v3 > m) m = a.v3; return m; }
static inline Vec4d mul_add(Vec4d const a, Vec4d const b, Vec4d const c) { return Vec4d(a.v0 * b.v0 + c.v0, a.v1 * b.v1 + c.v1, a.v2 * b.v2 + c.v2, a.v3 * b.v3 + c.v3); }
static inline Vec4d mul_sub(Vec4d const a, Vec4d const b, Vec4d const c) { return Vec4d(a.v0 * b.v0 - c.v0, a.v1 * b.v1 - c.v1, a.v2 * b.v2 - c.v2, a.v3 * b.v3 - c.v3); }
static inline Vec4d nmul_add(Vec4d const a, Vec4d const b, Vec4d const c) { return Vec4d(c.v0 - a.v0 * b.v0, c.v1 - a.v1 * b.v1, c.v2 - a.v2 * b.v2, c.v3 - a.v3 * b.v3); }

class Vec8d {
public:
  double v0, v1, v2, v3, v4, v5, v6, v7;
  Vec8d() {}
  Vec8d(double x) { v0 = x; v1 = x; v2 = x; v3 = x; v4 = x; v5 = x; v6 = x; v7 = x; }
  Vec8d(double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7) { v0 = x0; v1 = x1; v2 = x2; v3 = x3; v4 = x4; v5 = x5; v6 = x6; v7 = x7; }
  Vec8d& load(double const* p) { v0 = p[0]; v1 = p[1]; v2 = p[2]; v3 = p[3]; v4 = p[4]; v5 = p[5]; v6 = p[6]; v7 = p[7]; return *this; }
  Vec8d& load_a(double const* p) { p = (double const*)__builtin_assume_aligned(p, 64); v0 = p[0]; v1 = p[1]; v2 = p[2]; v3 = p[3]; v4 = p[4]; v5 = p[5]; v6 = p[6]; v7 = p[7]; return *this; }
  void store(double* p) const { p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; p[4] = v4; p[5] = v5; p[6] = v6; p[7] = v7; }
  void store_a(double* p) const { p = (double*)__builtin_assume_aligned(p, 64); p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; p[4] = v4; p[5] = v5; p[6] = v6; p[7] = v7; }
  void store_nt(double* p) const { p = (double*)__builtin_assume_aligned(p, 64); p[0] = v0; p[1] = v1; p[2] = v2; p[3] = v3; p[4] = v4; p[5] = v5; p[6] = v6; p[7] = v7; }
  Vec8d& load_partial(int n, double const* p) { v0 = n > 0 ? p[0] : 0; v1 = n > 1 ? p[1] : 0; v2 = n > 2 ? p[2] : 0; v3 = n > 3 ? p[3] : 0; v4 = n > 4 ? p[4] : 0; v5 = n > 5 ? p[5] : 0; v6 = n > 6 ? p[6] : 0; v7 = n > 7 ? p[7] : 0; return *this; }
  void store_partial(int n, double* p) const { if (n > 0) p[0] = v0; if (n > 1) p[1] = v1; if (n > 2) p[2] = v2; if (n > 3) p[3] = v3; if (n > 4) p[4] = v4; if (n > 5) p[5] = v5; if (n > 6) p[6] = v6; if (n > 7) p[7] = v7; }
  Vec8d& cutoff(int n) { if (n <= 0) v0 = 0; if (n <= 1) v1 = 0; if (n <= 2) v2 = 0; if (n <= 3) v3 = 0; if (n <= 4) v4 = 0; if (n <= 5) v5 = 0; if (n <= 6) v6 = 0; if (n <= 7) v7 = 0; return *this; }
  double extract(int k) const { if (k == 0) return v0; if (k == 1) return v1; if (k == 2) return v2; if (k == 3) return v3; if (k == 4) return v4; if (k == 5) return v5; if (k == 6) return v6; return v7; }
  double operator[](int k) const { return extract(k); }
  Vec8d const insert(int k, double x) { if (k == 0) v0 = x; if (k == 1) v1 = x; if (k == 2) v2 = x; if (k == 3) v3 = x; if (k == 4) v4 = x; if (k == 5) v5 = x; if (k == 6) v6 = x; if (k == 7) v7 = x; return *this; }
  static int size() { return 8; }
};
static inline Vec8d operator+(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 + b.v0, a.v1 + b.v1, a.v2 + b.v2, a.v3 + b.v3, a.v4 + b.v4, a.v5 + b.v5, a.v6 + b.v6, a.v7 + b.v7); }
static inline Vec8d operator+(Vec8d const a, double b) { return Vec8d(a.v0 + b, a.v1 + b, a.v2 + b, a.v3 + b, a.v4 + b, a.v5 + b, a.v6 + b, a.v7 + b); }
static inline Vec8d operator+(double a, Vec8d const b) { return Vec8d(a + b.v0, a + b.v1, a + b.v2, a + b.v3, a + b.v4, a + b.v5, a + b.v6, a + b.v7); }
static inline Vec8d& operator+=(Vec8d& a, Vec8d const b) { a.v0 = a.v0 + b.v0; a.v1 = a.v1 + b.v1; a.v2 = a.v2 + b.v2; a.v3 = a.v3 + b.v3; a.v4 = a.v4 + b.v4; a.v5 = a.v5 + b.v5; a.v6 = a.v6 + b.v6; a.v7 = a.v7 + b.v7; return a; }
static inline Vec8d operator-(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 - b.v0, a.v1 - b.v1, a.v2 - b.v2, a.v3 - b.v3, a.v4 - b.v4, a.v5 - b.v5, a.v6 - b.v6, a.v7 - b.v7); }
static inline Vec8d operator-(Vec8d const a, double b) { return Vec8d(a.v0 - b, a.v1 - b, a.v2 - b, a.v3 - b, a.v4 - b, a.v5 - b, a.v6 - b, a.v7 - b); }
static inline Vec8d operator-(double a, Vec8d const b) { return Vec8d(a - b.v0, a - b.v1, a - b.v2, a - b.v3, a - b.v4, a - b.v5, a - b.v6, a - b.v7); }
static inline Vec8d& operator-=(Vec8d& a, Vec8d const b) { a.v0 = a.v0 - b.v0; a.v1 = a.v1 - b.v1; a.v2 = a.v2 - b.v2; a.v3 = a.v3 - b.v3; a.v4 = a.v4 - b.v4; a.v5 = a.v5 - b.v5; a.v6 = a.v6 - b.v6; a.v7 = a.v7 - b.v7; return a; }
static inline Vec8d operator*(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 * b.v0, a.v1 * b.v1, a.v2 * b.v2, a.v3 * b.v3, a.v4 * b.v4, a.v5 * b.v5, a.v6 * b.v6, a.v7 * b.v7); }
static inline Vec8d operator*(Vec8d const a, double b) { return Vec8d(a.v0 * b, a.v1 * b, a.v2 * b, a.v3 * b, a.v4 * b, a.v5 * b, a.v6 * b, a.v7 * b); }
static inline Vec8d operator*(double a, Vec8d const b) { return Vec8d(a * b.v0, a * b.v1, a * b.v2, a * b.v3, a * b.v4, a * b.v5, a * b.v6, a * b.v7); }
static inline Vec8d& operator*=(Vec8d& a, Vec8d const b) { a.v0 = a.v0 * b.v0; a.v1 = a.v1 * b.v1; a.v2 = a.v2 * b.v2; a.v3 = a.v3 * b.v3; a.v4 = a.v4 * b.v4; a.v5 = a.v5 * b.v5; a.v6 = a.v6 * b.v6; a.v7 = a.v7 * b.v7; return a; }
static inline Vec8d operator/(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 / b.v0, a.v1 / b.v1, a.v2 / b.v2, a.v3 / b.v3, a.v4 / b.v4, a.v5 / b.v5, a.v6 / b.v6, a.v7 / b.v7); }
static inline Vec8d operator/(Vec8d const a, double b) { return Vec8d(a.v0 / b, a.v1 / b, a.v2 / b, a.v3 / b, a.v4 / b, a.v5 / b, a.v6 / b, a.v7 / b); }
static inline Vec8d operator/(double a, Vec8d const b) { return Vec8d(a / b.v0, a / b.v1, a / b.v2, a / b.v3, a / b.v4, a / b.v5, a / b.v6, a / b.v7); }
static inline Vec8d& operator/=(Vec8d& a, Vec8d const b) { a.v0 = a.v0 / b.v0; a.v1 = a.v1 / b.v1; a.v2 = a.v2 / b.v2; a.v3 = a.v3 / b.v3; a.v4 = a.v4 / b.v4; a.v5 = a.v5 / b.v5; a.v6 = a.v6 / b.v6; a.v7 = a.v7 / b.v7; return a; }
static inline Vec8d operator-(Vec8d const a) { return Vec8d(-a.v0, -a.v1, -a.v2, -a.v3, -a.v4, -a.v5, -a.v6, -a.v7); }
static inline double horizontal_add(Vec8d const a) { return a.v0 + a.v1 + a.v2 + a.v3 + a.v4 + a.v5 + a.v6 + a.v7; }
static inline Vec8d log(Vec8d const a) { return Vec8d(::log(a.v0), ::log(a.v1), ::log(a.v2), ::log(a.v3), ::log(a.v4), ::log(a.v5), ::log(a.v6), ::log(a.v7)); }
static inline Vec8d exp(Vec8d const a) { return Vec8d(::exp(a.v0), ::exp(a.v1), ::exp(a.v2), ::exp(a.v3), ::exp(a.v4), ::exp(a.v5), ::exp(a.v6), ::exp(a.v7)); }
static inline Vec8d sqrt(Vec8d const a) { return Vec8d(::sqrt(a.v0), ::sqrt(a.v1), ::sqrt(a.v2), ::sqrt(a.v3), ::sqrt(a.v4), ::sqrt(a.v5), ::sqrt(a.v6), ::sqrt(a.v7)); }
static inline Vec8d abs(Vec8d const a) { return Vec8d(::fabs(a.v0), ::fabs(a.v1), ::fabs(a.v2), ::fabs(a.v3), ::fabs(a.v4), ::fabs(a.v5), ::fabs(a.v6), ::fabs(a.v7)); }
static inline Vec8d square(Vec8d const a) { return a * a; }
static inline Vec8d max(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 > b.v0 ? a.v0 : b.v0, a.v1 > b.v1 ? a.v1 : b.v1, a.v2 > b.v2 ? a.v2 : b.v2, a.v3 > b.v3 ? a.v3 : b.v3, a.v4 > b.v4 ? a.v4 : b.v4, a.v5 > b.v5 ? a.v5 : b.v5, a.v6 > b.v6 ? a.v6 : b.v6, a.v7 > b.v7 ? a.v7 : b.v7); }
static inline Vec8d min(Vec8d const a, Vec8d const b) { return Vec8d(a.v0 < b.v0 ? a.v0 : b.v0, a.v1 < b.v1 ? a.v1 : b.v1, a.v2 < b.v2 ? a.v2 : b.v2, a.v3 < b.v3 ? a.v3 : b.v3, a.v4 < b.v4 ? a.v4 : b.v4, a.v5 < b.v5 ? a.v5 : b.v5, a.v6 < b.v6 ? a.v6 : b.v6, a.v7 < b.v7 ? a.v7 : b.v7); }
static inline double horizontal_max(Vec8d const a) { double m = a.v0; if (a.v0 > m) m = a.v0; if (a.v1 > m) m = a.v1; if (a.v2 > m) m = a.v2; if (a.v3 > m) m = a.v3; if (a.v4 > m) m = a.v4; if (a.v5 > m) m = a.v5; if (a.v6 > m) m = a.v6; if (a.v7 > m) m = a.v7; return m; }
static inline Vec8d mul_add(Vec8d const a, Vec8d const b, Vec8d const c) { return Vec8d(a.v0 * b.v0 + c.v0, a.v1 * b.v1 + c.v1, a.v2 * b.v2 + c.v2, a.v3 * b.v3 + c.v3, a.v4 * b.v4 + c.v4, a.v5 * b.v5 + c.v5, a.v6 * b.v6 + c.v6, a.v7 * b.v7 + c.v7); }
static inline Vec8d mul_sub(Vec8d const a, Vec8d const b, Vec8d const c) { return Vec8d(a.v0 * b.v0 - c.v0, a.v1 * b.v1 - c.v1, a.v2 * b.v2 - c.v2, a.v3 * b.v3 - c.v3, a.v4 * b.v4 - c.v4, a.v5 * b.v5 - c.v5, a.v6 * b.v6 - c.v6, a.v7 * b.v7 - c.v7); }
static inline Vec8d nmul_add(Vec8d const a, Vec8d const b, Vec8d const c) { return Vec8d(c.v0 - a.v0 * b.v0, c.v1 - a.v1 * b.v1, c.v2 - a.v2 * b.v2, c.v3 - a.v3 * b.v3, c.v4 - a.v4 * b.v4, c.v5 - a.v5 * b.v5, c.v6 - a.v6 * b.v6, c.v7 - a.v7 * b.v7); }
#ifdef VCL_NAMESPACE
}
#endif
