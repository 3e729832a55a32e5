// Shared generators and naive reference models. Nothing here uses the library's own arithmetic.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "../sim/sim.h"
#include <algorithm>
#include <complex>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace hc {
typedef std::complex<double> cplx;
using sim::Rng;

// Copying is exercised where a class can be copied, but a class that cannot be is no alarm.
template<class T> T *dup(const T &t) {
  if constexpr (std::is_copy_constructible<T>::value) return new T(t);
  else return nullptr;
}
template<class T> bool assign(T &a, const T &b) {
  if constexpr (std::is_copy_assignable<T>::value) { a = b; return true; }
  else return false;
}

// a size that is usually small and once in a while large: buffers, thresholds and rehashing live there
inline bool &tails() { static bool on = true; return on; }     // off: small sizes only (C18)
inline int tail(Rng &r, int lo, int hi, int top, double p = 0.04) { bool big = r.chance(p) && tails(); return big ? r.range(hi, top) : r.range(lo, hi); }

// strictly increasing coordinates, several flavours
inline std::vector<double> gen_coords(Rng &r, int n) {
  std::vector<double> x(n);
  int k = (int) r.below(6);
  double x0 = 0, step = 1;
  switch (k) {
    case 0: x0 = 0; step = 1; break;
    case 1: x0 = r.real(-10, 10); step = r.real(0.1, 3); break;
    case 2: x0 = r.real(-1e3, 1e3); step = r.real(0.01, 50); break;
    case 3: x0 = -r.real(1, 5); step = r.real(0.2, 1); break;
    case 4: x0 = r.real(-1, 1); step = 1e-3; break;
    default: x0 = r.real(50, 100); step = r.real(5, 20); break;
  }
  bool uniform = r.chance(0.4);
  double v = x0;
  if (!uniform && r.chance(0.35)) {                              // exact spacings that repeat, often the same at both ends
    static const double q[] = {1, 0.5, 0.25, 2};
    step = q[r.below(4)], v = std::floor(x0);
    std::vector<int> d(n);
    for (int i = 1; i < n; ++i) d[i] = r.range(1, 3);
    if (r.chance(0.6)) for (int i = 1; i < n; ++i) d[n - i] = d[i];
    if (r.chance(0.3)) for (int i = 1; i < n; ++i) if (i < 3 || i > n - 3) d[i] = 1;
    for (int i = 0; i < n; ++i) x[i] = v += step * d[i];
    return x;
  }
  for (int i = 0; i < n; ++i) {
    x[i] = v;
    v += uniform ? step : step * r.real(0.2, 2.5);
  }
  return x;
}

inline double gen_val(Rng &r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return r.real(-1e4, 1e4);
    case 4: return r.real(-1e-3, 1e-3);
    default: return r.real(-10, 10);
  }
}
inline std::vector<double> gen_vals(Rng &r, size_t n) {
  std::vector<double> v(n);
  for (auto &e : v) e = gen_val(r);
  return v;
}
inline std::vector<cplx> gen_cvals(Rng &r, size_t n) {
  std::vector<cplx> v(n);
  for (auto &e : v) { double a = gen_val(r); double b = gen_val(r); e = cplx(a, b); }
  return v;
}

// a query inside [x.front(), x.back()], biased to nodes and ends
inline double gen_in(Rng &r, const std::vector<double> &x) {
  size_t n = x.size();
  switch (r.below(8)) {
    case 0: return x[0];
    case 1: return x[n - 1];
    case 2: return x[r.below(n)];
    case 3: { size_t i = r.below(n - 1); return 0.5 * (x[i] + x[i + 1]); }
    case 4: { size_t i = r.below(n - 1); double v = std::nextafter(x[i], x[i + 1]); return v; }
    case 5: { size_t i = r.below(n - 1); double v = x[i] + (x[i + 1] - x[i]) * std::pow(10., -r.range(2, 9)); return std::min(v, x[n - 1]); }    // next to what others ask
    default: {
      size_t i = r.below(n - 1);
      double v = x[i] + (x[i + 1] - x[i]) * r.unit();
      return std::min(std::max(v, x[0]), x[n - 1]);
    }
  }
}
inline double gen_out(Rng &r, const std::vector<double> &x) {
  double w = x.back() - x.front();
  switch (r.below(5)) {
    case 4: { double far = w * std::pow(10., r.range(1, 9)); return r.chance(0.5) ? x.front() - far : x.back() + far; }
    case 0: return x.front() - w * r.real(0.001, 2);
    case 1: return x.back() + w * r.real(0.001, 2);
    case 2: return std::nextafter(x.back(), 1e300);
    default: return std::nextafter(x.front(), -1e300);
  }
}

inline double mag(double v) { return std::fabs(v); }
inline double mag(cplx v) { return std::abs(v); }

// piecewise linear reference; *scale gets the magnitude against which rounding is judged
template<class Y>
Y ref_linear(const std::vector<double> &x, const std::vector<Y> &y, double q, double *scale) {
  sim::Quiet quiet;
  size_t n = x.size();
  size_t i = 0;
  while (i + 2 < n && q > x[i + 1]) ++i;
  double dx = x[i + 1] - x[i];
  double xm = std::max(std::fabs(x[i]), std::fabs(x[i + 1]));
  xm = std::max(xm, std::fabs(q));
  *scale = 1e-300 + (mag(y[i]) + mag(y[i + 1])) * (1 + xm / dx);
  // at a node the cell on either side may be used, with the rounding of that cell
  const double near = 1e-9 * dx;
  if (i > 0 && std::fabs(q - x[i]) <= near) *scale += (mag(y[i - 1]) + mag(y[i])) * (1 + xm / (x[i] - x[i - 1]));
  if (i + 2 < n && std::fabs(q - x[i + 1]) <= near) *scale += (mag(y[i + 1]) + mag(y[i + 2])) * (1 + std::max(xm, std::fabs(x[i + 2])) / (x[i + 2] - x[i + 1]));
  double t = (q - x[i]) / dx;
  return y[i] + (y[i + 1] - y[i]) * t;
}

inline double ref_bilinear(const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &d,
                           double qx, double qy, double *scale) {
  sim::Quiet quiet;
  size_t nx = x.size(), ny = y.size();
  size_t i = 0, j = 0;
  while (i + 2 < nx && qx > x[i + 1]) ++i;
  while (j + 2 < ny && qy > y[j + 1]) ++j;
  double dx = x[i + 1] - x[i], dy = y[j + 1] - y[j];
  double tx = (qx - x[i]) / dx, ty = (qy - y[j]) / dy;
  double a = d[ny * i + j], b = d[ny * i + j + 1], c = d[ny * (i + 1) + j], e = d[ny * (i + 1) + j + 1];
  // at a node the cell on either side may be used, with the rounding of that cell
  size_t i0 = i, i1 = i, j0 = j, j1 = j;
  if (i > 0 && std::fabs(qx - x[i]) <= 1e-9 * dx) --i0;
  if (i + 2 < nx && std::fabs(qx - x[i + 1]) <= 1e-9 * dx) ++i1;
  if (j > 0 && std::fabs(qy - y[j]) <= 1e-9 * dy) --j0;
  if (j + 2 < ny && std::fabs(qy - y[j + 1]) <= 1e-9 * dy) ++j1;
  *scale = 1e-300;
  for (size_t p = i0; p <= i1; ++p)
    for (size_t q = j0; q <= j1; ++q) {
      double sx = 1 + std::max(std::fabs(x[p]), std::fabs(x[p + 1])) / (x[p + 1] - x[p]);
      double sy = 1 + std::max(std::fabs(y[q]), std::fabs(y[q + 1])) / (y[q + 1] - y[q]);
      *scale += (std::fabs(d[ny * p + q]) + std::fabs(d[ny * p + q + 1]) + std::fabs(d[ny * (p + 1) + q]) + std::fabs(d[ny * (p + 1) + q + 1])) * sx * sy;
    }
  return (a * (1 - ty) + b * ty) * (1 - tx) + (c * (1 - ty) + e * ty) * tx;
}

inline void show(char *buf, size_t n, double v) { snprintf(buf, n, "%.17g", v); }
inline void show(char *buf, size_t n, cplx v) { snprintf(buf, n, "(%.17g,%.17g)", v.real(), v.imag()); }

// got must equal want up to rounding
template<class Y>
void expect_close(const char *cls, const char *what, Y got, Y want, double scale, double tol = 1e-10) {
  sim::oracle();
  if (sim::close(got, want, scale, tol)) return;
  char a[80], b[80];
  show(a, sizeof a, got);
  show(b, sizeof b, want);
  sim::violation(cls, "%s: got %s, expected %s", what, a, b);
}
template<class Y>
void expect_same(const char *cls, const char *what, Y got, Y want) {
  sim::oracle();
  if (sim::same_bits(got, want)) return;
  char a[80], b[80];
  show(a, sizeof a, got);
  show(b, sizeof b, want);
  sim::violation(cls, "%s: got %s, expected exactly %s", what, a, b);
}
inline void expect(bool c, const char *cls, const char *fmt, long a = 0, long b = 0) {
  sim::oracle();
  if (!c) sim::violation(cls, "%s (%ld, %ld)", fmt, a, b);
}

inline std::string series_name(int i) {
  // short names (small-string), long names (heap), prefixes of one another, empty
  static const char *n[] = {"a", "b", "ab", "", "force_x", "a_rather_long_series_name_on_the_heap_1",
                            "a_rather_long_series_name_on_the_heap_2", "B", "a ", "0"};
  static const char *m[] = {"a_rather_long_series_name_on_the_heap_", "force_y", "force_", "x1", "x10", "A", "ba", "aa", "abc", "\t", "_", "name with spaces", "aB", "00"};
  i %= 24;
  return i < 10 ? n[i] : m[i - 10];
}
}  // namespace hc
#endif
