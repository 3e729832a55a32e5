// Reference models of Chebyshev series, power series and triangle quadratures (C03, C09, C10, C13, C16).
// Everything is recomputed naively in long double; nothing of the library's arithmetic is reused.
#ifndef VERIF_SERIES_H
#define VERIF_SERIES_H
#include "common.h"
#include <iostream>
#include <memory>
#include <array>
#include "MathUtils/MathUtils.h"
#include "MathUtils/ChebyshevSeries1d.h"
#include "MathUtils/ChebyshevSeries2d.h"
#include "MathUtils/ChebyshevSeries3d.h"

namespace hs {
using namespace hc;
typedef long double LD;
const LD PI = 3.14159265358979323846264338327950288L;

struct Axis {
  bool open;
  double a, b;
  static Axis make(Rng &r, bool open) {
    Axis x;
    x.open = open;
    if (open) x.a = r.chance(0.3) ? 1. : r.real(0.2, 5), x.b = x.a * r.real(3, 40);
    else {
      x.a = r.chance(0.3) ? -1. : r.real(-8, 8);
      x.b = x.a + (r.chance(0.3) ? 2. : r.real(0.5, 12));
    }
    return x;
  }
  double gen(Rng &r) const {
    switch (r.below(7)) {
      case 6: return 0.5 * (a + b) * (1 + std::pow(10., -r.range(3, 9)));
      case 0: return a;
      case 1: return b;
      case 2: return 0.5 * (a + b);
      default: return a + (b - a) * r.unit();
    }
  }
  LD unit(LD x) const { return open ? 1 - 2 * ((LD) a / x) : (2 * x - (LD) a - (LD) b) / ((LD) b - (LD) a); }
  LD slope(LD x) const { return open ? 2 * (LD) a / (x * x) : 2 / ((LD) b - (LD) a); }
  LD domain(LD u) const { return open ? 2 * (LD) a / (1 - u) : ((LD) b - (LD) a) / 2 * u + ((LD) a + (LD) b) / 2; }
};

typedef std::array<double, 3> P3;

// a polynomial of up to three unit variables, in the Chebyshev or the monomial basis
struct Poly {
  int dim = 1;
  bool cheb = true;
  Axis ax[3];
  int ord[3] = {0, 0, 0};
  std::vector<LD> c;                           // [i][j][k], k fastest
  LD fmag = 0;                                 // size of the values the coefficients were computed from
  size_t n(int d) const { return d < dim ? ord[d] + 1 : 1; }
  size_t size() const { return n(0) * n(1) * n(2); }
  LD &at(size_t i, size_t j, size_t k) { return c[(i * n(1) + j) * n(2) + k]; }
  LD at(size_t i, size_t j, size_t k) const { return c[(i * n(1) + j) * n(2) + k]; }

  static void basis(bool cheb, LD u, size_t n, std::vector<LD> &v, std::vector<LD> &dv) {
    v.assign(n, 0);
    dv.assign(n, 0);
    for (size_t i = 0; i < n; ++i) {
      if (i == 0) v[i] = 1, dv[i] = 0;
      else if (i == 1) v[i] = u, dv[i] = 1;
      else if (cheb) v[i] = 2 * u * v[i - 1] - v[i - 2], dv[i] = 2 * v[i - 1] + 2 * u * dv[i - 1] - dv[i - 2];
      else v[i] = v[i - 1] * u, dv[i] = dv[i - 1] * u + v[i - 1];
    }
  }
  // deriv: -1 value, 0..2 derivative; zinf: the unit coordinate of the last axis is 1
  double value(const P3 &x, int deriv, double *scale, bool zinf = false) const {
    sim::Quiet quiet;
    std::vector<LD> v[3], dv[3];
    LD s = 1;
    for (int d = 0; d < 3; ++d) {
      LD u = d < dim ? (zinf && d == 2 ? (LD) 1 : ax[d].unit(x[d])) : 0;
      basis(cheb, u, n(d), v[d], dv[d]);
      if (d == deriv) {
        v[d] = dv[d];
        s = ax[d].slope(x[d]);
      }
    }
    LD r = 0, m = 1e-300L + fmag * (deriv < 0 ? 1 : (LD) (n(deriv) * n(deriv)));
    for (size_t i = 0; i < n(0); ++i)
      for (size_t j = 0; j < n(1); ++j)
        for (size_t k = 0; k < n(2); ++k) {
          LD t = at(i, j, k) * v[0][i] * v[1][j] * v[2][k];
          r += t;
          LD w = at(i, j, k);
          if (deriv >= 0) { size_t q = deriv == 0 ? i : deriv == 1 ? j : k; w *= (LD) (q * q + 1); }
          m += w < 0 ? -w : w;
        }
    r *= s;
    m *= s;
    // the unit coordinate itself carries rounding of the size of the domain's offset
    LD off = 1;
    for (int d = 0; d < dim; ++d) {
      LD h = ax[d].open ? 1 : (std::fabs(ax[d].a) + std::fabs(ax[d].b)) / (ax[d].b - ax[d].a) + 1;
      off += h * (LD) (n(d) * n(d));
    }
    *scale = (double) (m * off);
    return (double) r;
  }
  P3 gen(Rng &r) const {
    P3 p = {0, 0, 0};
    for (int d = 0; d < dim; ++d) p[d] = ax[d].gen(r);
    return p;
  }
  // coefficients of the interpolant of f at the Chebyshev nodes
  template<class F>
  void interpolate(F f) {
    sim::Quiet quiet;
    c.assign(size(), 0);
    fmag = 0;
    std::vector<LD> val(size());
    for (size_t i = 0; i < n(0); ++i)
      for (size_t j = 0; j < n(1); ++j)
        for (size_t k = 0; k < n(2); ++k) {
          size_t ix[3] = {i, j, k};
          P3 x = {0, 0, 0};
          for (int d = 0; d < dim; ++d) x[d] = (double) ax[d].domain(cosl(PI * (2 * ix[d] + 1) / (2 * (LD) n(d))));
          LD fv = f(x);
          val[(i * n(1) + j) * n(2) + k] = fv;
          fmag = std::max(fmag, fv < 0 ? -fv : fv);
        }
    for (size_t i = 0; i < n(0); ++i)
      for (size_t j = 0; j < n(1); ++j)
        for (size_t k = 0; k < n(2); ++k) {
          LD s = 0;
          for (size_t p = 0; p < n(0); ++p)
            for (size_t q = 0; q < n(1); ++q)
              for (size_t t = 0; t < n(2); ++t)
                s += val[(p * n(1) + q) * n(2) + t] * cosl(PI * i * (2 * p + 1) / (2 * (LD) n(0))) *
                     (dim > 1 ? cosl(PI * j * (2 * q + 1) / (2 * (LD) n(1))) : 1) *
                     (dim > 2 ? cosl(PI * k * (2 * t + 1) / (2 * (LD) n(2))) : 1);
          s /= (LD) size();
          if (i) s *= 2;
          if (j) s *= 2;
          if (k) s *= 2;
          at(i, j, k) = s;
        }
  }
  // the same polynomial in the monomial basis
  Poly monomial() const {
    sim::Quiet quiet;
    Poly o = *this;
    o.cheb = false;
    o.c.assign(size(), 0);
    std::vector<std::vector<LD>> T[3];
    for (int d = 0; d < 3; ++d) {
      size_t m = n(d);
      T[d].assign(m, std::vector<LD>(m, 0));
      for (size_t i = 0; i < m; ++i) {
        if (i == 0) T[d][0][0] = 1;
        else if (i == 1) T[d][1][1] = 1;
        else for (size_t q = 0; q < m; ++q) T[d][i][q] = (q ? 2 * T[d][i - 1][q - 1] : 0) - T[d][i - 2][q];
      }
    }
    for (size_t i = 0; i < n(0); ++i) for (size_t j = 0; j < n(1); ++j) for (size_t k = 0; k < n(2); ++k)
      for (size_t p = 0; p <= i; ++p) for (size_t q = 0; q <= j; ++q) for (size_t t = 0; t <= k; ++t)
        o.at(p, q, t) += at(i, j, k) * T[0][i][p] * T[1][j][q] * T[2][k][t];
    return o;
  }
  double mag() const {
    LD m = 1e-300L + fmag;
    for (LD v : c) m += v < 0 ? -v : v;
    return (double) m;
  }
};

// the functions that are approximated; `hook` runs at every evaluation (faults, re-entrancy)
struct Fn : mathutils::Function1d<double>, mathutils::Function2d<double>, mathutils::Function3d<double> {
  double A, B, C, w[3], p;
  std::function<void()> hook;
  void init(Rng &r) {
    A = gen_val(r);
    B = r.real(-2, 2);
    C = r.real(-1, 1);
    for (double &e : w) e = r.real(-0.7, 0.7);
    p = r.real(0, 6);
  }
  double f(double x, double y, double z) const {
    return A * std::sin(w[0] * x + w[1] * y + w[2] * z + p) + B * x / (1 + x * x) + C * (y - 0.3 * z * y / (1 + y * y)) / (1 + y * y);
  }
  double Evaluate(const double &x) const override { if (hook) hook(); return f(x, 0, 0); }
  double Evaluate(const double &x, const double &y) const override { if (hook) hook(); return f(x, y, 0); }
  double Evaluate(const double &x, const double &y, const double &z) const override { if (hook) hook(); return f(x, y, z); }
};

struct Cheb {
  Poly m;
  Fn *fn = nullptr;
  int kind = 0;
  std::shared_ptr<mathutils::ChebyshevSeries1dBase<double>> s1;
  std::shared_ptr<mathutils::ChebyshevSeries2dBase<double>> s2;
  std::shared_ptr<mathutils::ChebyshevSeries3dBase<double>> s3;
  void shape(Rng &r, int maxo1 = 12, int maxo2 = 5, int maxo3 = 3) {
    int t = (int) r.below(8);
    kind = t;
    m.dim = t < 2 ? 1 : t < 5 ? 2 : 3;
    int mo = m.dim == 1 ? maxo1 : m.dim == 2 ? maxo2 : maxo3;
    for (int d = 0; d < m.dim; ++d) m.ord[d] = tail(r, 0, mo, std::min(18, mo + 4));   // 18: the most the conversions accept
    if (m.dim > 1 && r.chance(0.06) && tails()) {           // one long axis
      int l = (int) r.below(m.dim);
      for (int d = 0; d < m.dim; ++d) m.ord[d] = d == l ? r.range(9, 18) : r.range(0, 1);
    }
    bool op[8][3] = {{0}, {1}, {0, 0}, {1, 1}, {0, 1}, {0, 0, 0}, {0, 1, 1}, {0, 0, 1}};
    for (int d = 0; d < m.dim; ++d) m.ax[d] = Axis::make(r, op[t][d]);
    m.c.assign(m.size(), 0);
  }
  void create(Fn *f) {
    fn = f;
    using namespace mathutils;
    Axis *a = m.ax;
    int *o = m.ord;
    switch (kind) {
      case 0: s1.reset(new ChebyshevSeries1dClosed<double>(f, a[0].a, a[0].b, o[0])); break;
      case 1: s1.reset(new ChebyshevSeries1dOpened<double>(f, a[0].a, o[0])); break;
      case 2: s2.reset(new ChebyshevSeries2dClosed<double>(f, a[0].a, a[0].b, a[1].a, a[1].b, o[0], o[1])); break;
      case 3: s2.reset(new ChebyshevSeries2dOpened<double>(f, a[0].a, a[1].a, o[0], o[1])); break;
      case 4: s2.reset(new ChebyshevSeries2dMixed<double>(f, a[0].a, a[0].b, a[1].a, o[0], o[1])); break;
      case 5: s3.reset(new ChebyshevSeries3dClosed<double>(f, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, a[2].b, o[0], o[1], o[2])); break;
      case 6: s3.reset(new ChebyshevSeries3dYZOpenedXClosed<double>(f, a[0].a, a[0].b, a[1].a, a[2].a, o[0], o[1], o[2])); break;
      default: s3.reset(new ChebyshevSeries3dZOpenedXYClosed<double>(f, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, o[0], o[1], o[2]));
    }
  }
  void compute() { if (s1) s1->Compute_ai(); else if (s2) s2->Compute_aij(); else s3->Compute_aijk(); }
  void expect_computed() {
    Fn *f = fn;
    m.interpolate([f, this](const P3 &x) { return f->f(x[0], m.dim > 1 ? x[1] : 0, m.dim > 2 ? x[2] : 0); });
    // a node carries rounding too, which the function turns into rounding of its value
    LD D = 0;
    for (int d = 0; d < m.dim; ++d) D += fabsl(m.ax[d].a) + fabsl(m.ax[d].b);
    m.fmag += 1e-3L * D * (fabsl(f->A) + fabsl(f->B) + 4 * fabsl(f->C));
  }
  double eval(const P3 &x, int deriv) const {
    if (s1) return deriv < 0 ? s1->Evaluate(x[0]) : s1->Evaluate_derivative_x(x[0]);
    if (s2) return deriv < 0 ? s2->Evaluate(x[0], x[1]) : deriv == 0 ? s2->Evaluate_derivative_x(x[0], x[1]) : s2->Evaluate_derivative_y(x[0], x[1]);
    return deriv < 0 ? s3->Evaluate(x[0], x[1], x[2]) : deriv == 0 ? s3->Evaluate_derivative_x(x[0], x[1], x[2])
         : deriv == 1 ? s3->Evaluate_derivative_y(x[0], x[1], x[2]) : s3->Evaluate_derivative_z(x[0], x[1], x[2]);
  }
  void check_eval(Rng &r, const char *what) const {
    P3 x = m.gen(r);
    int deriv = r.range(-2, m.dim - 1);
    if (deriv < -1) deriv = -1;
    double sc, w = m.value(x, deriv, &sc);
    double got = eval(x, deriv);
    expect_close("result", what, got, w, sc, 1e-9);
  }
  // coefficients of the conversion, as a flat vector [i][j][k]
  std::vector<double> bcoef() const {
    std::vector<double> b(m.size());
    if (s1) {
      auto v = s1->Compute_bi();
      for (size_t i = 0; i < m.n(0); ++i) b[i] = v(i);
    } else if (s2) {
      auto v = s2->Compute_bij();
      for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j) b[i * m.n(1) + j] = v(i, j);
    } else {
      auto v = s3->Compute_bijk();
      for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j) for (size_t k = 0; k < m.n(2); ++k)
        b[(i * m.n(1) + j) * m.n(2) + k] = v.at(k)(i, j);
    }
    return b;
  }
  void check_bcoef(const char *what) const {
    std::vector<double> b = bcoef();
    Poly o = m.monomial();
    double sc = o.mag();
    for (size_t i = 0; i < b.size(); ++i) expect_close("result", what, b[i], (double) o.c[i], sc, 1e-9);
  }
};

struct Power {
  Poly m;
  int kind = 0;
  std::shared_ptr<mathutils::PowerSeries1dBase<double>> s1;
  std::shared_ptr<mathutils::PowerSeries2dBase<double>> s2;
  std::shared_ptr<mathutils::PowerSeries3dBase<double>> s3;
  void make(Rng &r) {
    Cheb c;
    c.shape(r, 9, 5, 3);
    kind = c.kind;
    m = c.m;
    m.cheb = false;
    for (LD &v : m.c) v = (LD) gen_val(r);
    create();
  }
  void create() {
    using namespace mathutils;
    Axis *a = m.ax;
    if (m.dim == 1) {
      VectorN<double> b(m.n(0));
      for (size_t i = 0; i < m.n(0); ++i) b(i) = (double) m.at(i, 0, 0);
      if (kind == 0) s1.reset(new PowerSeries1dClosed<double>(b, a[0].a, a[0].b));
      else s1.reset(new PowerSeries1dOpened<double>(b, a[0].a));
    } else if (m.dim == 2) {
      MatrixMN<double> b(m.n(0), m.n(1));
      for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j) b(i, j) = (double) m.at(i, j, 0);
      if (kind == 2) s2.reset(new PowerSeries2dClosed<double>(b, a[0].a, a[0].b, a[1].a, a[1].b));
      else if (kind == 3) s2.reset(new PowerSeries2dOpened<double>(b, a[0].a, a[1].a));
      else s2.reset(new PowerSeries2dMixed<double>(b, a[0].a, a[0].b, a[1].a));
    } else {
      std::vector<MatrixMN<double>> b;
      for (size_t k = 0; k < m.n(2); ++k) {
        MatrixMN<double> q(m.n(0), m.n(1));
        for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j) q(i, j) = (double) m.at(i, j, k);
        b.push_back(q);
      }
      if (kind == 5) s3.reset(new PowerSeries3dClosed<double>(b, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, a[2].b));
      else if (kind == 6) s3.reset(new PowerSeries3dYZOpenedXClosed<double>(b, a[0].a, a[0].b, a[1].a, a[2].a));
      else s3.reset(new PowerSeries3dZOpenedXYClosed<double>(b, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a));
    }
  }
  void one(const char *what, double got, const P3 &x, int deriv, bool zinf = false) const {
    double sc, w = m.value(x, deriv, &sc, zinf);
    expect_close("result", what, got, w, sc, 1e-9);
  }
  void check_eval(Rng &r) const {
    P3 x = m.gen(r);
    int deriv = r.range(-1, m.dim - 1);
    if (s1) {
      one("1D power series", deriv < 0 ? s1->Evaluate(x[0]) : s1->Evaluate_derivative_x(x[0]), x, deriv);
      if (r.chance(0.3)) {
        double u = (double) m.ax[0].unit(x[0]);
        one("1D power series in unit coordinates", deriv < 0 ? s1->Evaluate_unit(u) : s1->Evaluate_derivative_x_unit(x[0], u), x, deriv);
      }
      return;
    }
    if (s2) {
      one("2D power series", deriv < 0 ? s2->Evaluate(x[0], x[1]) : deriv == 0 ? s2->Evaluate_derivative_x(x[0], x[1]) : s2->Evaluate_derivative_y(x[0], x[1]), x, deriv);
      if (r.chance(0.3)) {
        double u = (double) m.ax[0].unit(x[0]), v = (double) m.ax[1].unit(x[1]);
        one("2D power series in unit coordinates", deriv < 0 ? s2->Evaluate_unit(u, v) : deriv == 0 ? s2->Evaluate_derivative_x_unit(x[0], u, v) : s2->Evaluate_derivative_y_unit(x[1], u, v), x, deriv);
      }
      return;
    }
    switch (r.below(7)) {
      case 0: {
        double f = 7, fx = 8, fy = 9;
        s3->Evaluate_f_dfdx_dfdy(x[0], x[1], x[2], f, fx, fy);
        one("3D power series, value of the combined form", f, x, -1);
        one("3D power series, x-derivative of the combined form", fx, x, 0);
        one("3D power series, y-derivative of the combined form", fy, x, 1);
        break;
      }
      case 1: {
        auto c = s3->Compute_cij(x[2]);
        one("3D power series, predefined z", s3->Evaluate_z_predefined(x[0], x[1], c), x, -1);
        one("3D power series, x-derivative, predefined z", s3->Evaluate_derivative_x_z_predefined(x[0], x[1], c), x, 0);
        one("3D power series, y-derivative, predefined z", s3->Evaluate_derivative_y_z_predefined(x[0], x[1], c), x, 1);
        double f = 7, fx = 8, fy = 9;
        s3->Evaluate_f_dfdx_dfdy_z_predefined(x[0], x[1], c, f, fx, fy);
        one("3D power series, combined form, predefined z, value", f, x, -1);
        one("3D power series, combined form, predefined z, x-derivative", fx, x, 0);
        one("3D power series, combined form, predefined z, y-derivative", fy, x, 1);
        break;
      }
      case 2: {
        one("3D power series, z infinite", s3->Evaluate_zinf(x[0], x[1]), x, -1, true);
        one("3D power series, x-derivative, z infinite", s3->Evaluate_derivative_x_zinf(x[0], x[1]), x, 0, true);
        one("3D power series, y-derivative, z infinite", s3->Evaluate_derivative_y_zinf(x[0], x[1]), x, 1, true);
        auto c = s3->Compute_cij_zinf();
        one("3D power series, predefined infinite z", s3->Evaluate_z_predefined(x[0], x[1], c), x, -1, true);
        break;
      }
      case 3: {
        expect(s3->order_x() == m.ord[0] && s3->order_y() == m.ord[1] && s3->order_z() == m.ord[2], "result", "orders of a 3D power series");
        expect(s3->xmin() == m.ax[0].a && s3->ymin() == m.ax[1].a && s3->zmin() == m.ax[2].a, "result", "bounds of a 3D power series");
        const char *names[] = {"PowerSeries3dClosed", "PowerSeries3dYZOpenedXClosed", "PowerSeries3dZOpenedXYClosed"};
        expect(s3->type() == names[kind - 5], "result", "type of a 3D power series");
        auto b = s3->bijk();
        expect(b.size() == m.n(2), "result", "coefficients of a 3D power series");
        for (size_t k = 0; k < m.n(2); ++k) for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j)
          expect_same<double>("result", "coefficient of a 3D power series", b[k](i, j), (double) m.at(i, j, k));
        break;
      }
      default:
        one("3D power series", deriv < 0 ? s3->Evaluate(x[0], x[1], x[2]) : deriv == 0 ? s3->Evaluate_derivative_x(x[0], x[1], x[2])
            : deriv == 1 ? s3->Evaluate_derivative_y(x[0], x[1], x[2]) : s3->Evaluate_derivative_z(x[0], x[1], x[2]), x, deriv);
    }
  }
};

// (linear form)^k over a triangle
template<class T> struct Unit { static T one() { return T(1); } };
struct Tri {
  mathutils::Vector3d<double> v[3];
  static Tri make(Rng &r) {
    Tri t;
    if (r.chance(0.3)) {                       // corners of a lattice: congruent triangles, equal areas, shared corners, no area at all
      for (auto &p : t.v) { double a = r.range(-1, 2), b = r.range(-1, 2), c = r.chance(0.7) ? 0 : r.range(0, 1); p = mathutils::Vector3d<double>(a, b, c); }
      return t;
    }
    for (auto &p : t.v) { double a = r.real(-3, 3), b = r.real(-3, 3), c = r.chance(0.5) ? 0 : r.real(-3, 3); p = mathutils::Vector3d<double>(a, b, c); }
    return t;
  }
  double area() const {
    double e[3], f[3];
    for (int i = 0; i < 3; ++i) e[i] = v[1](i) - v[0](i), f[i] = v[2](i) - v[0](i);
    double x = e[1] * f[2] - e[2] * f[1], y = e[2] * f[0] - e[0] * f[2], z = e[0] * f[1] - e[1] * f[0];
    return 0.5 * std::sqrt(x * x + y * y + z * z);
  }
};
struct LinPow {
  double d[3], e;
  int k;
  static LinPow make(Rng &r, int maxk) {
    LinPow l;
    for (double &q : l.d) q = r.real(-1, 1);
    l.e = r.real(-1, 1);
    l.k = r.chance(0.5) ? maxk : r.range(0, maxk);
    return l;
  }
  double lin(const mathutils::Vector3d<double> &x) const { return d[0] * x(0) + d[1] * x(1) + d[2] * x(2) + e; }
  double value(const mathutils::Vector3d<double> &x) const {
    double l = lin(x), p = 1;
    for (int i = 0; i < k; ++i) p *= l;
    return p;
  }
  double integral(const Tri &t, double *scale) const {
    sim::Quiet quiet;
    double l[3] = {lin(t.v[0]), lin(t.v[1]), lin(t.v[2])};
    LD s = 0, m = 1;
    for (int a = 0; a <= k; ++a)
      for (int b = 0; a + b <= k; ++b) {
        LD p = 1;
        for (int i = 0; i < a; ++i) p *= l[0];
        for (int i = 0; i < b; ++i) p *= l[1];
        for (int i = 0; i < k - a - b; ++i) p *= l[2];
        s += p;
        m += p < 0 ? -p : p;
      }
    double A = t.area();
    *scale = (double) (2 * A * m);
    return (double) (2 * A * s / ((LD) (k + 1) * (k + 2)));
  }
};
template<class T>
struct IntegrandOf : mathutils::Integrand<T> {
  LinPow l;
  std::function<void()> hook;
  T Evaluate(const mathutils::Vector3d<double> &x) const override;
};
template<>
inline double IntegrandOf<double>::Evaluate(const mathutils::Vector3d<double> &x) const {
  if (hook) hook();
  return l.value(x);
}
template<>
inline cplx IntegrandOf<cplx>::Evaluate(const mathutils::Vector3d<double> &x) const {
  if (hook) hook();
  double v = l.value(x);
  return cplx(v, 2 - v);
}
template<>
inline mathutils::VectorN<double> IntegrandOf<mathutils::VectorN<double>>::Evaluate(const mathutils::Vector3d<double> &x) const {
  if (hook) hook();
  mathutils::VectorN<double> v(2);
  v(0) = l.value(x);
  v(1) = 1;
  return v;
}
inline void check_integral(double got, const LinPow &l, const Tri &t, const char *what) {
  double sc, w = l.integral(t, &sc);
  expect_close("result", what, got, w, sc, 1e-9);
}
inline void check_integral(cplx got, const LinPow &l, const Tri &t, const char *what) {
  double sc, w = l.integral(t, &sc), A = t.area();
  expect_close("result", what, got.real(), w, sc, 1e-9);
  expect_close("result", what, got.imag(), 2 * A - w, sc + 2 * A, 1e-9);
}
inline void check_integral(const mathutils::VectorN<double> &got, const LinPow &l, const Tri &t, const char *what) {
  double sc, w = l.integral(t, &sc), A = t.area();
  expect(got.size() == 2, "result", "length of an integrated vector", (long) got.size());
  expect_close("result", what, (double) got(0), w, sc, 1e-9);
  expect_close("result", what, (double) got(1), A, A, 1e-9);
}

template<>
inline mathutils::Vector3d<double> IntegrandOf<mathutils::Vector3d<double>>::Evaluate(const mathutils::Vector3d<double> &x) const {
  if (hook) hook();
  double v = l.value(x);
  return mathutils::Vector3d<double>(v, 1, -v);
}
inline void check_integral(const mathutils::Vector3d<double> &got, const LinPow &l, const Tri &t, const char *what) {
  double sc, w = l.integral(t, &sc), A = t.area();
  expect_close("result", what, (double) got(0), w, sc, 1e-9);
  expect_close("result", what, (double) got(1), A, A, 1e-9);
  expect_close("result", what, (double) got(2), -w, sc, 1e-9);
}
template<>
inline mathutils::MatrixMN<double> IntegrandOf<mathutils::MatrixMN<double>>::Evaluate(const mathutils::Vector3d<double> &x) const {
  if (hook) hook();
  mathutils::MatrixMN<double> m(2, 3);
  double v = l.value(x);
  for (int i = 0; i < 6; ++i) m(i / 3, i % 3) = v * i + (i == 2);
  return m;
}
inline void check_integral(const mathutils::MatrixMN<double> &got, const LinPow &l, const Tri &t, const char *what) {
  double sc, w = l.integral(t, &sc), A = t.area();
  expect(got.rows() == 2 && got.cols() == 3, "result", "size of an integrated matrix", (long) got.rows(), (long) got.cols());
  for (int i = 0; i < 6; ++i) expect_close("result", what, (double) got(i / 3, i % 3), w * i + (i == 2) * A, 6 * sc + A, 1e-9);
}
}  // namespace hs
#endif
