// Reference model of the regular-grid objects (shared by C02, C08, C13, C16).
#ifndef VERIF_GRIDS_H
#define VERIF_GRIDS_H
#include "common.h"
#include <array>
#include <iostream>
#include "MathUtils/RegularGridInterpolator.h"
#include "MathUtils/RegularGridNearest.h"

namespace hg {
using namespace hc;

template<size_t D>
struct Model {
  std::vector<std::vector<double>> g;     // coordinates
  std::vector<double> d;                  // values, last dimension fastest
  static Model make(Rng &r, int lo = 1, int hi = 5) {
    Model m;
    size_t n = 1;
    for (size_t i = 0; i < D; ++i) {
      int k = tail(r, lo, hi, D == 1 ? 60 : D == 2 ? 14 : 6);
      m.g.push_back(gen_coords(r, k));
      n *= k;
    }
    m.d = gen_vals(r, n);
    return m;
  }
  size_t size() const {
    size_t n = 1;
    for (auto &v : g) n *= v.size();
    return n;
  }
  template<class T>
  boost::multi_array<T, D> array() const {
    std::vector<size_t> ex;
    for (auto &v : g) ex.push_back(v.size());
    boost::multi_array<T, D> a(ex);
    for (size_t i = 0; i < d.size(); ++i) a.data()[i] = (T) d[i];
    return a;
  }
  double at(const std::array<size_t, D> &ix) const {
    size_t k = 0;
    for (size_t i = 0; i < D; ++i) k = k * g[i].size() + ix[i];
    return d[k];
  }
  // index of the cell holding q (-1 before the first node, n-1 at or after the last)
  static long cell(const std::vector<double> &x, double q) {
    if (q < x.front()) return -1;
    long c = 0;
    for (size_t i = 0; i < x.size(); ++i) if (x[i] <= q) c = (long) i;
    return c;
  }
  double interp(const std::array<double, D> &q, double *scale) const {
    sim::Quiet quiet;
    size_t lo[D], hi[D];
    double w[D];
    double s = 1;
    for (size_t i = 0; i < D; ++i) {
      const auto &x = g[i];
      long c = cell(x, q[i]);
      if (c < 0) { lo[i] = hi[i] = 0; w[i] = 0; }
      else if (c >= (long) x.size() - 1) { lo[i] = hi[i] = x.size() - 1; w[i] = 0; }
      else {
        lo[i] = c;
        hi[i] = c + 1;
        w[i] = (q[i] - x[c]) / (x[c + 1] - x[c]);
        s += std::max(std::fabs(x[c]), std::fabs(x[c + 1])) / (x[c + 1] - x[c]);
      }
    }
    double r = 0, m = 1e-300;
    for (size_t v = 0; v < (size_t(1) << D); ++v) {
      std::array<size_t, D> ix;
      double p = 1;
      for (size_t i = 0; i < D; ++i) {
        bool up = v >> i & 1;
        ix[i] = up ? hi[i] : lo[i];
        p *= up ? w[i] : 1 - w[i];
      }
      double f = at(ix);
      m += std::fabs(f);
      r += p * f;
    }
    *scale = m * s;
    return r;
  }
  std::array<double, D> point(Rng &r, bool inside) const {
    std::array<double, D> p;
    for (size_t i = 0; i < D; ++i) {
      if (g[i].size() < 2) p[i] = inside || r.chance(0.5) ? g[i][0] : g[i][0] + r.real(-2, 2);
      else p[i] = !inside && r.chance(0.3) ? gen_out(r, g[i]) : gen_in(r, g[i]);
    }
    return p;
  }
  bool outside(const std::array<double, D> &p) const {
    for (size_t i = 0; i < D; ++i) if (p[i] < g[i].front() || p[i] > g[i].back()) return true;
    return false;
  }
};

template<size_t D, class T>
void check_interp(const mathutils::RegularGridInterpolator<T, D> &o, const Model<D> &m, Rng &r, const char *what) {
  auto p = m.point(r, false);
  double sc;
  double w = m.interp(p, &sc);
  std::array<T, D> q;
  for (size_t i = 0; i < D; ++i) q[i] = (T) p[i];
  double got = o.Interp(q);
  expect_close("result", what, got, w, sc, sizeof(T) == 4 ? 2e-5 : 1e-10);
}

template<size_t D, class T>
void check_node(const mathutils::GridNode<T, D, double> &n, const Model<D> &m, const char *what) {
  auto ix = n.indices();
  auto co = n.coords();
  for (size_t i = 0; i < D; ++i) {
    expect(ix[i] < m.g[i].size(), "result", "a node index is outside the grid", (long) ix[i], (long) i);
    expect(co[i] == m.g[i][ix[i]], "result", "a node has the coordinates of another node", (long) i);
  }
  expect_same<double>("result", what, (double) n.val(), (double) (T) m.at(ix));
}

template<size_t D, class T>
void check_nearest(const mathutils::RegularGridNearest<T, D> &o, const Model<D> &m, Rng &r, const char *what) {
  auto p = m.point(r, false);
  auto n = o.Nearest(p);
  check_node<D, T>(n, m, what);
  auto ix = n.indices();
  bool tie = false;
  for (size_t i = 0; i < D; ++i) {
    double best = 1e301, second = 1e301;
    for (double x : m.g[i]) {
      double dd = std::fabs(x - p[i]);
      if (dd < best) second = best, best = dd;
      else if (dd < second) second = dd;
    }
    double mine = std::fabs(m.g[i][ix[i]] - p[i]);
    double xm = std::fabs(p[i]) + best;
    expect(mine <= best + 1e-12 * xm, "result", "the node returned is not the nearest one", (long) i, (long) ix[i]);
    if (second <= best + 1e-12 * xm) tie = true;
  }
  if (!tie) expect_same<double>("result", "value of the nearest node", (double) o.GetData(p), (double) (T) m.at(ix));
}

template<size_t D, class T>
void check_around(const mathutils::RegularGridNearest<T, D> &o, const Model<D> &m, Rng &r, const char *what) {
  auto p = m.point(r, false);
  auto ns = o.GetSurroundingGridNodes(p);
  expect(ns.size() == (size_t(1) << D), "result", "number of surrounding nodes", (long) ns.size());
  std::vector<std::array<size_t, D>> got, want;
  for (auto &n : ns) {
    check_node<D, T>(n, m, what);
    got.push_back(n.indices());
  }
  for (size_t v = 0; v < (size_t(1) << D); ++v) {
    std::array<size_t, D> ix;
    for (size_t i = 0; i < D; ++i) {
      long c = Model<D>::cell(m.g[i], p[i]), last = (long) m.g[i].size() - 1;
      ix[i] = c < 0 ? 0 : c >= last ? (size_t) last : (size_t) c + (v >> i & 1);
    }
    want.push_back(ix);
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  expect(got == want, "result", "the surrounding nodes are not the corners of the cell around the point");
}
}  // namespace hg
#endif
