// Interpolators initialised again and again, with failing memory: all or nothing.
#include "common.h"
#include <iostream>
#include "MathUtils/EigenDense.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
using namespace mathutils;
using namespace hc;
const char *harness_name = "C07";

namespace {
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }
int gen_size(Rng &r) { return r.chance(0.06) ? 1 : r.chance(0.15) ? tail(r, 9, 40, 200, 0.1) : r.range(2, 8); }

template<class Base, class T>
void copy_of(std::unique_ptr<Base> &c, const Base &from) {
  c.reset(dup(static_cast<const T &>(from)));
}

template<class Y>
struct I1 {
  typedef Interp1d<double, Y> Int;
  INTERP_METHOD m;
  std::unique_ptr<Int> p;
  std::vector<double> x;
  std::vector<Y> y;
  bool have = false;
  std::shared_ptr<const std::vector<double>> keep_x;   // sometimes the caller keeps its references
  std::shared_ptr<const std::vector<Y>> keep_y;
  std::shared_ptr<const std::vector<double>> last_x;    // what the last successful initialisation was given
  std::shared_ptr<const std::vector<Y>> last_y;
  void init(Rng &r) {
    INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = ms[r.below(3)];
    p.reset(Int::MakeInterp1d(m));
  }
  Y want(double q, double *sc) const {
    double qq = m == LINEAR_SATURATE ? std::min(std::max(q, x.front()), x.back()) : q;
    return ref_linear(x, y, qq, sc);
  }
  double point(Rng &r) const { return x.size() < 2 ? x[0] : m != LINEAR && r.chance(0.3) ? gen_out(r, x) : gen_in(r, x); }
  void look(Rng &r) const {
    if (!have) return;
    expect(p->GetXmin() == x.front() && p->GetXmax() == x.back(), "stale", "bounds of a 1D interpolator do not belong to its data");
    std::unique_ptr<Int> fresh(Int::MakeInterp1d(m));
    fresh->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<Y>>(y));
    for (int i = 0; i < 3; ++i) {
      double q = point(r), sc;
      Y g{}, f{};
      bool gt = false, ft = false;
      try { g = p->Eval(q); } catch (...) { gt = true; }
      try { f = fresh->Eval(q); } catch (...) { ft = true; }
      expect(gt == ft, "stale", "a 1D interpolator throws where a new one given the same data does not, or the other way round", gt, ft);
      if (gt) { expect(x.size() < 2, "stale", "a 1D interpolator refuses a query"); continue; }
      expect_same("stale", "1D interpolator against a new one given the same data", g, f);
      if (x.size() < 2) continue;
      Y w = want(q, &sc);
      expect_close("stale", "1D interpolator", g, w, sc);
    }
  }
  void step(int op, Rng &r) {
    int k = (int) r.below(10);
    if (k < 5) {
      int n = gen_size(r);
      if (have && r.chance(0.3)) n = (int) x.size();
      std::vector<double> nx = have && n == (int) x.size() && r.chance(0.4) ? x : gen_coords(r, n);
      std::vector<Y> ny = vals<Y>(r, n);
      if (have && ny.size() == y.size() && r.chance(0.1)) ny = y;
      auto sx = std::make_shared<const std::vector<double>>(nx);
      auto sy = std::make_shared<const std::vector<Y>>(ny);
      // the very same vectors as last time, one of them or both
      if (have && nx == x && last_x && *last_x == nx && r.chance(0.5)) sx = last_x;
      if (have && last_y && last_y->size() == nx.size() && r.chance(0.3)) sy = last_y, ny = *last_y;
      for (int a = 0; a < 2; ++a) {
        auto f = [&] { p->Initialize(sx, sy); };
        sim::Outcome o = a == 0 ? sim::api(op, f) : sim::plain(op, f);
        sim::log("op %d: Initialize a 1D interpolator with %d points: %s%s", op, n, sim::outcome_name(o), o.fired ? " (fault)" : "");
        if (o.ok()) { x = nx, y = ny, have = true; last_x = sx, last_y = sy; break; }
        if (!o.fired) sim::violation("stale", "an initialisation failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
        sim::probe("failed initialisation");
        if (have) sim::probe("failed re-initialisation");
        Rng q = r;
        o = sim::plain(op, [&] { look(q); });
        if (!o.ok()) sim::violation("stale", "a 1D interpolator cannot be queried after a failed initialisation");
        if (r.chance(0.4)) break;
      }
      if (r.chance(0.3)) { keep_x = sx; keep_y = sy; }
      if (r.chance(0.5)) last_x.reset(), last_y.reset();
    } else if (!have || x.size() < 2) {
      return;
    } else if (k < 8) {
      std::vector<double> q;
      for (int i = tail(r, 0, 5, 40); i > 0; --i) q.push_back(point(r));
      std::vector<Y> g;
      sim::Outcome o = sim::api(op, [&] { g = r.chance(0.5) ? (*p)(q) : p->Eval(q); });
      if (!o.ok() && !o.fired) sim::violation("stale", "a query failed although nothing went wrong");
      if (o.ok()) {
        expect(g.size() == q.size(), "stale", "vector query: length");
        for (size_t i = 0; i < q.size(); ++i) { double sc; Y w = want(q[i], &sc); expect_close("stale", "vector query of a 1D interpolator", g[i], w, sc); }
      }
    } else if (k == 8) {         // a copy answers alike and keeps answering when the original goes
      sim::log("op %d: a copy takes over", op);
      std::unique_ptr<Int> c;
      sim::plain(op, [&] {
        if (m == LINEAR) copy_of<Int, Interp1dLinear<double, Y>>(c, *p);
        else if (m == LINEAR_EXTRAPOLATE) copy_of<Int, Interp1dLinearExtrapolate<double, Y>>(c, *p);
        else copy_of<Int, Interp1dLinearSaturate<double, Y>>(c, *p);
      });
      if (c) p = std::move(c);
    } else {
      keep_x.reset();
      keep_y.reset();
      last_x.reset();
      last_y.reset();
    }
  }
};

struct I2 {
  typedef Interp2d<double> Int;
  std::unique_ptr<Int> p;
  std::vector<double> x, y, d;
  bool have = false;
  std::shared_ptr<const std::vector<double>> last_x, last_y, last_d;   // what the last successful initialisation was given
  void init(Rng &) { p.reset(Int::MakeInterp2d(LINEAR)); }
  void look(Rng &r) const {
    if (!have) return;
    expect(p->GetXmin() == x.front() && p->GetXmax() == x.back() && p->GetYmin() == y.front() && p->GetYmax() == y.back(), "stale",
           "bounds of a 2D interpolator do not belong to its data");
    std::unique_ptr<Int> fresh(Int::MakeInterp2d(LINEAR));
    fresh->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y), std::make_shared<const std::vector<double>>(d));
    for (int i = 0; i < 3; ++i) {
      double a = gen_in(r, x), b = gen_in(r, y), sc;
      double g = p->Eval(a, b);
      expect_same("stale", "2D interpolator against a new one given the same data", g, fresh->Eval(a, b));
      expect_close("stale", "2D interpolator", g, ref_bilinear(x, y, d, a, b, &sc), sc);
    }
  }
  void step(int op, Rng &r) {
    int k = (int) r.below(9);
    if (k < 5) {
      std::vector<double> nx = have && r.chance(0.3) ? x : gen_coords(r, tail(r, 2, 6, 20, 0.08)), ny = have && r.chance(0.3) ? y : gen_coords(r, tail(r, 2, 6, 20, 0.08));
      if (have && r.chance(0.2)) nx = gen_coords(r, (int) x.size());
      if (have && r.chance(0.2)) ny = gen_coords(r, (int) y.size());
      std::vector<double> nd = gen_vals(r, nx.size() * ny.size()), full = nd;
      bool small = r.chance(0.12);
      if (small) nd.resize(r.below(nd.size()));
      auto sx = std::make_shared<const std::vector<double>>(nx), sy = std::make_shared<const std::vector<double>>(ny), sd = std::make_shared<const std::vector<double>>(nd);
      if (have && last_x && *last_x == nx && r.chance(0.6)) sx = last_x;
      if (have && last_y && *last_y == ny && r.chance(0.6)) sy = last_y;
      if (have && last_d && !small && last_d->size() == nd.size() && r.chance(0.4)) sd = last_d, nd = *last_d;
      for (int a = 0; a < 3; ++a) {
        auto f = [&] { p->Initialize(sx, sy, sd); };
        sim::Outcome o = a == 0 ? sim::api(op, f) : sim::plain(op, f);
        sim::log("op %d: Initialize a 2D interpolator %dx%d%s: %s%s", op, (int) nx.size(), (int) ny.size(), small ? ", data too short" : "", sim::outcome_name(o), o.fired ? " (fault)" : "");
        if (o.ok()) {
          if (small) sim::violation("stale", "data that are too short were accepted");
          x = nx, y = ny, d = nd, have = true;
          last_x = last_y = last_d = nullptr;
          if (r.chance(0.7)) last_x = sx, last_y = sy, last_d = sd;
          break;
        }
        if (!o.fired && !small) sim::violation("stale", "an initialisation failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
        sim::probe("failed initialisation");
        if (have) sim::probe("failed re-initialisation");
        Rng q = r;
        o = sim::plain(op, [&] { look(q); });
        if (!o.ok()) sim::violation("stale", "a 2D interpolator cannot be queried after a failed initialisation");
        if (r.chance(0.4)) break;
        if (small) { small = false; nd = full; sd = std::make_shared<const std::vector<double>>(nd); }
      }
    } else if (!have) {
      return;
    } else if (k < 8) {
      std::vector<std::vector<double>> q(r.range(0, 3));
      for (auto &v : q) { double a = gen_in(r, x); double b = gen_in(r, y); v = {a, b}; }
      std::vector<double> g;
      sim::Outcome o = sim::api(op, [&] { g = r.chance(0.5) ? (*p)(q) : p->Eval(q); });
      if (!o.ok() && !o.fired) sim::violation("stale", "a query failed although nothing went wrong");
      if (o.ok()) {
        expect(g.size() == q.size(), "stale", "2D vector query: length");
        for (size_t i = 0; i < q.size(); ++i) { double sc; double w = ref_bilinear(x, y, d, q[i][0], q[i][1], &sc); expect_close("stale", "vector query of a 2D interpolator", g[i], w, sc); }
      }
    } else {
      sim::log("op %d: a copy takes over", op);
      std::unique_ptr<Int> c;
      sim::plain(op, [&] { copy_of<Int, Interp2dLinear<double>>(c, *p); });
      if (c) p = std::move(c);
    }
  }
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[] = {0, 0.2, 0.5, 0.8};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate], 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  int nops = w.chance(0.2) ? w.range(20, 40) : w.range(2, 12);
  int mask = (int) w.below(7) + 1;
  sim::note_work(mask * 10 + rate + nops * 100);
  sim::log("mask=%d ops=%d alloc-rate=%.2f", mask, nops, rates[rate]);
  I1<double> a[2];
  I1<cplx> c;
  I2 d[2];
  sim::Outcome o = sim::plain(0, [&] { a[0].init(w), a[1].init(w), c.init(w), d[0].init(w), d[1].init(w); });
  if (!o.ok()) sim::violation("stale", "making interpolators failed");
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    std::vector<int> ks;
    if (mask & 1) ks.push_back(0), ks.push_back(0), ks.push_back(1);
    if (mask & 2) ks.push_back(2);
    if (mask & 4) ks.push_back(3), ks.push_back(3), ks.push_back(4);
    int k = ks[r.below(ks.size())];
    switch (k) {
      case 0: case 1: a[k].step(j, r); break;
      case 2: c.step(j, r); break;
      default: d[k - 3].step(j, r);
    }
    Rng q = sim::op_rng(10000 + j);
    sim::Outcome o = sim::plain(10000 + j, [&] { a[0].look(q), a[1].look(q), c.look(q), d[0].look(q), d[1].look(q); });
    if (!o.ok()) sim::violation("stale", "after operation %d an interpolator cannot be queried: %s %s", j, sim::outcome_name(o), o.what);
  }
}
