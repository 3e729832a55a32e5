// Probes: tables, interpolators, splines.
#include "probes.h"
#include <iostream>
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include "MathUtils/EigenDense.h"
#include "MathUtils/Spline.h"
using namespace mathutils;
using namespace hc;
namespace {
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }
INTERP_METHOD method(Rng &r) { INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}; return ms[r.below(3)]; }
double at(Rng &r, INTERP_METHOD m, const std::vector<double> &x) { return m != LINEAR && r.chance(0.3) ? gen_out(r, x) : gen_in(r, x); }

template<class Y>
struct PTable1 : Probe {
  INTERP_METHOD m;
  LookupTable1D<double, Y> t;
  std::vector<double> x;
  std::vector<std::string> names;
  explicit PTable1(Rng &r) : m(method(r)), t(m), x(gen_coords(r, tail(r, 2, 9, 60))) {
    t.SetX(x);
    int k = tail(r, 1, 4, 12), off = (int) r.below(24);
    for (int i = 0; i < k; ++i) {
      names.push_back(series_name(off + i * 7));
      if (!t.AddY(names.back(), vals<Y>(r, x.size()))) sim::violation("result", "a fresh series name was refused");
    }
  }
  void query(Rng &r, Out &o) override {
    const std::string &s = names[r.below(names.size())];
    switch (r.below(6)) {
      case 0: { std::vector<double> q(r.range(0, 6)); for (auto &e : q) e = at(r, m, x); put(o, t.Eval(s, q)); break; }
      case 1: { auto a = t.template Eval<double, Y>(at(r, m, x)); o.add((double) a.size()); for (auto &n : names) { auto i = a.find(n); if (i != a.end()) put(o, i->second); } break; }
      case 2: o.add(t.GetXmin(s)), o.add(t.GetXmax(s)), o.add((double) t.GetNbSeries()), put(o, t.GetX()); break;
      default: put(o, t.Eval(s, at(r, m, x)));
    }
  }
};
struct PTable2 : Probe {
  LookupTable2d<double> t;
  std::vector<double> x, y;
  std::vector<std::string> names;
  explicit PTable2(Rng &r) : x(gen_coords(r, tail(r, 2, 6, 20))), y(gen_coords(r, tail(r, 2, 6, 20))) {
    t.SetX(x);
    t.SetY(y);
    int k = r.range(1, 4), off = (int) r.below(24);
    for (int i = 0; i < k; ++i) {
      names.push_back(series_name(off + i * 5));
      if (!t.AddData(names.back(), gen_vals(r, x.size() * y.size()))) sim::violation("result", "a fresh series name was refused");
    }
  }
  void query(Rng &r, Out &o) override {
    const std::string &s = names[r.below(names.size())];
    if (r.chance(0.3)) {
      std::vector<std::vector<double>> q(r.range(0, 5));
      for (auto &e : q) { double a = gen_in(r, x), b = gen_in(r, y); e = {a, b}; }
      put(o, t.Eval(s, q));
    } else {
      double a = gen_in(r, x), b = gen_in(r, y);
      put(o, t.Eval(s, a, b));
    }
  }
};
template<class Y>
struct PInterp1 : Probe {
  INTERP_METHOD m;
  std::unique_ptr<Interp1d<double, Y>> p;
  std::vector<double> x;
  explicit PInterp1(Rng &r) : m(method(r)), p(Interp1d<double, Y>::MakeInterp1d(m)) { Out o; update(r, o); }
  void update(Rng &r, Out &) override {
    x = gen_coords(r, tail(r, 2, 8, 40));
    auto y = vals<Y>(r, x.size());
    p->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<Y>>(y));
  }
  void query(Rng &r, Out &o) override {
    if (r.chance(0.25)) { std::vector<double> q(r.range(0, 6)); for (auto &e : q) e = at(r, m, x); put(o, p->Eval(q)); }
    else if (r.chance(0.3)) put(o, (*p)(at(r, m, x)));
    else put(o, p->Eval(at(r, m, x)));
  }
};
struct PInterp2 : Probe {
  std::unique_ptr<Interp2d<double>> p;
  std::vector<double> x, y;
  explicit PInterp2(Rng &r) : p(Interp2d<double>::MakeInterp2d(LINEAR)) { Out o; update(r, o); }
  void update(Rng &r, Out &) override {
    x = gen_coords(r, tail(r, 2, 6, 15)), y = gen_coords(r, tail(r, 2, 6, 15));
    auto d = gen_vals(r, x.size() * y.size());
    p->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y), std::make_shared<const std::vector<double>>(d));
  }
  void query(Rng &r, Out &o) override {
    if (r.chance(0.25)) {
      std::vector<std::vector<double>> q(r.range(0, 5));
      for (auto &e : q) { double a = gen_in(r, x), b = gen_in(r, y); e = {a, b}; }
      put(o, p->Eval(q));
    } else {
      double a = gen_in(r, x), b = gen_in(r, y);
      put(o, p->Eval(a, b));
    }
  }
};
template<unsigned N>
struct PSpline : Probe {
  std::vector<double> x;
  std::unique_ptr<Spline<double, 1, N>> p;
  explicit PSpline(Rng &r) { Out o; update(r, o); }
  void update(Rng &r, Out &) override {
    x = gen_coords(r, r.range(N + 1, 9));
    auto y = gen_vals(r, x.size());
    p.reset(new Spline<double, 1, N>(x, y));
  }
  void query(Rng &r, Out &o) override { put(o, (double) (*p)(gen_in(r, x))); }
};
template<class T> Probe *mk(Rng &r) { return new T(r); }
}  // namespace
const ProbeKind table_probes[] = {
  {"1D table", mk<PTable1<double>>, true, false, true}, {"1D table of complex values", mk<PTable1<cplx>>, true, false, true}, {"2D table", mk<PTable2>, true, false, true},
  {"1D interpolator", mk<PInterp1<double>>, true, true, true}, {"1D interpolator of complex values", mk<PInterp1<cplx>>, true, true, true},
  {"2D interpolator", mk<PInterp2>, true, true, true}, {"spline", mk<PSpline<1>>, true, true, true}, {"spline", mk<PSpline<3>>, true, true, true}};
const int n_table_probes = sizeof table_probes / sizeof *table_probes;
