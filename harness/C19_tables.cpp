// C19: tables, interpolators, splines, grids.
#include "C19.h"
#include "grids.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include "MathUtils/EigenDense.h"
#include "MathUtils/Spline.h"
using namespace mathutils;
namespace {
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }

// ---- kinds: how an object is made, changed and asked; Info is what the questions need to know ----------------------
template<class Y, int M>
struct KTable {
  typedef LookupTable1D<double, Y> T;
  struct Info { std::vector<double> x; std::vector<std::string> names; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = true;
  static const char *name() { return "1D table"; }
  static INTERP_METHOD method() { return M == 0 ? LINEAR : M == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE; }
  static T *make(Rng &r, Info &f) {
    std::unique_ptr<T> t(new T(method()));
    f.x = gen_coords(r, tail(r, 2, 8, 40));
    t->SetX(f.x);
    for (int k = r.range(1, 3), off = (int) r.below(24), i = 0; i < k; ++i) add(*t, f, series_name(off + i * 7), r);
    return t.release();
  }
  static void add(T &t, Info &f, const std::string &n, Rng &r) {
    auto y = vals<Y>(r, f.x.size());
    if (std::find(f.names.begin(), f.names.end(), n) != f.names.end()) return;
    if (!t.AddY(n, y)) sim::violation("result", "a fresh series name was refused");
    f.names.push_back(n);
  }
  static void update(T &t, Info &f, Rng &r) { add(t, f, series_name((int) r.below(24)), r); }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    for (auto &n : f.names) put(o, t.Eval(n, gen_in(r, f.x))), o.add(t.GetXmin(n)), o.add(t.GetXmax(n));
    if (M) put(o, t.Eval(f.names[0], gen_out(r, f.x)));
    o.add((double) t.GetNbSeries()), put(o, t.GetX());
    o.add((double) t.template Eval<double, Y>(gen_in(r, f.x)).size());
  }
};
template<class I, class Y, int OUT>
struct KInterp1 {
  typedef I T;
  struct Info { std::vector<double> x; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = true;
  static const char *name() { return "1D interpolator"; }
  static T *make(Rng &r, Info &f) { std::unique_ptr<T> t(new T); update(*t, f, r); return t.release(); }
  static void update(T &t, Info &f, Rng &r) {
    f.x = gen_coords(r, tail(r, 2, 8, 40));
    auto y = vals<Y>(r, f.x.size());
    t.Initialize(std::make_shared<const std::vector<double>>(f.x), std::make_shared<const std::vector<Y>>(y));
  }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    const Interp1d<double, Y> &b = t;
    for (int i = 0; i < 3; ++i) put(o, b.Eval(gen_in(r, f.x)));
    if (OUT) put(o, b.Eval(gen_out(r, f.x)));
    std::vector<double> q = {gen_in(r, f.x), gen_in(r, f.x)};
    put(o, b.Eval(q)), o.add(b.GetXmin()), o.add(b.GetXmax());
  }
};
struct KInterp2 {
  typedef Interp2dLinear<double> T;
  struct Info { std::vector<double> x, y; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = true;
  static const char *name() { return "2D interpolator"; }
  static T *make(Rng &r, Info &f) { std::unique_ptr<T> t(new T); update(*t, f, r); return t.release(); }
  static void update(T &t, Info &f, Rng &r) {
    f.x = gen_coords(r, tail(r, 2, 6, 15)), f.y = gen_coords(r, tail(r, 2, 6, 15));
    auto d = gen_vals(r, f.x.size() * f.y.size());
    t.Initialize(std::make_shared<const std::vector<double>>(f.x), std::make_shared<const std::vector<double>>(f.y), std::make_shared<const std::vector<double>>(d));
  }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    const Interp2d<double> &b = t;
    for (int i = 0; i < 3; ++i) { double x = gen_in(r, f.x), y = gen_in(r, f.y); put(o, b.Eval(x, y)); }
    o.add(b.GetXmin()), o.add(b.GetXmax()), o.add(b.GetYmin()), o.add(b.GetYmax());
  }
};
template<unsigned N>
struct KSpline {
  typedef Spline<double, 1, N> T;
  struct Info { std::vector<double> x; };
  static constexpr bool strike_copy = true, strike_assign = false, shared = true;   // Eigen's resize does not survive a failure
  static const char *name() { return "spline"; }
  static T *make(Rng &r, Info &f) {
    f.x = gen_coords(r, r.range(N + 1, 9));
    auto y = gen_vals(r, f.x.size());
    return new T(f.x, y);
  }
  static void update(T &, Info &, Rng &) {}
  static void ask(T &t, const Info &f, Rng &r, Out &o) { for (int i = 0; i < 4; ++i) put(o, (double) t(gen_in(r, f.x))); }
};
template<template<class, size_t> class G, size_t D>
struct KGrid {
  typedef G<double, D> T;
  struct Info { hg::Model<D> m; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = true;
  static const char *name() { return "grid"; }
  static T *make(Rng &r, Info &f) {
    std::unique_ptr<T> t(new T);
    f.m = hg::Model<D>::make(r, 1, D == 1 ? 6 : 4);
    for (auto &c : f.m.g) t->AddCoord(c);
    auto a = f.m.template array<double>();
    t->AddVar(a);
    return t.release();
  }
  static void update(T &t, Info &f, Rng &r) {
    f.m.d = gen_vals(r, f.m.d.size());
    auto a = f.m.template array<double>();
    t.AddVar(a);
  }
  static void one(RegularGridInterpolator<double, D> &t, const std::array<double, D> &p, Out &o) { o.add(t.Interp(p)); }
  static void one(RegularGridNearest<double, D> &t, const std::array<double, D> &p, Out &o) {
    auto n = t.Nearest(p);
    o.add(n.val());
    for (auto &s : t.GetSurroundingGridNodes(p)) o.add(s.val());
  }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    for (int i = 0; i < 3; ++i) one(t, f.m.point(r, false), o);
    for (unsigned i = 0; i < D; ++i) put(o, t.GetCoord(i)), o.add(t.GetCoordMinVal(i)), o.add(t.GetCoordMaxVal(i));
    o.add(t.IsValid());
  }
};
template<class T, size_t D> using GN = RegularGridNearest<T, D>;
template<class T, size_t D> using GI = RegularGridInterpolator<T, D>;

typedef double d;
}  // namespace
const Mk table_zoos[] = {
  ZooOf<KTable<d, 0>>::make, ZooOf<KTable<d, 1>>::make, ZooOf<KTable<cplx, 2>>::make,
  ZooOf<KInterp1<Interp1dLinear<d, d>, d, 0>>::make, ZooOf<KInterp1<Interp1dLinearExtrapolate<d, cplx>, cplx, 1>>::make, ZooOf<KInterp1<Interp1dLinearSaturate<d, d>, d, 1>>::make,
  ZooOf<KInterp2>::make, ZooOf<KSpline<1>>::make, ZooOf<KSpline<3>>::make,
  ZooOf<KGrid<GI, 1>>::make, ZooOf<KGrid<GI, 2>>::make, ZooOf<KGrid<GI, 3>>::make, ZooOf<KGrid<GN, 1>>::make, ZooOf<KGrid<GN, 2>>::make};
const int n_table_zoos = sizeof table_zoos / sizeof *table_zoos;
