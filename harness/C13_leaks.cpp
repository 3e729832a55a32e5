// The same failing sequence over and over: the memory in use must not grow, and nothing is released twice.
#include "C13.h"
#include "streams.h"
#include "series.h"
#include "grids.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
using namespace mathutils;
using namespace hc;
const char *harness_name = "C13";

namespace {
hs::FaultBuf outbuf;
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }
INTERP_METHOD method(Rng &r) { INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}; return ms[r.below(3)]; }

template<class Y>
void table1(Seq &q, Rng r) {
  typedef LookupTable1D<double, Y> Tab;
  std::unique_ptr<Tab> t;
  auto x = gen_coords(r, tail(r, 2, 6, 40));
  INTERP_METHOD m = method(r);
  if (!q.step(0, [&] { t.reset(new Tab(m)); }) || !t) return;
  if (!q.step(1, [&] { t->SetX(x); })) return;
  int n = r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    auto y = vals<Y>(r, x.size());
    std::string s = series_name((int) r.below(24));
    q.step(2 + i, [&] { hs::Armed a(std::cout, outbuf); t->AddY(s, y); });
  }
  q.step(10, [&] { t->Eval(series_name(r.range(0, 23)), gen_in(r, x)); });
  q.step(11, [&] { std::vector<double> p = {x[0], x[1]}; t->Eval(series_name(0), p); });
  if (m != LINEAR) q.step(12, [&] { t->template Eval<double, Y>(0.5 * (x[0] + x[1])); });
  if (r.chance(0.4)) {
    std::unique_ptr<Tab> u;
    q.step(13, [&] { u.reset(new Tab(std::move(*t))); });
    if (u) q.step(14, [&] { u->AddY("after the move, a name on the heap", vals<Y>(r, x.size())); });
    if (u && r.chance(0.5)) q.step(15, [&] { Tab v(method(r)); v.SetX(x); v.AddY("overwritten, a long name on the heap", vals<Y>(r, x.size())); v = std::move(*u); });
  }
  q.step(16, [&] { t.reset(); });
}
void table2(Seq &q, Rng r) {
  std::unique_ptr<LookupTable2d<double>> t;
  auto x = gen_coords(r, tail(r, 2, 5, 15)), y = gen_coords(r, tail(r, 2, 5, 15));
  if (!q.step(0, [&] { t.reset(new LookupTable2d<double>()); }) || !t) return;
  bool ok = q.step(1, [&] { t->SetX(x); });
  ok &= q.step(2, [&] { t->SetY(y); });
  if (!ok) return;
  int n = r.range(1, 5);
  for (int i = 0; i < n; ++i) {
    auto d = gen_vals(r, x.size() * y.size() + (r.chance(0.2) ? 1 : 0));
    std::string s = series_name((int) r.below(24));
    q.step(3 + i, [&] { hs::Armed a(std::cout, outbuf); t->AddData(s, d); });
  }
  q.step(10, [&] { t->Eval(series_name((int) r.below(24)), gen_in(r, x), gen_in(r, y)); });
  q.step(11, [&] { std::vector<std::vector<double>> c = {{x[0], y[0]}, {x[1], y[1]}}; t->Eval(series_name(0), c); });
  q.step(12, [&] { t.reset(); });
}
template<class Y>
void interp1(Seq &q, Rng r) {
  typedef Interp1d<double, Y> Int;
  Int *p = nullptr;                        // deleted through the base class
  INTERP_METHOD m = method(r);
  if (!q.step(0, [&] { p = Int::MakeInterp1d(m); }) || !p) return;
  int n = r.range(1, 4);
  bool have = false;
  std::vector<double> x;
  for (int i = 0; i < n; ++i) {
    auto nx = gen_coords(r, tail(r, 2, 9, 60));
    auto y = vals<Y>(r, nx.size());
    bool ok = q.step(1 + i, [&] { p->Initialize(std::make_shared<const std::vector<double>>(nx), std::make_shared<const std::vector<Y>>(y)); });
    if (ok) have = true, x = nx;
  }
  if (have) {
    double far = m == LINEAR ? gen_in(r, x) : gen_out(r, x);      // LINEAR ends the process outside its range
    q.step(6, [&] { p->Eval(far); });
    q.step(7, [&] { std::vector<double> c = {x[0], x[1], far}; p->Eval(c); });
    q.step(8, [&] { (*p)(gen_in(r, x)); });
  }
  delete p;
}
void interp2(Seq &q, Rng r) {
  Interp2d<double> *p = nullptr;
  if (!q.step(0, [&] { p = Interp2d<double>::MakeInterp2d(LINEAR); }) || !p) return;
  bool have = false;
  int n = r.range(1, 4);
  std::vector<double> x, y;
  for (int i = 0; i < n; ++i) {
    auto nx = gen_coords(r, tail(r, 2, 6, 15)), ny = gen_coords(r, tail(r, 2, 6, 15));
    auto d = gen_vals(r, nx.size() * ny.size() + (r.chance(0.15) ? 1 : 0));
    bool ok = q.step(1 + i, [&] {
      p->Initialize(std::make_shared<const std::vector<double>>(nx), std::make_shared<const std::vector<double>>(ny), std::make_shared<const std::vector<double>>(d));
    });
    if (ok) have = true, x = nx, y = ny;
  }
  if (have) {
    q.step(6, [&] { p->Eval(x[0], y[0]); });
    q.step(7, [&] { std::vector<std::vector<double>> c = {{x[0], y[0]}, {x[1], y[1]}}; p->Eval(c); });
  }
  delete p;
}
template<class T, size_t D> using GI = RegularGridInterpolator<T, D>;
template<class T, size_t D> using GN = RegularGridNearest<T, D>;
template<size_t D> void use(const RegularGridInterpolator<double, D> &g, std::array<double, D> p) { g.Interp(p); p[0] -= 1e9; g.Interp(p, true); }
template<size_t D> void use(const RegularGridNearest<double, D> &g, const std::array<double, D> &p) { g.Nearest(p); g.GetSurroundingGridNodes(p); }
template<size_t D, template<class, size_t> class G>
void grid(Seq &q, Rng r) {
  typedef G<double, D> Obj;
  std::unique_ptr<Obj> a, b;
  auto m = hg::Model<D>::make(r, 1, 4), m2 = hg::Model<D>::make(r, 1, 4);
  if (!q.step(0, [&] { a.reset(new Obj); b.reset(new Obj); }) || !a || !b) return;
  bool full = true, bfull = true;
  for (size_t i = 0; i < D; ++i) {
    full &= q.step(1 + (int) i, [&] { a->AddCoord(m.g[i]); });
    bfull &= q.step(5 + (int) i, [&] { b->AddCoord(m2.g[i]); });
  }
  if (full) {
    if (r.chance(0.3)) q.step(10, [&] { auto arr = m2.template array<double>(); a->AddVar(arr); });   // often another shape
    q.step(11, [&] { auto arr = m.template array<double>(); a->AddVar(arr); });
    if (r.chance(0.5)) q.step(12, [&] { auto arr = m.template array<double>(); a->AddVar(arr); });
  }
  if (bfull) q.step(13, [&] { auto arr = m2.template array<double>(); b->AddVar(arr); });
  q.step(14, [&] { Obj c(*a); });
  bool assigned = q.step(15, [&] { *b = *a; });
  q.step(16, [&] { *a = *a; });
  if (assigned) q.step(17, [&] { Obj c(*b); c = *a; });
  std::array<double, D> pt;
  for (size_t i = 0; i < D; ++i) pt[i] = m.g[i][0];
  if (a->IsValid()) q.step(18, [&] { use(*a, pt); });
  q.step(19, [&] { a.reset(); b.reset(); });
}

void cheb(Seq &q, Rng r) {
  hs::Fn fn;
  fn.init(r);
  fn.hook = [] { sim::callback_point(); };
  hs::Cheb c;
  c.shape(r, 6, 3, 2);
  ChebyshevSeries1dBase<double> *p1 = nullptr;
  ChebyshevSeries2dBase<double> *p2 = nullptr;
  ChebyshevSeries3dBase<double> *p3 = nullptr;
  auto *a = c.m.ax;
  int *o = c.m.ord;
  bool ok = q.step(0, [&] {
    switch (c.kind) {
      case 0: p1 = new ChebyshevSeries1dClosed<double>(&fn, a[0].a, a[0].b, o[0]); break;
      case 1: p1 = new ChebyshevSeries1dOpened<double>(&fn, a[0].a, o[0]); break;
      case 2: p2 = new ChebyshevSeries2dClosed<double>(&fn, a[0].a, a[0].b, a[1].a, a[1].b, o[0], o[1]); break;
      case 3: p2 = new ChebyshevSeries2dOpened<double>(&fn, a[0].a, a[1].a, o[0], o[1]); break;
      case 4: p2 = new ChebyshevSeries2dMixed<double>(&fn, a[0].a, a[0].b, a[1].a, o[0], o[1]); break;
      case 5: p3 = new ChebyshevSeries3dClosed<double>(&fn, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, a[2].b, o[0], o[1], o[2]); break;
      case 6: p3 = new ChebyshevSeries3dYZOpenedXClosed<double>(&fn, a[0].a, a[0].b, a[1].a, a[2].a, o[0], o[1], o[2]); break;
      default: p3 = new ChebyshevSeries3dZOpenedXYClosed<double>(&fn, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, o[0], o[1], o[2]);
    }
  });
  if (!ok) return;
  hs::P3 x = c.m.gen(r);
  PowerSeries1dBase<double> *w1 = nullptr;
  PowerSeries2dBase<double> *w2 = nullptr;
  PowerSeries3dBase<double> *w3 = nullptr;
  for (int i = 0; i < 2; ++i) {
    q.step(1 + i, [&] { if (p1) p1->Compute_ai(); else if (p2) p2->Compute_aij(); else p3->Compute_aijk(); });
  }
  q.step(4, [&] { if (p1) p1->Evaluate(x[0]); else if (p2) p2->Evaluate(x[0], x[1]); else p3->Evaluate(x[0], x[1], x[2]); });
  q.step(5, [&] { if (p1) p1->Evaluate_derivative_x(x[0]); else if (p2) p2->Evaluate_derivative_y(x[0], x[1]); else p3->Evaluate_derivative_z(x[0], x[1], x[2]); });
  q.step(6, [&] {
    if (p1) w1 = new PowerSeries1dClosed<double>(p1->Compute_bi(), a[0].a, a[0].b);
    else if (p2) w2 = new PowerSeries2dClosed<double>(p2->Compute_bij(), a[0].a, a[0].b, a[1].a, a[1].b);
    else w3 = new PowerSeries3dZOpenedXYClosed<double>(p3->Compute_bijk(), a[0].a, a[0].b, a[1].a, a[1].b, a[2].a);
  });
  q.step(7, [&] { if (w1) w1->Evaluate(x[0]); if (w2) w2->Evaluate_derivative_x(x[0], x[1]); if (w3) w3->Evaluate(x[0], x[1], x[2]); });
  q.step(8, [&] { if (w3) { auto k = w3->Compute_cij(x[2]); w3->Evaluate_z_predefined(x[0], x[1], k); w3->Evaluate_zinf(x[0], x[1]); w3->bijk(); } });
  delete p1;
  delete p2;
  delete p3;
  delete w1;
  delete w2;
  delete w3;
}
template<class T>
void quad(Seq &q, Rng r) {
  hs::IntegrandOf<T> f;
  int order = r.range(1, 8);
  f.l = hs::LinPow::make(r, order);
  f.hook = [] { sim::callback_point(); };
  Integration2d<T> *p = nullptr;
  if (!q.step(0, [&] { p = new Integration2dTriangle<T>(&f, order); }) || !p) return;
  for (int i = 0; i < 3; ++i) {
    hs::Tri t = hs::Tri::make(r);
    q.step(1 + i, [&] { p->Compute(t.v[0], t.v[1], t.v[2]); });
  }
  delete p;
}
double thrower(double x) { sim::callback_point(); return x * x; }
void int1(Seq &q, Rng r) {
  std::unique_ptr<Integrate1d<double>> a, b;
  unsigned n = (unsigned) r.range(2, 20);
  if (!q.step(0, [&] { a.reset(new Integrate1d<double>(thrower, 0, 1, n)); }) || !a) return;
  for (int i = 0; i < 4; ++i) {
    q.step(1 + i, [&] { a->Get(); });
    if (r.chance(0.5)) a->SetXmax(2 + i);
  }
  q.step(6, [&] { b.reset(dup(*a)); });
  q.step(7, [&] { Integrate1d<double> c(gen_vals(r, n), 0, 1, n); c.Get(); c.SetIntegrationMethod(NEWTON_COTES); c.Get(); });
  if (b) q.step(8, [&] { b->SetXmin(-1); b->Get(); });
}
}  // namespace

static const Named acts[] = {
  {"1D table", table1<double>}, {"1D table of complex values", table1<cplx>}, {"2D table", table2},
  {"1D interpolator", interp1<double>}, {"1D interpolator of complex values", interp1<cplx>}, {"2D interpolator", interp2},
  {"1D grid interpolator", grid<1, GI>}, {"2D grid interpolator", grid<2, GI>},
  {"3D grid interpolator", grid<3, GI>}, {"1D nearest grid", grid<1, GN>},
  {"2D nearest grid", grid<2, GN>}, {"Chebyshev and power series", cheb},
  {"Chebyshev and power series", cheb}, {"triangle quadrature", quad<double>}, {"triangle quadrature of vectors", quad<VectorN<double>>},
  {"1D integrator", int1},
};
static const int nacts = sizeof acts / sizeof *acts;

void scenario() {
  Rng &w = sim::work();
  static const double rates[][3] = {{0.15, 0.05, 0.1}, {0.5, 0.1, 0.2}, {0.1, 0.4, 0.2}, {0.85, 0.05, 0.05}, {0, 0, 0}};
  int rate = (int) w.below(5);
  sim::set_rates(rates[rate][0], rates[rate][1], rates[rate][2]);
  sim::set_heap_reuse(w.chance(0.5));
  std::streambuf *old = std::cout.rdbuf(&outbuf);
  outbuf.out.reserve(1 << 16);
  int k = w.chance(0.7) ? 1 : 2;
  struct Part { const Named *n; Rng r; Seq q; };
  std::vector<Part> parts;
  for (int i = 0; i < k; ++i) {
    int t = (int) w.below(nacts + n_linear_acts);
    parts.push_back({t < nacts ? &acts[t] : &linear_acts[t - nacts], Rng(w.next()), Seq()});
    parts.back().q.base = 1000 * (i + 1);
    sim::log("sequence %d: %s", i, parts.back().n->name);
    sim::note_work((uint64_t) t * 10 + i);
  }
  const int K = 4;
  long blocks[K + 1], bytes[K + 1];
  for (int rep = -1; rep < K; ++rep) {
    for (auto &p : parts) {
      p.q.dry = rep < 0;
      p.n->act(p.q, p.r);
    }
    outbuf.out.clear();
    blocks[rep + 1] = sim::live_blocks();
    bytes[rep + 1] = sim::live_bytes();
    sim::log("repetition %d: %ld blocks, %ld bytes in use", rep, blocks[rep + 1], bytes[rep + 1]);
  }
  sim::oracle();
  bool grows = true, swells = true;
  for (int i = 2; i <= K; ++i) grows &= blocks[i] > blocks[i - 1], swells &= bytes[i] > bytes[i - 1];
  if (grows || swells)
    sim::violation("leak", "%s: every repetition of the same sequence leaves %ld more blocks (%ld bytes) in use", parts[0].n->name,
                   blocks[K] - blocks[K - 1], bytes[K] - bytes[K - 1]);
  std::cout.rdbuf(old);
}
