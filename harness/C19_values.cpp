// C19: quadratures, integrators, Fourier transforms, matrices and vectors; the scenario.
#include "C19.h"
#include "series.h"
using namespace mathutils;
const char *harness_name = "C19";
namespace {
struct KQuad {
  typedef Integration2dTriangle<double> T;
  struct Info { std::shared_ptr<hs::IntegrandOf<double>> f; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = true;
  static const char *name() { return "triangle quadrature"; }
  static T *make(Rng &r, Info &f) {
    int order = r.range(1, 8);
    f.f = std::make_shared<hs::IntegrandOf<double>>();
    f.f->l = hs::LinPow::make(r, 8);
    return new T(f.f.get(), order);
  }
  static void update(T &, Info &, Rng &) {}
  static void ask(T &t, const Info &, Rng &r, Out &o) { for (int i = 0; i < 2; ++i) { auto q = hs::Tri::make(r); o.add(t.Compute(q.v[0], q.v[1], q.v[2])); } }
};
double fa(double x) { return 3 * x * x - x; }
double fb(double x) { return std::cos(x) + 2; }
struct KIntegral {
  typedef Integrate1d<double> T;
  struct Info {};
  static constexpr bool strike_copy = true, strike_assign = true, shared = false;
  static const char *name() { return "1D integrator"; }
  static T *make(Rng &r, Info &) {
    unsigned n = (unsigned) r.range(2, 20);
    double a = r.real(-3, 3), b = a + r.real(0.1, 5);
    if (r.chance(0.4)) return new T(gen_vals(r, n), a, b, n);
    return new T(r.chance(0.5) ? fa : fb, a, b, n);
  }
  static void update(T &t, Info &, Rng &r) { double a = r.real(-3, 3); if (r.chance(0.5)) t.SetXmin(a); else t.SetXmax(a + 6.5); if (r.chance(0.5)) t.Get(); }
  static void ask(T &t, const Info &, Rng &, Out &o) { o.add(t.Get()), o.add(t.GetXmin()), o.add(t.GetXmax()), o.add(t.GetIntegrationMethod()); }
};
struct KFft {
  typedef mathutils::FFT<double> T;
  struct Info { bool half = false; };
  static constexpr bool strike_copy = true, strike_assign = true, shared = false;
  static const char *name() { return "Fourier transform"; }
  static T *make(Rng &r, Info &f) { std::unique_ptr<T> t(new T); for (int i = r.range(0, 3); i > 0; --i) update(*t, f, r); return t.release(); }
  static void update(T &t, Info &f, Rng &r) {
    switch (r.below(6)) {
      case 0: t.HalfSpectrumON(); f.half = true; break;
      case 1: t.HalfSpectrumOFF(); f.half = false; break;
      case 2: t.ScalingON(); break;
      case 3: t.ScalingOFF(); break;
      default: { std::vector<cplx> F; t.fft(F, gen_vals(r, 2 * r.range(1, 8))); }
    }
  }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    size_t n = 2 * r.range(1, 8);
    std::vector<cplx> F;
    std::vector<double> fr, y;
    t.fft(F, fr, gen_vals(r, n), 3.);
    put(o, F), put(o, fr);
    F.assign(f.half ? n / 2 + 1 : n, 0);
    for (size_t i = 0; i <= n / 2; ++i) F[i] = cplx(gen_val(r), i && i < n / 2 ? gen_val(r) : 0);
    if (!f.half) for (size_t i = n / 2 + 1; i < n; ++i) F[i] = std::conj(F[n - i]);
    t.ifft(y, F);
    put(o, y);
  }
};
void coef(Out &o, double v) { o.add(v); }
void coef(Out &o, cplx v) { put(o, v); }
template<class S> S gval(Rng &r);
template<> double gval<double>(Rng &r) { return gen_val(r); }
template<> cplx gval<cplx>(Rng &r) { double a = gen_val(r), b = gen_val(r); return cplx(a, b); }
template<class M, class S, int R, int C>         // R, C: fixed sizes, 0 any
struct KMatrix {
  typedef M T;
  struct Info {};
  static constexpr bool strike_copy = true, strike_assign = false, shared = true;
  static const char *name() { return R ? "fixed-size matrix or vector" : "matrix or vector"; }
  static void fill(T &t, Rng &r) { for (long i = 0; i < t.rows(); ++i) for (long j = 0; j < t.cols(); ++j) t(i, j) = gval<S>(r); }
  static T *make(Rng &r, Info &) {
    std::unique_ptr<T> t(new T);
    if constexpr (!R) { int m = tail(r, 0, 5, 20), n = C ? C : tail(r, 0, 5, 20); t->resize(m, n); }
    fill(*t, r);
    return t.release();
  }
  static void update(T &t, Info &, Rng &r) {
    if (!t.size()) return;
    switch (r.below(3)) {
      case 0: t((long) r.below(t.rows()), (long) r.below(t.cols())) = gval<S>(r); break;
      case 1: t *= S(2); break;
      default: t += t;
    }
  }
  static void ask(T &t, const Info &, Rng &, Out &o) {
    const T &c = t;
    o.add((double) c.rows()), o.add((double) c.cols());
    for (long i = 0; i < c.rows(); ++i) for (long j = 0; j < c.cols(); ++j) coef(o, c(i, j));
  }
};

typedef double d;
}  // namespace
const Mk other_zoos[] = {
  ZooOf<KQuad>::make, ZooOf<KIntegral>::make, ZooOf<KIntegral>::make, ZooOf<KFft>::make, ZooOf<KFft>::make,
  ZooOf<KMatrix<MatrixMN<d>, d, 0, 0>>::make, ZooOf<KMatrix<MatrixMN<cplx>, cplx, 0, 0>>::make, ZooOf<KMatrix<VectorN<d>, d, 0, 1>>::make,
  ZooOf<KMatrix<Matrix33<d>, d, 3, 3>>::make, ZooOf<KMatrix<Matrix66<d>, d, 6, 6>>::make, ZooOf<KMatrix<Vector2d<d>, d, 2, 1>>::make,
  ZooOf<KMatrix<Vector3d<d>, d, 3, 1>>::make, ZooOf<KMatrix<Vector6d<d>, d, 6, 1>>::make};
const int n_other_zoos = sizeof other_zoos / sizeof *other_zoos;

void scenario() {
  Rng &w = sim::work();
  static const double rates[] = {0, 0.3, 0.8};
  double rate = rates[w.below(3)];
  sim::set_rates(rate, 0, 0);
  int k = (int) w.below(n_table_zoos + n_cheb_zoos + n_power_zoos + n_other_zoos), ops = w.range(4, 24);
  bool th = w.chance(0.35);
  sim::note_work(k * 100 + ops * 2 + th);
  int i = k;
  auto from = [&](const Mk *a, int n) -> Mk { if (i < n) return a[i]; i -= n; return nullptr; };
  Mk mk = from(table_zoos, n_table_zoos);
  if (!mk) mk = from(cheb_zoos, n_cheb_zoos);
  if (!mk) mk = from(power_zoos, n_power_zoos);
  if (!mk) mk = other_zoos[i];
  std::unique_ptr<Zoo> z(mk());
  sim::log("%s: ops=%d alloc-rate=%.1f", z->what(), ops, rate);
  for (int op = 1; op <= ops; ++op) {
    if (!sim::op_enabled(op)) continue;
    Rng r = sim::op_rng(op);
    z->step(op, r);
    z->look("after an operation");
  }
  if (th) {
    Rng r = sim::op_rng(900);
    z->threads(r);
    z->look("after the threads");
  }
}
