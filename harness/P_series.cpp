// Probes: series, quadratures, integrators.
#include "probes.h"
#include "series.h"
using namespace mathutils;
using namespace hs;
namespace {
struct PCheb : Probe {
  Fn fn;
  Cheb c;
  explicit PCheb(Rng &r) {
    fn.init(r);
    c.shape(r, 8, 4, 2);
    c.create(&fn);
    c.compute();
  }
  void update(Rng &r, Out &) override { fn.init(r); c.compute(); }
  void query(Rng &r, Out &o) override {
    P3 x = c.m.gen(r);
    if (r.chance(0.1)) put(o, c.bcoef());
    else o.add(c.eval(x, r.range(-1, c.m.dim - 1)));
  }
};
struct PPower : Probe {
  Power p;
  explicit PPower(Rng &r) { p.make(r); }
  void query(Rng &r, Out &o) override {
    P3 x = p.m.gen(r);
    int deriv = r.range(-1, p.m.dim - 1);
    if (p.s1) { o.add(deriv < 0 ? p.s1->Evaluate(x[0]) : p.s1->Evaluate_derivative_x(x[0])); return; }
    if (p.s2) { o.add(deriv < 0 ? p.s2->Evaluate(x[0], x[1]) : deriv == 0 ? p.s2->Evaluate_derivative_x(x[0], x[1]) : p.s2->Evaluate_derivative_y(x[0], x[1])); return; }
    auto &s = *p.s3;
    switch (r.below(5)) {
      case 0: { double f = 7, a = 8, b = 9; s.Evaluate_f_dfdx_dfdy(x[0], x[1], x[2], f, a, b); o.add(f), o.add(a), o.add(b); break; }
      case 1: { auto c = s.Compute_cij(x[2]); o.mat(c); o.add(s.Evaluate_z_predefined(x[0], x[1], c)); double f = 7, a = 8, b = 9; s.Evaluate_f_dfdx_dfdy_z_predefined(x[0], x[1], c, f, a, b); o.add(f), o.add(a), o.add(b); break; }
      case 2: o.add(s.Evaluate_zinf(x[0], x[1])), o.add(s.Evaluate_derivative_x_zinf(x[0], x[1])); break;
      default: o.add(deriv < 0 ? s.Evaluate(x[0], x[1], x[2]) : deriv == 0 ? s.Evaluate_derivative_x(x[0], x[1], x[2])
                     : deriv == 1 ? s.Evaluate_derivative_y(x[0], x[1], x[2]) : s.Evaluate_derivative_z(x[0], x[1], x[2]));
    }
  }
};
inline void put2(Out &o, double v) { o.add(v); }
inline void put2(Out &o, cplx v) { put(o, v); }
template<class E> void put2(Out &o, const E &e) { o.mat(e); }
template<class T>
struct PQuad : Probe {
  IntegrandOf<T> f;
  std::unique_ptr<Integration2dTriangle<T>> q;
  explicit PQuad(Rng &r) {
    int order = r.range(1, 8);
    f.l = LinPow::make(r, order);
    q.reset(new Integration2dTriangle<T>(&f, order));
  }
  void query(Rng &r, Out &o) override { Tri t = Tri::make(r); T v = q->Compute(t.v[0], t.v[1], t.v[2]); put2(o, v); }
};
double fa(double x) { return 3 * x * x - x; }
double fb(double x) { return std::cos(x) + 2; }
struct PInt : Probe {
  std::unique_ptr<Integrate1d<double>> p;
  bool samples;
  explicit PInt(Rng &r) {
    unsigned n = (unsigned) (r.chance(0.15) ? r.range(60, 140) : r.range(2, 30));
    double a = r.real(-3, 3), b = a + r.real(0.1, 5);
    samples = r.chance(0.4);
    if (samples) p.reset(new Integrate1d<double>(gen_vals(r, n), a, b, n));
    else p.reset(new Integrate1d<double>(r.chance(0.5) ? fa : fb, a, b, n));
  }
  void query(Rng &r, Out &o) override {            // settings are part of the call: set, then ask
    double a = r.real(-3, 3), b = a + r.real(0.1, 5);
    p->SetXmin(a);
    p->SetXmax(b);
    o.add(p->Get());
    if (r.chance(0.3)) o.add(p->Get());
  }
};
template<class T> Probe *mk(Rng &r) { return new T(r); }
}  // namespace
const ProbeKind series_probes[] = {
  {"Chebyshev series", mk<PCheb>, true, true, true}, {"Chebyshev series", mk<PCheb>, true, true, true}, {"power series", mk<PPower>, true, false, true},
  {"power series", mk<PPower>, true, false, true}, {"triangle quadrature", mk<PQuad<double>>, true, false, true},
  {"triangle quadrature of vectors", mk<PQuad<VectorN<double>>>, true, false, true}, {"1D integrator", mk<PInt>, true, false, false}};
const int n_series_probes = sizeof series_probes / sizeof *series_probes;
