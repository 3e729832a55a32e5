// C19: power series.
#include "C19.h"
#include "series.h"
using namespace mathutils;
namespace {
template<class S, int KIND>
struct KPower {
  typedef S T;
  struct Info { hs::Poly m; };
  static constexpr bool strike_copy = true, strike_assign = false, shared = true;
  static const char *name() { return "power series"; }
  static T *make(Rng &r, Info &f) {
    hs::Cheb c;
    do c.shape(r, 7, 4, 2); while (c.kind != KIND);
    f.m = c.m;
    hs::Axis *a = f.m.ax;
    auto &m = f.m;
    auto mat = [&] { MatrixMN<double> q(m.n(0), m.n(1)); for (size_t i = 0; i < m.n(0); ++i) for (size_t j = 0; j < m.n(1); ++j) q(i, j) = gen_val(r); return q; };
    if constexpr (KIND < 2) {
      VectorN<double> b(m.n(0));
      for (size_t i = 0; i < m.n(0); ++i) b(i) = gen_val(r);
      if constexpr (KIND == 0) return new T(b, a[0].a, a[0].b);
      else return new T(b, a[0].a);
    } else if constexpr (KIND < 5) {
      auto b = mat();
      if constexpr (KIND == 2) return new T(b, a[0].a, a[0].b, a[1].a, a[1].b);
      else if constexpr (KIND == 3) return new T(b, a[0].a, a[1].a);
      else return new T(b, a[0].a, a[0].b, a[1].a);
    } else {
      std::vector<MatrixMN<double>> b;
      for (size_t k = 0; k < m.n(2); ++k) b.push_back(mat());
      if constexpr (KIND == 5) return new T(b, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, a[2].b);
      else if constexpr (KIND == 6) return new T(b, a[0].a, a[0].b, a[1].a, a[2].a);
      else return new T(b, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a);
    }
  }
  static void update(T &, Info &, Rng &) {}
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    for (int i = 0; i < 3; ++i) {
      auto x = f.m.gen(r);
      if constexpr (KIND < 2) o.add(t.Evaluate(x[0])), o.add(t.Evaluate_derivative_x(x[0]));
      else if constexpr (KIND < 5) o.add(t.Evaluate(x[0], x[1])), o.add(t.Evaluate_derivative_y(x[0], x[1]));
      else o.add(t.Evaluate(x[0], x[1], x[2])), o.add(t.Evaluate_derivative_z(x[0], x[1], x[2])), o.add(t.Evaluate_zinf(x[0], x[1]));
    }
  }
};
typedef double d;
}  // namespace
const Mk power_zoos[] = {
  ZooOf<KPower<PowerSeries1dClosed<d>, 0>>::make, ZooOf<KPower<PowerSeries1dOpened<d>, 1>>::make, ZooOf<KPower<PowerSeries2dClosed<d>, 2>>::make,
  ZooOf<KPower<PowerSeries2dOpened<d>, 3>>::make, ZooOf<KPower<PowerSeries2dMixed<d>, 4>>::make, ZooOf<KPower<PowerSeries3dClosed<d>, 5>>::make,
  ZooOf<KPower<PowerSeries3dYZOpenedXClosed<d>, 6>>::make, ZooOf<KPower<PowerSeries3dZOpenedXYClosed<d>, 7>>::make};
const int n_power_zoos = sizeof power_zoos / sizeof *power_zoos;
