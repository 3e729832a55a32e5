// C19: cheb series.
#include "C19.h"
#include "series.h"
using namespace mathutils;
namespace {
template<class S, int KIND>
struct KCheb {
  typedef S T;
  struct Info { hs::Cheb c; std::shared_ptr<hs::Fn> fn; };
  static constexpr bool strike_copy = true, strike_assign = false, shared = true;
  static const char *name() { return "Chebyshev series"; }
  static T *make(Rng &r, Info &f) {
    do f.c.shape(r, 7, 4, 2); while (f.c.kind != KIND);
    f.fn = std::make_shared<hs::Fn>();
    f.fn->init(r);
    hs::Axis *a = f.c.m.ax;
    int *o = f.c.m.ord;
    hs::Fn *F = f.fn.get();
    std::unique_ptr<T> t;
    if constexpr (KIND == 0) t.reset(new T(F, a[0].a, a[0].b, o[0]));
    else if constexpr (KIND == 1) t.reset(new T(F, a[0].a, o[0]));
    else if constexpr (KIND == 2) t.reset(new T(F, a[0].a, a[0].b, a[1].a, a[1].b, o[0], o[1]));
    else if constexpr (KIND == 3) t.reset(new T(F, a[0].a, a[1].a, o[0], o[1]));
    else if constexpr (KIND == 4) t.reset(new T(F, a[0].a, a[0].b, a[1].a, o[0], o[1]));
    else if constexpr (KIND == 5) t.reset(new T(F, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, a[2].b, o[0], o[1], o[2]));
    else if constexpr (KIND == 6) t.reset(new T(F, a[0].a, a[0].b, a[1].a, a[2].a, o[0], o[1], o[2]));
    else t.reset(new T(F, a[0].a, a[0].b, a[1].a, a[1].b, a[2].a, o[0], o[1], o[2]));
    compute(*t);
    return t.release();
  }
  static void compute(T &t) { if constexpr (KIND < 2) t.Compute_ai(); else if constexpr (KIND < 5) t.Compute_aij(); else t.Compute_aijk(); }
  // the function takes other parameters; only the series that is computed again follows
  static void update(T &t, Info &f, Rng &r) { f.fn->init(r); compute(t); }
  static void ask(T &t, const Info &f, Rng &r, Out &o) {
    for (int i = 0; i < 3; ++i) {
      auto x = f.c.m.gen(r);
      if constexpr (KIND < 2) o.add(t.Evaluate(x[0])), o.add(t.Evaluate_derivative_x(x[0]));
      else if constexpr (KIND < 5) o.add(t.Evaluate(x[0], x[1])), o.add(t.Evaluate_derivative_y(x[0], x[1]));
      else o.add(t.Evaluate(x[0], x[1], x[2])), o.add(t.Evaluate_derivative_z(x[0], x[1], x[2]));
    }
  }
};
typedef double d;
}  // namespace
const Mk cheb_zoos[] = {
  ZooOf<KCheb<ChebyshevSeries1dClosed<d>, 0>>::make, ZooOf<KCheb<ChebyshevSeries1dOpened<d>, 1>>::make, ZooOf<KCheb<ChebyshevSeries2dClosed<d>, 2>>::make,
  ZooOf<KCheb<ChebyshevSeries2dOpened<d>, 3>>::make, ZooOf<KCheb<ChebyshevSeries2dMixed<d>, 4>>::make, ZooOf<KCheb<ChebyshevSeries3dClosed<d>, 5>>::make,
  ZooOf<KCheb<ChebyshevSeries3dYZOpenedXClosed<d>, 6>>::make, ZooOf<KCheb<ChebyshevSeries3dZOpenedXYClosed<d>, 7>>::make};
const int n_cheb_zoos = sizeof cheb_zoos / sizeof *cheb_zoos;
