// The calls themselves and the choice of their arguments.
#include "C04.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
namespace sf {
const char *const fname[] = {"Cyl_Bessel_first_kind", "Cyl_Bessel_first_kind_derivative", "Cyl_Bessel_second_kind",
                       "Cyl_Bessel_second_kind_derivative", "Cyl_modified_Bessel_first_kind",
                       "Cyl_modified_Bessel_first_kind_derivative", "Cyl_modified_Bessel_second_kind",
                       "Cyl_modified_Bessel_second_kind_derivative", "Cyl_Hankel_first_kind",
                       "Cyl_Hankel_first_kind_derivative", "Cyl_Bessel_first_kind (real order)",
                       "Cyl_Bessel_first_kind_derivative (real order)", "Cyl_Bessel_second_kind (real order)",
                       "Cyl_Bessel_second_kind_derivative (real order)", "Cyl_modified_Bessel_first_kind (real order)",
                       "Cyl_modified_Bessel_first_kind_derivative (real order)",
                       "Cyl_modified_Bessel_second_kind (real order)",
                       "Cyl_modified_Bessel_second_kind_derivative (real order)", "Cyl_Hankel_first_kind (real order)",
                       "Legendre_polynomial", "Legendre_polynomial_derivative", "Factorial", "Gamma", "Struve_zero_order",
                       "Struve_first_order", "Struve_zero_order_derivative", "Chebyshev_polynomial",
                       "Chebyshev_polynomial_shifted", "Chebyshev_polynomial_next", "Chebyshev_polynomial_derivative",
                       "Ei", "Ei_approximation", "expEi", "E1", "E1_approximation"};

cplx call(const Call &c) {
  int n = c.n;
  double x = c.x, nu = c.nu;
  switch (c.f) {
    case BJ: return Cyl_Bessel_first_kind<int, double, double>(n, x);
    case BJD: return Cyl_Bessel_first_kind_derivative<int, double, double>(n, x);
    case BY: return Cyl_Bessel_second_kind<int, double, double>(n, x);
    case BYD: return Cyl_Bessel_second_kind_derivative<int, double, double>(n, x);
    case BI: return Cyl_modified_Bessel_first_kind<int, double, double>(n, x);
    case BID: return Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x);
    case BK: return Cyl_modified_Bessel_second_kind<int, double, double>(n, x);
    case BKD: return Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x);
    case HK: return Cyl_Hankel_first_kind<int, double>(n, x);
    case HKD: return Cyl_Hankel_first_kind_derivative<int, double>(n, x);
    case RJ: return Cyl_Bessel_first_kind<double, double, double>(nu, x);
    case RJD: return Cyl_Bessel_first_kind_derivative<double, double, double>(nu, x);
    case RY: return Cyl_Bessel_second_kind<double, double, double>(nu, x);
    case RYD: return Cyl_Bessel_second_kind_derivative<double, double, double>(nu, x);
    case RI: return Cyl_modified_Bessel_first_kind<double, double, double>(nu, x);
    case RID: return Cyl_modified_Bessel_first_kind_derivative<double, double, double>(nu, x);
    case RK: return Cyl_modified_Bessel_second_kind<double, double, double>(nu, x);
    case RKD: return Cyl_modified_Bessel_second_kind_derivative<double, double, double>(nu, x);
    case RH: return Cyl_Hankel_first_kind<double, double>(nu, x);
    case LEG: return Legendre_polynomial<int, double>(n, x);
    case LEGD: return Legendre_polynomial_derivative<int, double>(n, x);
    case FACT: return Factorial<int, double>(n);
    case GAM: return Gamma<double>(x);
    case ST0: return Struve_zero_order<double>(x);
    case ST1: return Struve_first_order<double>(x);
    case ST0D: return Struve_zero_order_derivative<double>(x);
    case CHE: return Chebyshev_polynomial<int, double>(n, x);
    case CHES: return Chebyshev_polynomial_shifted<int, double>(n, x);
    case CHEN: return Chebyshev_polynomial_next<double>(x, c.t1, c.t2);
    case CHED: return Chebyshev_polynomial_derivative<int, double>(n, x);
    case EI: return Ei<double>(x);
    case EIA: return Ei_approximation<double>(x);
    case XEI: return expEi<double>(x);
    case E_1: return E1<double>(x);
    case E1A: return E1_approximation<double>(x);
    default: return 0;
  }
}

static double gen_x(Rng &r, const Pool &p) {
  double x;
  switch (r.below(5)) {
    case 0: { static const double sx[] = {1, 3, 4, 6, 12, 24, 2, 0.5, 8, 0.25};
      x = sx[r.below(10)];
      break; }
    case 1: x = r.chance(0.5) ? r.real(0.01, 3) : r.real(0.5, 40); break;
    default: x = p.x[r.below(4)];
  }
  switch (r.below(8)) {       // neighbours of arguments others use
    case 0: return std::nextafter(x, 0);
    case 1: return std::nextafter(x, 1e9);
    case 2: return x * (1 + 1e-9);
    case 3: return x + 1e-5;
    case 4: return x * (1 + 1e-3 * r.unit());
    default: return x;
  }
}
Call gen(Rng &r, const Pool &p, const std::vector<int> &fns) {
  Call c;
  c.f = (Fn) fns[r.below(fns.size())];
  c.n = p.n[r.below(3)];
  if (r.chance(0.3)) c.n = r.chance(0.15) ? r.range(10, 14) : r.range(0, 9);
  c.nu = p.nu[r.below(3)];
  c.x = gen_x(r, p);
  c.t1 = c.t2 = 0;
  switch (c.f) {
    case BJ: case BJD:
      if (r.chance(0.15)) c.x = -c.x;
      if (r.chance(0.15)) c.n = -c.n;
      if (r.chance(0.05)) { c.x = 0; if (c.f == BJD) c.n = 0; }
      break;
    case BY: case BYD: case HK: case HKD: if (r.chance(0.15)) c.n = -c.n; break;
    case LEG: case LEGD: {
      double u = c.x - std::floor(c.x);
      c.x = r.chance(0.1) ? (r.chance(0.5) ? 1 : -1) : r.chance(0.5) ? u : -u;
      if (r.chance(0.2)) c.n = r.range(10, 40);
      break;
    }
    case FACT: c.n = r.chance(0.2) ? r.range(30, 170) : r.range(0, 20); break;
    case GAM:
      c.x = c.x < 0.01 ? 0.01 : c.x;
      if (r.chance(0.2)) { c.x = -(r.range(0, 6) + r.real(0.1, 0.9)); }
      else if (r.chance(0.2)) c.x = r.range(1, 30);
      break;
    case ST0: case ST1: case ST0D: if (r.chance(0.05)) c.x = 0; else if (r.chance(0.1)) c.x = r.real(40, 100); break;
    case CHE: case CHES: case CHED: c.n = r.chance(0.2) ? r.range(10, 40) : c.n < 0 ? -c.n : c.n;
      if (r.chance(0.1)) { static const double e[] = {0, 1, 0.5, -1, -0.5}; c.x = e[r.below(c.f == CHES ? 3 : 5)]; break; }
      c.x = c.f == CHES ? (c.x - std::floor(c.x)) * 1.2 : (c.x - std::floor(c.x)) * (r.chance(0.5) ? 1.1 : -1.1); break;
    case CHEN: c.t1 = gen_val(r), c.t2 = gen_val(r); break;
    case EI: case XEI: if (r.chance(0.3)) c.x = -c.x; else if (r.chance(0.2)) c.x = r.real(20, 120); break;
    case EIA: case E_1: case E1A: if (r.chance(0.2)) c.x = r.real(20, 120); else if (r.chance(0.1)) c.x = r.real(1e-6, 0.02); break;
    default: break;
  }
  return c;
}
void make_pool(Rng &w, Pool &p) {
  for (auto &e : p.x) e = w.chance(0.5) ? w.real(0.05, 5) : w.real(0.2, 35);
  for (auto &e : p.nu) e = w.range(1, 4) + w.real(0.15, 0.85);
  for (auto &e : p.n) e = w.range(0, 6);
}
}  // namespace sf
