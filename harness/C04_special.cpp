// Special functions called by many threads, first calls included: every value is the function's value at its own
// arguments and does not depend on other calls.
#include "special.h"
#include "C04.h"
using namespace hc;
using sp::LD;
using namespace sf;
const char *harness_name = "C04";

namespace {
// reference value, and the absolute error allowed
cplx want(const Call &c, double *tol) {
  sim::Quiet quiet;
  int n = c.n, a = n < 0 ? -n : n;
  LD x = c.x, nu = c.nu, v = 0, w = 0, sc = 0, d;
  const double rel = 2e-13;
  LD osc = c.x ? sqrtl(2 / (sp::PI * fabsl(x))) : 1;
  auto jd = [&] { return (sp::bessel_j(n - 1, x) - sp::bessel_j(n + 1, x)) / 2; };
  auto yd = [&] { return (sp::bessel_y(n - 1, x) - sp::bessel_y(n + 1, x)) / 2; };
  switch (c.f) {
    case BJ: v = sp::bessel_j(n, x); sc = fabsl(v) + (fabsl(x) > a ? osc : 0); break;
    // the formula subtracts n/x J_n: judge against the terms
    case BJD: v = jd(); sc = fabsl(v) + (fabsl(x) > a ? osc : fabsl(x) > 0 ? fabsl(sp::bessel_j(n, x)) * a / fabsl(x) : 0); break;
    case BY: v = sp::bessel_y(n, x); sc = fabsl(v) + osc; break;
    case BYD: v = yd(); sc = fabsl(v) + osc + fabsl(sp::bessel_y(n, x)) * a / x; break;
    case BI: v = sp::bessel_i(a, x); sc = v; break;
    case BID: v = (sp::bessel_i(n ? a - 1 : 1, x) + sp::bessel_i(a + 1, x)) / 2; sc = sp::bessel_i(n ? a - 1 : 1, x) * 2; break;
    case BK: v = sp::bessel_k(a, x); sc = v; break;
    case BKD: v = -(sp::bessel_k(n ? a - 1 : 1, x) + sp::bessel_k(a + 1, x)) / 2; sc = fabsl(v); break;
    case HK: v = sp::bessel_j(n, x), w = sp::bessel_y(n, x); sc = fabsl(v) + fabsl(w) + osc; break;
    case HKD: v = jd(), w = yd(); sc = fabsl(v) + fabsl(w) + osc + fabsl(sp::bessel_y(n, x)) * a / x; break;
    case RJ: v = sp::bessel_jr(nu, x); sc = fabsl(v) + (x > nu ? osc : 0); break;
    case RJD: v = sp::bessel_jr(nu - 1, x) - nu / x * sp::bessel_jr(nu, x);
      sc = osc + fabsl(v) + fabsl(sp::bessel_jr(nu - 1, x)); break;
    case RY: v = sp::bessel_yr(nu, x); sc = fabsl(v) + osc; break;
    case RYD: v = sp::bessel_yr(nu - 1, x) - nu / x * sp::bessel_yr(nu, x);
      sc = osc + fabsl(v) + fabsl(nu / x * sp::bessel_yr(nu, x)); break;
    case RI: v = sp::bessel_i(nu, x); sc = v; break;
    case RID: v = (sp::bessel_i(nu - 1, x) + sp::bessel_i(nu + 1, x)) / 2; sc = 2 * sp::bessel_i(nu - 1, x); break;
    case RK: v = sp::bessel_k(nu, x); sc = v; break;
    case RKD: v = -(sp::bessel_k(nu - 1, x) + sp::bessel_k(nu + 1, x)) / 2; sc = fabsl(v); break;
    case RH: v = sp::bessel_jr(nu, x), w = sp::bessel_yr(nu, x); sc = fabsl(v) + fabsl(w) + osc; break;
    case LEG: v = sp::legendre(n, x, &d); sc = 1; break;
    case LEGD: sp::legendre(n, x, &d); v = d; sc = 1 + n * n; break;
    case FACT: v = sp::lfact(n); sc = v; break;
    case GAM: v = tgammal(x); sc = fabsl(v); break;
    // rational approximations with a published error of the order of 1e-8
    case ST0: v = sp::struve(0, x); sc = 0; *tol = 1.4e-8; return (double) v;
    case ST1: v = sp::struve(1, x); *tol = c.x <= 3 ? 3e-9 : 2.9e-8; return (double) v;
    case ST0D: v = 2 / sp::PI - sp::struve(1, x); *tol = c.x <= 3 ? 3e-9 : 2.9e-8; return (double) v;
    case CHE: v = sp::cheb(n, x, &d); sc = (fabsl(v) + 1) * (1 + n * n / 200.L); break;
    case CHES: v = sp::cheb(n, 2 * x - 1, &d); sc = (fabsl(v) + 1 + fabsl(d)) * (1 + n * n / 200.L); break;
    case CHEN: v = 2 * x * (LD) c.t1 - c.t2; sc = fabsl(2 * x * c.t1) + fabsl(c.t2); break;
    case CHED: sp::cheb(n, x, &d); v = d; sc = (fabsl(v) + 1 + n * n) * (1 + n * n / 200.L); break;
    case EI: case EIA: {
      v = x > 0 ? sp::ei_scaled(x) * expl(x) : -sp::e1_scaled(-x) * expl(x);
      sc = fabsl(v) + (x > 0.1L && x < 1 ? 1 : 0);
      break;
    }
    case XEI: v = x > 0 ? sp::ei_scaled(x) : -sp::e1_scaled(-x); sc = fabsl(v) + (x > 0.1L && x < 1 ? 1 : 0); break;
    case E_1: case E1A: v = sp::e1_scaled(x) * expl(-x); sc = v; break;
    default: break;
  }
  *tol = (double) (rel * sc) + 1e-300;
  return cplx((double) v, (double) w);
}

struct Done {
  Call c;
  cplx got;
  int op;
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  Pool p;
  make_pool(w, p);
  std::vector<int> fns;
  if (w.chance(0.25)) { int f = (int) w.below(NFN); fns = {f}; if (w.chance(0.5)) fns.push_back((f + 1) % NFN); }
  else if (w.chance(0.5)) { int k = w.range(2, 6); for (int i = 0; i < k; ++i) fns.push_back((int) w.below(NFN)); }
  else for (int i = 0; i < NFN; ++i) fns.push_back(i);
  int nth = w.range(1, 4), nops = w.range(3, 7);
  sim::note_work(nth * 10 + nops + fns.size() * 100 + fns[0] * 10000);
  sim::log("functions=%d threads=%d ops/thread=%d", (int) fns.size(), nth, nops);
  std::vector<std::vector<Done>> done(nth);
  for (auto &d : done) d.reserve(nops);
  std::vector<std::function<void()>> tf;
  for (int t = 0; t < nth; ++t)
    tf.push_back([&, t] {
      for (int j = 0; j < nops; ++j) {
        int op = (t + 1) * 100 + j;
        if (!sim::op_enabled(op)) continue;
        Rng r = sim::op_rng(op);
        Done d;
        d.op = op;
        d.c = gen(r, p, fns);
        sim::log("op %d: %s order %d/%.17g x=%.17g", op, fname[d.c.f], d.c.n, d.c.nu, d.c.x);
        sim::Outcome o = sim::plain(op, [&] { d.got = call(d.c); });
        if (!o.ok()) sim::violation("result", "%s(order %d/%.17g, x=%.17g) failed: %s %s", fname[d.c.f], d.c.n, d.c.nu, d.c.x,
                                    sim::outcome_name(o), o.what);
        double tol;
        cplx v = want(d.c, &tol);
        sim::oracle();
        if (!(std::fabs(d.got.real() - v.real()) <= tol && std::fabs(d.got.imag() - v.imag()) <= tol))
          sim::violation("result", "%s(order %d/%.17g, x=%.17g) is (%.17g,%.17g), the function's value is (%.17g,%.17g)",
                         fname[d.c.f], d.c.n, d.c.nu, d.c.x, d.got.real(), d.got.imag(), v.real(), v.imag());
        done[t].push_back(d);
      }
    });
  sim::run_threads(tf);
  // the same calls, alone and in another order with other calls in between, bit for bit
  for (int t = nth - 1; t >= 0; --t)
    for (size_t k = done[t].size(); k-- > 0;) {
      const Done &d = done[t][k];
      if (!sim::op_enabled(1000 + d.op)) continue;
      Rng r = sim::op_rng(1000 + d.op);
      if (r.chance(0.5)) {
        Call other = gen(r, p, std::vector<int>{(int) d.c.f});
        if (r.chance(0.5)) {                              // almost the same arguments
          other = d.c;
          switch (r.below(4)) {
            case 0: other.x = std::nextafter(other.x, 0); break;
            case 1: other.x *= 1 - 1e-9; break;
            case 2: other.x *= 1 - 1e-4; break;
            default: if (other.n > 0) other.n -= 1; other.nu *= 1 - 1e-9; break;
          }
        }
        sim::plain(1000 + d.op, [&] { call(other); });
      }
      cplx again = 0;
      sim::Outcome o = sim::plain(2000 + d.op, [&] { again = call(d.c); });
      sim::oracle();
      if (!o.ok() || !sim::same_bits(again, d.got))
        sim::violation("history", "%s(order %d/%.17g, x=%.17g) gave (%.17g,%.17g) first and (%.17g,%.17g) later",
                       fname[d.c.f], d.c.n, d.c.nu, d.c.x, d.got.real(), d.got.imag(), again.real(), again.imag());
    }
}
