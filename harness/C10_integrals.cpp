// Integrators through histories of settings, queries and failures.
#include "series.h"
using namespace mathutils;
using namespace hs;
const char *harness_name = "C10";

namespace {
struct World;
World *W = nullptr;                            // what the plain-function integrands reach

// the integrands are plain functions: each is one slot of parameters
const int NF = 4;
struct Params { double a, b, c, w; };
Params par[NF];
double f_value(int k, double x) { const Params &p = par[k]; return p.a + p.b * x + p.c * std::sin(p.w * x); }
void f_hook(int k);
template<int K> double F(double x) { f_hook(K); return f_value(K, x); }
typedef double (*Fun)(double);
const Fun funs[NF] = {F<0>, F<1>, F<2>, F<3>};

struct Int1 {
  std::unique_ptr<Integrate1d<double>> o;
  int fun = -1;                                // -1: samples
  std::vector<double> y;
  double a = 0, b = 1;
  unsigned n = 2;
  int method = TRAPEZOIDAL;
  double want(double *scale) const {
    sim::Quiet quiet;
    LD h = ((LD) b - a) / (n - 1), s = 0, m = 0, step = 0;
    if (fun >= 0) step = (fabsl(par[fun].b) + fabsl(par[fun].c * par[fun].w)) * (fabsl(a) + fabsl(b));
    for (unsigned i = 0; i < n; ++i) {
      LD v = fun < 0 ? (LD) y[i] : (LD) f_value(fun, (double) (a + h * i));
      if (i == 0 || i + 1 == n) v /= 2;
      s += v;
      m += fabsl(v) + step * 1e-3L;            // the abscissae carry rounding too
    }
    *scale = (double) (m * fabsl(h)) + 1e-300;
    return (double) (s * h);
  }
  void check(double got, const char *what) const { double sc, w = want(&sc); expect_close("result", what, got, w, sc, 1e-10); }
  void settings() const {
    expect(o->GetXmin() == a && o->GetXmax() == b && o->GetIntegrationMethod() == method, "result", "settings of an integrator");
  }
  // a query without faults
  void look(const char *what) {
    settings();
    if (method == TRAPEZOIDAL) { check(o->Get(), what); return; }
    bool threw = false;
    double v = 0;
    try { v = o->Get(); } catch (const std::exception &) { threw = true; }
    if (!threw) sim::violation("result", "an integral with an unavailable method returned %.17g", v);
  }
};

struct Quad {
  virtual ~Quad() {}
  virtual void make(Rng &r) = 0;               // may throw
  virtual void query(Rng &r, const char *what, bool faults) = 0;
  virtual void set_hook(std::function<void()> h) = 0;
};
template<class T>
struct QuadOf : Quad {
  int order = 1;
  IntegrandOf<T> f;
  std::unique_ptr<Integration2dTriangle<T>> q;
  explicit QuadOf(Rng &r) {
    order = r.range(1, 8);
    f.l = LinPow::make(r, order);
  }
  void make(Rng &) override { q.reset(new Integration2dTriangle<T>(&f, order)); }
  void query(Rng &r, const char *what, bool faults) override {
    Tri t = Tri::make(r);
    (void) faults;
    T v = q->Compute(t.v[0], t.v[1], t.v[2]);
    check_integral(v, f.l, t, what);
  }
  void set_hook(std::function<void()> h) override { f.hook = h; }
};
Quad *make_quad(Rng &r) {
  switch (r.below(6)) {
    case 0: return new QuadOf<cplx>(r);
    case 1: return new QuadOf<VectorN<double>>(r);
    case 2: return new QuadOf<Vector3d<double>>(r);
    case 3: return new QuadOf<MatrixMN<double>>(r);
    default: return new QuadOf<double>(r);
  }
}

struct World {
  std::vector<Int1> ints;
  std::vector<std::unique_ptr<Quad>> quads;
  Rng nr{0};
  int nested = 0, depth = 0;
  // an integrand that itself uses integrators
  void hook() {
    sim::callback_point();
    if (nested <= 0 || depth >= 2) return;
    --nested;
    ++depth;
    struct Back { int &d; ~Back() { --d; } } back{depth};
    sim::probe("nested integrator");
    if (quads.size() && nr.chance(0.4)) {
      Quad *q = quads[nr.below(quads.size())].get();
      q->query(nr, "integral computed inside an integrand", false);
    } else {
      Int1 in;
      in.fun = (int) nr.below(NF);
      in.a = nr.real(-3, 3), in.b = in.a + nr.real(0.1, 4), in.n = (unsigned) nr.range(2, 7);
      Integrate1d<double> o(funs[in.fun], in.a, in.b, in.n);
      in.check(o.Get(), "integral computed inside an integrand");
    }
  }
};
void f_hook(int) { if (W) W->hook(); }

void make_int(Rng &r, Int1 &i) {
  i.a = gen_val(r);
  i.b = r.chance(0.15) ? i.a - r.real(0.1, 5) : i.a + r.real(0.01, 20);
  i.n = (unsigned) tail(r, 2, r.chance(0.2) ? 60 : 12, 300, 0.03);
  i.method = TRAPEZOIDAL;
  i.fun = r.chance(0.6) ? (int) r.below(NF) : -1;
  if (i.fun < 0) {
    i.y = gen_vals(r, i.n);
    if (r.chance(0.05)) for (auto &e : i.y) e = 0;
    i.o.reset(new Integrate1d<double>(i.y, i.a, i.b, i.n));
  } else
    i.o.reset(new Integrate1d<double>(funs[i.fun], i.a, i.b, i.n));
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[][2] = {{0, 0}, {0.2, 0.2}, {0.5, 0.1}, {0.1, 0.6}};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate][0], rates[rate][1], 0);
  sim::set_heap_reuse(w.chance(0.5));
  World world;
  W = &world;
  for (auto &p : par) p.a = gen_val(w), p.b = w.real(-3, 3), p.c = w.real(-3, 3), p.w = w.real(-3, 3);
  int ni = w.range(1, 3), nq = w.chance(0.6) ? w.range(1, 2) : 0, nops = w.range(3, 24);
  world.ints.resize(ni);
  sim::Outcome b = sim::plain(0, [&] {
    for (auto &i : world.ints) make_int(w, i);
    for (int i = 0; i < nq; ++i) {
      world.quads.emplace_back(make_quad(w));
      world.quads.back()->make(w);
      World *pw = &world;
      world.quads.back()->set_hook([pw] { pw->hook(); });
    }
  });
  if (!b.ok()) sim::violation("history", "building the integrators failed: %s", b.what);
  sim::note_work(ni * 10 + nq * 1000 + rate + nops * 100000);
  sim::log("integrators=%d quadratures=%d ops=%d alloc-rate=%.2f callback-rate=%.2f", ni, nq, nops, rates[rate][0], rates[rate][1]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    Int1 &a = world.ints[r.below(ni)];
    int kind = (int) r.below(nq ? 14 : 10);
    auto fix_plan = [&](long calls) {
      if (sim::planned_kind(j) == sim::F_CALLBACK && r.chance(0.7)) sim::plan_override(j, sim::F_CALLBACK, (long) r.below(calls), 0);
    };
    switch (kind) {
      case 0:
        a.a = r.chance(0.2) ? a.a : r.chance(0.12) ? a.b : r.chance(0.15) ? a.a + std::pow(10., -r.range(3, 7)) : gen_val(r);     // no width at all; hardly moved
        a.o->SetXmin(a.a);
        sim::log("op %d: SetXmin(%g)", j, a.a);
        break;
      case 1:
        a.b = r.chance(0.2) ? a.b : r.chance(0.12) ? a.a : r.chance(0.15) ? a.b + std::pow(10., -r.range(3, 7)) : r.real(-15, 15);
        a.o->SetXmax(a.b);
        sim::log("op %d: SetXmax(%g)", j, a.b);
        break;
      case 2:
        a.method = r.chance(0.6) ? NEWTON_COTES : TRAPEZOIDAL;
        a.o->SetIntegrationMethod((INTEGRATION_METHOD) a.method);
        sim::log("op %d: SetIntegrationMethod(%d)", j, a.method);
        if (r.chance(0.6)) {                    // and back
          if (r.chance(0.7)) { Rng q = r; sim::plain(j, [&] { a.look("integral"); }); }
          a.method = TRAPEZOIDAL;
          a.o->SetIntegrationMethod(TRAPEZOIDAL);
        }
        break;
      case 3: case 4: case 5: case 6: {         // a query
        fix_plan(a.n);
        bool nest = r.chance(0.25);
        for (int t = 0; t < 3; ++t) {
          world.nested = nest ? 2 : 0;
          world.nr = r;
          double v = 0;
          auto f = [&] { v = a.o->Get(); };
          sim::Outcome o = t == 0 ? sim::api(j, f) : sim::plain(j, f);
          world.nested = 0;
          sim::log("op %d: query of %s%s: %s%s", j, a.fun < 0 ? "samples" : "a function", nest ? " (the function integrates too)" : "", sim::outcome_name(o), o.fired ? " (fault)" : "");
          if (a.method != TRAPEZOIDAL) {
            if (o.ok()) sim::violation("result", "an integral with an unavailable method returned %.17g", v);
            sim::probe("method not available");
            break;
          }
          if (o.ok()) { a.check(v, t ? "integral after a failed query" : "integral"); break; }
          if (!o.fired) sim::violation("history", "a query failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
          sim::probe(o.fired_kind == sim::F_CALLBACK ? "integrand threw" : "memory failed");
          if (r.chance(0.3)) break;             // asked again only by a later operation
          if (r.chance(0.3)) { a.b += 1; a.o->SetXmax(a.b); }
        }
        break;
      }
      case 7: {                                 // a copy takes over
        std::unique_ptr<Integrate1d<double>> n;
        sim::Outcome o = sim::api(j, [&] { n.reset(dup(*a.o)); });
        sim::log("op %d: copy: %s", j, sim::outcome_name(o));
        if (o.ok()) { if (n) a.o = std::move(n); }
        else if (!o.fired) sim::violation("history", "a copy failed although nothing went wrong: %s", o.what);
        break;
      }
      case 8: {                                 // assignment from another one
        Int1 &c = world.ints[r.below(ni)];
        bool moved = true;
        sim::Outcome o = sim::plain(j, [&] { if (!assign(*a.o, *c.o)) moved = false; });
        sim::log("op %d: assignment", j);
        if (!o.ok()) sim::violation("history", "an assignment failed although nothing went wrong: %s", o.what);
        if (moved && &a != &c) { a.fun = c.fun; a.y = c.y; a.a = c.a; a.b = c.b; a.n = c.n; a.method = c.method; }
        break;
      }
      case 9: {
        sim::Outcome o = sim::plain(j, [&] { a.o.reset(); make_int(r, a); });
        sim::log("op %d: new integrator", j);
        if (!o.ok()) sim::violation("history", "building an integrator failed: %s", o.what);
        break;
      }
      case 10: {                                // a new quadrature, whose construction may fail
        std::unique_ptr<Quad> q(make_quad(r));
        sim::Outcome o = sim::api(j, [&] { q->make(r); });
        sim::log("op %d: new quadrature: %s", j, sim::outcome_name(o));
        if (!o.ok()) {
          if (!o.fired) sim::violation("history", "building a quadrature failed although nothing went wrong: %s", o.what);
          sim::probe("failed construction");
          o = sim::plain(j, [&] { q->make(r); });
          if (!o.ok()) sim::violation("history", "a quadrature cannot be built after a failure");
        }
        World *pw = &world;
        q->set_hook([pw] { pw->hook(); });
        world.quads[r.below(nq)] = std::move(q);
        break;
      }
      default: {
        Quad &q = *world.quads[r.below(nq)];
        fix_plan(4);
        bool nest = r.chance(0.3);
        for (int t = 0; t < 2; ++t) {
          world.nested = nest ? 2 : 0;
          world.nr = r;
          Rng x = r;
          auto f = [&] { q.query(x, t ? "triangle integral after a failure" : "triangle integral", t == 0); };
          sim::Outcome o = t == 0 ? sim::api(j, f) : sim::plain(j, f);
          world.nested = 0;
          sim::log("op %d: triangle integral%s: %s%s", j, nest ? " (its integrand integrates too)" : "", sim::outcome_name(o), o.fired ? " (fault)" : "");
          if (o.ok()) break;
          if (!o.fired) sim::violation("history", "a triangle integral failed although nothing went wrong: %s", o.what);
          sim::probe("triangle integral failed");
        }
      }
    }
    if (r.chance(0.5)) {
      Rng q = sim::op_rng(10000 + j);
      sim::Outcome o = sim::plain(10000 + j, [&] {
        for (auto &i : world.ints) {
          if (q.chance(0.5)) i.look("integral of an integrator that was left alone");
          else i.settings();
        }
        for (auto &e : world.quads) if (q.chance(0.3)) e->query(q, "triangle integral of a quadrature that was left alone", false);
      });
      if (!o.ok()) sim::violation("history", "after operation %d an integrator cannot be queried: %s %s", j, sim::outcome_name(o), o.what);
    }
  }
  sim::Outcome o = sim::plain(20000, [&] {
    for (auto &i : world.ints) i.look("integral at the end");
    Rng q = sim::op_rng(20000);
    for (auto &e : world.quads) e->query(q, "triangle integral at the end", false);
  });
  if (!o.ok()) sim::violation("history", "at the end an integrator cannot be queried: %s", o.what);
  W = nullptr;
}
