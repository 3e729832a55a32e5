// Shared Chebyshev series, power series and triangle quadratures evaluated by many threads, re-entrantly.
#include "series.h"
using namespace mathutils;
using namespace hs;
const char *harness_name = "C03";

namespace {
struct World;
struct Obj {
  virtual ~Obj() {}
  virtual void query(Rng &r, const World &w, int depth) const = 0;
  virtual void rebuild(Rng &r) = 0;
  // the object is destroyed and one with other coefficients is built in its place; the same question is asked
  void reborn(Rng &r, const World &w) {
    Rng q = r, again = r;
    query(q, w, 0);
    for (int i = 0; i < 7; ++i) r.next();
    rebuild(r);
    q = again;
    query(q, w, 0);
    query(q, w, 0);
  }
};
struct World {
  std::vector<Obj *> objs;
  void nested(Rng &r, int depth) const {
    if (depth <= 0 || objs.empty()) return;
    objs[r.below(objs.size())]->query(r, *this, depth - 1);
  }
};

struct ChebObj : Obj {
  Cheb c;
  Fn fn;
  explicit ChebObj(Rng &r) {
    fn.init(r);
    c.shape(r, 12, 4, 2);
    c.create(&fn);
    c.compute();
    c.expect_computed();
  }
  void rebuild(Rng &r) override {
    fn.init(r);
    c.s1.reset(), c.s2.reset(), c.s3.reset();
    c.create(&fn);
    c.compute();
    c.expect_computed();
  }
  void query(Rng &r, const World &w, int depth) const override {
    if (r.chance(0.2)) {
      c.check_bcoef("conversion coefficients of a shared Chebyshev series");
      return;
    }
    if (depth > 0 && r.chance(0.15)) {
      // a series of the caller's own whose function evaluates this shared one
      sim::probe("nested approximation");
      Fn f2;
      f2.init(r);
      Rng rr = r;
      const World *pw = &w;
      int left = 3;
      f2.hook = [&] { if (left-- > 0) pw->nested(rr, depth - 1); };
      Cheb mine;
      mine.shape(r, 4, 1, 1);
      mine.create(&f2);
      mine.compute();
      mine.expect_computed();
      mine.check_eval(r, "Chebyshev series whose function evaluates other series");
      return;
    }
    c.check_eval(r, "shared Chebyshev series");
  }
};

struct PowObj : Obj {
  Power p;
  explicit PowObj(Rng &r) { p.make(r); }
  void rebuild(Rng &r) override {
    for (LD &v : p.m.c) v = (LD) gen_val(r);
    p.s1.reset(), p.s2.reset(), p.s3.reset();
    p.create();
  }
  void query(Rng &r, const World &, int) const override { p.check_eval(r); }
};

template<class T>
struct QuadObj : Obj {
  int order;
  IntegrandOf<T> f;
  Integration2dTriangle<T> *q;
  explicit QuadObj(Rng &r) {
    order = r.range(1, 8);
    f.l = LinPow::make(r, order);
    q = new Integration2dTriangle<T>(&f, order);
  }
  ~QuadObj() { delete q; }
  void rebuild(Rng &r) override {
    delete q;
    if (r.chance(0.5)) order = r.range(1, 8);
    f.l = LinPow::make(r, order);
    q = new Integration2dTriangle<T>(&f, order);
  }
  void query(Rng &r, const World &w, int depth) const override {
    Tri t = Tri::make(r);
    if (depth > 0 && r.chance(0.2)) {
      sim::probe("nested quadrature");
      IntegrandOf<T> g;
      int o = r.range(1, 4);
      g.l = LinPow::make(r, o);
      Rng rr = r;
      const World *pw = &w;
      int left = 2;
      g.hook = [&] { if (left-- > 0) pw->nested(rr, depth - 1); };
      Integration2dTriangle<T> mine(&g, o);
      check_integral(mine.Compute(t.v[0], t.v[1], t.v[2]), g.l, t, "quadrature whose integrand evaluates other objects");
      return;
    }
    check_integral(q->Compute(t.v[0], t.v[1], t.v[2]), f.l, t, "shared triangle quadrature");
  }
};

// Horner on coefficients shared read-only
struct HornerObj : Obj {
  mutable std::vector<double> c;
  explicit HornerObj(Rng &r) { c = gen_vals(r, tail(r, 1, 10, 40)); }
  void rebuild(Rng &r) override { for (double &e : c) e = gen_val(r); }
  void query(Rng &r, const World &, int) const override {
    double x = r.real(-2, 2);
    LD v = 0, d = 0, m = 0, p = 1, dp = 0;
    {
      sim::Quiet quiet;
      for (size_t i = 0; i < c.size(); ++i) {
        v += c[i] * p;
        d += c[i] * dp;
        m += fabsl(c[i]) * (fabsl(p) + fabsl(dp));
        dp = dp * x + p;
        p *= x;
      }
    }
    if (r.chance(0.5)) expect_close<double>("result", "Horner", Horner<double>(c, x), (double) v, (double) m, 1e-10);
    else expect_close<double>("result", "derivative by Horner", Horner_derivative<double>(c, x), (double) d, (double) m, 1e-10);
  }
};

Obj *make(Rng &r) {
  switch (r.below(8)) {
    case 0:
    case 1:
    case 2: return new ChebObj(r);
    case 3:
    case 4: return new PowObj(r);
    case 5: return new QuadObj<double>(r);
    case 6: if (r.chance(0.5)) return new QuadObj<cplx>(r); return new QuadObj<VectorN<double>>(r);
    default: return new HornerObj(r);
  }
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  World world;
  int nobj = w.range(1, 3);
  sim::Outcome o = sim::plain(0, [&] {
    for (int i = 0; i < nobj; ++i) world.objs.push_back(make(w));
  });
  if (!o.ok()) sim::violation("build", "building the shared objects failed: %s %s", sim::outcome_name(o), o.what);
  int nth = w.range(2, 4), nops = w.range(2, 5);
  bool builder = w.chance(0.2);
  int depth = w.chance(0.4) ? 2 : 0;
  sim::note_work(nobj * 1000 + nth * 100 + nops * 10 + builder);
  sim::log("objects=%d threads=%d ops/thread=%d builder=%d nesting=%d", nobj, nth, nops, (int) builder, depth);
  std::vector<std::function<void()>> fns;
  for (int t = 0; t < nth; ++t)
    fns.push_back([&, t] {
      for (int j = 0; j < nops; ++j) {
        int op = (t + 1) * 100 + j;
        if (!sim::op_enabled(op)) continue;
        Rng r = sim::op_rng(op);
        int k = (int) r.below(world.objs.size());
        sim::log("op %d: evaluate object %d", op, k);
        sim::Outcome o = sim::plain(op, [&] {
          if (builder && t == 0) {
            Obj *b = make(r);
            b->query(r, world, depth);
            if (r.chance(0.5)) b->reborn(r, world);
            delete b;
          } else
            world.objs[k]->query(r, world, depth);
        });
        if (!o.ok()) sim::violation("result", "an evaluation of a shared object failed: %s %s", sim::outcome_name(o), o.what);
      }
    });
  sim::run_threads(fns);
  for (int j = 0; j < 3; ++j) {
    if (!sim::op_enabled(900 + j)) continue;
    Rng r = sim::op_rng(900 + j);
    for (auto *b : world.objs) b->query(r, world, 0);
  }
  if (sim::op_enabled(990)) {
    Rng r = sim::op_rng(990);
    Obj *b = world.objs[r.below(world.objs.size())];
    sim::Outcome o = sim::plain(990, [&] { b->reborn(r, world); });
    if (!o.ok()) sim::violation("result", "an object built where another was failed: %s %s", sim::outcome_name(o), o.what);
  }
  for (auto *b : world.objs) delete b;
}
