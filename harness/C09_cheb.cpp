// Chebyshev coefficients computed again and again, with a function that throws and memory that fails.
#include "series.h"
using namespace mathutils;
using namespace hs;
const char *harness_name = "C09";

namespace {
struct Obj {
  Cheb c;
  Fn fn;
  bool computed = false;
  int nest = 0;
  void make(Rng &r) {
    fn.init(r);
    c.shape(r, r.chance(0.2) ? 17 : 8, r.chance(0.3) ? 4 : 2, r.chance(0.2) ? 2 : 1);
    c.create(&fn);
    fn.hook = [this] { sim::callback_point(); if (inner) inner(); };
  }
  std::function<void()> inner;
  void look(Rng &r) const {
    c.check_eval(r, computed ? "series against the interpolant of its function" : "series whose coefficients were never computed");
    c.check_eval(r, computed ? "series against the interpolant of its function" : "series whose coefficients were never computed");
    if (r.chance(0.3)) c.check_bcoef("conversion coefficients");
  }
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[][2] = {{0, 0}, {0.1, 0.1}, {0.4, 0.1}, {0.1, 0.5}, {0.4, 0.5}};
  int rate = (int) w.below(5);
  sim::set_rates(rates[rate][0], rates[rate][1], 0);
  sim::set_heap_reuse(w.chance(0.5));
  int nobj = w.range(1, 3), nops = w.range(2, 9);
  std::vector<std::unique_ptr<Obj>> v;
  for (int i = 0; i < nobj; ++i) {
    v.emplace_back(new Obj);
    Obj *o = v.back().get();
    sim::Outcome out = sim::plain(0, [&] { o->make(w); });
    if (!out.ok()) sim::violation("history", "building a series failed: %s", out.what);
  }
  sim::note_work(nobj * 10 + rate + nops * 100 + v[0]->c.kind * 10000);
  sim::log("series=%d ops=%d alloc-rate=%.2f callback-rate=%.2f", nobj, nops, rates[rate][0], rates[rate][1]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    Obj &a = *v[r.below(nobj)];
    switch (r.below(7)) {
      case 0: case 1: case 2: case 3: {
        if (a.computed && r.chance(0.3)) {     // the function itself changes before the next computation
          auto h = a.fn.hook;
          a.fn.init(r);
          a.fn.hook = h;
        }
        size_t calls = a.c.m.size() * a.c.m.size();
        if (sim::planned_kind(j) == sim::F_CALLBACK && r.chance(0.6)) sim::plan_override(j, sim::F_CALLBACK, r.below(r.chance(0.5) ? calls : a.c.m.size()), 0);
        bool nested = r.chance(0.2);
        for (int t = 0; t < 3; ++t) {
          int left = 2;
          if (nested) {
            a.inner = [&] {
              if (left-- <= 0) return;
              sim::probe("nested computation");
              Rng q = r;
              Obj in;
              in.make(q);
              in.fn.hook = nullptr;
              in.c.compute();
              in.c.expect_computed();
              in.computed = true;
              in.look(q);
            };
          } else
            a.inner = nullptr;
          auto f = [&] { a.c.compute(); };
          sim::Outcome o = t == 0 ? sim::api(j, f) : sim::plain(j, f);
          sim::log("op %d: compute the coefficients of a %dD series%s: %s%s", j, a.c.m.dim, nested ? " (the function computes another series)" : "", sim::outcome_name(o), o.fired ? " (fault)" : "");
          a.inner = nullptr;
          if (o.ok()) {
            if (a.computed) sim::probe("computed again");
            a.c.expect_computed();
            a.computed = true;
            break;
          }
          if (!o.fired) sim::violation("history", "computing coefficients failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
          sim::probe(o.fired_kind == sim::F_CALLBACK ? "function threw" : "memory failed");
          Rng q = r;
          o = sim::plain(j, [&] { a.look(q); });
          if (!o.ok()) sim::violation("history", "a series cannot be evaluated after a failed computation");
          if (r.chance(0.3)) break;
        }
        break;
      }
      case 4: {
        sim::Outcome o = sim::api(j, [&] { a.c.check_eval(r, "evaluation while memory fails"); });
        if (!o.ok() && !o.fired) sim::violation("history", "an evaluation failed although nothing went wrong: %s", o.what);
        break;
      }
      case 5: {                                 // power series from the conversion coefficients
        std::vector<double> b;
        sim::Outcome o = sim::api(j, [&] { b = a.c.bcoef(); });
        sim::log("op %d: convert a %dD series: %s", j, a.c.m.dim, sim::outcome_name(o));
        if (!o.ok()) {
          if (!o.fired) sim::violation("history", "a conversion failed although nothing went wrong: %s", o.what);
          o = sim::plain(j, [&] { b = a.c.bcoef(); });
          if (!o.ok()) sim::violation("history", "a conversion cannot be repeated after a failure");
        }
        o = sim::plain(j, [&] {
          Power p;
          p.kind = a.c.kind;
          p.m = a.c.m.monomial();
          Poly want = p.m;
          for (size_t i = 0; i < b.size(); ++i) {
            expect_close("result", "conversion coefficient", b[i], (double) want.c[i], want.mag(), 1e-9);
            p.m.c[i] = b[i];
          }
          p.create();
          for (int i = 0; i < 3; ++i) p.check_eval(r);
        });
        if (!o.ok()) sim::violation("history", "a power series made from conversion coefficients fails: %s", o.what);
        break;
      }
      default: {                                // a copy takes over
        sim::log("op %d: a copy of the series takes over", j);
        auto copy = [&](auto &p, auto *type) {
          typedef typename std::remove_pointer<decltype(type)>::type S;
          if (S *q = dup(static_cast<const S &>(*p))) p.reset(q);
        };
        sim::Outcome o = sim::plain(j, [&] {
          switch (a.c.kind) {
            case 0: copy(a.c.s1, (ChebyshevSeries1dClosed<double> *) nullptr); break;
            case 1: copy(a.c.s1, (ChebyshevSeries1dOpened<double> *) nullptr); break;
            case 2: copy(a.c.s2, (ChebyshevSeries2dClosed<double> *) nullptr); break;
            case 3: copy(a.c.s2, (ChebyshevSeries2dOpened<double> *) nullptr); break;
            case 4: copy(a.c.s2, (ChebyshevSeries2dMixed<double> *) nullptr); break;
            case 5: copy(a.c.s3, (ChebyshevSeries3dClosed<double> *) nullptr); break;
            case 6: copy(a.c.s3, (ChebyshevSeries3dYZOpenedXClosed<double> *) nullptr); break;
            default: copy(a.c.s3, (ChebyshevSeries3dZOpenedXYClosed<double> *) nullptr);
          }
        });
        if (!o.ok()) sim::violation("history", "copying a series failed");
      }
    }
    Rng q = sim::op_rng(10000 + j);
    sim::Outcome o = sim::plain(10000 + j, [&] { for (auto &e : v) e->look(q); });
    if (!o.ok()) sim::violation("history", "after operation %d a series cannot be evaluated: %s %s", j, sim::outcome_name(o), o.what);
  }
}
