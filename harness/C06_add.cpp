// Histories of additions to lookup tables with failing memory and streams: all or nothing, and no name ever aliases another.
#include "streams.h"
#include "MathUtils/EigenDense.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
using namespace mathutils;
using namespace hc;
const char *harness_name = "C06";

namespace {
hs::FaultBuf outbuf, errbuf;
std::string name_of(int i) {
  std::string s = series_name(i);
  if (i >= 10) s += std::to_string(i / 10);
  return s;
}
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }

template<class Y>
struct Series {
  std::string name;
  std::vector<double> x, y;      // coordinates in force when it was added (y: 2D only)
  std::vector<Y> d;
};
int sub = 0;                     // numbers the fault-free looks

// ---- 1D ----------------------------------------------------------------------------------------
template<class Y>
struct T1 {
  typedef LookupTable1D<double, Y> Tab;
  INTERP_METHOD m;
  std::unique_ptr<Tab> t;
  std::vector<double> x;
  std::vector<Series<Y>> s;
  int names;
  bool dead = false;             // moved from: only a target of a move, or destroyed
  void init(Rng &r) {
    INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = ms[r.below(3)];
    t.reset(new Tab(m));
    x = gen_coords(r, tail(r, 2, 6, 70));
    t->SetX(x);
    names = r.chance(0.3) ? 24 : 10;
    if (r.chance(0.1)) {                       // a table that is large already
      names = 48;
      for (int i = 0, k = r.range(8, 30); i < k; ++i) { auto n = name_of(i); auto y = vals<Y>(r, x.size()); if (t->AddY(n, y)) s.push_back({n, x, {}, y}); }
    }
  }
  const Series<Y> *find(const std::string &n) const {
    for (auto &e : s) if (e.name == n) return &e;
    return nullptr;
  }
  void one(Rng &r, const Series<Y> &e, const char *when) const {
    double q = m != LINEAR && r.chance(0.3) ? gen_out(r, e.x) : gen_in(r, e.x), sc;
    Y g = t->Eval(e.name, q);
    double qq = m == LINEAR_SATURATE ? std::min(std::max(q, e.x.front()), e.x.back()) : q;
    Y w = ref_linear(e.x, e.d, qq, &sc);
    expect_close("all-or-nothing", when, g, w, sc);
  }
  void look(Rng &r) const {
    if (dead) return;
    expect(t->GetNbSeries() == s.size(), "all-or-nothing", "1D table: number of series", (long) t->GetNbSeries(), (long) s.size());
    expect(t->GetX() == x && t->GetNbSample() == x.size(), "all-or-nothing", "1D table: coordinates");
    for (auto &e : s) {
      one(r, e, "a series of a 1D table");
      expect(t->GetXmin(e.name) == e.x.front() && t->GetXmax(e.name) == e.x.back(), "all-or-nothing", "range of a series of a 1D table");
    }
    for (int i = 0; i < names; ++i) {
      std::string n = name_of(i);
      if (find(n) || !r.chance(0.3)) continue;
      bool threw = false;
      try { t->Eval(n, 0.5 * (x[0] + x[1])); } catch (const std::out_of_range &) { threw = true; }
      expect(threw, "all-or-nothing", "1D table: a name that was never added answers", i);
    }
    if (m != LINEAR && r.chance(0.3)) {
      double q = gen_in(r, x), sc;
      auto all = t->template Eval<double, Y>(q);
      expect(all.size() == s.size(), "all-or-nothing", "all-series evaluation: number of names", (long) all.size(), (long) s.size());
      for (auto &e : s) {
        auto it = all.find(e.name);
        expect(it != all.end(), "all-or-nothing", "all-series evaluation: a name is missing");
        double qq = m == LINEAR_SATURATE ? std::min(std::max(q, e.x.front()), e.x.back()) : q;
        Y w = ref_linear(e.x, e.d, qq, &sc);
        expect_close("all-or-nothing", "all-series evaluation", it->second, w, sc);
      }
    }
  }
  void add(int op, Rng &r) {
    std::string n = name_of((int) r.below(names));
    bool dup = find(n) != nullptr;
    if (!dup && r.chance(0.15) && !s.empty()) { n = s[r.below(s.size())].name; dup = true; }
    std::vector<Y> y = vals<Y>(r, x.size());
    for (int attempt = 0; attempt < 3; ++attempt) {
      bool ret = !dup;
      auto f = [&] { hs::Armed a(std::cout, outbuf); ret = t->AddY(n, y); };
      sim::Outcome o = attempt == 0 ? sim::api(op, f) : sim::plain(op, f);
      sim::log("op %d: AddY(\"%s\") on a 1D table, %s: %s%s", op, n.c_str(), dup ? "name present" : "new name", sim::outcome_name(o), o.fired ? " (fault)" : "");
      if (o.ok()) {
        expect(ret == !dup, "all-or-nothing", dup ? "AddY of a present name did not say it was refused" : "AddY of a new name said it was refused");
        if (!dup) s.push_back({n, x, {}, y});
        else sim::probe("refused name");
        return;
      }
      if (!o.fired) sim::violation("all-or-nothing", "an addition to a 1D table failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
      sim::probe("failed addition");
      if (r.chance(0.5)) { Rng q = r; sim::plain(op, [&] { look(q); }); }
      if (r.chance(0.3)) return;                 // sometimes the caller gives up
      if (r.chance(0.3)) y = vals<Y>(r, x.size());
    }
    sim::violation("all-or-nothing", "an addition cannot be repeated after the fault is gone");
  }
  void step(int op, Rng &r, T1 &other) {
    int k = (int) r.below(12);
    if (dead) k = 11;
    if (k < 6) add(op, r);
    else if (k < 8) {
      std::vector<double> nx = gen_coords(r, tail(r, 2, 7, 70));
      sim::Outcome o = sim::api(op, [&] { t->SetX(nx); });
      sim::log("op %d: SetX on a 1D table: %s", op, sim::outcome_name(o));
      if (o.ok()) x = nx;
      else if (!o.fired) sim::violation("all-or-nothing", "SetX failed although nothing went wrong");
    } else if (k < 11) {
      if (s.empty()) return;
      const Series<Y> &e = s[r.below(s.size())];
      std::vector<double> q;
      for (int i = tail(r, 0, 4, 40); i > 0; --i) q.push_back(gen_in(r, e.x));
      std::vector<Y> g;
      sim::Outcome o = sim::api(op, [&] { g = t->Eval(e.name, q); });
      sim::log("op %d: Eval on a 1D table: %s", op, sim::outcome_name(o));
      if (!o.ok() && !o.fired) sim::violation("all-or-nothing", "an evaluation failed although nothing went wrong: %s", o.what);
      if (o.ok()) {
        expect(g.size() == q.size(), "all-or-nothing", "vector evaluation: length");
        for (size_t i = 0; i < q.size(); ++i) { double sc; Y w = ref_linear(e.x, e.d, q[i], &sc); expect_close("all-or-nothing", "vector evaluation of a 1D table", g[i], w, sc); }
      }
    } else {
      int w = (int) r.below(4);
      if (other.dead && !dead) { T1 &a = *this; a.give(other, op); return; }
      if (dead) { if (!other.dead) other.give(*this, op); else { init(r); s.clear(); dead = false; } return; }
      if (w == 0) {              // a new table made from this one
        sim::log("op %d: move construction", op);
        std::unique_ptr<Tab> u;
        sim::Outcome o = sim::plain(op, [&] { u.reset(new Tab(std::move(*t))); });
        if (!o.ok()) sim::violation("all-or-nothing", "a move failed");
        t = std::move(u);
      } else if (w == 1) {       // onto itself
        sim::log("op %d: move onto itself", op);
        Tab &a = *t;
        sim::plain(op, [&] { *t = std::move(a); });
      } else if (w == 2) give(other, op);
    }
  }
  void give(T1 &other, int op) {
    sim::log("op %d: move assignment to another table", op);
    sim::Outcome o = sim::plain(op, [&] { *other.t = std::move(*t); });
    if (!o.ok()) sim::violation("all-or-nothing", "a move assignment failed");
    other.s = s;
    other.x = x;
    other.m = m;
    other.names = std::max(names, other.names);
    other.dead = false;
    s.clear();
    dead = true;
  }
};

// ---- 2D ----------------------------------------------------------------------------------------
struct T2 {
  LookupTable2d<double> t;
  std::vector<double> x, y;
  std::vector<Series<double>> s;
  bool linear = true;
  int names;
  void init(Rng &r) {
    x = gen_coords(r, tail(r, 2, 5, 20, 0.08));
    y = gen_coords(r, tail(r, 2, 5, 20, 0.08));
    t.SetX(x);
    t.SetY(y);
    names = r.chance(0.3) ? 24 : 10;
    if (r.chance(0.1)) {
      names = 48;
      for (int i = 0, k = r.range(8, 30); i < k; ++i) { auto n = name_of(i); auto d = gen_vals(r, x.size() * y.size()); if (t.AddData(n, d)) s.push_back({n, x, y, d}); }
    }
  }
  void one(Rng &r, const Series<double> &e, const char *what) const {
    double a = gen_in(r, e.x), b = gen_in(r, e.y), sc;
    expect_close("all-or-nothing", what, t.Eval(e.name, a, b), ref_bilinear(e.x, e.y, e.d, a, b, &sc), sc);
  }
  const Series<double> *find(const std::string &n) const {
    for (auto &e : s) if (e.name == n) return &e;
    return nullptr;
  }
  void look(Rng &r) const {
    expect(t.GetNbSeries() == s.size(), "all-or-nothing", "2D table: number of series", (long) t.GetNbSeries(), (long) s.size());
    expect(t.GetX() == x && t.GetY() == y && t.GetNbSample() == x.size() * y.size(), "all-or-nothing", "2D table: coordinates");
    for (auto &e : s) {
      expect(t.HasSerie(e.name), "all-or-nothing", "2D table: a series is gone");
      one(r, e, "a series of a 2D table");
    }
    for (int i = 0; i < names; ++i) {
      std::string n = name_of(i);
      if (find(n) || !r.chance(0.3)) continue;
      expect(!t.HasSerie(n), "all-or-nothing", "2D table: has a series that was never added", i);
      bool threw = false;
      try { t.Eval(n, x[0], y[0]); } catch (const std::out_of_range &) { threw = true; }
      expect(threw, "all-or-nothing", "2D table: a name that was never added answers", i);
    }
  }
  void add(int op, Rng &r) {
    std::string n = name_of((int) r.below(names));
    bool dup = find(n) != nullptr;
    if (!dup && r.chance(0.15) && !s.empty()) { n = s[r.below(s.size())].name; dup = true; }
    std::vector<double> d = gen_vals(r, x.size() * y.size());
    bool small = r.chance(0.15);
    if (small) d.resize(r.below(d.size()));
    for (int attempt = 0; attempt < 4; ++attempt) {
      bool ret = !dup;
      auto f = [&] { hs::Armed a(std::cout, outbuf); ret = t.AddData(n, d); };
      sim::Outcome o = attempt == 0 ? sim::api(op, f) : sim::plain(op, f);
      sim::log("op %d: AddData(\"%s\") on a 2D table, %s%s%s: %s%s", op, n.c_str(), dup ? "name present" : "new name", small ? ", too short" : "",
               linear ? "" : ", method unavailable", sim::outcome_name(o), o.fired ? " (fault)" : "");
      if (o.ok()) {
        if (dup) { expect(!ret, "all-or-nothing", "AddData of a present name did not say it was refused"); sim::probe("refused name"); return; }
        if (small || !linear) {
          expect(!ret, "all-or-nothing", "AddData accepted data that are too short or a method that does not exist");
          sim::probe("refused data");
          if (r.chance(0.5)) { Rng q = r; sim::plain(op, [&] { look(q); }); }
          small = false;
          d = gen_vals(r, x.size() * y.size());
          if (!linear) method(op, LINEAR);
          continue;
        }
        expect(ret, "all-or-nothing", "AddData of a new name said it was refused");
        s.push_back({n, x, y, d});
        return;
      }
      if (!o.fired) {
        if (dup || !(small || !linear))
          sim::violation("all-or-nothing", "an addition to a 2D table failed although nothing went wrong: %s %s", sim::outcome_name(o), o.what);
        sim::probe("refused data");
      } else
        sim::probe("failed addition");
      if (r.chance(0.5)) { Rng q = r; sim::plain(op, [&] { look(q); }); }
      if (r.chance(0.3)) return;
      if (!o.fired) {
        if (small) { small = false; d = gen_vals(r, x.size() * y.size()); }
        if (!linear) method(op, LINEAR);
      }
    }
    sim::violation("all-or-nothing", "an addition cannot be repeated after its cause of failure is gone");
  }
  void method(int op, INTERP_METHOD m) {
    sim::Outcome o = sim::api(op, [&] { hs::Armed a(std::cout, outbuf); t.SetInterpolationMethod(m); });
    if (!o.ok()) {
      if (!o.fired) sim::violation("all-or-nothing", "SetInterpolationMethod failed although nothing went wrong");
      o = sim::plain(op, [&] { hs::Armed a(std::cout, outbuf); t.SetInterpolationMethod(m); });
    }
    linear = m == LINEAR;
  }
  void step(int op, Rng &r) {
    int k = (int) r.below(12);
    if (k < 7) add(op, r);
    else if (k < 9) {
      bool ix = r.chance(0.5);
      std::vector<double> n = gen_coords(r, tail(r, 2, 5, 20, 0.08));
      sim::Outcome o = sim::api(op, [&] { if (ix) t.SetX(n); else t.SetY(n); });
      sim::log("op %d: Set%s on a 2D table: %s", op, ix ? "X" : "Y", sim::outcome_name(o));
      if (o.ok()) (ix ? x : y) = n;
      else if (!o.fired) sim::violation("all-or-nothing", "SetX/SetY failed although nothing went wrong");
    } else if (k == 9) {
      INTERP_METHOD m = r.chance(0.5) ? LINEAR : BSPLINE;
      sim::log("op %d: SetInterpolationMethod(%s)", op, m == LINEAR ? "LINEAR" : "BSPLINE");
      method(op, m);
    } else if (!s.empty()) {
      const auto &e = s[r.below(s.size())];
      std::vector<std::vector<double>> q(r.range(0, 3));
      for (auto &v : q) { double a = gen_in(r, e.x); double b = gen_in(r, e.y); v = {a, b}; }
      std::vector<double> g;
      sim::Outcome o = sim::api(op, [&] { g = t.Eval(e.name, q); });
      sim::log("op %d: Eval on a 2D table: %s", op, sim::outcome_name(o));
      if (!o.ok() && !o.fired) sim::violation("all-or-nothing", "an evaluation failed although nothing went wrong: %s", o.what);
      if (o.ok()) {
        expect(g.size() == q.size(), "all-or-nothing", "2D vector evaluation: length");
        for (size_t i = 0; i < q.size(); ++i) { double sc; double w = ref_bilinear(e.x, e.y, e.d, q[i][0], q[i][1], &sc); expect_close("all-or-nothing", "vector evaluation of a 2D table", g[i], w, sc); }
      }
    }
  }
};
template<class T>
void in_turn(Rng &q, T &a, T &b) {
  for (auto &e : a.s) {
    auto *f = b.find(e.name);
    if (!f || !q.chance(0.3)) continue;
    a.one(q, e, "a series whose name another table has too");
    b.one(q, *f, "a series whose name another table has too");
  }
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  std::cout.rdbuf(&outbuf);
  std::cerr.rdbuf(&errbuf);
  static const double rates[][2] = {{0, 0}, {0.15, 0.1}, {0.4, 0.1}, {0.8, 0}, {0.1, 0.6}};
  int rate = (int) w.below(5);
  sim::set_rates(rates[rate][0], 0, rates[rate][1]);
  sim::set_heap_reuse(w.chance(0.5));
  int mask = (int) w.below(7) + 1;
  int nops = w.chance(0.2) ? w.range(25, 50) : w.range(3, 16);
  T1<double> a, a2;
  T1<cplx> c, c2;
  T2 d, d2;
  sim::Outcome o = sim::plain(0, [&] {
    a.init(w), a2.init(w), c.init(w), c2.init(w), d.init(w), d2.init(w);
  });
  if (!o.ok()) sim::violation("all-or-nothing", "building empty tables failed");
  sim::note_work(mask * 10 + rate + nops * 100);
  sim::log("tables mask=%d ops=%d alloc-rate=%.2f stream-rate=%.2f", mask, nops, rates[rate][0], rates[rate][1]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    std::vector<int> kinds;
    if (mask & 1) kinds.push_back(0), kinds.push_back(0), kinds.push_back(1);
    if (mask & 2) kinds.push_back(2), kinds.push_back(3);
    if (mask & 4) kinds.push_back(4), kinds.push_back(4);
    int k = kinds[r.below(kinds.size())];
    switch (k) {
      case 0: a.step(j, r, a2); break;
      case 1: a2.step(j, r, a); break;
      case 2: c.step(j, r, c2); break;
      case 3: c2.step(j, r, c); break;
      default: (r.chance(0.6) ? d : d2).step(j, r);
    }
    Rng q = sim::op_rng(10000 + j);
    sim::Outcome o = sim::plain(10000 + j, [&] {
      if (mask & 1) a.look(q), a2.look(q);
      if (mask & 2) c.look(q), c2.look(q);
      if (mask & 4) d.look(q), d2.look(q);
      // tables with a name in common, asked in turn
      if (mask & 1) in_turn(q, a, a2);
      if (mask & 2) in_turn(q, c, c2);
      if (mask & 4) in_turn(q, d, d2);
    });
    if (!o.ok()) sim::violation("all-or-nothing", "after operation %d a table cannot be queried any more: %s %s", j, sim::outcome_name(o), o.what);
  }
}
