// Shared, read-only lookup tables / interpolators / splines queried by many threads.
#include "common.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include "MathUtils/EigenDense.h"
#include "MathUtils/Spline.h"
using namespace mathutils;
using namespace hc;
const char *harness_name = "C01";

namespace {
template<class Y>
std::vector<Y> vals(Rng &r, size_t n);
template<>
std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<>
std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }

// names in an order of their own: tables share names at different places
struct NameSeq {
  int off, step;
  explicit NameSeq(Rng &r) {
    static const int st[] = {1, 5, 7, 11};
    off = (int) r.below(r.chance(0.5) ? 3 : 24);
    step = st[r.below(4)];
  }
  std::string operator()(int i) const { return series_name(off + i * step); }
};

template<class Y>
struct Table {
  INTERP_METHOD m;
  std::vector<double> x;
  std::vector<std::string> names;
  std::vector<std::vector<double>> xs;   // coordinates in force when the series was added
  std::vector<std::vector<Y>> ys;
  LookupTable1D<double, Y> *t = nullptr;

  void build(Rng &r) {
    INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = ms[r.below(3)];
    t = new LookupTable1D<double, Y>(m);
    x = gen_coords(r, tail(r, 2, 9, 150));
    t->SetX(x);
    int k = tail(r, 1, 4, 20);
    NameSeq ns(r);
    for (int i = 0; i < k; ++i) {
      if (i && r.chance(0.2)) {      // other coordinates for the following series
        x = gen_coords(r, tail(r, 2, 9, 150));
        t->SetX(x);
      }
      names.push_back(ns(i));
      xs.push_back(x);
      ys.push_back(vals<Y>(r, x.size()));
      if (!t->AddY(names.back(), ys.back())) sim::violation("result", "a fresh series name was refused");
    }
    if (r.chance(0.2)) {            // tables are movable: the moved-to table is the same table
      auto *u = new LookupTable1D<double, Y>(std::move(*t));
      delete t;
      t = u;
    }
  }
  Y want(int s, double q, double *scale) const {
    const std::vector<double> &X = xs[s];
    double qq = q;
    if (m == LINEAR_SATURATE) qq = std::min(std::max(q, X.front()), X.back());
    return ref_linear(X, ys[s], qq, scale);
  }
  double gen_q(Rng &r, int s) const {
    if (m != LINEAR && r.chance(0.3)) return gen_out(r, xs[s]);
    return gen_in(r, xs[s]);
  }
  void query(Rng &r) const {
    int s = (int) r.below(names.size());
    double sc;
    switch (r.below(7)) {
      case 0: {
        int n = tail(r, 0, 5, 40);
        std::vector<double> q(n);
        for (auto &e : q) e = gen_q(r, s);
        std::vector<Y> got = t->Eval(names[s], q);
        expect(got.size() == q.size(), "result", "vector evaluation has the wrong length", (long) got.size(), n);
        for (int i = 0; i < n; ++i) {
          Y w = want(s, q[i], &sc);
          expect_close("result", "vector evaluation of a shared 1D table", got[i], w, sc);
        }
        break;
      }
      case 1: {
        if (m == LINEAR) {     // all series must accept the abscissa
          double lo = -1e300, hi = 1e300;
          for (auto &X : xs) lo = std::max(lo, X.front()), hi = std::min(hi, X.back());
          if (lo > hi) break;
          double q = r.chance(0.5) ? lo : lo + (hi - lo) * r.unit();
          q = std::min(std::max(q, lo), hi);
          all(q);
        } else
          all(gen_q(r, s));
        break;
      }
      case 2: {
        expect(t->GetNbSeries() == names.size(), "result", "number of series changed", (long) t->GetNbSeries());
        expect(t->GetXmin(names[s]) == xs[s].front() && t->GetXmax(names[s]) == xs[s].back(), "result",
               "range of a series changed");
        std::vector<double> gx = t->GetX();
        expect(gx == x, "result", "coordinates changed");
        break;
      }
      default: {
        double q = gen_q(r, s);
        Y got = t->Eval(names[s], q);
        Y w = want(s, q, &sc);
        expect_close("result", "evaluation of a shared 1D table", got, w, sc);
      }
    }
  }
  void ask(int s, double q, bool every) const {
    double sc;
    Y got = t->Eval(names[s], q);
    expect_close("result", "evaluation of a 1D table", got, want(s, q, &sc), sc);
    auto v = t->Eval(names[s], std::vector<double>{q, q});
    expect(v.size() == 2, "result", "vector evaluation has the wrong length", (long) v.size());
    expect_close("result", "vector evaluation of a 1D table", v[1], want(s, q, &sc), sc);
    if (every) all(q);
  }
  // the table is destroyed and another one takes its place in memory, its names and coordinates; the same questions are asked
  void reborn(Rng &r) {
    int s = (int) r.below(names.size());
    double q = gen_q(r, s);
    bool every = m != LINEAR;
    ask(s, q, every);
    if (r.chance(0.3)) ask(s, q, every);
    t->~LookupTable1D<double, Y>();
    new (t) LookupTable1D<double, Y>(m);
    for (size_t i = 0; i < names.size(); ++i) {
      t->SetX(xs[i]);
      if (r.chance(0.8)) ys[i] = vals<Y>(r, xs[i].size());
      if (!t->AddY(names[i], ys[i])) sim::violation("result", "a fresh series name was refused");
    }
    x = xs.back();
    ask(s, q, every);
  }
  void all(double q) const {
    double sc;
    auto got = t->template Eval<double, Y>(q);
    expect(got.size() == names.size(), "result", "all-series evaluation misses series", (long) got.size());
    for (size_t i = 0; i < names.size(); ++i) {
      auto it = got.find(names[i]);
      expect(it != got.end(), "result", "all-series evaluation misses a name");
      Y w = want((int) i, q, &sc);
      expect_close("result", "all-series evaluation of a shared 1D table", it->second, w, sc);
    }
  }
};

struct Table2 {
  std::vector<double> x, y;
  std::vector<std::string> names;
  std::vector<std::vector<double>> d, xs, ys;   // data, and coordinates in force when the series was added
  LookupTable2d<double> *t = nullptr;
  void build(Rng &r) {
    t = new LookupTable2d<double>();
    x = gen_coords(r, tail(r, 2, 6, 25));
    y = gen_coords(r, tail(r, 2, 6, 25));
    t->SetX(x);
    t->SetY(y);
    int k = tail(r, 1, 3, 20);
    NameSeq ns(r);
    for (int i = 0; i < k; ++i) {
      if (i && r.chance(0.25)) { x = gen_coords(r, r.chance(0.5) ? (int) x.size() : tail(r, 2, 6, 25)); t->SetX(x); }
      if (i && r.chance(0.25)) { y = gen_coords(r, r.chance(0.5) ? (int) y.size() : tail(r, 2, 6, 25)); t->SetY(y); }
      names.push_back(ns(i));
      d.push_back(gen_vals(r, x.size() * y.size()));
      xs.push_back(x);
      ys.push_back(y);
      if (!t->AddData(names.back(), d.back())) sim::violation("result", "a fresh 2D series name was refused");
    }
    if (r.chance(0.2)) { x = gen_coords(r, (int) x.size()); t->SetX(x); }
    if (r.chance(0.2)) { y = gen_coords(r, (int) y.size()); t->SetY(y); }
  }
  void ask(int s, double a, double b) const {
    double sc, w = ref_bilinear(xs[s], ys[s], d[s], a, b, &sc);
    double got = t->Eval(names[s], a, b);
    expect_close("result", "evaluation of a 2D table", got, w, sc);
    auto v = t->Eval(names[s], std::vector<std::vector<double>>{{a, b}});
    expect(v.size() == 1, "result", "2D vector evaluation has the wrong length", (long) v.size());
    expect_close("result", "vector evaluation of a 2D table", v[0], w, sc);
  }
  void reborn(Rng &r) {
    int s = (int) r.below(names.size());
    double a = gen_in(r, xs[s]), b = gen_in(r, ys[s]);
    ask(s, a, b);
    t->~LookupTable2d<double>();
    new (t) LookupTable2d<double>();
    for (size_t i = 0; i < names.size(); ++i) {
      t->SetX(xs[i]);
      t->SetY(ys[i]);
      if (r.chance(0.8)) d[i] = gen_vals(r, d[i].size());
      if (!t->AddData(names[i], d[i])) sim::violation("result", "a fresh 2D series name was refused");
    }
    x = xs.back(), y = ys.back();
    ask(s, a, b);
  }
  void query(Rng &r) const {
    int s = (int) r.below(names.size());
    const std::vector<double> &x = xs[s], &y = ys[s];
    double sc;
    if (r.chance(0.25)) {
      int n = tail(r, 0, 4, 20);
      std::vector<std::vector<double>> q(n);
      for (auto &e : q) { double a = gen_in(r, x); double b = gen_in(r, y); e = {a, b}; }
      auto got = t->Eval(names[s], q);
      expect(got.size() == q.size(), "result", "2D vector evaluation has the wrong length");
      for (int i = 0; i < n; ++i) {
        double w = ref_bilinear(x, y, d[s], q[i][0], q[i][1], &sc);
        expect_close("result", "vector evaluation of a shared 2D table", got[i], w, sc);
      }
    } else if (r.chance(0.1)) {
      expect(t->HasSerie(names[s]) && !t->HasSerie("nobody"), "result", "2D series membership");
      expect(t->GetNbSample() == this->x.size() * this->y.size() && t->GetNbSeries() == names.size(), "result", "2D table counters");
      std::vector<double> gx = t->GetX(), gy = t->GetY();
      expect(gx == this->x && gy == this->y, "result", "2D coordinates changed");
    } else {
      double a = gen_in(r, x), b = gen_in(r, y);
      double got;
      if (r.chance(0.3)) { std::vector<double> ab{a, b}; got = t->Eval(names[s], ab); }
      else got = t->Eval(names[s], a, b);
      double w = ref_bilinear(x, y, d[s], a, b, &sc);
      expect_close("result", "evaluation of a shared 2D table", got, w, sc);
    }
  }
};

// bare interpolator objects made by the factory
struct Bare {
  INTERP_METHOD m;
  std::shared_ptr<std::vector<double>> x, y, y2, d;
  Interp1d<double, double> *p = nullptr;
  Interp2d<double> *p2 = nullptr;
  void build(Rng &r) {
    INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    m = ms[r.below(3)];
    x = std::make_shared<std::vector<double>>(gen_coords(r, tail(r, 2, 8, 80)));
    y = std::make_shared<std::vector<double>>(gen_vals(r, x->size()));
    p = Interp1d<double, double>::MakeInterp1d(m);
    p->Initialize(x, y);
    y2 = std::make_shared<std::vector<double>>(gen_coords(r, tail(r, 2, 5, 20)));
    d = std::make_shared<std::vector<double>>(gen_vals(r, x->size() * y2->size()));
    p2 = Interp2d<double>::MakeInterp2d(LINEAR);
    p2->Initialize(x, y2, d);
  }
  void reborn(Rng &r) {
    double q = gen_in(r, *x), q2 = gen_in(r, *y2), sc;
    for (int k = 0; k < 2; ++k) {
      expect_close("result", "1D interpolator", (*p)(q), ref_linear(*x, *y, q, &sc), sc);
      expect_close("result", "2D interpolator", (*p2)(q, q2), ref_bilinear(*x, *y2, *d, q, q2, &sc), sc);
      if (k) break;
      for (double &e : *y) e = gen_val(r);           // new data, where the old data and interpolators were
      for (double &e : *d) e = gen_val(r);
      if (r.chance(0.5)) { p->Initialize(x, y); p2->Initialize(x, y2, d); continue; }
      delete p;
      p = Interp1d<double, double>::MakeInterp1d(m);
      p->Initialize(x, y);
      delete p2;
      p2 = Interp2d<double>::MakeInterp2d(LINEAR);
      p2->Initialize(x, y2, d);
    }
  }
  void query(Rng &r) const {
    double sc;
    if (r.chance(0.1)) {
      expect(p->GetXmin() == x->front() && p->GetXmax() == x->back() && p2->GetXmin() == x->front() && p2->GetXmax() == x->back() &&
             p2->GetYmin() == y2->front() && p2->GetYmax() == y2->back(), "result", "bounds of a shared interpolator");
      return;
    }
    if (r.chance(0.1)) {
      std::vector<double> q{gen_in(r, *x), gen_in(r, *x), gen_in(r, *x)};
      auto g = (*p)(q);
      expect(g.size() == 3, "result", "vector evaluation of a bare interpolator");
      for (int i = 0; i < 3; ++i) { double w = ref_linear(*x, *y, q[i], &sc); expect_close("result", "vector evaluation of a shared 1D interpolator", g[i], w, sc); }
      return;
    }
    if (r.chance(0.1)) {
      std::vector<std::vector<double>> q(2);
      for (auto &e : q) { double a = gen_in(r, *x); double b = gen_in(r, *y2); e = {a, b}; }
      auto g = (*p2)(q);
      expect(g.size() == 2, "result", "vector evaluation of a bare 2D interpolator");
      for (int i = 0; i < 2; ++i) { double w = ref_bilinear(*x, *y2, *d, q[i][0], q[i][1], &sc); expect_close("result", "vector evaluation of a shared 2D interpolator", g[i], w, sc); }
      return;
    }
    if (r.chance(0.4)) {
      double a = gen_in(r, *x), b = gen_in(r, *y2);
      double got = (*p2)(a, b);
      expect_close("result", "shared 2D interpolator", got, ref_bilinear(*x, *y2, *d, a, b, &sc), sc);
      return;
    }
    double q = (m != LINEAR && r.chance(0.3)) ? gen_out(r, *x) : gen_in(r, *x);
    double got = r.chance(0.5) ? (*p)(q) : p->Eval(q);
    double qq = m == LINEAR_SATURATE ? std::min(std::max(q, x->front()), x->back()) : q;
    double w = ref_linear(*x, *y, qq, &sc);
    expect_close("result", "shared 1D interpolator", got, w, sc);
  }
};

typedef Spline<double, 1, 3> Spl;
struct SplineCase {
  std::vector<double> x, y;
  std::vector<double> q, want;
  double ym = 1e-300, c[4] = {0, 0, 0, 0};
  bool poly = false;
  Spl *p = nullptr;
  double pol(double v) const {
    double u = (v - x.front()) / (x.back() - x.front()), s = 0;
    for (int i = 3; i >= 0; --i) s = s * u + c[i];
    return s;
  }
  void build(Rng &r) {
    x = gen_coords(r, tail(r, 2, 8, 80));
    y = gen_vals(r, x.size());
    poly = r.chance(0.5);
    if (poly) {                   // a spline of degree d reproduces every polynomial of degree d
      int d = std::min<int>((int) x.size() - 1, 3);
      for (int i = 0; i <= d; ++i) c[i] = r.real(-3, 3);
      for (size_t i = 0; i < x.size(); ++i) y[i] = pol(x[i]);
    }
    if (r.chance(0.5)) p = new Spl(x, y);
    else {
      Eigen::VectorXd ex(x.size()), ey(x.size());
      for (size_t i = 0; i < x.size(); ++i) ex(i) = x[i], ey(i) = y[i];
      p = new Spl(ex, ey);
    }
    for (double v : y) ym = std::max(ym, std::fabs(v));
    for (double v : c) ym = std::max(ym, std::fabs(v));
    int n = 6;
    for (int i = 0; i < n; ++i) {
      q.push_back(gen_in(r, x));
      Spl alone(x, y);            // the answer of an object nobody else has ever touched
      want.push_back(alone(q.back()));
    }
  }
  void reborn(Rng &r) {
    double v = gen_in(r, x);
    (*p)(v);
    p->~Spl();
    c[0] += r.range(1, 5);
    for (size_t i = 0; i < x.size(); ++i) y[i] = pol(x[i]);
    new (p) Spl(x, y);
    for (double e : y) ym = std::max(ym, std::fabs(e));
    for (double e : c) ym = std::max(ym, std::fabs(e));
    double tol = 1e-8 * (1 + std::max(std::fabs(x.front()), std::fabs(x.back())) / (x.back() - x.front()) * 1e-3);
    expect_close("result", "spline through points of a polynomial", (*p)(v), pol(v), ym, tol);
  }
  void query(Rng &r) const {
    double tol = 1e-9 * (1 + std::max(std::fabs(x.front()), std::fabs(x.back())) / (x.back() - x.front()) * 1e-3);
    if (r.chance(0.3)) {
      size_t k = r.below(x.size());
      double got = (*p)(x[k]);
      expect_close("result", "shared spline at one of its own points", got, y[k], ym, 10 * tol);
    } else if (poly && r.chance(0.5)) {
      double v = gen_in(r, x);
      double got = (*p)(v);
      expect_close("result", "shared spline through points of a polynomial", got, pol(v), ym, 10 * tol);
    } else {
      int i = (int) r.below(q.size());
      double got = (*p)(q[i]);
      expect_close("result", "shared spline", got, want[i], ym, 1e-10);
    }
  }
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  // two of a kind: tables with the same names must not be taken for one another
  Table<double> aa[2];
  Table<cplx> c;
  Table2 tt[2];
  Bare b;
  SplineCase sp;
  unsigned have = 0;
  // swarm: a subset of the object kinds takes part in each run
  if (w.chance(0.6)) have |= 1;
  if (w.chance(0.3)) have |= 2;
  if (w.chance(0.5)) have |= 4;
  if (w.chance(0.3)) have |= 8;
  if (w.chance(0.15)) have |= 16;
  if (!have) have = 1u << w.below(4);
  int na = w.range(1, 2), nt = w.range(1, 2);
  sim::Outcome o = sim::plain(0, [&] {
    if (have & 1) for (int i = 0; i < na; ++i) aa[i].build(w);
    if (have & 2) c.build(w);
    if (have & 4) for (int i = 0; i < nt; ++i) tt[i].build(w);
    if (have & 8) b.build(w);
    if (have & 16) sp.build(w);
  });
  if (!o.ok()) sim::violation("build", "building the shared objects failed: %s %s", sim::outcome_name(o), o.what);
  int nth = w.range(2, 4);
  int nops = w.range(2, 7);
  bool builder = w.chance(0.2);    // one thread builds and uses tables of its own meanwhile
  sim::note_work(have * 100 + nth * 10 + nops);
  std::vector<int> kinds;
  for (int i = 0; i < 5; ++i) if (have >> i & 1) kinds.push_back(i);
  sim::log("shared objects mask=%u threads=%d ops/thread=%d builder=%d", have, nth, nops, (int) builder);
  std::vector<std::function<void()>> fns;
  for (int t = 0; t < nth; ++t)
    fns.push_back([&, t] {
      for (int j = 0; j < nops; ++j) {
        int op = (t + 1) * 100 + j;
        if (!sim::op_enabled(op)) continue;
        Rng r = sim::op_rng(op);
        int k = kinds[r.below(kinds.size())];
        sim::log("op %d: query kind %d", op, k);
        sim::Outcome o = sim::plain(op, [&] {
          if (builder && t == 0) {
            if (r.chance(0.5)) {
              Table<double> mine;
              mine.build(r);
              mine.query(r);
              mine.query(r);
              if (r.chance(0.5)) mine.reborn(r);
              delete mine.t;
            } else {
              Table2 mine;
              mine.build(r);
              mine.query(r);
              mine.query(r);
              if (r.chance(0.5)) mine.reborn(r);
              delete mine.t;
            }
            return;
          }
          switch (k) {
            case 0: aa[r.below(na)].query(r); break;
            case 1: c.query(r); break;
            case 2: tt[r.below(nt)].query(r); break;
            case 3: b.query(r); break;
            case 4: sp.query(r); break;
          }
        });
        if (!o.ok()) sim::violation("result", "a query on a shared object failed: %s %s", sim::outcome_name(o), o.what);
      }
    });
  sim::run_threads(fns);
  // afterwards the objects still answer (no lasting damage)
  for (int j = 0; j < 4; ++j) {
    if (!sim::op_enabled(900 + j)) continue;
    Rng r = sim::op_rng(900 + j);
    if (have & 1) aa[r.below(na)].query(r);
    if (have & 2) c.query(r);
    if (have & 4) tt[r.below(nt)].query(r);
    if (have & 8) b.query(r);
    if (have & 16) sp.query(r);
  }
  if (sim::op_enabled(990)) {
    Rng r = sim::op_rng(990);
    sim::Outcome o = sim::plain(990, [&] {
      if (have & 1) aa[r.below(na)].reborn(r);
      if (have & 2) c.reborn(r);
      if (have & 4) tt[r.below(nt)].reborn(r);
      if (have & 8) b.reborn(r);
      if (have & 16) sp.reborn(r);
    });
    if (!o.ok()) sim::violation("result", "an object built where another was failed: %s %s", sim::outcome_name(o), o.what);
  }
}
