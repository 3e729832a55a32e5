// Shared regular grids queried and copied by many threads.
#include "grids.h"
using namespace mathutils;
using namespace hg;
const char *harness_name = "C02";

namespace {
struct Base {
  virtual ~Base() {}
  virtual void query(Rng &r) const = 0;
  virtual void rebuild(Rng &r) = 0;
  // the object is destroyed and another one, over the same coordinates, takes its place in memory; the same question is asked
  void reborn(Rng &r) {
    Rng q = r, again = r;
    query(q);
    for (int i = 0; i < 7; ++i) r.next();
    rebuild(r);
    q = again;
    query(q);
    query(q);
  }
};

template<size_t D, class T>
struct InterpCase : Base {
  Model<D> m;
  RegularGridInterpolator<T, D> o;
  explicit InterpCase(Rng &r) {
    m = Model<D>::make(r, r.chance(0.2) ? 1 : 2, D == 1 ? 8 : 4);
    if (sizeof(T) == 4) {
      for (auto &v : m.g) for (size_t i = 0; i < v.size(); ++i) v[i] = (double) (float) (i * 1.5 - 2);
      for (auto &v : m.d) v = (double) (float) v;
    }
    fill();
  }
  void fill() {
    for (auto &v : m.g) o.AddCoord(std::vector<T>(v.begin(), v.end()));
    o.AddVar(m.template array<T>());
  }
  void rebuild(Rng &r) override {
    typedef RegularGridInterpolator<T, D> G;
    o.~G();
    for (auto &v : m.d) v = (double) (T) gen_val(r);
    new (&o) G();
    fill();
  }
  void query(Rng &r) const override {
    switch (r.below(8)) {
      case 0: {
        RegularGridInterpolator<T, D> c(o);
        check_interp<D, T>(c, m, r, "interpolation by a copy of a shared grid");
        break;
      }
      case 1: {
        auto p = m.point(r, false);
        std::array<T, D> q;
        for (size_t i = 0; i < D; ++i) q[i] = (T) p[i], p[i] = (double) q[i];
        bool threw = false;
        double got = 0;
        try {
          got = o.Interp(q, true);
        } catch (const std::exception &) {
          threw = true;
        }
        expect(threw == m.outside(p), "result", threw ? "a point inside the grid was refused" : "a point outside the grid was accepted although bounds are checked");
        if (!threw) {
          double sc, w = m.interp(p, &sc);
          expect_close("result", "bound-checked interpolation of a shared grid", got, w, sc, sizeof(T) == 4 ? 2e-5 : 1e-10);
        }
        break;
      }
      case 2: {
        std::array<size_t, D> ix;
        for (size_t i = 0; i < D; ++i) ix[i] = r.below(m.g[i].size());
        expect_same<double>("result", "value at a node", (double) o.EvalAtIndice(ix), m.at(ix));
        break;
      }
      case 3: {
        expect(o.IsValid() && o.GetDimension() == D, "result", "validity or dimension changed");
        unsigned i = (unsigned) r.below(D);
        expect((double) o.GetCoordMinVal(i) == m.g[i].front() && (double) o.GetCoordMaxVal(i) == m.g[i].back(), "result", "range of a coordinate");
        auto c = o.GetCoord(i);
        expect(c.size() == m.g[i].size(), "result", "length of a coordinate");
        for (size_t k = 0; k < c.size(); ++k) expect((double) c[k] == m.g[i][k], "result", "value of a coordinate");
        break;
      }
      default: check_interp<D, T>(o, m, r, "interpolation by a shared grid");
    }
  }
};

template<size_t D, class T>
struct NearCase : Base {
  Model<D> m;
  RegularGridNearest<T, D> o;
  explicit NearCase(Rng &r) {
    m = Model<D>::make(r, r.chance(0.2) ? 1 : 2, D == 1 ? 8 : 4);
    fill();
  }
  void fill() {
    for (auto &v : m.g) o.AddCoord(v);
    o.AddVar(m.template array<T>());
  }
  void rebuild(Rng &r) override {
    typedef RegularGridNearest<T, D> G;
    o.~G();
    for (auto &v : m.d) v = (double) (T) gen_val(r);
    new (&o) G();
    fill();
  }
  void query(Rng &r) const override {
    switch (r.below(7)) {
      case 0: {
        RegularGridNearest<T, D> c(o);
        check_nearest<D, T>(c, m, r, "nearest node of a copy of a shared grid");
        break;
      }
      case 1:
      case 2: check_around<D, T>(o, m, r, "value of a surrounding node"); break;
      case 3: {
        expect(o.IsValid() && o.GetDimension() == D, "result", "validity or dimension changed");
        unsigned i = (unsigned) r.below(D);
        expect(o.GetCoordMinVal(i) == m.g[i].front() && o.GetCoordMaxVal(i) == m.g[i].back(), "result", "range of a coordinate");
        expect(o.GetCoord(i) == m.g[i], "result", "coordinates");
        break;
      }
      default: check_nearest<D, T>(o, m, r, "value of the nearest node of a shared grid");
    }
  }
};

// the interpolators underneath, used directly: multilinear and simplex, one point or many
template<size_t D, class I, bool SIMPLEX>
struct BareCase : Base {
  Model<D> m;
  std::unique_ptr<I> o;
  explicit BareCase(Rng &r) {
    m = Model<D>::make(r, r.chance(0.2) ? 1 : 2, D == 1 ? 8 : 4);
    fill();
  }
  void rebuild(Rng &r) override {
    o.reset();
    for (auto &v : m.d) v = gen_val(r);
    fill();
  }
  void fill() {
    auto be = get_begins_ends(m.g.begin(), m.g.end());
    std::array<int, D> sizes;
    for (size_t i = 0; i < D; ++i) sizes[i] = (int) m.g[i].size();
    o.reset(new I(be.first.begin(), sizes.begin(), m.d.data(), m.d.data() + m.d.size()));
  }
  double want(const std::array<double, D> &p, double *sc) const {
    double v = m.interp(p, sc);
    if (!SIMPLEX) return v;
    sim::Quiet quiet;
    std::array<size_t, D> lo, hi;
    std::vector<std::pair<double, size_t>> x;
    for (size_t i = 0; i < D; ++i) {
      const auto &g = m.g[i];
      long c = Model<D>::cell(g, p[i]);
      if (c < 0) lo[i] = hi[i] = 0, x.push_back({0, i});
      else if (c >= (long) g.size() - 1) lo[i] = hi[i] = g.size() - 1, x.push_back({0, i});
      else lo[i] = c, hi[i] = c + 1, x.push_back({(p[i] - g[c]) / (g[c + 1] - g[c]), i});
    }
    std::sort(x.begin(), x.end(), [](const std::pair<double, size_t> &a, const std::pair<double, size_t> &b) { return a.first > b.first; });
    double s = 0, last = 1;
    auto at = lo;
    for (auto &e : x) { s += (last - e.first) * m.at(at); last = e.first; at[e.second] = hi[e.second]; }
    return s + last * m.at(at);
  }
  void query(Rng &r) const override {
    if (r.chance(0.6)) {
      auto p = m.point(r, false);
      double got = o->interp(p.begin()), sc, w = want(p, &sc);
      expect_close("result", SIMPLEX ? "simplex interpolation" : "multilinear interpolation", got, w, sc);
      return;
    }
    size_t n = r.range(0, 5);
    std::array<std::vector<double>, D> c;
    std::vector<std::array<double, D>> ps;
    for (size_t k = 0; k < n; ++k) { ps.push_back(m.point(r, false)); for (size_t i = 0; i < D; ++i) c[i].push_back(ps[k][i]); }
    std::vector<double> out(n + 1, 0.625);
    if constexpr (SIMPLEX && D <= 3) if (r.chance(0.4)) {                          // the C interface builds its own object
      double *g[D], *x[D];
      int len[D];
      for (size_t i = 0; i < D; ++i) g[i] = const_cast<double *>(m.g[i].data()), len[i] = (int) m.g[i].size(), x[i] = c[i].data();
      double *f = const_cast<double *>(m.d.data());
      if constexpr (D == 1) linterp_simplex_1(g, len, f, (int) n, x, out.data());
      else if constexpr (D == 2) linterp_simplex_2(g, len, f, (int) n, x, out.data());
      else linterp_simplex_3(g, len, f, (int) n, x, out.data());
      check(ps, out, "simplex interpolation by the C interface");
      return;
    }
    o->interp_vec((int) n, c.begin(), c.end(), out.begin());
    check(ps, out, SIMPLEX ? "simplex interpolation of several points" : "multilinear interpolation of several points");
  }
  void check(const std::vector<std::array<double, D>> &ps, const std::vector<double> &out, const char *what) const {
    for (size_t k = 0; k < ps.size(); ++k) { double sc, w = want(ps[k], &sc); expect_close("result", what, out[k], w, sc); }
    expect(out.back() == 0.625, "result", "more results were written than points given");
  }
};

Base *make(Rng &r) {
  if (r.chance(0.2)) switch (r.below(7)) {
    case 0: return new BareCase<1, InterpSimplex<1, double, false>, true>(r);
    case 1: return new BareCase<2, InterpSimplex<2, double, true>, true>(r);
    case 2: return new BareCase<3, InterpSimplex<3, double, false>, true>(r);
    case 3: return new BareCase<1, InterpMultilinear<1, double, true>, false>(r);
    case 4: return new BareCase<2, InterpMultilinear<2, double, true>, false>(r);
    case 5: return new BareCase<3, InterpMultilinear<3, double, false>, false>(r);
    default: return new BareCase<4, InterpSimplex<4, double, true>, true>(r);
  }
  switch (r.below(9)) {
    case 0: return new InterpCase<1, double>(r);
    case 1: return new InterpCase<2, double>(r);
    case 2: return new InterpCase<3, double>(r);
    case 3: return new NearCase<1, double>(r);
    case 4: return new NearCase<2, double>(r);
    case 5: return new NearCase<3, double>(r);
    case 6: return new NearCase<2, int>(r);
    case 7: return new InterpCase<2, float>(r);
    default: return new InterpCase<4, double>(r);
  }
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  int nobj = w.range(1, 3);
  std::vector<Base *> objs;
  sim::Outcome o = sim::plain(0, [&] {
    for (int i = 0; i < nobj; ++i) objs.push_back(make(w));
  });
  if (!o.ok()) sim::violation("build", "building the shared grids failed: %s %s", sim::outcome_name(o), o.what);
  int nth = w.range(2, 4), nops = w.range(2, 7);
  bool builder = w.chance(0.2);
  sim::note_work(nobj * 1000 + nth * 100 + nops * 10 + builder);
  sim::log("grids=%d threads=%d ops/thread=%d builder=%d", nobj, nth, nops, (int) builder);
  std::vector<std::function<void()>> fns;
  for (int t = 0; t < nth; ++t)
    fns.push_back([&, t] {
      for (int j = 0; j < nops; ++j) {
        int op = (t + 1) * 100 + j;
        if (!sim::op_enabled(op)) continue;
        Rng r = sim::op_rng(op);
        int k = (int) r.below(objs.size());
        sim::log("op %d: query grid %d", op, k);
        sim::Outcome o = sim::plain(op, [&] {
          if (builder && t == 0) {
            Base *b = make(r);
            b->query(r);
            b->query(r);
            if (r.chance(0.5)) b->reborn(r);
            delete b;
          } else
            objs[k]->query(r);
        });
        if (!o.ok()) sim::violation("result", "a query on a shared grid failed: %s %s", sim::outcome_name(o), o.what);
      }
    });
  sim::run_threads(fns);
  for (int j = 0; j < 4; ++j) {
    if (!sim::op_enabled(900 + j)) continue;
    Rng r = sim::op_rng(900 + j);
    for (auto *b : objs) b->query(r);
  }
  if (sim::op_enabled(990)) {
    Rng r = sim::op_rng(990);
    Base *b = objs[r.below(objs.size())];
    sim::Outcome o = sim::plain(990, [&] { b->reborn(r); });
    if (!o.ok()) sim::violation("result", "a grid built where another was failed: %s %s", sim::outcome_name(o), o.what);
  }
  for (auto *b : objs) delete b;
}
