// Life of regular-grid objects: filling, failing or refused updates, copies, assignments, destruction, with failing memory.
#include "grids.h"
using namespace mathutils;
using namespace hg;
const char *harness_name = "C08";

namespace {
// what the two kinds of object have in common, and where they differ
template<size_t D>
struct Interpolator {
  typedef RegularGridInterpolator<double, D> Obj;
  static const char *name() { return "interpolator"; }
  static const bool refuses = true;            // wrong shape and non-increasing coordinates are refused with an exception
  static void check(const Obj &o, const Model<D> &m, Rng &r) {
    check_interp<D, double>(o, m, r, "interpolation");
    std::array<size_t, D> ix;
    for (size_t i = 0; i < D; ++i) ix[i] = r.below(m.g[i].size());
    expect_same<double>("result", "value at a node", o.EvalAtIndice(ix), m.at(ix));
    auto p = m.point(r, false);
    bool threw = false;
    try { o.Interp(p, true); } catch (const std::exception &) { threw = true; }
    expect(threw == m.outside(p), "result", "bound check does not belong to the grid");
  }
  static void use(const Obj &o, const Model<D> &m, Rng &r) { check_interp<D, double>(o, m, r, "interpolation while memory fails"); }
};
template<size_t D>
struct Nearest {
  typedef RegularGridNearest<double, D> Obj;
  static const char *name() { return "nearest-node grid"; }
  static const bool refuses = false;
  static void check(const Obj &o, const Model<D> &m, Rng &r) {
    check_nearest<D, double>(o, m, r, "value of the nearest node");
    check_around<D, double>(o, m, r, "value of a surrounding node");
  }
  static void use(const Obj &o, const Model<D> &m, Rng &r) {
    if (r.chance(0.5)) check_nearest<D, double>(o, m, r, "value of the nearest node while memory fails");
    else check_around<D, double>(o, m, r, "surrounding nodes while memory fails");
  }
};

struct Zoo {
  virtual ~Zoo() {}
  virtual void step(int op, Rng &r) = 0;
  virtual void look(Rng &r) = 0;
};

template<size_t D, template<size_t> class K>
struct ZooOf : Zoo {
  typedef typename K<D>::Obj Obj;
  struct Slot {
    std::unique_ptr<Obj> o;
    std::vector<std::vector<double>> g;        // coordinates given so far
    bool valid = false, hurt = false;          // hurt: an assignment failed and it reports itself not valid
    Model<D> m;
  };
  std::vector<Slot> s;
  ZooOf() { s.resize(3); }

  void check(Slot &a, Rng &r, const char *when) {
    bool v = a.o->IsValid();
    if (a.hurt) { expect(!v, "result", "an object became valid by itself"); return; }
    expect(v == a.valid, "result", when, v, a.valid);
    expect(a.o->GetDimension() == D, "result", "dimension");
    if (a.valid) {
      for (size_t i = 0; i < D; ++i) {
        expect(a.o->GetCoord((unsigned) i) == a.m.g[i], "result", "coordinates of an object", (long) i);
        expect(a.o->GetCoordMinVal((unsigned) i) == a.m.g[i].front() && a.o->GetCoordMaxVal((unsigned) i) == a.m.g[i].back(), "result", "range of a coordinate", (long) i);
      }
      K<D>::check(*a.o, a.m, r);
      K<D>::check(*a.o, a.m, r);
    } else for (size_t i = 0; i < a.g.size(); ++i) {           // the coordinates given so far
      expect(a.o->GetCoord((unsigned) i) == a.g[i], "result", "coordinates of an object without data", (long) i);
      expect(a.o->GetCoordMinVal((unsigned) i) == a.g[i].front() && a.o->GetCoordMaxVal((unsigned) i) == a.g[i].back(), "result", "range of a coordinate of an object without data", (long) i);
    }
  }
  void look(Rng &r) override {
    for (auto &a : s) if (a.o) check(a, r, "validity of an object");
  }
  // after a failed operation on a: still the previous state, or not valid
  void after_failure(Slot &a, const char *what, bool assigned) {
    bool v = false;
    sim::Outcome o = sim::plain(9999, [&] { v = a.o->IsValid(); });
    (void) o;
    if (v) {
      if (!a.valid || a.hurt) sim::violation("result", "a %s that was not valid reports itself valid after %s failed", K<D>::name(), what);
    } else {
      if (a.valid) sim::probe("not valid after a failure");
      a.valid = false;
      if (assigned) a.hurt = true;
    }
    sim::probe("failed update");
  }
  void bad(const sim::Outcome &o, const char *what) {
    if (!o.ok() && !o.fired) sim::violation("result", "%s of a %s failed although nothing went wrong: %s %s", what, K<D>::name(), sim::outcome_name(o), o.what);
  }
  void coord(int op, Rng &r, Slot &a) {
    auto v = gen_coords(r, tail(r, r.chance(0.2) ? 1 : 2, D == 1 ? 7 : 4, D == 1 ? 70 : D == 2 ? 20 : D == 3 ? 10 : 6, 0.06));
    if (K<D>::refuses && r.chance(0.15) && v.size() > 1) {         // not increasing
      auto w = v;
      size_t i = 1 + r.below(v.size() - 1);
      if (r.chance(0.5)) w[i] = w[i - 1];
      else std::swap(w[i], w[i - 1]);
      sim::Outcome o = sim::api(op, [&] { a.o->AddCoord(w); });
      sim::log("op %d: AddCoord with non-increasing values (%s): %s", op, K<D>::name(), sim::outcome_name(o));
      if (o.ok()) sim::violation("result", "coordinates that do not increase were accepted");
      sim::probe("refused update");
    }
    for (int t = 0; t < 2; ++t) {
      auto f = [&] { a.o->AddCoord(v); };
      sim::Outcome o = t == 0 ? sim::api(op, f) : sim::plain(op, f);
      sim::log("op %d: AddCoord of %d values (%s): %s%s", op, (int) v.size(), K<D>::name(), sim::outcome_name(o), o.fired ? " (fault)" : "");
      bad(o, "AddCoord");
      if (o.ok()) { a.g.push_back(v); return; }
      after_failure(a, "AddCoord", false);
    }
  }
  void data(int op, Rng &r, Slot &a) {
    Model<D> n;
    n.g = a.g;
    n.d = gen_vals(r, n.size());
    if (r.chance(0.15)) {                                           // another shape
      Model<D> b = n;
      size_t i = r.below(D);
      bool same_count = D > 1 && r.chance(0.5);
      if (same_count) std::swap(b.g[0], b.g[D - 1]);
      else if (b.g[i].size() > 1 && r.chance(0.5)) b.g[i].pop_back();
      else b.g[i].push_back(b.g[i].back() + 1);
      bool differs = false;
      for (size_t k = 0; k < D; ++k) differs |= b.g[k].size() != n.g[k].size();
      b.d = gen_vals(r, b.size());
      if (differs) {
        sim::Outcome o = sim::api(op, [&] { auto arr = b.template array<double>(); a.o->AddVar(arr); });
        sim::log("op %d: AddVar of another shape (%s): %s", op, K<D>::name(), sim::outcome_name(o));
        bool v = true;
        sim::plain(op, [&] { v = a.o->IsValid(); });
        if (o.ok()) { expect(!v, "result", "data of another shape were accepted and the object reports itself valid"); a.valid = false; }
        else after_failure(a, "AddVar", false);
        sim::probe("refused update");
        if (r.chance(0.5)) { Rng q = r; sim::plain(op, [&] { check(a, q, "validity after a refused update"); }); }
      }
    }
    for (int t = 0; t < 2; ++t) {
      auto f = [&] { auto arr = n.template array<double>(); a.o->AddVar(arr); };
      sim::Outcome o = t == 0 ? sim::api(op, f) : sim::plain(op, f);
      sim::log("op %d: AddVar (%s): %s%s", op, K<D>::name(), sim::outcome_name(o), o.fired ? " (fault)" : "");
      bad(o, "AddVar");
      if (o.ok()) { a.valid = true; a.m = n; return; }
      after_failure(a, "AddVar", false);
      Rng q = r;
      sim::plain(op, [&] { check(a, q, "validity after a failed update"); });
      if (r.chance(0.5)) return;
    }
  }
  void step(int op, Rng &r) override {
    Slot &a = s[r.below(3)], &b = s[r.below(3)];
    if (!a.o) {
      if (b.o && !b.hurt && r.chance(0.6)) {                        // a copy
        std::unique_ptr<Obj> n;
        sim::Outcome o = sim::api(op, [&] { n.reset(new Obj(*b.o)); });
        sim::log("op %d: copy (%s): %s%s", op, K<D>::name(), sim::outcome_name(o), o.fired ? " (fault)" : "");
        bad(o, "copying");
        if (o.ok()) { a.o = std::move(n); a.g = b.g; a.valid = b.valid; a.m = b.m; a.hurt = false; }
        else sim::probe("failed copy");
      } else {
        sim::Outcome o = sim::api(op, [&] { a.o.reset(new Obj()); });
        sim::log("op %d: new %s: %s", op, K<D>::name(), sim::outcome_name(o));
        bad(o, "construction");
        a.g.clear();
        a.valid = a.hurt = false;
      }
      return;
    }
    if (!a.hurt && a.g.size() < D && r.chance(0.7)) { coord(op, r, a); return; }
    switch (r.below(8)) {
      case 0: case 1: case 2:
        if (a.hurt) break;
        if (a.g.size() == D) data(op, r, a);
        else coord(op, r, a);
        break;
      case 3: case 4: {                                            // assignment, self-assignment included
        if (!b.o || b.hurt) break;
        for (int t = 0; t < 2; ++t) {
          auto f = [&] { *a.o = *b.o; };
          sim::Outcome o = t == 0 ? sim::api(op, f) : sim::plain(op, f);
          sim::log("op %d: %sassignment (%s): %s%s", op, &a == &b ? "self-" : "", K<D>::name(), sim::outcome_name(o), o.fired ? " (fault)" : "");
          bad(o, "assignment");
          if (o.ok()) {
            if (&a != &b) { a.g = b.g; a.valid = b.valid; a.m = b.m; a.hurt = false; }
            break;
          }
          after_failure(a, "assignment", true);
          if (a.hurt && &a == &b) break;
          Rng q = r;
          sim::plain(op, [&] { check(a, q, "validity after a failed assignment"); });
          if (r.chance(0.4)) break;
        }
        break;
      }
      case 5: {
        sim::log("op %d: destroy (%s)", op, K<D>::name());
        sim::plain(op, [&] { a.o.reset(); });
        a.g.clear();
        a.valid = a.hurt = false;
        break;
      }
      default: {
        if (!a.valid) break;
        Rng q = r;
        sim::Outcome o = sim::api(op, [&] { K<D>::use(*a.o, a.m, q); });
        bad(o, "a query");
      }
    }
  }
};
Zoo *make(Rng &r) {
  switch (r.below(6)) {
    case 0: return new ZooOf<1, Interpolator>();
    case 1: return new ZooOf<2, Interpolator>();
    case 2: return new ZooOf<3, Interpolator>();
    case 3: return new ZooOf<1, Nearest>();
    case 4: return new ZooOf<2, Nearest>();
    default: return new ZooOf<3, Nearest>();
  }
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[] = {0, 0.15, 0.4, 0.8};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate], 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  int nz = w.chance(0.7) ? 1 : 2, nops = w.chance(0.2) ? w.range(25, 60) : w.range(6, 24);
  std::vector<std::unique_ptr<Zoo>> z;
  for (int i = 0; i < nz; ++i) z.emplace_back(make(w));
  sim::note_work(nz * 10 + rate + nops * 100);
  sim::log("groups=%d ops=%d alloc-rate=%.2f", nz, nops, rates[rate]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    z[r.below(nz)]->step(j, r);
    Rng q = sim::op_rng(10000 + j);
    sim::Outcome o = sim::plain(10000 + j, [&] { for (auto &e : z) e->look(q); });
    if (!o.ok()) sim::violation("result", "after operation %d a grid object cannot be queried: %s %s", j, sim::outcome_name(o), o.what);
  }
  z.clear();
}
