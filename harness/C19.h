// Copies, moves, assignments and relocation in containers: every object keeps its own meaning (C19).
#ifndef VERIF_C19_H
#define VERIF_C19_H
#include "C05.h"
#include "common.h"
#include <iostream>
using namespace hc;
typedef sim::u64 u64;
struct Zoo;
typedef Zoo *(*Mk)();
extern const Mk table_zoos[], cheb_zoos[], power_zoos[], other_zoos[];
extern const int n_table_zoos, n_cheb_zoos, n_power_zoos, n_other_zoos;
inline void put(Out &o, double v) { o.add(v); }
inline void put(Out &o, cplx v) { o.add(v.real()), o.add(v.imag()); }
template<class T> void put(Out &o, const std::vector<T> &v) { o.add((double) v.size()); for (auto &e : v) put(o, e); }
// ---- the history -----------------------------------------------------------------------------------------------------
struct Zoo {
  virtual ~Zoo() {}
  virtual const char *what() = 0;
  virtual void step(int op, Rng &r) = 0;
  virtual void threads(Rng &r) = 0;
  virtual void look(const char *when) = 0;
};
template<class K>
struct ZooOf : Zoo {
  typedef typename K::T T;
  typedef typename K::Info Info;
  static constexpr bool cc = std::is_copy_constructible<T>::value, ca = std::is_copy_assignable<T>::value,
                        mc = std::is_move_constructible<T>::value, ma = std::is_move_assignable<T>::value;
  // what an object means: how it was made and changed, and an object of the same making that was never copied or moved
  struct Meaning {
    std::vector<u64> h;
    std::unique_ptr<T> ref;
    Info info;
  };
  typedef std::shared_ptr<Meaning> MP;
  MP meaning(const std::vector<u64> &h) {
    MP m = std::make_shared<Meaning>();
    m->h = h;
    sim::Outcome o = sim::plain(9000, [&] {
      Rng r(h[0]);
      m->ref.reset(K::make(r, m->info));
      for (size_t i = 1; i < h.size(); ++i) { Rng q(h[i]); K::update(*m->ref, m->info, q); }
    });
    if (!o.ok()) sim::violation("result", "making a %s failed: %s", K::name(), o.what);
    return m;
  }
  struct Slot { std::unique_ptr<T> o; MP m; std::shared_ptr<Info> own; bool dead = false; };       // dead: moved from, or an assignment failed
  // the functions an Info owns must outlive all objects that use them
  std::vector<MP> all;
  std::vector<std::shared_ptr<Info>> infos;
  std::vector<Slot> s;
  long asked = 0;
  ZooOf() { s.resize(4); }
  const char *what() override { return K::name(); }

  Out answers(T &t, const MP &m, u64 seed) { Out o; Rng r(seed); K::ask(t, m->info, r, o); return o; }
  void same(const Out &a, const Out &b, const char *when) {
    sim::Quiet q;
    sim::oracle();
    if (a.v.size() != b.v.size()) sim::violation("meaning", "%s, %s: %d numbers instead of %d", K::name(), when, (int) a.v.size(), (int) b.v.size());
    double sc = 0;
    for (double v : b.v) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v));
    for (size_t i = 0; i < a.v.size(); ++i)
      if (!sim::close(a.v[i], b.v[i], sc, 1e-11)) sim::violation("meaning", "%s, %s: answers %.17g instead of %.17g", K::name(), when, a.v[i], b.v[i]);
  }
  void check(T &t, const MP &m, const char *when) {
    u64 seed = sim::mix(77, asked++);
    Out a, b;
    sim::Outcome o = sim::plain(9001, [&] { a = answers(t, m, seed); });
    if (!o.ok()) sim::violation("meaning", "%s, %s: a question failed: %s %s", K::name(), when, sim::outcome_name(o), o.what);
    sim::plain(9002, [&] { b = answers(*m->ref, m, seed); });
    same(a, b, when);
  }
  void look(const char *when) override { for (auto &x : s) if (x.o && !x.dead) check(*x.o, x.m, when); }
  Slot *live(Rng &r) {
    std::vector<Slot *> c;
    for (auto &x : s) if (x.o && !x.dead) c.push_back(&x);
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  MP keep(MP m) { all.push_back(m); return m; }
  void fresh(Slot &x, Rng &r) {
    MP m = keep(meaning({r.next()}));
    auto inf = std::make_shared<Info>();
    infos.push_back(inf);
    sim::Outcome o = sim::plain(9003, [&] { Rng q(m->h[0]); x.o.reset(K::make(q, *inf)); });
    (void) o;
    x.m = m;
    x.own = inf;
    x.dead = false;
  }
  void failed(const sim::Outcome &o, const char *what) {
    if (!o.fired) sim::violation("result", "%s of a %s failed although nothing went wrong: %s %s", what, K::name(), sim::outcome_name(o), o.what);
    sim::probe("failed copy");
  }
  void step(int op, Rng &r) override {
    Slot &x = s[r.below(s.size())];
    Slot *y = live(r);
    if (!y) { fresh(x, r); return; }
    switch (r.below(9)) {
      case 0: fresh(x, r); sim::log("op %d: new object", op); break;
      case 1: if (&x != y || r.chance(0.3)) { x.o.reset(); x.m.reset(); x.dead = false; sim::log("op %d: destroyed", op); } break;
      case 2: {                                                                   // change one: the others stay
        if (y->m->h.size() > 4) break;
        auto h = y->m->h;
        h.push_back(r.next());
        MP m = keep(meaning(h));
        Rng q(h.back());
        sim::Outcome o = sim::plain(op, [&] { K::update(*y->o, *y->own, q); });
        if (!o.ok()) sim::violation("result", "changing a %s failed: %s", K::name(), o.what);
        y->m = m;
        sim::log("op %d: changed one", op);
        sim::probe("changed one of several");
        break;
      }
      case 3: case 4:
        if constexpr (cc) {
          std::unique_ptr<T> n;
          auto f = [&] { n.reset(new T(static_cast<const T &>(*y->o))); };
          sim::Outcome o = K::strike_copy ? sim::api(op, f) : sim::plain(op, f);
          sim::log("op %d: copy: %s", op, sim::outcome_name(o));
          if (!o.ok()) { failed(o, "copying"); o = sim::plain(op, f); if (!o.ok()) sim::violation("result", "copying a %s failed", K::name()); }
          if (&x == y) { y->o = std::move(n); }                                     // the copy replaces the original
          else take(x, *y, std::move(n));
          sim::probe("copied");
        }
        break;
      case 5:
        if constexpr (ca) {
          if (!x.o) break;
          auto f = [&] { *x.o = static_cast<const T &>(*y->o); };
          sim::Outcome o = K::strike_assign ? sim::api(op, f) : sim::plain(op, f);
          sim::log("op %d: assigned%s: %s", op, &x == y ? " to itself" : "", sim::outcome_name(o));
          if (!o.ok()) {
            failed(o, "assigning");
            if (&x != y) { x.dead = true; check(*y->o, y->m, "the source of a failed assignment"); o = sim::plain(op, f); if (!o.ok()) sim::violation("result", "assigning a %s again failed", K::name()); }
            else { x.dead = true; break; }
          }
          if (&x != y) x.m = y->m, x.own = fork(*y), x.dead = false;
          sim::probe(&x == y ? "assigned to itself" : "assigned");
        }
        break;
      case 6:
        if constexpr (mc) {
          std::unique_ptr<T> n;
          auto f = [&] { n.reset(new T(std::move(*y->o))); };
          sim::Outcome o = sim::plain(op, f);
          if (!o.ok()) sim::violation("result", "moving a %s failed: %s", K::name(), o.what);
          sim::log("op %d: moved to a new object", op);
          Slot t;
          t.o = std::move(n), t.m = y->m, t.own = y->own;
          if (r.chance(0.5)) y->o.reset(), y->m.reset(), y->dead = false;
          else y->dead = true, y->own = fork(*y);
          if (&x == y) sim::plain(op, [&] { x.o.reset(); });
          x = std::move(t);
          sim::probe("moved");
        }
        break;
      case 7:
        if constexpr (ma) {
          if (!x.o || &x == y) break;
          sim::Outcome o = sim::plain(op, [&] { *x.o = std::move(*y->o); });
          if (!o.ok()) sim::violation("result", "moving a %s failed: %s", K::name(), o.what);
          sim::log("op %d: move-assigned", op);
          x.m = y->m, x.own = y->own, x.dead = false;
          y->dead = true, y->own = fork(*y);
          sim::probe("moved");
        }
        break;
      default:
        if constexpr (mc && ma) {
          if (r.chance(0.4) && x.o && !x.dead && &x != y) {
            sim::Outcome o = sim::plain(op, [&] { using std::swap; swap(*x.o, *y->o); });
            if (!o.ok()) sim::violation("result", "exchanging two of %s failed: %s", K::name(), o.what);
            std::swap(x.m, y->m), std::swap(x.own, y->own);
            sim::log("op %d: exchanged", op);
            sim::probe("exchanged");
          } else container(op, r);
        }
    }
  }
  // into a vector that grows, and out again
  void container(int op, Rng &r) {
    if constexpr (mc && ma) {
      std::vector<T> v;
      std::vector<Slot *> from;
      int extra = r.range(0, 3);
      sim::Outcome o = sim::plain(op, [&] {
        for (auto &x : s) if (x.o && !x.dead) { v.push_back(std::move(*x.o)); from.push_back(&x); }
        if (!v.empty()) for (int i = 0; i < extra; ++i) { Info tmp; Rng q(r.next()); std::unique_ptr<T> t(K::make(q, tmp)); v.push_back(std::move(*t)); v.pop_back(); v.reserve(v.capacity() * 2 + 1); }
      });
      if (!o.ok()) sim::violation("result", "a container of %s failed: %s", K::name(), o.what);
      for (size_t i = 0; i < from.size(); ++i) check(v[i], from[i]->m, "in a container");
      if (v.size() > 1 && r.chance(0.5)) {                                     // erase the first, the others move up
        Slot *g = from[0];
        o = sim::plain(op, [&] { v.erase(v.begin()); });
        from.erase(from.begin());
        g->dead = true;
        if (!o.ok()) sim::violation("result", "erasing from a container of %s failed: %s", K::name(), o.what);
        for (size_t i = 0; i < from.size(); ++i) check(v[i], from[i]->m, "in a container after an erasure");
      }
      o = sim::plain(op, [&] { for (size_t i = 0; i < from.size(); ++i) *from[i]->o = std::move(v[i]); v.clear(); });
      if (!o.ok()) sim::violation("result", "taking a %s out of a container failed: %s", K::name(), o.what);
      sim::log("op %d: through a container", op);
      sim::probe("through a container");
    }
  }
  void take(Slot &x, Slot &y, std::unique_ptr<T> n) { x.o = std::move(n), x.m = y.m, x.own = fork(y), x.dead = false; }
  // changes need an Info of their own (names, coordinates); user functions in it stay shared, as they are for the library
  std::shared_ptr<Info> fork(const Slot &y) { auto i = std::make_shared<Info>(*y.own); infos.push_back(i); return i; }

  // several threads copy from the same objects
  void threads(Rng &r) override {
    int n = r.range(2, 3), ops = r.range(2, 4);
    std::vector<std::function<void()>> fns;
    std::vector<Slot *> from;
    for (auto &x : s) if (x.o && !x.dead) from.push_back(&x);
    if (from.empty()) return;
    struct Job { Slot *x; u64 seed; Out want; bool copy; };
    auto jobs = std::make_shared<std::vector<std::vector<Job>>>(n);
    for (int t = 0; t < n; ++t)
      for (int i = 0; i < ops; ++i) {
        Job j{from[r.below(from.size())], r.next(), Out(), cc && (!K::shared || r.chance(0.7))};
        if (!j.copy && !K::shared) continue;
        sim::plain(9004, [&] { j.want = answers(*j.x->m->ref, j.x->m, j.seed); });
        (*jobs)[t].push_back(j);
      }
    for (int t = 0; t < n; ++t)
      fns.push_back([this, jobs, t] {
        int k = 0;
        for (Job &j : (*jobs)[t]) {
          int op = 5000 + 100 * t + k++;
          if (!sim::op_enabled(op)) continue;
          if (j.copy) {
            if constexpr (cc) {
              std::unique_ptr<T> c(new T(static_cast<const T &>(*j.x->o)));
              Out o = answers(*c, j.x->m, j.seed);
              same(o, j.want, "copied while others copy");
            }
          } else same(answers(*j.x->o, j.x->m, j.seed), j.want, "asked while others copy");
        }
      });
    sim::probe("copied by several threads");
    sim::run_threads(fns);
  }
  static Zoo *make() { return new ZooOf; }
};

#endif
