// C13: a sequence of steps that is repeated with the same faults; shared by its translation units.
#ifndef VERIF_C13_H
#define VERIF_C13_H
#include "common.h"
#include <map>
struct Seq {
  bool dry = true;                       // first pass: count what each step allocates, no faults
  int base = 0;
  static const int MAX = 64;
  long allocs[MAX];
  bool aimed[MAX];
  int fired = 0;
  Seq() { for (int i = 0; i < MAX; ++i) allocs[i] = -1, aimed[i] = false; }
  // one step of the sequence; returns whether it completed
  template<class F>
  bool step(int k, F f) {
    int op = base + k;
    if (!sim::op_enabled(op)) return false;
    if (dry) {
      sim::Outcome o = sim::plain(op, f);
      if (k < MAX) allocs[k] = o.allocs;
      return o.ok();
    }
    if (k < MAX && !aimed[k]) {
      aimed[k] = true;
      sim::Rng r = sim::op_rng(op + 50000);
      if (sim::planned_kind(op) == sim::F_ALLOC && allocs[k] > 0 && r.chance(0.85)) sim::plan_override(op, sim::F_ALLOC, (long) r.below(allocs[k]), r.chance(0.25));
    }
    sim::Outcome o = sim::api(op, f);
    if (o.fired) ++fired, sim::probe("step failed or survived a fault");
    return o.ok();
  }
  // a step in which no memory may fail (Eigen's own set-up of the decomposition of a non-square matrix is broken then)
  template<class F>
  bool unfailing(int k, F f) {
    if (!sim::op_enabled(base + k)) return false;
    return sim::plain(base + k, f).ok();
  }
};
typedef void (*Act)(Seq &, sim::Rng);
struct Named { const char *name; Act act; };
extern const Named linear_acts[];
extern const int n_linear_acts;
#endif
