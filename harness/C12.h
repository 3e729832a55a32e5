// C12: shared by its translation units (split so that they compile side by side).
#ifndef VERIF_C12_H
#define VERIF_C12_H
#include "mats.h"
using namespace hm;
// bit for bit the same outputs as an undisturbed run
inline void same_out(const DynCase &a, const DynCase &b) {
  sim::Quiet q;
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o1), of(b.o1));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o2), of(b.o2));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o3), of(b.o3));
  exactly("result", "matrix changed in place after a failure differs from an undisturbed run", of(a.W), of(b.W));
  expect(a.oe.rows() == b.oe.rows() && a.oe.cols() == b.oe.cols(), "result", "eigenvalues after a failure");
  for (long i = 0; i < a.oe.rows(); ++i) for (long j = 0; j < a.oe.cols(); ++j)
    expect_same<cplx>("result", "eigenvalues after a failure", a.oe(i, j), b.oe(i, j));
}
template<class F> void same_fixed(const F &a, const F &b) {
  sim::Quiet q;
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o1), of(b.o1));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o2), of(b.o2));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o3), of(b.o3));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.ox), of(b.ox));
  exactly("result", "matrix changed in place after a failure differs from an undisturbed run", of(a.W), of(b.W));
}
inline void same_out(const FixCase<Matrix33<double>, 3> &a, const FixCase<Matrix33<double>, 3> &b) { same_fixed(a, b); }
inline void same_out(const FixCase<Matrix66<double>, 6> &a, const FixCase<Matrix66<double>, 6> &b) { same_fixed(a, b); }
inline void same_out(const VecCase &a, const VecCase &b) {
  sim::Quiet q;
  exactly("result", "vector after a failure differs from an undisturbed run", of(a.w), of(b.w));
  exactly("result", "output after a failure differs from an undisturbed run", of(a.o), of(b.o));
  expect(a.on == b.on, "result", "output after a failure differs from an undisturbed run");
}

// Puts the fault on one of the allocations the operation really makes.
inline void aim(int op, Rng &r, long allocs) {
  if (allocs > 0 && sim::planned_kind(op) == sim::F_ALLOC) sim::plan_override(op, sim::F_ALLOC, (long) r.below(allocs), r.chance(0.3));
}

// How many of the operation's allocations may fail. Eigen 3.4's JacobiSVD and BDCSVD release a block twice when memory
// fails while they set up the QR step of a matrix that is not square (known_findings.txt): such calls are not struck there.
template<class C> long strikeable(const C &, long allocs) { return allocs; }
inline long strikeable(const DynCase &c, long allocs) {
  if (c.kind == LSC) return std::min(allocs, 3l);
  if (c.kind == LSS && c.A0.c >= 16) return 0;      // divide and conquer works on blocks that are not square
  if ((c.kind == SVD || c.kind == PINV || c.kind == LSS) && c.A0.r != c.A0.c) return 0;
  return allocs;
}

template<class C>
void one(int op, Rng &r, C &c, const char *name) {
  C u = c;                                       // the undisturbed run
  sim::Outcome p = sim::plain(op, [&] { u.run(); });
  if (!p.ok()) sim::violation("history", "%s failed although nothing went wrong: %s %s", name, sim::outcome_name(p), p.what);
  u.operands("operands", false);
  u.verify();
  long n = strikeable(c, p.allocs);
  if (n == 0) sim::plan_override(op, sim::F_NONE, 0, 0);
  aim(op, r, n);
  for (int t = 0; t < 3; ++t) {
    auto f = [&] { c.run(); };
    if (t == 0) sim::log("op %d: %s begins", op, name);
    sim::Outcome o = t == 0 ? sim::api(op, f) : sim::plain(op, f);
    sim::log("op %d: %s: %s%s", op, name, sim::outcome_name(o), o.fired ? " (fault)" : "");
    c.operands("operands", !o.ok());
    if (o.ok()) {
      c.verify();
      same_out(c, u);
      return;
    }
    if (!o.fired) sim::violation("history", "%s failed although nothing went wrong: %s %s", name, sim::outcome_name(o), o.what);
    sim::probe("failed operation");
  }
  sim::violation("history", "%s fails again after memory came back", name);
}

void dyn_case(int op, Rng &r);
void fix_case(int op, Rng &r, int n);
#endif
