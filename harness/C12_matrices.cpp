// Matrix and vector operations while memory fails at every point.
#include "C12.h"
const char *harness_name = "C12";

namespace {
// a matrix that lives through many operations
struct Life {
  MatrixMN<double> W;
  M m;
  LD cond = 1;
  void start(Rng &r) {
    int n = tail(r, 1, 7, 20, 0.06);
    W = MatrixMN<double>(n, n);
    fill_square(r, W, n);
    m = of(W);
  }
  void check(const char *what) const { sim::Quiet q; exactly("history", what, of(W), m); }
  void step(int op, Rng &r) {
    int k = (int) r.below(6);
    static const char *names[] = {"inverse in place", "transpose in place", "inverse", "solve", "copy", "decomposition"};
    MatrixMN<double> X, Y, b = rect(r, m.r, 2);
    M b0 = of(b);
    auto f = [&] {
      switch (k) {
        case 0: W.Inverse(); break;
        case 1: W.Transpose(); break;
        case 2: X = W.GetInverse(); break;
        case 3: X = W.LUSolver(b); break;
        case 4: { MatrixMN<double> c(W); X = c; break; }
        default: W.GetQRDecomposition(X, Y);
      }
    };
    {
      MatrixMN<double> keep = W;
      sim::Outcome p = sim::plain(op, f);
      if (!p.ok()) sim::violation("history", "%s failed although nothing went wrong: %s", names[k], p.what);
      W = keep, X = MatrixMN<double>(), Y = MatrixMN<double>();
      aim(op, r, p.allocs);
    }
    for (int t = 0; t < 2; ++t) {
      sim::Outcome o = t == 0 ? sim::api(op, f) : sim::plain(op, f);
      sim::log("op %d: %s of the living matrix: %s%s", op, names[k], sim::outcome_name(o), o.fired ? " (fault)" : "");
      exactly("operands", "a right-hand side changed", of(b), b0);
      if (!o.ok()) {
        if (!o.fired) sim::violation("history", "%s failed although nothing went wrong: %s", names[k], o.what);
        sim::probe("living matrix, failed operation");
        check("a matrix changed although the operation on it failed");
        if (r.chance(0.5)) return;
        continue;
      }
      sim::Quiet q;
      switch (k) {
        case 0: check_inverse(m, of(W)); m = of(W); break;
        case 1: exactly("result", "transpose in place", of(W), tr(m)); m = tr(m); break;
        case 2: check_inverse(m, of(X)); break;
        case 3: check_solution(m, of(X), b0); break;
        case 4: exactly("result", "copy", of(X), m); break;
        default: check_qr(m, of(X), of(Y), false);
      }
      check("a matrix changed although the operation only reads it");
      return;
    }
    sim::violation("history", "%s fails again after memory came back", names[k]);
  }
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[] = {0, 0.3, 0.7, 1};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate], 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  int nops = w.range(2, 8);
  Life life;
  life.start(w);
  sim::note_work(nops * 10 + rate);
  sim::log("ops=%d alloc-rate=%.2f", nops, rates[rate]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    switch (r.below(12)) {
      case 0: { VecCase c; c.gen(r); one(j, r, c, "vector operation"); break; }
      case 1: fix_case(j, r, 3); break;
      case 2: fix_case(j, r, 6); break;
      case 3: case 4: case 5: life.step(j, r); break;
      default: dyn_case(j, r);
    }
  }
}
