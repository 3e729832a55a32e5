// C05: calls of many kinds on thread-private objects, by many threads, then repeated alone.
#include "C05.h"
using namespace hc;
const char *harness_name = "C05";

namespace {
struct Done {
  int op, kind;
  std::vector<double> v;
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  make_pool(w);
  std::vector<int> ks;
  if (w.chance(0.4)) ks = {(int) w.below(NK)};
  else if (w.chance(0.5)) { int k = w.range(2, 4); for (int i = 0; i < k; ++i) ks.push_back((int) w.below(NK)); }
  else for (int i = 0; i < NK; ++i) ks.push_back(i);
  int nth = w.range(2, 4), nops = w.range(2, 6);
  sim::note_work(nth * 10 + nops + ks.size() * 100 + ks[0] * 10000);
  sim::log("kinds=%d threads=%d ops/thread=%d", (int) ks.size(), nth, nops);
  std::vector<std::vector<Done>> done(nth);
  for (auto &d : done) d.reserve(nops);
  std::vector<std::function<void()>> tf;
  for (int t = 0; t < nth; ++t)
    tf.push_back([&, t] {
      for (int j = 0; j < nops; ++j) {
        int op = (t + 1) * 100 + j;
        if (!sim::op_enabled(op)) continue;
        Rng r = sim::op_rng(op);
        Done d;
        d.op = op;
        d.kind = ks[r.below(ks.size())];
        sim::log("op %d: %s", op, kname[d.kind]);
        Out out;
        Rng again = r;
        Tweak &tw = tweaks[sim::self()];
        tw = Tweak();
        sim::Outcome o = sim::plain(op, [&] { kinds[d.kind](r, out); });
        if (!o.ok()) sim::violation("result", "a %s call failed: %s %s", kname[d.kind], sim::outcome_name(o), o.what);
        d.v = out.v;
        done[t].push_back(d);
        Rng c = sim::op_rng(op + 5000);
        if (tw.n > 0 && c.chance(0.3)) {      // the same call with one argument changed a little
          static const double eps[] = {0, 1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3};
          int at = (int) c.below(tw.n);
          tw = Tweak();
          tw.at = at, tw.eps = eps[c.below(7)] * (c.chance(0.5) ? 1 : -1);
          Out other;
          o = sim::plain(op, [&] { kinds[d.kind](again, other); });
          if (!o.ok()) sim::violation("result", "a %s call failed: %s %s", kname[d.kind], sim::outcome_name(o), o.what);
        }
      }
    });
  sim::run_threads(tf);
  for (int t = nth - 1; t >= 0; --t)
    for (size_t k = done[t].size(); k-- > 0;) {
      const Done &d = done[t][k];
      if (!sim::op_enabled(1000 + d.op)) continue;
      Rng r = sim::op_rng(d.op);
      r.below(ks.size());
      Out out;
      tweaks[sim::self()] = Tweak();
      sim::Outcome o = sim::plain(1000 + d.op, [&] { kinds[d.kind](r, out); });
      sim::oracle();
      bool eq = o.ok() && out.v.size() == d.v.size();
      for (size_t i = 0; eq && i < out.v.size(); ++i) eq = sim::same_bits(out.v[i], d.v[i]);
      if (!eq) sim::violation("history", "the same %s call (op %d) gives other bits when it is repeated alone", kname[d.kind], d.op);
    }
}
