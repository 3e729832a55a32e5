// Steady use: memory and work of a query do not grow with the number of queries, threads or updates before it.
#include "probes.h"
#include "streams.h"
using namespace hc;
const char *harness_name = "C18";

namespace {
hs::FaultBuf outbuf;
}

void scenario() {
  Rng &w = sim::work();
  tails() = false;
  std::cout.rdbuf(&outbuf);
  call_pools(w);
  static const double rates[] = {0, 0, 0.5, 1};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate], 0, 0);
  int kind = (int) w.below(n_probes());
  const ProbeKind &k = probe_kind(kind);
  sim::u64 mk = w.next(), up = w.next(), qs = w.next();
  enum { QUERY, UPDATE, THREADS } mode = w.chance(0.25) ? THREADS : k.updates && w.chance(0.4) ? UPDATE : QUERY;
  bool fresh = w.chance(0.2);                   // a new object for every query
  static const char *const mname[] = {"queries", "updates", "queries by new threads"};
  sim::note_work(kind * 10 + mode * 3 + fresh);
  sim::log("%s: %s%s, alloc-rate=%.1f", k.name, mname[mode], fresh ? ", new objects" : "", rates[rate]);
  if (mode == THREADS) sim::probe("rounds of short-lived threads");
  if (mode == UPDATE) sim::probe("updates again and again");
  auto make = [&] { Rng r(mk); Probe *p = nullptr; sim::plain(1, [&] { p = k.make(r); }); if (!p) sim::violation("result", "making a %s failed", k.name); return p; };
  std::unique_ptr<Probe> o(make());
  long n = 0;
  auto one = [&](int op, sim::u64 i, bool may_fail, Probe *own) {
    Rng r(sim::mix(qs, i));
    std::unique_ptr<Probe> tmp;
    Probe *p = own ? own : o.get();
    if (fresh) { tmp.reset(make()); p = tmp.get(); }
    Out d;
    if (mode == UPDATE && !own) {
      if (may_fail && rates[rate] > 0 && r.chance(0.3)) { sim::Outcome f = sim::api(5, [&] { p->update(r, d); }); if (!f.ok()) sim::probe("failed now and then"); sim::plain(op, [&] { p->update(r, d); }); }
      else sim::plain(op, [&] { p->update(r, d); });
      Rng r2 = r;
      sim::plain(op, [&] { p->query(r2, d); });
      return;
    }
    if (may_fail && k.strike && rates[rate] > 0 && r.chance(0.5)) {
      Rng r2 = r;
      sim::Outcome f = sim::api(5, [&] { p->query(r2, d); });
      if (!f.ok()) sim::probe("failed now and then");
    }
    sim::Outcome q = sim::plain(op, [&] { p->query(r, d); });
    if (!q.ok()) sim::violation("result", "a %s call failed: %s %s", k.name, sim::outcome_name(q), q.what);
  };
  // the work of a few fixed queries
  auto cost = [&](Probe *p) {
    sim::u64 s = sim::steps();
    for (int i = 0; i < 6; ++i) {
      Rng r(sim::mix(qs, 1000000000 + i));
      Out d;
      sim::plain(2, [&] { p->query(r, d); });
    }
    return (double) (sim::steps() - s);
  };
  auto canonical = [&](Probe *p) { if (k.updates) { Rng r(up); Out d; sim::plain(3, [&] { p->update(r, d); }); } };
  canonical(o.get());
  double c0 = cost(o.get());
  if (rates[rate] > 0) {                        // one place at which memory fails, again and again
    Rng r(sim::mix(qs, 77));
    Out d;
    sim::Outcome a = sim::plain(6, [&] { if (mode == UPDATE) o->update(r, d); else o->query(r, d); });
    canonical(o.get());
    if (a.allocs > 0 && r.chance(0.9)) sim::plan_override(5, sim::F_ALLOC, (long) r.below(a.allocs), r.chance(0.3));
  }
  if (mode == THREADS) for (int i = 0; i < 80; ++i) one(4, 2000000000ull + i, false, nullptr);   // small caches fill first
  // blocks that double in size, as many as the cost of a query allows
  const int MAXB = 12;
  long mem[MAXB + 1], cnt[MAXB + 1];
  mem[0] = sim::live_bytes(), cnt[0] = 0;
  int B = mode == THREADS ? 5 : 7;
  sim::u64 start = sim::steps(), budget = 250000;
  int b = 0;
  for (long size = mode == THREADS ? 1 : 8; b < MAXB; size *= 2) {
    ++b;
    if (sim::op_enabled(10 + b)) {
      for (long i = 0; i < size; ++i) {
        if (mode == THREADS) {
          int nt = k.shared ? 1 + (int) (sim::mix(qs, n) % 3) : 1;
          std::vector<std::function<void()>> tf;
          for (int t = 0; t < nt; ++t) { sim::u64 id = (sim::u64) n++; tf.push_back([&, id] { one(10 + b, id, false, nullptr); }); }
          sim::run_threads(tf);
        } else
          one(10 + b, (sim::u64) n++, true, nullptr);
      }
    }
    canonical(o.get());
    outbuf.out.clear();
    cnt[b] = n;
    mem[b] = sim::live_bytes();
    sim::log("after %ld: %ld bytes in use, %llu steps", n, mem[b], (unsigned long long) (sim::steps() - start));
    if (b >= B && (sim::steps() - start) * 3 > budget) break;
    if (mode == THREADS && b >= B) break;
    if (b >= 9) break;
  }
  // growth that keeps pace with the number of calls, in each of the last three (ever larger) blocks
  sim::oracle();
  bool grows = mem[b] - mem[b - 1] >= (cnt[b] - cnt[b - 1]) / 2;
  for (int i = b; i > b - 3; --i) {
    long g = mem[i] - mem[i - 1], h = mem[i - 1] - mem[i - 2];
    grows &= g > 0 && h > 0 && g >= 1.3 * h;
  }
  if (grows)
    sim::violation("memory-growth", "%s: %ld %s left %ld more bytes in use than %ld did", k.name, cnt[b], mname[mode], mem[b] - mem[b - 1], cnt[b - 1]);
  // the work of the same queries now, and on an object that nobody used
  double c1 = cost(o.get());
  std::unique_ptr<Probe> p(make());
  canonical(p.get());
  double c2 = cost(p.get());
  sim::oracle();
  if (c1 > 4 * std::min(c0, c2) + 600)
    sim::violation("work-growth", "%s: after %ld %s the same queries take %.0f steps, %.0f at first and %.0f on a new object", k.name, n, mname[mode], c1, c0, c2);
  if (c2 > 4 * c0 + 600)
    sim::violation("work-growth", "%s: after %ld %s a new object's queries take %.0f steps, %.0f at first", k.name, n, mname[mode], c2, c0);
}
