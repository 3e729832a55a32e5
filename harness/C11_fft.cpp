// Fourier-transform objects through histories of lengths, directions, flags and memory failures.
#include "dft.h"
using namespace mathutils;
using namespace hd;
const char *harness_name = "C11";

namespace {
size_t len(Rng &r, std::vector<size_t> &pool, bool even) {
  if (!pool.empty() && r.chance(0.5)) {
    size_t n = pool[r.below(pool.size())];
    if (!even || n % 2 == 0) return n;
  }
  size_t n = gen_len(r, even);
  if (r.chance(0.05)) { static const size_t big[] = {64, 128, 61, 122, 97, 90, 100, 49, 98}; n = big[r.below(9)]; if (even && n % 2) n *= 2; }
  pool.push_back(n);
  return n;
}
std::vector<double> samples(Rng &r, size_t n) {
  std::vector<double> x(n, 0);
  switch (r.below(6)) {
    case 0: x[r.below(n)] = 1; break;                                        // impulse
    case 1: for (auto &v : x) v = 1; break;                                  // constant
    case 2: { double k = (double) r.below(n); for (size_t i = 0; i < n; ++i) x[i] = std::cos(6.283185307179586 * k * i / n + 0.3); break; }
    default: x = gen_vals(r, n);
  }
  return x;
}
void check_same(const std::vector<double> &a, const std::vector<double> &b) {
  expect(a.size() == b.size(), "input", "length of the input of a transform changed", (long) a.size(), (long) b.size());
  for (size_t i = 0; i < a.size(); ++i) expect_same<double>("input", "input of a transform changed", a[i], b[i]);
}
void check_same(const std::vector<cplx> &a, const std::vector<cplx> &b) {
  expect(a.size() == b.size(), "input", "length of the input of an inverse transform changed", (long) a.size(), (long) b.size());
  for (size_t i = 0; i < a.size(); ++i) expect_same<cplx>("input", "input of an inverse transform changed", a[i], b[i]);
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[] = {0, 0.15, 0.4, 0.8};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate], 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  int no = w.range(1, 2), nops = w.range(3, 16);
  std::vector<std::unique_ptr<Fft>> v;
  for (int i = 0; i < no; ++i) v.emplace_back(new Fft);
  std::vector<size_t> pool;
  std::vector<cplx> F;                           // reused outputs, with whatever they held before
  std::vector<double> X, fr;
  sim::note_work(no * 10 + rate + nops * 100);
  sim::log("objects=%d ops=%d alloc-rate=%.2f", no, nops, rates[rate]);
  for (int j = 1; j <= nops; ++j) {
    if (!sim::op_enabled(j)) continue;
    Rng r = sim::op_rng(j);
    int ia = (int) r.below(no);
    Fft &a = *v[ia];
    if (r.chance(0.3)) { int k = (int) r.below(4); a.flag(k); sim::log("op %d: flag %d", j, k); }
    if (r.chance(0.3)) F.clear(), X.clear(), fr.clear();
    if (r.chance(0.1)) { F.assign(r.below(50), cplx(3, 4)); X.assign(r.below(50), 5); fr.assign(r.below(50), 6); }
    int kind = (int) r.below(9);
    auto go = [&](const char *what, const std::function<void()> &f, const std::function<void(const char *)> &check) {
      for (int t = 0; t < 2; ++t) {
        sim::Outcome o = t == 0 ? sim::api(j, f) : sim::plain(j, f);
        sim::log("op %d: %s: %s%s", j, what, sim::outcome_name(o), o.fired ? " (fault)" : "");
        if (o.ok()) { check(t ? "after a failure" : ""); return; }
        if (!o.fired) sim::violation("history", "%s failed although nothing went wrong: %s", what, o.what);
        sim::probe("failed transform");
        check("failed");
        if (r.chance(0.4)) return;               // the next one may be of another length
        if (r.chance(0.3)) {                     // a different length in between
          size_t m = len(r, pool, a.half);
          auto y = samples(r, m);
          std::vector<cplx> G;
          sim::Outcome q = sim::plain(j, [&] { a.f.fft(G, y); });
          if (!q.ok()) sim::violation("history", "a transform failed after another one ran out of memory: %s", q.what);
          a.check_fwd(y, G, "transform of another length after a failure");
        }
      }
      sim::violation("history", "%s fails again after memory came back", what);
    };
    switch (kind) {
      case 0: case 1: case 2: {
        size_t n = len(r, pool, false);
        auto x = samples(r, n), x0 = x;
        sim::log("op %d: transform of %d samples, half=%d", j, (int) n, (int) a.half);
        go("transform", [&] { a.f.fft(F, x); }, [&](const char *c) {
          check_same(x, x0);
          if (c[0] == 'f') return;
          a.check_fwd(x, F, *c ? "transform after a failure" : "transform");
        });
        break;
      }
      case 3: {
        size_t n = len(r, pool, false);
        auto x = samples(r, n), x0 = x;
        double fs = r.chance(0.3) ? 1. : r.real(0.01, 100);
        int unit = (int) r.below(6);
        sim::log("op %d: transform of %d samples with frequencies, half=%d unit=%d", j, (int) n, (int) a.half, unit);
        go("transform with frequencies", [&] { a.f.fft(F, fr, x, fs, (FREQUENCY_UNIT) unit); }, [&](const char *c) {
          check_same(x, x0);
          if (c[0] == 'f') return;
          a.check_fwd(x, F, *c ? "transform with frequencies after a failure" : "transform with frequencies");
          a.check_freq(n, fs, unit, fr, "frequency of a transform");
        });
        break;
      }
      case 4: case 5: case 6: {
        size_t n = len(r, pool, a.half);
        auto x = samples(r, n);
        auto S = a.spectrum(x), S0 = S;
        sim::log("op %d: inverse of %d samples, half=%d unscaled=%d", j, (int) n, (int) a.half, (int) a.unscaled);
        go("inverse transform", [&] { a.f.ifft(X, S); }, [&](const char *c) {
          check_same(S, S0);
          if (c[0] == 'f') return;
          a.check_inv(x, X, *c ? "inverse transform after a failure" : "inverse transform");
        });
        break;
      }
      case 7: {
        size_t n = len(r, pool, false);
        double fs = r.real(0.01, 100);
        int unit = (int) r.below(6);
        std::vector<double> q;
        go("frequency vector", [&] { q = a.f.GetFrequencyVector((unsigned) n, fs, (FREQUENCY_UNIT) unit); }, [&](const char *c) {
          if (c[0] != 'f') a.check_freq(n, fs, unit, q, "frequency vector");
        });
        break;
      }
      default: {                                 // round trip, then a copy takes over
        size_t n = len(r, pool, a.half);
        auto x = samples(r, n);
        std::vector<cplx> G;
        std::vector<double> Y;
        go("round trip", [&] { a.f.fft(G, x); a.f.ifft(Y, G); }, [&](const char *c) {
          if (c[0] != 'f') a.check_inv(x, Y, "round trip");
        });
        if (r.chance(0.5)) {
          sim::Outcome o = sim::api(j, [&] { std::unique_ptr<Fft> b(dup(a)); if (b) assign(a.f, b->f); });
          if (o.ok()) sim::log("op %d: assigned from a copy of itself", j);
          else if (!o.fired) sim::violation("history", "copying failed although nothing went wrong: %s", o.what);
          else v[ia].reset(new Fft);             // a failed assignment leaves an unspecified object
        }
      }
    }
  }
}
