// Probes: special functions, the calls of C05, Fourier-transform objects, matrices that live.
#include "probes.h"
#include "C04.h"
#include "C12.h"
#include "dft.h"
using namespace hc;
namespace {
sf::Pool spool;
struct PSpecial : Probe {
  std::vector<int> fns;
  explicit PSpecial(Rng &r) {
    if (r.chance(0.6)) fns = {(int) r.below(sf::NFN)};
    else for (int i = 0; i < sf::NFN; ++i) fns.push_back(i);
  }
  void query(Rng &r, Out &o) override {
    auto c = sf::gen(r, spool, fns);
    if (r.chance(0.5)) c.x *= 1 - 1e-6 * r.unit();           // arguments nobody used before
    put(o, sf::call(c));
  }
};
struct PKernel : Probe {
  int k;
  explicit PKernel(int k) : k(k) {}
  void query(Rng &r, Out &o) override { kinds[k](r, o); }
};
template<int K> Probe *kernel(Rng &) { return new PKernel(K); }
struct PFft : Probe {
  hd::Fft f;
  explicit PFft(Rng &r) { for (int i = 0; i < 2; ++i) f.flag((int) r.below(4)); }
  void query(Rng &r, Out &o) override {
    static const size_t ls[] = {2, 3, 4, 5, 6, 8, 10, 12, 16, 15};
    size_t n = ls[r.below(10)];
    std::vector<double> x = gen_vals(r, n), y;
    std::vector<cplx> F;
    if (f.half && n % 2) x.push_back(1), ++n;
    double fs = r.real(0.01, 100);
    switch (r.below(3)) {
      case 0: f.f.fft(F, x); break;
      case 1: f.f.fft(F, y, x, fs, (mathutils::FREQUENCY_UNIT) r.below(6)); break;
      default: { auto s = f.spectrum(x); f.f.ifft(y, s); }
    }
    put(o, F), put(o, y);
  }
};
struct PMatrix : Probe {                             // one matrix, one operation, again and again
  hm::DynCase c;
  explicit PMatrix(Rng &r) { c.gen(r, (int) r.below(hm::NMAT), 5); }
  void query(Rng &r, Out &o) override {
    hm::DynCase d = c;
    if (r.chance(0.5)) d.gen(r, c.kind, 5);
    d.run();
    o.mat(d.o1), o.mat(d.o2), o.mat(d.o3), o.mat(d.W);
  }
};
template<class T> Probe *mk(Rng &r) { return new T(r); }
}  // namespace
void call_pools(sim::Rng &w) {
  make_pool(w);
  sf::make_pool(w, spool);
}
#define KERNEL(K, STRIKE) {"kernel call " #K, kernel<K>, STRIKE, false, true}
const ProbeKind call_probes[] = {
  {"special function", mk<PSpecial>, true, false, true}, {"special function", mk<PSpecial>, true, false, true}, {"Fourier transform", mk<PFft>, true, false, false},
  {"matrix operation", mk<PMatrix>, false, false, false}, {"matrix operation", mk<PMatrix>, false, false, false},
  KERNEL(0, true), KERNEL(1, true), KERNEL(2, true), KERNEL(3, true), KERNEL(4, true), KERNEL(5, true), KERNEL(6, true), KERNEL(7, true), KERNEL(8, true),
  KERNEL(9, true), KERNEL(10, true), KERNEL(11, false), KERNEL(13, true), KERNEL(14, true)};
const int n_call_probes = sizeof call_probes / sizeof *call_probes;
