// C05, second half: matrices and Fourier transforms.
#include "C05.h"
#include "mats.h"
#include "dft.h"
using namespace hm;
using hd::Fft;

void matrices(Rng &r, Out &o) {
  switch (r.below(5)) {
    case 0: fixed_matrices(r, o, 3); break;
    case 1: fixed_matrices(r, o, 6); break;
    case 2: { VecCase c; c.gen(r); c.run(); c.operands("result", false); c.verify(); o.mat(c.w); o.mat(c.o); o.add(c.on); break; }
    default: { DynCase c; c.gen(r, (int) r.below(NMAT), 4);
      int times = r.chance(0.4) ? 2 : 1;
      for (int i = 0; i < times; ++i) {
        if (i) c.again(r);
        c.run(); c.operands("result", false); c.verify(); o.mat(c.o1); o.mat(c.o2); o.mat(c.o3); o.mat(c.W);
      }
    }
  }
}
void fourier(Rng &r, Out &o) {
  Fft f;
  int k = r.range(1, 3);
  for (int i = 0; i < k; ++i) {
    if (r.chance(0.6)) f.flag((int) r.below(4));
    bool inv = r.chance(0.4);
    size_t n = std::min<size_t>(hd::gen_len(r, f.half && inv), 20);
    auto x = picks(r, n), x0 = x;
    if (inv) {
      auto s = f.spectrum(x);
      std::vector<double> g;
      f.f.ifft(g, s);
      f.check_inv(x, g, "inverse transform");
      o.vec(g);
    } else {
      std::vector<cplx> g;
      f.f.fft(g, x);
      f.check_fwd(x, g, "transform");
      for (auto &e : g) o.add(e.real()), o.add(e.imag());
    }
    expect(x == x0, "result", "a transform changed its input");
  }
}
