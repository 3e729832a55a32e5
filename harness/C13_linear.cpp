// C13, second part: matrices, vectors, Fourier transforms, splines and vector helpers.
#include "C13.h"
#include "C12.h"
#include "streams.h"
#include "MathUtils/Spline.h"
#include "MathUtils/Convolution.h"
#include "MathUtils/FFT.h"
using namespace mathutils;

namespace {
void matrix(Seq &q, Rng r) {
  for (int i = 0; i < 3; ++i) {
    DynCase c;
    c.gen(r, (int) r.below(NMAT), 6);
    auto f = [&] { c.run(); };
    if (strikeable(c, 100) < 100) q.unfailing(i, f);
    else if (!q.step(i, f)) q.step(10 + i, f);
  }
}
void vec(Seq &q, Rng r) {
  for (int i = 0; i < 3; ++i) {
    VecCase c;
    c.gen(r);
    q.step(i, [&] { c.run(); });
  }
}
void printing(Seq &q, Rng r) {
  static hs::FaultBuf buf;
  buf.out.clear();
  std::streambuf *old = std::cout.rdbuf(&buf);
  MatrixMN<double> m = rect(r, r.range(1, 4), r.range(1, 4));
  VectorN<double> v(3);
  v(0) = 1, v(1) = r.real(-1, 1), v(2) = 1e9;
  Vector3d<double> w(1, 2, r.real(-9, 9));
  q.step(0, [&] { hs::Armed a(std::cout, buf); m.print("a matrix with a name long enough for the heap"); });
  q.step(1, [&] { hs::Armed a(std::cout, buf); v.print("vector"); });
  q.step(2, [&] { hs::Armed a(std::cout, buf); w.print("vector"); });
  std::cout.rdbuf(old);
}
void helpers(Seq &q, Rng r) {
  auto a = gen_vals(r, r.range(2, 12)), b = gen_vals(r, a.size());
  q.step(0, [&] { Add(a, b); AddScalar(a, 2.); Minus(a, b); Mult(a, b); });
  q.step(1, [&] { linspace(0., 1., (unsigned) r.range(2, 20)); logspace(0., 2., (unsigned) r.range(2, 20)); arange(0., 5., r.real(0.2, 2)); });
  q.step(2, [&] { STRING2ANGLE("DEG"); STRING2ANGLE("RAD"); });
  q.step(3, [&] { boost::circular_buffer<double> s(a.size()); for (double v : a) s.push_back(v); NaiveConvolution(b, s, 0.1, true); });
  q.step(4, [&] { Convolution<double> c(0.1, a); c.SetKernel(0.2, b); });
}
void fourier(Seq &q, Rng r) {
  std::unique_ptr<FFT<double>> f;
  if (!q.step(0, [&] { f.reset(new FFT<double>); }) || !f) return;
  std::vector<std::complex<double>> F;
  std::vector<double> fr, y;
  for (int i = 0; i < 3; ++i) {
    auto x = gen_vals(r, 2 * (size_t) r.range(1, 15));
    bool half = r.chance(0.5);
    if (half) f->HalfSpectrumON(); else f->HalfSpectrumOFF();
    q.step(1 + i, [&] { f->fft(F, fr, x, 10., RADS); });
    std::vector<std::complex<double>> S(half ? x.size() / 2 + 1 : x.size(), 1.);
    q.step(5 + i, [&] { f->ifft(y, S); });
  }
  q.step(9, [&] { FFT<double> g(*f); g.fft(F, gen_vals(r, 6)); });
}
void spline(Seq &q, Rng r) {
  auto x = gen_coords(r, r.range(4, 9)), y = gen_vals(r, x.size());
  std::unique_ptr<Spline<double, 1, 3>> p;
  q.step(0, [&] { p.reset(new Spline<double, 1, 3>(x, y)); });
  if (p) q.step(1, [&] { (*p)(gen_in(r, x)); });
  if (p) q.step(2, [&] { Spline<double, 1, 3> c(*p); c(x[0]); });
}
}  // namespace
const Named linear_acts[] = {{"matrix operations", matrix}, {"matrix operations", matrix}, {"vector operations", vec}, {"printing", printing},
                             {"vector helpers", helpers}, {"Fourier transforms", fourier}, {"spline", spline}};
const int n_linear_acts = sizeof linear_acts / sizeof *linear_acts;
