// Naive discrete Fourier transform and a model of one Fourier-transform object.
#ifndef VERIF_DFT_H
#define VERIF_DFT_H
#include "common.h"
#include "MathUtils/MathUtils.h"
namespace hd {
using namespace hc;
typedef long double LD;
typedef std::complex<LD> LC;
const LD PI2 = 6.283185307179586476925286766559005768L;

inline std::vector<LC> dft(const std::vector<double> &x) {
  size_t n = x.size();
  std::vector<LC> o(n);
  for (size_t k = 0; k < n; ++k)
    for (size_t j = 0; j < n; ++j) { LD a = -PI2 * (LD) ((k * j) % n) / n; o[k] += LC(x[j] * cosl(a), x[j] * sinl(a)); }
  return o;
}
inline LD unit_factor(int u, LD hz) {      // a frequency in hertz expressed in unit u
  using namespace mathutils;
  switch (u) {
    case HERTZ: return hz;
    case RADS: return hz * PI2;
    case DEGS: return hz * 360;
    case DEGM: return hz * 360 * 60;
    case S: return 1 / hz;
    default: return hz * 60;               // RPM
  }
}
struct Fft {
  mathutils::FFT<double> f;
  bool half = false, unscaled = false;
  void flag(int k) {
    switch (k & 3) {
      case 0: f.HalfSpectrumON(); half = true; break;
      case 1: f.HalfSpectrumOFF(); half = false; break;
      case 2: f.ScalingON(); unscaled = false; break;
      default: f.ScalingOFF(); unscaled = true;
    }
  }
  size_t spec_len(size_t n) const { return half ? n / 2 + 1 : n; }
  void check_fwd(const std::vector<double> &x, const std::vector<cplx> &got, const char *what) const {
    sim::Quiet quiet;
    auto w = dft(x);
    LD sc = 0;
    for (double v : x) sc += fabsl(v);
    expect(got.size() == spec_len(x.size()), "result", "length of a spectrum", (long) got.size(), (long) spec_len(x.size()));
    for (size_t k = 0; k < got.size(); ++k)
      expect_close<cplx>("result", what, got[k], cplx((double) w[k].real(), (double) w[k].imag()), (double) sc + 1e-300, 1e-12);
  }
  void check_freq(size_t n, double fs, int unit, const std::vector<double> &got, const char *what) const {
    sim::Quiet quiet;
    expect(got.size() == spec_len(n), "result", "length of a frequency vector", (long) got.size(), (long) spec_len(n));
    for (size_t k = 0; k < got.size(); ++k) {
      LD w = unit_factor(unit, (LD) fs * k / n);
      if (std::isinf((double) w)) { expect(std::isinf(got[k]), "result", "frequency zero as a period"); continue; }
      expect_close<double>("result", what, got[k], (double) w, (double) (unit == mathutils::S ? 0 : fabsl(unit_factor(unit, fs))) , 1e-12);
    }
  }
  // the spectrum of x in the form the inverse expects under the current flags
  std::vector<cplx> spectrum(const std::vector<double> &x) const {
    sim::Quiet quiet;
    auto w = dft(x);
    std::vector<cplx> o(spec_len(x.size()));
    for (size_t k = 0; k < o.size(); ++k) o[k] = cplx((double) w[k].real(), (double) w[k].imag());
    if (!o.empty()) o[0] = o[0].real();
    if (x.size() % 2 == 0 && x.size()) o[x.size() / 2] = o[x.size() / 2].real();
    if (!half) for (size_t k = 1; k < o.size(); ++k) if (k > x.size() - k) o[k] = std::conj(o[x.size() - k]);
    return o;
  }
  void check_inv(const std::vector<double> &x, const std::vector<double> &got, const char *what) const {
    sim::Quiet quiet;
    LD sc = 0;
    for (double v : x) sc += fabsl(v);
    expect(got.size() == x.size(), "result", "length of an inverse transform", (long) got.size(), (long) x.size());
    LD k = unscaled ? (LD) x.size() : 1;
    for (size_t i = 0; i < got.size(); ++i) expect_close<double>("result", what, got[i], (double) (k * x[i]), (double) (k * sc) + 1e-300, 1e-12);
  }
};
inline size_t gen_len(Rng &r, bool even) {
  size_t n = r.chance(0.3) ? (size_t) 1 << r.range(1, 5) : (size_t) tail(r, 2, 40, 150, 0.03);
  if (even) n = (n + 1) / 2 * 2;
  return n;
}
}  // namespace hd
#endif
