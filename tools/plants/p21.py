id="fft-flag-not-restored"; prop="C11"
needs="a transform with frequencies whose allocation fails while the half-spectrum flag is on"
breaks="later transforms of the object give the full spectrum although half spectra were asked for"
edits=[("FFT.h","""            auto df = sampleFrequency / (Scalar)nfft;

            unsigned int n = nfft;
            if (this->HasFlag(Eigen::FFT<Scalar>::HalfSpectrum)) {
                n = n/2 + 1;
            }

            std::vector<Scalar> out(n);
""","""            auto df = sampleFrequency / (Scalar)nfft;

            unsigned int n = nfft;
            const bool half = this->HasFlag(Eigen::FFT<Scalar>::HalfSpectrum);
            if (half) {
                HalfSpectrumOFF();
                n = n/2 + 1;
            }

            std::vector<Scalar> out(n);
            if (half) HalfSpectrumON();
""")]
demo=r"""
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <vector>
static long left = -1;
void *operator new(size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) --left; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#include "MathUtils/MathUtils.h"
int main() {
  mathutils::FFT<double> t;
  t.HalfSpectrumON();
  bool failed = false;
  left = 0;
  try { t.GetFrequencyVector(16, 1.); } catch (const std::bad_alloc &) { failed = true; }
  left = -1;
  size_t n = t.GetFrequencyVector(16, 1.).size();
  printf("%d %zu\n", failed, n);
  return n != 9;
}
"""
