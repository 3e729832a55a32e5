id="fft-frequencies-kept"; prop="C11"
needs="two transforms of the same length with the same output vector but another sampling frequency, unit or flag"
breaks="the frequencies returned belong to the first transform"
edits=[("FFT.h","""            frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);
""","""            // Nothing to do when the transform has the length of the previous one
            if (frequencies.size() != freqVector.size()) {
                frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);
            }
""")]
demo=r"""
#include <cstdio>
#include <cmath>
#include <iostream>
#include "MathUtils/MathUtils.h"
#include "MathUtils/FFT.h"
using namespace mathutils;
int main() {
  mathutils::FFT<double> t;
  std::vector<double> s(8, 1.), f;
  std::vector<std::complex<double>> S;
  t.fft(S, f, s, 8.);
  t.fft(S, f, s, 16.);
  printf("%g\n", f[1]);
  return f[1] != 2.;
}
"""
