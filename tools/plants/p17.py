id="convolution-workspace-kept"; prop="C17"
needs="a convolution with a short kernel after one with a longer kernel on the same thread"
breaks="the result depends on the convolutions made before: what the longer one left behind is integrated too"
edits=[("Convolution.h","""        std::vector<Real> integrand(N);
""","""        static thread_local std::vector<Real> integrand;
        if (integrand.size() < N) integrand.resize(N);
""")]
demo=r"""
#include <cassert>
#include <cstdio>
#include <stdexcept>
#include "MathUtils/Integration1d.h"
#include "MathUtils/Convolution.h"
using namespace mathutils;
int main() {
  boost::circular_buffer<double> s(8);
  for (int i = 0; i < 8; ++i) s.push_back(1 + i);
  double dt = 0.5;
  std::vector<double> shortk{1, 2, 3}, longk{1, 1, 1, 1, 1, 1};
  double a = NaiveConvolution<double>(shortk, s, dt);
  NaiveConvolution<double>(longk, s, dt);
  double b = NaiveConvolution<double>(shortk, s, dt);
  printf("%g %g\n", a, b);
  return a != b;
}
"""
