id="convolution-workspace"; prop="C05"
needs="two threads convolving signals of their own at once"
breaks="both write the integrand into one shared workspace and integrate each other's products"
edits=[("Convolution.h","""        std::vector<Real> integrand(N);
""","""        static std::vector<Real> integrand;  // workspace, not reallocated at every time step
        integrand.resize(N);
""")]
demo=r"""
#include <thread>
#include <atomic>
#include <cmath>
#include <cstdio>
#include "MathUtils/MathUtils.h"
#include "MathUtils/Convolution.h"
using namespace mathutils;
int main() {
  std::atomic<long> bad{0};
  auto work = [&](double v) {
    std::vector<double> k(200, v);
    boost::circular_buffer<double> s(200);
    for (int i = 0; i < 200; ++i) s.push_back(1);
    for (int i = 0; i < 100000 && !bad; ++i) if (std::fabs(NaiveConvolution(k, s, 1., true) - 199 * v) > 1e-6) ++bad;
  };
  std::thread a(work, 1.), b(work, 2.), c(work, 3.);
  a.join(), b.join(), c.join();
  printf("%ld wrong\n", bad.load());
  return bad ? 1 : 0;
}
"""
