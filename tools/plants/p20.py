id="cheb-scaled-in-place"; prop="C03"
needs="two threads evaluating the same Chebyshev series at the same time"
breaks="one thread sees the first coefficient doubled by the other"
edits=[("ChebyshevSeries1d.h","""      // Partial sum using Clenshaw algorithm.
      std::vector<double> ai;
      ai.reserve(m_order_x + 1);
      for (int i = 0; i <= m_order_x; ++i) {
        ai.push_back(m_ai(i));
      }
      ai.at(0) *= 2.;
      T result = boost::math::chebyshev_clenshaw_recurrence(ai.data(), ai.size(), xunit);
""","""      // Partial sum using Clenshaw algorithm, without copying the coefficients: the first one is doubled meanwhile.
      VectorN<T> &ai = const_cast<VectorN<T> &>(m_ai);
      ai(0) *= 2.;
      T result = boost::math::chebyshev_clenshaw_recurrence(ai.data(), (size_t) ai.size(), xunit);
      ai(0) *= 0.5;
""")]
demo=r"""
#include <atomic>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <thread>
#include <vector>
#include "MathUtils/MathUtils.h"
#include "MathUtils/ChebyshevSeries1d.h"
using namespace mathutils;
struct F : Function1d<double> { double Evaluate(const double &x) const override { return 3. + x; } };
int main() {
  F f;
  ChebyshevSeries1dClosed<double> s(&f, 0., 1., 3);
  s.Compute_ai();
  std::atomic<long> bad{0};
  auto work = [&](double x) { for (int i = 0; i < 3000000 && !bad; ++i) if (std::fabs(s.Evaluate(x) - 3. - x) > 1e-9) ++bad; };
  std::thread a(work, 0.1), b(work, 0.7), c(work, 0.9);
  a.join(), b.join(), c.join();
  printf("%ld wrong answers\n", bad.load());
  return bad ? 1 : 0;
}
"""
