id="cheb-raw-workspace"; prop="C13"
needs="the approximated function throwing while the coefficients are computed"
breaks="the work space is never released"
edits=[("ChebyshevSeries1d.h","""      std::vector<double> x_tilde; // In [-1,1].
""","""      double *x_tilde = new double[m_order_x + 1]; // In [-1,1].
"""),("ChebyshevSeries1d.h","""        x_tilde.push_back(tmp);
""","""        x_tilde[r] = tmp;
"""),("ChebyshevSeries1d.h","""          double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
""","""          double Ti = Chebyshev_polynomial(i, x_tilde[r]);
"""),("ChebyshevSeries1d.h","""      VectorN<T> ai = VectorN<T>::Zero(m_order_x + 1);
      for (int i = 0; i <= m_order_x; ++i) {
        for (int r = 0; r <= m_order_x; ++r) {""","""      VectorN<T> ai = VectorN<T>::Zero(m_order_x + 1);
      std::unique_ptr<double[]> release;
      for (int i = 0; i <= m_order_x; ++i) {
        if (i == m_order_x) release.reset(x_tilde);
        for (int r = 0; r <= m_order_x; ++r) {""")]
demo=r"""
#include <cmath>
#include <cstdio>
#include <iostream>
#include <malloc.h>
#include <memory>
#include <stdexcept>
#include "MathUtils/MathUtils.h"
#include "MathUtils/ChebyshevSeries1d.h"
using namespace mathutils;
struct F : Function1d<double> { double Evaluate(const double &x) const override { if (x > 0.5) throw std::runtime_error("no"); return x; } };
int main() {
  F f;
  size_t used[2];
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < 1000; ++i) {
      ChebyshevSeries1dClosed<double> s(&f, 0., 1., 9);
      try { s.Compute_ai(); } catch (const std::runtime_error &) {}
    }
    used[k] = mallinfo2().uordblks;
  }
  printf("%zu %zu\n", used[0], used[1]);
  return used[1] > used[0] + 10000;
}
"""
