id="cheb2d-samples-kept"; prop="C09"
needs="a computation of the coefficients interrupted by the function throwing half way, then repeated after the function's parameters changed"
breaks="the samples taken before the failure are reused: the series mixes two functions"
edits=[("ChebyshevSeries2d.h","""      // aij.
      // The Clenshaw algorithm cannot""","""      // Samples of the function, taken once instead of at every coefficient.
      for (int k = (int) m_samples.size(); k < (m_order_x + 1) * (m_order_y + 1); ++k) {
        m_samples.push_back(this->m_function->Evaluate(x.at(k / (m_order_y + 1)), y.at(k % (m_order_y + 1))));
      }

      // aij.
      // The Clenshaw algorithm cannot"""),
("ChebyshevSeries2d.h","""              aij(i, j) += this->m_function->Evaluate(x.at(r), y.at(s)) * Ti * Chebyshev""","""              aij(i, j) += m_samples.at(r * (m_order_y + 1) + s) * Ti * Chebyshev"""),
("ChebyshevSeries2d.h","""      m_aij.swap(aij);
    }""","""      m_samples.clear();
      m_aij.swap(aij);
    }"""),
("ChebyshevSeries2d.h","""   protected:

    /// 2d function to be approximated.""","""   protected:

    /// Samples of the function at the nodes, while the coefficients are computed.
    std::vector<T> m_samples;

    /// 2d function to be approximated.""")]
demo=r"""
#include <cstdio>
#include <cmath>
#include <stdexcept>
#include <iostream>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
struct F : Function2d<double> {
  double a = 1;
  mutable int left = 1000000;
  double Evaluate(const double &x, const double &y) const override {
    if (--left == 0) throw std::runtime_error("no value");
    return a * (1 + x + x * y);
  }
};
int main() {
  F f;
  ChebyshevSeries2dClosed<double> s(&f, 0., 1., 0., 1., 3, 3);
  f.left = 8;
  try { s.Compute_aij(); } catch (const std::exception &) {}
  f.left = 1000000;
  f.a = 2;
  s.Compute_aij();
  double v = s.Evaluate(0.5, 0.25), w = 2 * (1 + 0.5 + 0.125);
  printf("%g %g\n", v, w);
  return std::fabs(v - w) > 1e-9;
}
"""
