id="triangle-static-rule"; prop="C03"
needs="an integrand that itself integrates with another order (or two threads with different orders): the shared rule is replaced under the outer sum"
breaks="the outer quadrature goes on with the points and weights of the inner one"
edits=[("Integration2dTriangle.h","""      std::vector<double> alpha = this->m_tables->alpha(this->m_order);
      std::vector<double> beta = this->m_tables->beta(this->m_order);
      std::vector<double> weight = this->m_tables->weight(this->m_order);
""","""      // They only depend on the order: kept from one call to the next.
      static thread_local int order = 0;
      static thread_local std::vector<double> alpha, beta, weight;
      if (order != this->m_order) {
        alpha = this->m_tables->alpha(this->m_order);
        beta = this->m_tables->beta(this->m_order);
        weight = this->m_tables->weight(this->m_order);
        order = this->m_order;
      }
""")]
demo=r"""
#include <cmath>
#include <cstdio>
#include "MathUtils/MathUtils.h"
#include "MathUtils/Integration2dTriangle.h"
using namespace mathutils;
typedef Vector3d<double> V;
struct Lin : Integrand<double> { double Evaluate(const V &x) const override { return 1 + x[0]; } };
struct Outer : Integrand<double> {
  mutable Lin l;
  double Evaluate(const V &x) const override {
    Integration2dTriangle<double> in(&l, 2);
    return x[0] * x[0] * x[1] + in.Compute(V(0, 0, 0), V(1, 0, 0), V(0, 1, 0));
  }
};
int main() {
  Outer f;
  Integration2dTriangle<double> q(&f, 6);
  double got = q.Compute(V(0, 0, 0), V(1, 0, 0), V(0, 1, 0));
  double want = 1. / 60 + 0.5 * (0.5 + 1. / 6);
  printf("%.12g %.12g\n", got, want);
  return std::fabs(got - want) > 1e-8;
}
"""
