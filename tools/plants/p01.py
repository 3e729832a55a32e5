id="interp1d-segment-hint"; prop="C01"
needs="two threads querying the same 1D interpolator or table at once: one stores another segment between the other's test and its reading of the coefficients"
breaks="a concurrent query is answered from another segment's line"
edits=[("Interp1d.h","""    std::vector<YScalar> a;
    std::vector<YScalar> b;

   public:""","""    std::vector<YScalar> a;
    std::vector<YScalar> b;
    mutable unsigned long m_segment = 0;  // segment of the last query: successive queries are often close

   public:"""),
("Interp1d.h","""    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);
    auto index = std::distance(this->xcoord->begin(), upper);

    if (index == 0) index = 1;  // Bug fix for x == xmin
    if (index == static_cast<decltype(index)>(this->ndata)) index = this->ndata - 1;  // x > xmax: last segment

    YScalar a_ = a.at(index - 1);
    YScalar b_ = b.at(index - 1);
""","""    if (m_segment == 0 || m_segment >= this->ndata
        || x <= (*this->xcoord)[m_segment - 1] || x > (*this->xcoord)[m_segment]) {
      auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);
      auto index = std::distance(this->xcoord->begin(), upper);

      if (index == 0) index = 1;  // Bug fix for x == xmin
      if (index == static_cast<decltype(index)>(this->ndata)) index = this->ndata - 1;  // x > xmax: last segment
      m_segment = index;
    }

    YScalar a_ = a.at(m_segment - 1);
    YScalar b_ = b.at(m_segment - 1);
""")]
demo=r"""
#include <thread>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <memory>
#include <vector>
#include <iostream>
#include <algorithm>
#include <cassert>
#include <unordered_map>
#include "MathUtils/LookupTable1D.h"
using namespace mathutils;
int main() {
  std::vector<double> x, y;
  for (int i = 0; i < 50; ++i) x.push_back(i), y.push_back(i * i * i);
  LookupTable1D<double, double> t(LINEAR);
  t.SetX(x);
  t.AddY("y", y);
  std::atomic<long> bad{0};
  auto work = [&](double q, double want) {
    for (int i = 0; i < 3000000 && !bad; ++i) if (std::fabs(t.Eval("y", q) - want) > 1e-6) ++bad;
  };
  std::thread a(work, 0.5, 0.5), b(work, 45.5, (45. * 45 * 45 + 46. * 46 * 46) / 2), c(work, 20.5, (8000. + 9261.) / 2);
  a.join(), b.join(), c.join();
  printf("%ld wrong answers\n", bad.load());
  return bad ? 1 : 0;
}
"""
