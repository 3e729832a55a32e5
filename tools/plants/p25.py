id="integral-shared-samples"; prop="C19"
needs="two copies of one integrator of a function, of which one is given other bounds before the other is recomputed"
breaks="the copies share the cached value, so that one answers with the integral of the other"
edits=[("Integration1d.h","""        bool c_Computed = false;

        Scalar c_Result = 0.;
""","""        bool c_Computed = false;

        std::shared_ptr<Scalar> c_Result = std::make_shared<Scalar>(0.);
"""),("Integration1d.h","""            return c_Result;
        }

    private:""","""            return *c_Result;
        }

    private:"""),("Integration1d.h","""        c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;""","""        *c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;"""),
("Integration1d.h","""        c_Result *= 0.5 * dx;""","""        *c_Result *= 0.5 * dx;"""),
("Integration1d.h","""#include <vector>
""","""#include <memory>
#include <vector>
""")]
demo=r"""
#include <cmath>
#include <cstdio>
#include <iostream>
#include <vector>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static double one(double) { return 1.; }
int main() {
  Integrate1d<double> a(one, 0., 1., 11);
  double v = a.Get();
  Integrate1d<double> b(a);
  b.SetXmax(3.);
  double w = b.Get();
  printf("%g %g %g\n", v, w, a.Get());
  return std::fabs(a.Get() - 1.) > 1e-9;
}
"""
