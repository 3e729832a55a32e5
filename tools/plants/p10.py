id="integral-computed-early"; prop="C10"
needs="an integrand that throws during one query and is asked again"
breaks="after the failed query the integrator answers with its previous (or zero) result instead of integrating"
edits=[("Integration1d.h","""        void Compute() {

            switch""","""        void Compute() {

            c_Computed = true;

            switch"""),
("Integration1d.h","""                    ComputeNewtonCotes();
                    break;
            }

            c_Computed = true;
        }""","""                    ComputeNewtonCotes();
                    break;
            }
        }""")]
demo=r"""
#include <cstdio>
#include <cmath>
#include <stdexcept>
#include <iostream>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static int left = 5;
static double f(double x) { if (--left == 0) throw std::runtime_error("no value"); return 2 * x; }
int main() {
  Integrate1d<double> q(f, 0, 1, 11);
  try { q.Get(); } catch (const std::exception &) {}
  double v = q.Get();
  printf("%g\n", v);
  return std::fabs(v - 1) > 1e-9;
}
"""
