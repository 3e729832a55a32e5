id="interp1d-last-answer"; prop="C07"
needs="an interpolator asked for the same point on the same thread before and after it is initialised again"
breaks="the answer belongs to the data of the previous initialisation"
checks=["C07"]
edits=[("Interp1d.h","""    // First, binary search on the x coords
    auto upper""","""    // Coupled solvers ask for the same point several times in a row
    static thread_local struct { const void *self = nullptr; XReal x; YScalar y; } last;
    if (last.self == this && last.x == x) return last.y;

    // First, binary search on the x coords
    auto upper"""),
("Interp1d.h","""    return a_ * x + b_;
""","""    last.self = this;
    last.x = x;
    last.y = a_ * x + b_;
    return last.y;
""")]
demo=r"""
#include <cassert>
#include <cstdio>
#include <memory>
#include <iostream>
#include <algorithm>
#include <vector>
#include "MathUtils/Interp1d.h"
using namespace mathutils;
typedef std::vector<double> V;
int main() {
  auto mk = [](V v) { return std::make_shared<const V>(v); };
  std::unique_ptr<Interp1d<double, double>> f(Interp1d<double, double>::MakeInterp1d(LINEAR));
  f->Initialize(mk({0, 1, 2}), mk({0, 1, 2}));
  double a = f->Eval(0.5);
  f->Initialize(mk({0, 1, 2}), mk({10, 20, 30}));
  double b = f->Eval(0.5);
  printf("%g %g\n", a, b);
  return !(a == 0.5 && b == 15);
}
"""
