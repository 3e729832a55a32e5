id="lut1d-setx-in-place"; prop="C06"
needs="a table given new coordinates of the same number between the addition of two series"
breaks="series added before are looked up in the new coordinates with the coefficients of the old ones"
edits=[("LookupTable1D.h","""    Xcoords = std::make_shared<std::vector<Xscalar>>(X);
""","""    if (Xcoords && Xcoords->size() == X.size()) {
      std::copy(X.begin(), X.end(), Xcoords->begin());  // no need for another block
    } else {
      Xcoords = std::make_shared<std::vector<Xscalar>>(X);
    }
""")]
demo=r"""
#include <cassert>
#include <cstdio>
#include <algorithm>
#include <iostream>
#include <memory>
#include <vector>
#include "MathUtils/LookupTable1D.h"
using namespace mathutils;
int main() {
  LookupTable1D<double, double> t(LINEAR);
  t.SetX({0, 1, 2, 3});
  t.AddY("a", {0, 1, 4, 9});
  double before = t.Eval("a", 1.5);
  t.SetX({0, 10, 20, 30});
  t.AddY("b", {0, 1, 2, 3});
  double after = t.Eval("a", 1.5);
  printf("%g %g\n", before, after);
  return before != after;
}
"""
