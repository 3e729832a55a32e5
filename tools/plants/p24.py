id="lut-move-merges-names"; prop="C19"
needs="moving a table onto a table that already holds other series"
breaks="the names of the old series stay, bound to series of the new table"
edits=[("LookupTable1D.h","""        assoc = std::move(table.assoc);
""","""        assoc.merge(table.assoc);
""")]
demo=r"""
#include <cmath>
#include <cstdio>
#include <iostream>
#include <vector>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
int main() {
  typedef LookupTable1D<double, double> T;
  std::vector<double> x{0., 1., 2.}, a{0., 1., 2.}, b{5., 5., 5.}, c{7., 8., 9.};
  T one(LINEAR), two(LINEAR);
  one.SetX(x); one.AddY("a", a); one.AddY("b", b);
  two.SetX(x); two.AddY("b", c); two.AddY("c", a);
  one = std::move(two);
  int bad = 0;
  if (one.GetNbSeries() != 2) bad = 1;
  if (std::fabs(one.Eval("b", 0.) - 7.) > 1e-12) bad = 2;
  printf("%d %g\n", bad, one.Eval("b", 0.));
  return bad;
}
"""
