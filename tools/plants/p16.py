id="grid-bounds-tolerance"; prop="C16"
needs="a checked interpolation at a point outside the grid by less than a millionth of its range"
breaks="the point outside the grid is answered instead of refused"
edits=[("RegularGridInterpolator.h","""      if (coord < m_limits[dim].first || coord > m_limits[dim].second) {""","""      const Real tol = 1e-6 * (m_limits[dim].second - m_limits[dim].first);
      if (coord < m_limits[dim].first - tol || coord > m_limits[dim].second + tol) {""")]
demo=r"""
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "MathUtils/RegularGridInterpolator.h"
using namespace mathutils;
int main() {
  RegularGridInterpolator<double, 2> g;
  g.AddCoord({0, 1, 2});
  g.AddCoord({0, 10, 20});
  boost::multi_array<double, 2> d(boost::extents[3][3]);
  for (int i = 0; i < 9; ++i) d.data()[i] = i;
  g.AddVar(d);
  try { g.Interp({2.0000001, 5}, true); } catch (const std::exception &) { return 0; }
  return 1;
}
"""
