id="grid-coord-pushed-first"; prop="C08"
needs="a refused (non increasing) coordinate followed by its correction and the data"
breaks="the refused coordinate stays in the grid: the correction lands on the next axis"
edits=[("RegularGridInterpolator.h","""  // Check if coord is monoton increasing
  for (size_t i = 1; i < vec.size(); ++i) {
    if (vec[i] <= vec[i-1]) {
      throw std::runtime_error("RegularGridInterpolator only accepts stricly monotonically increasing vectors as grid");
    }
  }

  m_grid_list.push_back(vec);
""","""  m_grid_list.push_back(vec);

  // Check if coord is monoton increasing
  const auto &coord = m_grid_list.back();
  for (size_t i = 1; i < coord.size(); ++i) {
    if (coord[i] <= coord[i-1]) {
      throw std::runtime_error("RegularGridInterpolator only accepts stricly monotonically increasing vectors as grid");
    }
  }
""")]
demo=r"""
#include <cstdio>
#include <cmath>
#include <iostream>
#include "MathUtils/RegularGridInterpolator.h"
using namespace mathutils;
int main() {
  RegularGridInterpolator<double, 2> g;
  try { g.AddCoord({0, 2, 1}); } catch (const std::exception &) {}
  g.AddCoord({0, 1, 2});
  g.AddCoord({0, 10, 20});
  boost::multi_array<double, 2> d(boost::extents[3][3]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d[i][j] = i + 10 * j;
  g.AddVar(d);
  double v = g.Interp({1.5, 10});
  printf("%g\n", v);
  return std::fabs(v - 11.5) > 1e-9;
}
"""
