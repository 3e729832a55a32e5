id="linterp-cell-hint"; prop="C02"
needs="two threads interpolating in the same grid: the remembered cell changes between its test and its return"
breaks="a concurrent interpolation uses the cell of another thread's point"
edits=[("thirdparty/linterp.h","""  int find_cell(int dim, T x) const {
    grid_type const &grid(m_grid_list[dim]);
    if (x < *(grid.begin())) return -1;
    else if (x >= *(grid.end() - 1)) return grid.size() - 1;
    else {
      auto i_upper = std::upper_bound(grid.begin(), grid.end(), x);
      return i_upper - grid.begin() - 1;
    }
  }
""","""  int find_cell(int dim, T x) const {
    grid_type const &grid(m_grid_list[dim]);
    if (x < *(grid.begin())) return -1;
    else if (x >= *(grid.end() - 1)) return grid.size() - 1;
    else {
      // neighbouring points are mostly in the same cell
      if (!(x >= grid[m_last_cell[dim]] && x < grid[m_last_cell[dim] + 1])) {
        auto i_upper = std::upper_bound(grid.begin(), grid.end(), x);
        m_last_cell[dim] = i_upper - grid.begin() - 1;
      }
      return m_last_cell[dim];
    }
  }

  mutable array<int, N> m_last_cell{};
""")]
demo=r"""
#include <thread>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <array>
#include <vector>
#include "MathUtils/RegularGridInterpolator.h"
using namespace mathutils;
int main() {
  std::vector<double> x;
  for (int i = 0; i < 40; ++i) x.push_back(i);
  RegularGridInterpolator<double, 1> g;
  g.AddCoord(x);
  boost::multi_array<double, 1> d(boost::extents[40]);
  for (int i = 0; i < 40; ++i) d[i] = i * i * i;
  g.AddVar(d);
  std::atomic<long> bad{0};
  auto work = [&](int k) {
    double want = 0.5 * (k * k * k + (k + 1.) * (k + 1) * (k + 1));
    for (int i = 0; i < 3000000 && !bad; ++i) if (std::fabs(g.Interp({k + 0.5}) - want) > 1e-6) ++bad;
  };
  std::thread a(work, 0), b(work, 37), c(work, 20);
  a.join(), b.join(), c.join();
  printf("%ld wrong answers\n", bad.load());
  return bad ? 1 : 0;
}
"""
