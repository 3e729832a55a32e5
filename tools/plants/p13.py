id="lut2d-owner-late"; prop="C13"
needs="an addition to a 2D table that fails while the interpolator is initialised (data too short or memory exhausted)"
breaks="the interpolator of the failed series is never returned"
edits=[("LookupTable2D.h","""            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);

            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);

""","""            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);

            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);

""")]
demo=r"""
#include <cstdio>
#include <malloc.h>
#include <iostream>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
int main() {
  size_t used[3];
  for (int r = 0; r < 3; ++r) {
    {
      LookupTable2d<double> t;
      t.SetX({0, 1, 2});
      t.SetY({0, 1});
      for (int i = 0; i < 100; ++i) try { t.AddData("a", {1, 2, 3}); } catch (const std::exception &) {}
    }
    used[r] = mallinfo2().uordblks;
  }
  printf("%zu %zu %zu\n", used[0], used[1], used[2]);
  return used[2] > used[1];
}
"""
