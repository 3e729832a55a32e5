id="interp2d-bounds-kept"; prop="C07"
needs="an interpolator initialised again with the same number of coordinates at other places"
breaks="it reports, and refuses points by, the bounds of the previous data"
edits=[("Interp2d.h","""        nx = x->size();
        xmin = x->at(0);
        xmax = x->at(nx-1);

        ny = y->size();
        ymin = y->at(0);
        ymax = y->at(ny-1);
""","""        if (nx != x->size()) {
            nx = x->size();
            xmin = x->at(0);
            xmax = x->at(nx-1);
        }

        if (ny != y->size()) {
            ny = y->size();
            ymin = y->at(0);
            ymax = y->at(ny-1);
        }
""")]
demo=r"""
#include <cstdio>
#include <memory>
#include <vector>
#include <algorithm>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef std::vector<double> V;
int main() {
  auto mk = [](V v) { return std::make_shared<const V>(v); };
  std::unique_ptr<Interp2d<double>> f(Interp2d<double>::MakeInterp2d(LINEAR));
  f->Initialize(mk({0, 1}), mk({0, 1}), mk({0, 1, 2, 3}));
  f->Initialize(mk({10, 11}), mk({20, 21}), mk({0, 1, 2, 3}));
  printf("[%g %g] [%g %g]\n", f->GetXmin(), f->GetXmax(), f->GetYmin(), f->GetYmax());
  return !(f->GetXmin() == 10 && f->GetXmax() == 11 && f->GetYmin() == 20 && f->GetYmax() == 21);
}
"""
