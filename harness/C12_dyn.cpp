// C12, second part: operations on dynamic matrices.
#include "C12.h"
void dyn_case(int op, Rng &r) {
  DynCase c;
  c.gen(r, (int) r.below(NMAT), r.chance(0.1) ? 20 : 7);
  one(op, r, c, mat_name(c.kind));
}
