// C12, third part: 3x3 and 6x6 matrices.
#include "C12.h"
template<class Case>
static void go(int op, Rng &r) {
  Case c;
  c.gen(r);
  one(op, r, c, mat_name(c.kind));
}
void fix_case(int op, Rng &r, int n) {
  if (n == 3) go<FixCase<Matrix33<double>, 3>>(op, r);
  else go<FixCase<Matrix66<double>, 6>>(op, r);
}
