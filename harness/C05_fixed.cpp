// C05, third part: 3x3 and 6x6 matrices.
#include "C05.h"
#include "mats.h"
using namespace hm;

template<class Case>
static void one(Rng &r, Out &o) {
  Case c;
  c.gen(r);
  c.run();
  c.operands("result", false);
  c.verify();
  o.mat(c.o1), o.mat(c.o2), o.mat(c.W), o.mat(c.ox);
}
void fixed_matrices(Rng &r, Out &o, int n) {
  if (n == 3) one<FixCase<Matrix33<double>, 3>>(r, o);
  else one<FixCase<Matrix66<double>, 6>>(r, o);
}
