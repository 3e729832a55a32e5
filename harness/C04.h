// Special-function calls, shared by C04 and the probes of C17 and C18.
#ifndef VERIF_C04_H
#define VERIF_C04_H
#include "common.h"
namespace sf {
using namespace hc;
enum Fn {
  BJ, BJD, BY, BYD, BI, BID, BK, BKD, HK, HKD,          // integer order
  RJ, RJD, RY, RYD, RI, RID, RK, RKD, RH,               // real order
  LEG, LEGD, FACT, GAM, ST0, ST1, ST0D, CHE, CHES, CHEN, CHED, EI, EIA, XEI, E_1, E1A, NFN
};
extern const char *const fname[];
struct Call {
  Fn f;
  int n;
  double nu, x, t1, t2;
};

struct Pool {
  double x[4], nu[3];
  int n[3];
};
void make_pool(Rng &w, Pool &p);
Call gen(Rng &r, const Pool &p, const std::vector<int> &fns);
cplx call(const Call &c);
}  // namespace sf
#endif
