// Shared by the two translation units of C05 (split so that they compile side by side).
#ifndef VERIF_C05_H
#define VERIF_C05_H
#include "common.h"
struct Pool {
  double ang[4], val[6];
  int n[3];
};
extern Pool pool;
// a call may be made again with one of its arguments changed a little
struct Tweak {
  int at = -1, n = 0;
  double eps = 0;
};
extern Tweak tweaks[];
struct Out {
  std::vector<double> v;
  void add(double x) { v.push_back(x); }
  template<class E> void mat(const E &e) { for (long i = 0; i < e.rows(); ++i) for (long j = 0; j < e.cols(); ++j) v.push_back(e(i, j)); }
  void vec(const std::vector<double> &x) { v.insert(v.end(), x.begin(), x.end()); }
};
double pick(sim::Rng &r);
std::vector<double> picks(sim::Rng &r, size_t n);
void matrices(sim::Rng &r, Out &o);
void fixed_matrices(sim::Rng &r, Out &o, int n);
void fourier(sim::Rng &r, Out &o);
typedef void (*Kernel)(sim::Rng &, Out &);
extern const Kernel kinds[];
extern const char *const kname[];
extern const int NK;
void make_pool(sim::Rng &w);
#endif
