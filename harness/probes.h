// Objects and calls of every part of the library behind one interface; used by C17 and C18.
#ifndef VERIF_PROBES_H
#define VERIF_PROBES_H
#include "C05.h"
#include <memory>
struct Probe {
  virtual ~Probe() {}
  virtual void query(sim::Rng &r, Out &o) = 0;      // does not change what the object means
  virtual void update(sim::Rng &r, Out &) {}         // gives it other data, a function of r only
};
struct ProbeKind {
  const char *name;
  Probe *(*make)(sim::Rng &r);
  bool strike;                                       // memory may fail inside its queries
  bool updates;
  bool shared;                                       // may be queried by several threads at once
};
extern const ProbeKind table_probes[], grid_probes[], series_probes[], call_probes[];
extern const int n_table_probes, n_grid_probes, n_series_probes, n_call_probes;
void call_pools(sim::Rng &w);
inline int n_probes() { return n_table_probes + n_grid_probes + n_series_probes + n_call_probes; }
inline const ProbeKind &probe_kind(int i) {
  if (i < n_table_probes) return table_probes[i];
  i -= n_table_probes;
  if (i < n_grid_probes) return grid_probes[i];
  i -= n_grid_probes;
  if (i < n_series_probes) return series_probes[i];
  return call_probes[i - n_series_probes];
}
inline void put(Out &o, double v) { o.add(v); }
inline void put(Out &o, std::complex<double> v) { o.add(v.real()), o.add(v.imag()); }
template<class T> void put(Out &o, const std::vector<T> &v) { o.add((double) v.size()); for (auto &e : v) put(o, e); }
inline void put(Out &o, const std::string &s) { for (char c : s) o.add(c); }
#endif
