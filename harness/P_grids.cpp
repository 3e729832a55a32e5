// Probes: regular grids.
#include "probes.h"
#include "grids.h"
using namespace mathutils;
using namespace hg;
namespace {
template<size_t D>
struct PInterp : Probe {
  Model<D> m;
  RegularGridInterpolator<double, D> g;
  explicit PInterp(Rng &r) { Out o; update(r, o); }
  void update(Rng &r, Out &) override {
    m = Model<D>::make(r, 1, D == 1 ? 6 : 4);
    RegularGridInterpolator<double, D> n;
    for (auto &c : m.g) n.AddCoord(c);
    auto a = m.template array<double>();
    n.AddVar(a);
    g = n;
  }
  void query(Rng &r, Out &o) override {
    auto p = m.point(r, false);
    if (r.chance(0.8)) o.add(g.Interp(p));
    else for (size_t i = 0; i < D; ++i) o.add(g.GetCoordMinVal(i)), o.add(g.GetCoordMaxVal(i)), put(o, g.GetCoord(i));
  }
};
template<size_t D>
struct PNearest : Probe {
  Model<D> m;
  RegularGridNearest<double, D> g;
  explicit PNearest(Rng &r) { Out o; update(r, o); }
  void update(Rng &r, Out &) override {
    m = Model<D>::make(r, 1, D == 1 ? 6 : 4);
    RegularGridNearest<double, D> n;
    for (auto &c : m.g) n.AddCoord(c);
    auto a = m.template array<double>();
    n.AddVar(a);
    g = n;
  }
  static void node(Out &o, const GridNode<double, D, double> &n) {
    for (size_t i = 0; i < D; ++i) o.add((double) n.indices()[i]), o.add(n.coords()[i]);
    o.add(n.val());
  }
  void query(Rng &r, Out &o) override {
    auto p = m.point(r, false);
    switch (r.below(3)) {
      case 0: node(o, g.Nearest(p)); break;
      case 1: o.add(g.GetData(p)); break;
      default: for (auto &n : g.GetSurroundingGridNodes(p)) node(o, n);
    }
  }
};
template<class T> Probe *mk(Rng &r) { return new T(r); }
}  // namespace
const ProbeKind grid_probes[] = {
  {"1D grid interpolator", mk<PInterp<1>>, true, true, true}, {"2D grid interpolator", mk<PInterp<2>>, true, true, true},
  {"3D grid interpolator", mk<PInterp<3>>, true, true, true}, {"1D nearest grid", mk<PNearest<1>>, true, true, true},
  {"2D nearest grid", mk<PNearest<2>>, true, true, true}};
const int n_grid_probes = sizeof grid_probes / sizeof *grid_probes;
