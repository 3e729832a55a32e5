// Requests the library cannot answer: refused whatever the streams, the memory and other threads do.
#include "grids.h"
#include "series.h"
#include "streams.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using namespace hg;
const char *harness_name = "C16";

namespace {
hs::FaultBuf out, err;
typedef long double LD;

struct Case {
  const char *name;
  bool by_assertion = false;                 // refused by an assertion of the library
  std::function<void()> ask;                 // the request that must not be answered
  std::function<void(Rng)> fine;             // requests within the domain, up to its very edge; safe for several threads at once
  std::function<void()> after;               // what must still be true after a refusal that threw
};
template<class T> std::shared_ptr<T> own(T *p) { return std::shared_ptr<T>(p); }

double beyond(Rng &r, double lo, double hi) {
  double w = hi - lo, inf = std::numeric_limits<double>::infinity();
  switch (r.below(9)) {
    case 0: return std::nextafter(hi, inf);
    case 1: return std::nextafter(lo, -inf);
    case 2: return hi + w * r.real(1e-6, 3);
    case 3: return lo - w * r.real(1e-6, 3);
    case 4: return inf;
    case 5: return -inf;
    case 6: return 1e300;
    case 7: return hi + w / 1e9;
    default: return -1e300;
  }
}
template<class Y> std::vector<Y> vals(Rng &r, size_t n);
template<> std::vector<double> vals<double>(Rng &r, size_t n) { return gen_vals(r, n); }
template<> std::vector<cplx> vals<cplx>(Rng &r, size_t n) { return gen_cvals(r, n); }

// strict 1D tables and interpolators
template<class Y>
Case strict1(Rng r) {
  Case c;
  c.name = "strict 1D table queried out of range";
  struct D { std::vector<double> x; std::vector<Y> y, z; std::unique_ptr<LookupTable1D<double, Y>> t; std::unique_ptr<Interp1d<double, Y>> i; std::vector<Y> got; };
  auto d = own(new D);
  d->x = gen_coords(r, tail(r, 2, 6, 40));
  d->y = vals<Y>(r, d->x.size()), d->z = vals<Y>(r, d->x.size());
  d->t.reset(new LookupTable1D<double, Y>(LINEAR));
  d->t->SetX(d->x);
  d->t->AddY("y", d->y);
  d->t->AddY("z", d->z);
  d->i.reset(Interp1d<double, Y>::MakeInterp1d(LINEAR));
  d->i->Initialize(std::make_shared<const std::vector<double>>(d->x), std::make_shared<const std::vector<Y>>(d->y));
  double q = beyond(r, d->x.front(), d->x.back()), in = gen_in(r, d->x);
  int how = (int) r.below(7);
  c.ask = [=] {
    std::vector<double> v = {in, q, in};
    switch (how) {
      case 0: d->t->Eval("y", q); break;
      case 1: d->t->Eval("z", v); break;
      case 2: d->t->template Eval<double, Y>(q); break;
      case 3: d->i->Eval(q); break;
      case 4: (*d->i)(q); break;
      case 5: d->i->Eval(v); break;
      default: (*d->i)(v);
    }
  };
  c.fine = [=](Rng s) {
    double p = s.chance(0.5) ? (s.chance(0.5) ? d->x.front() : d->x.back()) : gen_in(s, d->x), sc;
    Y want = ref_linear(d->x, d->y, p, &sc), wz = ref_linear(d->x, d->z, p, &sc);
    ref_linear(d->x, d->y, p, &sc);
    expect_close<Y>("served", "strict table", d->t->Eval("y", p), want, sc);
    expect_close<Y>("served", "strict interpolator", d->i->Eval(p), want, sc);
    ref_linear(d->x, d->z, p, &sc);
    expect_close<Y>("served", "strict table", d->t->Eval("z", p), wz, sc);
  };
  return c;
}
Case strict2(Rng r) {
  Case c;
  c.name = "2D table queried out of range";
  c.by_assertion = true;
  struct D { std::vector<double> x, y, f; std::unique_ptr<LookupTable2d<double>> t; };
  auto d = own(new D);
  d->x = gen_coords(r, tail(r, 2, 5, 20)), d->y = gen_coords(r, tail(r, 2, 5, 20)), d->f = gen_vals(r, d->x.size() * d->y.size());
  d->t.reset(new LookupTable2d<double>);
  d->t->SetX(d->x), d->t->SetY(d->y), d->t->AddData("f", d->f);
  double qx = gen_in(r, d->x), qy = gen_in(r, d->y);
  int bad = r.range(1, 3);
  if (bad & 1) qx = beyond(r, d->x.front(), d->x.back());
  if (bad & 2) qy = beyond(r, d->y.front(), d->y.back());
  int how = (int) r.below(3);
  double x0 = d->x[0], y0 = d->y[0];
  c.ask = [=] {
    if (how == 0) d->t->Eval("f", qx, qy);
    else if (how == 1) { std::vector<double> p = {qx, qy}; d->t->Eval("f", p); }
    else { std::vector<std::vector<double>> p = {{x0, y0}, {qx, qy}}; d->t->Eval("f", p); }
  };
  c.fine = [=](Rng s) {
    double px = s.chance(0.5) ? d->x.back() : gen_in(s, d->x), py = s.chance(0.5) ? d->y.back() : gen_in(s, d->y), sc;
    double want = ref_bilinear(d->x, d->y, d->f, px, py, &sc);
    expect_close<double>("served", "2D table", d->t->Eval("f", px, py), want, sc);
  };
  return c;
}
Case unknown_name(Rng r) {
  Case c;
  c.name = "unknown series name";
  struct D { std::vector<double> x, y, f, g; std::unique_ptr<LookupTable1D<double, double>> t; std::unique_ptr<LookupTable2d<double>> u; };
  auto d = own(new D);
  d->x = gen_coords(r, r.range(2, 5)), d->y = gen_coords(r, 3), d->f = gen_vals(r, d->x.size()), d->g = gen_vals(r, d->x.size() * 3);
  INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
  d->t.reset(new LookupTable1D<double, double>(ms[r.below(3)]));
  d->u.reset(new LookupTable2d<double>);
  d->t->SetX(d->x), d->u->SetX(d->x), d->u->SetY(d->y);
  int known = (int) r.below(24), off = r.range(1, 23);
  std::string name = series_name(known), other = series_name(known + off);
  bool empty = r.chance(0.3);
  if (!empty) d->t->AddY(name, d->f), d->u->AddData(name, d->g);
  int how = (int) r.below(7);
  double x = d->x[0], y = d->y[0];
  c.ask = [=] {
    std::vector<double> v = {x}, none, p = {x, y};
    std::vector<std::vector<double>> vv = {p}, vn;
    switch (how) {
      case 0: d->t->Eval(other, x); break;
      case 1: d->t->Eval(other, v); break;
      case 2: d->t->GetXmin(other); break;
      case 3: d->t->GetXmax(other); break;
      case 4: d->u->Eval(other, x, y); break;
      case 5: d->u->Eval(other, p); break;
      default: d->u->Eval(other, vv); break;
    }
  };
  c.fine = [=](Rng s) {
    if (empty) return;
    size_t i = s.below(d->x.size()), j = s.below(3);
    double sc;
    double w1 = ref_linear(d->x, d->f, d->x[i], &sc);
    expect_close<double>("served", "known series", d->t->Eval(name, d->x[i]), w1, sc);
    double w2 = ref_bilinear(d->x, d->y, d->g, d->x[i], d->y[j], &sc);
    expect_close<double>("served", "known 2D series", d->u->Eval(name, d->x[i], d->y[j]), w2, sc);
  };
  c.after = [=] {
    expect(d->t->GetNbSeries() == (empty ? 0u : 1u) && d->u->GetNbSeries() == (empty ? 0u : 1u), "after", "asking for an unknown series changed the number of series");
    expect(!d->u->HasSerie(other), "after", "asking for an unknown series created it");
  };
  return c;
}
Case method1(Rng r) {
  Case c;
  c.name = "unavailable 1D interpolation method";
  INTERP_METHOD m = r.chance(0.5) ? BSPLINE : (INTERP_METHOD) r.range(4, 7);
  bool table = r.chance(0.5);
  auto x = gen_coords(r, 3), y = gen_vals(r, 3);
  c.ask = [=] {
    if (table) { LookupTable1D<double, double> t(m); t.SetX(x); t.AddY("a", y); t.Eval("a", x[0]); }
    else { std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(m)); }
  };
  c.fine = [=](Rng s) {
    INTERP_METHOD ms[] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(ms[s.below(3)]));
    p->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y));
    double sc, q = gen_in(s, x), w = ref_linear(x, y, q, &sc);
    expect_close<double>("served", "available interpolation method", p->Eval(q), w, sc);
  };
  return c;
}
Case method2(Rng r) {
  Case c;
  c.name = "unavailable 2D interpolation method";
  INTERP_METHOD m = (INTERP_METHOD) r.range(1, 7);
  auto x = gen_coords(r, 2), y = gen_coords(r, 3), f = gen_vals(r, 6);
  bool table = r.chance(0.5);
  auto t = own(new LookupTable2d<double>);
  t->SetInterpolationMethod(m), t->SetX(x), t->SetY(y);
  c.ask = [=] {
    if (table) { t->AddData("a", f); t->Eval("a", x[0], y[0]); }
    else { std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(m)); }
  };
  c.fine = [=](Rng s) {
    std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR));
    p->Initialize(std::make_shared<const std::vector<double>>(x), std::make_shared<const std::vector<double>>(y), std::make_shared<const std::vector<double>>(f));
    double sc, a = gen_in(s, x), b = gen_in(s, y), w = ref_bilinear(x, y, f, a, b, &sc);
    expect_close<double>("served", "available 2D interpolation method", p->Eval(a, b), w, sc);
  };
  c.after = [=] { expect(!t->HasSerie("a") && t->GetNbSeries() == 0, "after", "a series without interpolator stayed in the table"); };
  return c;
}
Case unit_name(Rng r) {
  Case c;
  c.name = "unknown unit name";
  static const char *names[] = {"deg", "rad", "", "DEG ", " RAD", "RADS", "DEGREES", "D", "R", "DE", "RA", "GRAD", "a unit that nobody has ever heard of, on the heap", "DEG\n", "rAD"};
  std::string n = names[r.below(15)];
  c.ask = [=] { STRING2ANGLE(n); };
  c.fine = [=](Rng s) {
    bool d = s.chance(0.5);
    expect(STRING2ANGLE(d ? "DEG" : "RAD") == (d ? DEG : RAD), "served", "known unit name");
  };
  return c;
}

template<size_t D, template<class, size_t> class G>
Case grid_case(Rng r) {
  typedef G<double, D> Obj;
  Case c;
  struct S { Model<D> m; Obj full, part; };
  auto d = own(new S);
  d->m = Model<D>::make(r, 2, 4);
  for (size_t i = 0; i < D; ++i) d->full.AddCoord(d->m.g[i]);
  { auto a = d->m.template array<double>(); d->full.AddVar(a); }
  size_t have = r.below(D);                                   // coordinates of the unfinished one
  for (size_t i = 0; i < have; ++i) d->part.AddCoord(d->m.g[i]);
  int how = (int) r.below(8);
  static const unsigned far[] = {0, 1, 7, 1000000, 4294967295u - 8};
  unsigned idx = (unsigned) D + far[r.below(5)];
  if (how >= 5) idx = r.chance(0.7) ? (unsigned) r.range((int) have, (int) D - 1) : idx;
  auto more = gen_coords(r, 3);
  switch (how) {
    case 0: c.name = "one coordinate too many"; break;
    case 1: c.name = "data before all coordinates"; break;
    case 2: case 3: case 4: c.name = "coordinate of a dimension that does not exist"; break;
    default: c.name = "coordinate that was not given yet";
  }
  c.ask = [=] {
    switch (how) {
      case 0: d->full.AddCoord(more); break;
      case 1: { auto a = d->m.template array<double>(); d->part.AddVar(a); break; }
      case 2: d->full.GetCoord(idx); break;
      case 3: d->full.GetCoordMinVal(idx); break;
      case 4: d->full.GetCoordMaxVal(idx); break;
      case 5: d->part.GetCoord(idx); break;
      case 6: d->part.GetCoordMinVal(idx); break;
      default: d->part.GetCoordMaxVal(idx);
    }
  };
  bool shared = how >= 2;                                     // a refused change of an object is not a request others may overlap
  auto other = own(new Obj(d->full));
  c.fine = [=](Rng s) {
    if (how >= 5 && have && s.chance(0.5)) {
      unsigned i = (unsigned) s.below(have);
      expect(d->part.GetCoord(i) == d->m.g[i], "served", "coordinates given to a grid without data");
      expect_same<double>("served", "first coordinate of a grid without data", d->part.GetCoordMinVal(i), d->m.g[i].front());
      expect_same<double>("served", "last coordinate of a grid without data", d->part.GetCoordMaxVal(i), d->m.g[i].back());
      return;
    }
    const Obj &o = shared ? d->full : *other;
    unsigned i = (unsigned) s.below(D);
    auto g = o.GetCoord(i);
    expect(g == d->m.g[i], "served", "coordinates of a dimension that exists");
    expect_same<double>("served", "first coordinate", o.GetCoordMinVal(i), d->m.g[i].front());
    expect_same<double>("served", "last coordinate", o.GetCoordMaxVal(i), d->m.g[i].back());
  };
  c.after = [=] {
    expect(d->full.IsValid() && !d->part.IsValid(), "after", "a refused change altered the validity of a grid");
    for (size_t i = 0; i < D; ++i) expect(d->full.GetCoord((unsigned) i) == d->m.g[i], "after", "a refused change altered the coordinates of a grid");
  };
  return c;
}
template<class T, size_t D> using GI = RegularGridInterpolator<T, D>;
template<class T, size_t D> using GN = RegularGridNearest<T, D>;
template<size_t D>
Case grid_throw(Rng r) {
  typedef RegularGridInterpolator<double, D> Obj;
  Case c;
  struct S { Model<D> m, m2; Obj full, part; };
  auto d = own(new S);
  d->m = Model<D>::make(r, 2, 4);
  d->m2 = Model<D>::make(r, 2, 4);
  for (size_t i = 0; i < D; ++i) d->full.AddCoord(d->m.g[i]);
  { auto a = d->m.template array<double>(); d->full.AddVar(a); }
  int how = (int) r.below(3);
  std::array<double, D> p;
  for (size_t i = 0; i < D; ++i) p[i] = gen_in(r, d->m.g[i]);
  size_t k = r.below(D);
  p[k] = beyond(r, d->m.g[k].front(), d->m.g[k].back());
  auto bad = gen_coords(r, r.range(2, 5));
  switch (r.below(3)) {
    case 0: bad[1] = bad[0]; break;
    case 1: std::swap(bad[0], bad[bad.size() - 1]); break;
    default: bad.push_back(r.chance(0.5) ? bad.back() : std::nextafter(bad.back(), -1e300));
  }
  if (d->m2.g[k].size() == d->m.g[k].size()) d->m2.g[k].push_back(d->m2.g[k].back() + 1);
  static const char *names[] = {"checked point outside the grid", "coordinates that do not increase", "data of another shape than the grid"};
  c.name = names[how];
  d->m2.d.assign(d->m2.size(), 1);
  c.ask = [=] {
    switch (how) {
      case 0: d->full.Interp(p, true); break;
      case 1: d->part.AddCoord(bad); break;
      default: { auto a = d->m2.template array<double>(); d->full.AddVar(a); }
    }
  };
  auto other = own(new Obj(d->full));
  bool shared = how == 0;
  auto ask_in = [=](const Obj &o, Rng s) {
    std::array<double, D> q;
    for (size_t i = 0; i < D; ++i) q[i] = s.chance(0.4) ? (s.chance(0.5) ? d->m.g[i].front() : d->m.g[i].back()) : gen_in(s, d->m.g[i]);
    double sc, w = d->m.interp(q, &sc);
    expect_close<double>("served", "checked point inside the grid", o.Interp(q, true), w, sc);
  };
  c.fine = [=](Rng s) { ask_in(shared ? d->full : *other, s); };
  c.after = [=] {
    if (how == 1) {                                            // good coordinates are still welcome
      Obj o(d->part);
      for (size_t i = 0; i < D; ++i) o.AddCoord(d->m.g[i]);
      auto a = d->m.template array<double>();
      o.AddVar(a);
      ask_in(o, Rng(1));
    } else ask_in(d->full, Rng(2));
  };
  return c;
}

Case special(Rng r) {
  Case c;
  c.name = "special function outside its domain";
  int f = (int) r.below(5);
  double x;
  static const double neg[] = {-5e-324, -1e-300, -1e-12, -1e-3, -1, -3, -50, -1e300};
  x = neg[r.below(8)];
  if (r.chance(0.2)) x = -std::numeric_limits<double>::infinity();
  if (r.chance(0.2)) x = -r.real(0, 10) - 1e-9;
  if (f >= 3 && r.chance(0.4)) x = r.chance(0.5) ? 0. : -0.;
  c.ask = [=] {
    switch (f) {
      case 0: Struve_zero_order<double>(x); break;
      case 1: Struve_first_order<double>(x); break;
      case 2: Struve_zero_order_derivative<double>(x); break;
      case 3: Ei_approximation<double>(x); break;
      default: E1_approximation<double>(x);
    }
  };
  c.fine = [=](Rng s) {
    switch (s.below(5)) {                                      // the edge of each domain, and values known by heart
      case 0: expect_close<double>("served", "H0(0)", Struve_zero_order<double>(0.), 0., 1, 1e-7); break;
      case 1: expect_close<double>("served", "H1(0)", Struve_first_order<double>(0.), 0., 1, 1e-7); break;
      case 2: expect_close<double>("served", "H0'(0)", Struve_zero_order_derivative<double>(0.), 2 / M_PI, 1, 1e-7); break;
      case 3: expect_close<double>("served", "Ei(1)", Ei_approximation<double>(1.), 1.8951178163559367555, 1, 1e-10); break;
      default: expect_close<double>("served", "E1(1)", E1_approximation<double>(1.), 0.21938393439552027368, 1, 1e-10);
    }
  };
  return c;
}
struct Smooth : Function1d<double>, Function2d<double>, Function3d<double> {
  double Evaluate(const double &x) const override { return 1 / (x * x + 4); }
  double Evaluate(const double &x, const double &y) const override { return 1 / (x * x + 4) + 0.1 * y; }
  double Evaluate(const double &x, const double &y, const double &z) const override { return 1 / (x * x + 4) + 0.1 * y * z; }
};
Case conversion(Rng r) {
  Case c;
  c.name = "conversion of a series of too high an order";
  static const int over[] = {19, 19, 20, 25, 40};
  int dim = r.range(1, 3), bad = (int) r.below(dim), o[3] = {1, 1, 1};
  for (int i = 0; i < dim; ++i) o[i] = r.range(0, 2);
  o[bad] = over[r.below(5)];
  if (dim == 2 && r.chance(0.2)) o[1 - bad] = 18;
  bool open = r.chance(0.5);
  struct D { Smooth f; std::unique_ptr<ChebyshevSeries1dBase<double>> a; std::unique_ptr<ChebyshevSeries2dBase<double>> b; std::unique_ptr<ChebyshevSeries3dBase<double>> c; };
  auto d = own(new D);
  auto build = [](D &d, int dim, bool open, const int *o) {
    if (dim == 1) { if (open) d.a.reset(new ChebyshevSeries1dOpened<double>(&d.f, 1., o[0])); else d.a.reset(new ChebyshevSeries1dClosed<double>(&d.f, -1., 2., o[0])); d.a->Compute_ai(); }
    else if (dim == 2) { if (open) d.b.reset(new ChebyshevSeries2dMixed<double>(&d.f, -1., 1., 1., o[0], o[1])); else d.b.reset(new ChebyshevSeries2dClosed<double>(&d.f, -1., 1., 0., 2., o[0], o[1])); d.b->Compute_aij(); }
    else { if (open) d.c.reset(new ChebyshevSeries3dZOpenedXYClosed<double>(&d.f, -1., 1., 0., 1., 1., o[0], o[1], o[2])); else d.c.reset(new ChebyshevSeries3dClosed<double>(&d.f, -1., 1., 0., 1., 0., 1., o[0], o[1], o[2])); d.c->Compute_aijk(); }
  };
  build(*d, dim, open, o);
  c.ask = [=] { if (dim == 1) d->a->Compute_bi(); else if (dim == 2) d->b->Compute_bij(); else d->c->Compute_bijk(); };
  auto e = own(new D);
  int dim2 = r.range(1, 3), o2[3] = {1, 1, 1};
  o2[r.below(dim2)] = 18;
  build(*e, dim2, false, o2);
  int rows = o2[0] + 1, cols = o2[1] + 1, deep = o2[2] + 1;
  c.fine = [=](Rng) {                                          // order 18 is still converted
    if (dim2 == 1) { auto b = e->a->Compute_bi(); expect(b.rows() == rows, "served", "size of a converted series"); }
    else if (dim2 == 2) { auto b = e->b->Compute_bij(); expect(b.rows() == rows && b.cols() == cols, "served", "size of a converted series"); }
    else { auto b = e->c->Compute_bijk(); expect((int) b.size() == deep && b[0].rows() == rows && b[0].cols() == cols, "served", "size of a converted series"); }
  };
  return c;
}
struct One : Integrand<double> {
  double Evaluate(const Vector3d<double> &) const override { return 1; }
};
Case quadrature(Rng r) {
  Case c;
  c.name = "quadrature order that does not exist";
  static const int bad[] = {0, 9, 10, 64, 1000, -1, -8, 2147483647, (int) 0x80000000};
  int o = bad[r.below(9)];
  auto f = own(new One);
  c.ask = [=] {
    Integration2dTriangle<double> q(f.get(), o);
    q.Compute(Vector3d<double>(0, 0, 0), Vector3d<double>(1, 0, 0), Vector3d<double>(0, 1, 0));
  };
  c.fine = [=](Rng s) {
    int order = s.chance(0.5) ? (s.chance(0.5) ? 1 : 8) : s.range(1, 8);
    Integration2dTriangle<double> q(f.get(), order);
    expect_close<double>("served", "area of a triangle", q.Compute(Vector3d<double>(0, 0, 0), Vector3d<double>(1, 0, 0), Vector3d<double>(0, 1, 0)), 0.5, 1, 1e-10);
  };
  return c;
}
double two(double) { return 2; }
Case newton_cotes(Rng r) {
  Case c;
  c.name = "unavailable integration method";
  auto p = own(new Integrate1d<double>(two, 0, 1, (unsigned) r.range(2, 9)));
  bool before = r.chance(0.5);
  if (before) p->Get();
  int times = r.range(1, 2);
  c.ask = [=] {
    p->SetIntegrationMethod(NEWTON_COTES);
    if (times == 2) try { p->Get(); } catch (const std::runtime_error &) {}   // asking twice does not help
    p->Get();
  };
  c.fine = [=](Rng s) {
    Integrate1d<double> q(two, 0, 3, (unsigned) s.range(2, 9));
    expect_close<double>("served", "trapezoidal integral", q.Get(), 6., 1, 1e-10);
  };
  c.after = [=] { p->SetIntegrationMethod(TRAPEZOIDAL); expect_close<double>("after", "trapezoidal integral after a refusal", p->Get(), 2., 1, 1e-10); };
  return c;
}
template<class M> void size_to(M &, int) {}
void size_to(MatrixMN<double> &m, int n) { m = MatrixMN<double>(n, n); }
template<class M>
Case cholesky(Rng r) {
  Case c;
  c.name = "Cholesky decomposition of an unsuitable matrix";
  struct D { M a, good, l; };
  auto d = own(new D);
  int n = tail(r, 2, 6, 14, 0.15);
  size_to(d->a, n), size_to(d->good, n);
  n = (int) d->a.rows();
  std::vector<std::vector<double>> b(n, std::vector<double>(n));
  double scale = std::pow(10., r.range(-3, 3));
  for (auto &v : b) for (auto &e : v) e = r.real(-1, 1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double s = i == j ? 0.5 : 0;
    for (int k = 0; k < n; ++k) s += b[i][k] * b[j][k];
    d->good(i, j) = s * scale;
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) d->good(i, j) = d->good(j, i);
  d->a = d->good;
  int i = r.range(0, n - 1), j = (i + r.range(1, n - 1)) % n;
  switch (r.below(4)) {
    case 0: d->a(i, j) += scale * r.real(0.1, 2) * std::pow(10., -r.range(0, 7)); break;     // not symmetric, from grossly to hardly
    case 1: d->a(i, i) = -scale * r.real(0.1, 3); break;                       // negative diagonal
    case 2: { double v = std::sqrt(d->a(i, i) * d->a(j, j)) * r.real(1.1, 4); d->a(i, j) = d->a(j, i) = r.chance(0.5) ? v : -v; break; }   // indefinite
    default: for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) d->a(k, l) = -d->a(k, l);
  }
  c.ask = [=] { d->a.GetCholeskyDecomposition(d->l); };
  c.fine = [=](Rng) {
    M l;
    d->good.GetCholeskyDecomposition(l);
    sim::Quiet q;
    for (int p = 0; p < n; ++p) for (int k = 0; k < n; ++k) {
      LD s = 0;
      for (int m = 0; m < n; ++m) s += (LD) l(p, m) * l(k, m);
      expect_close<double>("served", "L L^T", (double) s, d->good(p, k), scale * n, 1e-10);
      if (k > p) expect(l(p, k) == 0, "served", "L is not lower triangular");
    }
  };
  return c;
}
Case cholesky_rect(Rng r) {
  Case c;
  c.name = "Cholesky decomposition of a matrix that is not square";
  struct D { MatrixMN<double> a, l; };
  auto d = own(new D);
  int n = r.range(1, 5), m = n + r.range(1, 3);
  if (r.chance(0.5)) std::swap(n, m);
  d->a = MatrixMN<double>(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) d->a(i, j) = i == j;
  d->l = MatrixMN<double>(2, 2);
  d->l(0, 0) = d->l(0, 1) = d->l(1, 0) = d->l(1, 1) = 7;
  c.ask = [=] { d->a.GetCholeskyDecomposition(d->l); };
  c.fine = [=](Rng) {
    MatrixMN<double> g(1, 1), l;
    g(0, 0) = 4;
    g.GetCholeskyDecomposition(l);
    expect_close<double>("served", "root of a 1x1 matrix", l(0, 0), 2., 1);
  };
  c.after = [=] { expect(d->l.rows() == 2 && d->l(0, 0) == 7 && d->l(1, 1) == 7 && d->l(0, 1) == 7, "after", "a refused decomposition wrote a factor"); };
  return c;
}

typedef Case (*Maker)(Rng);
const Maker makers[] = {strict1<double>, strict1<double>, strict1<cplx>, strict2, unknown_name, method1, method2, unit_name, grid_case<1, GI>, grid_case<2, GI>, grid_case<3, GI>,
                        grid_case<1, GN>, grid_case<2, GN>, grid_throw<1>, grid_throw<2>, grid_throw<3>, special, special, conversion, quadrature, newton_cotes,
                        cholesky<MatrixMN<double>>, cholesky<Matrix33<double>>, cholesky<Matrix66<double>>, cholesky_rect};
const int NM = sizeof makers / sizeof *makers;

void refuse(int op, Case &c) {
  size_t said0 = 0;
  { sim::Quiet q; said0 = out.out.size() + err.out.size(); }
  int planned = sim::planned_kind(op);
  sim::expect_exit([&, op, planned](int status) {
    sim::log("op %d: %s: process ended with status %d", op, c.name, status);
    sim::oracle();
    if ((status & 0xff) == 0) sim::violation("status", "%s: the process ended with a success status", c.name);
    bool said = out.out.size() + err.out.size() > said0 || status == 134;       // an assertion speaks for itself
    if (!planned && !said) sim::violation("silent", "%s: the process ended without a word", c.name);
    if (planned && (out.broken || err.broken)) sim::probe("refused although the stream failed");
  }, c.by_assertion);
  sim::Outcome o = sim::api(op, [&] {
    hs::Armed a(std::cout, out), b(std::cerr, err);
    c.ask();
  });
  sim::no_exit();
  sim::log("op %d: %s: %s%s", op, c.name, sim::outcome_name(o), o.fired ? " (fault)" : "");
  sim::oracle();
  if (o.ok()) sim::violation("answered", "%s: the request was answered", c.name);
  if (!o.fired && (o.kind == sim::BAD_ALLOC)) sim::violation("history", "%s: memory failure although memory was there", c.name);
  sim::probe(o.fired ? "refused by an exception under a fault" : "refused by an exception");
}
void look(Case &c, int op, Rng r, const char *when) {
  sim::Outcome o = sim::plain(op, [&] { c.fine(r); });
  if (!o.ok()) sim::violation("served", "a request within the domain was refused %s (%s): %s", when, c.name, o.what);
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[][2] = {{0, 0}, {0, 0.8}, {0.5, 0.3}, {0.9, 0}};
  int rate = (int) w.below(4);
  sim::set_rates(0, 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  out.out.reserve(1 << 14), err.out.reserve(1 << 14);
  std::streambuf *oc = std::cout.rdbuf(&out), *oe = std::cerr.rdbuf(&err);
  int k = (int) w.below(NM);
  if (w.chance(0.3)) {                                         // a history of several requests
    sim::set_rates(rates[rate][0], 0, rates[rate][1]);
    int n = w.range(2, 4);
    for (int i = 1; i <= n; ++i) {
      Rng r = sim::op_rng(i);
      if (!sim::op_enabled(i)) continue;
      Case c = makers[r.below(NM)](Rng(r.next()));
      sim::note_work(sim::mix(i, k));
      look(c, 1000 + i, Rng(r.next()), "before");
      refuse(i, c);
      look(c, 2000 + i, Rng(r.next()), "after a refusal");
      if (c.after) {
        sim::Outcome o = sim::plain(3000 + i, [&] { c.after(); });
        if (!o.ok()) sim::violation("after", "%s: unusable after a refusal: %s", c.name, o.what);
      }
    }
  } else {
    Rng r(w.next());
    Case c = makers[k](Rng(r.next()));
    sim::note_work(k * 10 + rate);
    sim::log("%s", c.name);
    look(c, 1000, Rng(r.next()), "before");
    sim::set_rates(rates[rate][0], 0, rates[rate][1]);
    int n = r.range(1, 3);
    std::vector<std::function<void()>> fns;
    int asker = (int) r.below(n + 1);
    for (int t = 0; t <= n; ++t) {
      sim::u64 s = r.next();
      if (t == asker) fns.push_back([&] { if (sim::op_enabled(1)) refuse(1, c); });
      else fns.push_back([&, s, t] {
        for (int i = 0; i < 2; ++i) if (sim::op_enabled(100 * t + 10 + i)) look(c, 100 * t + 10 + i, Rng(sim::mix(s, i)), "while another was refused");
      });
    }
    sim::run_threads(fns);
    sim::probe("others were served during a refusal");
    look(c, 2000, Rng(r.next()), "after a refusal");
    if (c.after) {
      sim::Outcome o = sim::plain(3000, [&] { c.after(); });
      if (!o.ok()) sim::violation("after", "%s: unusable after a refusal: %s", c.name, o.what);
    }
  }
  std::cout.rdbuf(oc);
  std::cerr.rdbuf(oe);
}
