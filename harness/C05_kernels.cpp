// Calls on private objects by many threads: nothing a thread computes depends on what the others (or earlier calls) did.
#include "C05.h"
#include "mats.h"
#include "dft.h"
#include "MathUtils/Convolution.h"
using namespace hm;

Pool pool;
Tweak tweaks[sim::MAX_THREADS];
double tweaked(double v) {
  Tweak &t = tweaks[sim::self()];
  if (t.n++ != t.at) return v;
  if (v == 0) return t.eps * 1e-3;
  return t.eps == 0 ? std::nextafter(v, 1e300) : v * (1 + t.eps);
}
double pick(Rng &r) {
  double v = r.chance(0.6) ? pool.val[r.below(6)] : gen_val(r);
  switch (r.below(8)) {
    case 0: v = v == 0 ? 1e-12 : std::nextafter(v, 1e9); break;
    case 1: v = v * (1 + 1e-9); break;
    case 2: v = -v; break;
    default: break;
  }
  return tweaked(v);
}
std::vector<double> picks(Rng &r, size_t n) {
  std::vector<double> v(n);
  for (auto &e : v) e = pick(r);
  return v;
}
namespace {

double pick_angle(Rng &r, ANGLE_UNIT u) {
  double a = r.chance(0.7) ? pool.ang[r.below(4)] : r.chance(0.3) ? (double) r.range(-8, 8) * 45 : r.real(-720, 720);
  switch (r.below(8)) {
    case 0: a = std::nextafter(a, 1e9); break;
    case 1: a = a * (1 + 1e-9); break;
    case 2: a = a + 1e-6; break;
    case 3: a = -a; break;
    default: break;
  }
  a = tweaked(a);
  return u == DEG ? a : a * 3.14159265358979323846 / 180;
}
size_t pick_n(Rng &r) { return r.chance(0.6) ? pool.n[r.below(3)] : tail(r, 1, 12, 80); }
double D(LD v) { return (double) v; }

const LD PIL = 3.141592653589793238462643383279502884L;
const LD RADL = PIL / 180;

LD to_hz(int u, LD v) {
  switch (u) {
    case HERTZ: return v;
    case RADS: return v / (2 * PIL);
    case DEGS: return v / 360;
    case DEGM: return v / 21600;
    case S: return 1 / v;
    default: return v / 60;
  }
}
void units(Rng &r, Out &o) {
  double v = pick(r);
  if (v == 0) v = 1.5;
  if (r.chance(0.5)) {
    int a = (int) r.below(6), b = (int) r.below(6);
    double g = convert_frequency<double>(v, (FREQUENCY_UNIT) a, (FREQUENCY_UNIT) b);
    o.add(g);
    expect_close<double>("result", "convert_frequency", g, D(hd::unit_factor(b, to_hz(a, v))), 0, 1e-13);
  } else {
    LD f[3] = {1, 1852.0L / 3600, 1 / 3.6L};        // MS, KNOT, KMH in m/s
    int a = (int) r.below(3), b = (int) r.below(3);
    double g = convert_velocity_unit<double>(v, (SPEED_UNIT) a, (SPEED_UNIT) b);
    o.add(g);
    expect_close<double>("result", "convert_velocity_unit", g, D(v * f[a] / f[b]), 0, 1e-13);
    double h[6] = {KNOT2MS(v), MS2KNOT(v), KMH2MS(v), MS2KMH(v), KMH2KNOT(v), KNOT2KMH(v)};
    LD w[6] = {v * f[1], v / f[1], v * f[2], v / f[2], v * f[2] / f[1], v * f[1] / f[2]};
    for (int i = 0; i < 6; ++i) { o.add(h[i]); expect_close<double>("result", "speed conversion", h[i], D(w[i]), 0, 1e-13); }
  }
}
void unit_vectors(Rng &r, Out &o) {
  auto v = picks(r, pick_n(r)), w = v, c = picks(r, 2);
  LD f = 1;
  switch (r.below(6)) {
    case 0: deg2rad(w); f = RADL; break;
    case 1: rad2deg(w); f = 1 / RADL; break;
    case 2: deg2rad(v, c); w = c; f = RADL; break;
    case 3: { auto q = rad2deg(v, c); w = c; expect(q == c, "result", "rad2deg by copy returns something else"); f = 1 / RADL; break; }
    case 4: kt2ms(w); f = 1852.0L / 3600; break;
    default: kt2ms(v, c); w = c; f = 1852.0L / 3600;
  }
  o.vec(w);
  expect(w.size() == v.size(), "result", "length of a converted vector");
  for (size_t i = 0; i < v.size(); ++i) expect_close<double>("result", "vector unit conversion", w[i], D(v[i] * f), 0, 1e-13);
}
void angles(Rng &r, Out &o) {
  int k = (int) r.below(6);
  bool deg = k < 2;
  double a = pick_angle(r, deg ? DEG : RAD), g = 0;
  if (r.chance(0.1)) a *= std::pow(10., r.range(2, 12));
  if (!deg && r.chance(0.1)) a = r.chance(0.5) ? M_PI : -M_PI;
  const bool whole = deg && a == std::floor(a);  // exact arithmetic: the interval is half open
  LD turn = deg ? 360 : 2 * PIL;
  switch (k) {
    case 0: g = Normalize_0_360(a); expect(g >= 0 && (whole ? g < 360 : g <= 360), "result", "Normalize_0_360 leaves its interval"); break;
    case 1: g = Normalize__180_180(a); expect((whole ? g > -180 : g >= -180) && g <= 180, "result", "Normalize__180_180 leaves its interval"); break;
    case 2: g = Normalize_0_2PI(a); expect(g >= 0 && g <= 2 * M_PI, "result", "Normalize_0_2PI leaves its interval"); break;
    case 3: g = Normalize__PI_PI(a); expect((std::fabs(a) == M_PI ? g > 0 : g >= -M_PI) && g <= M_PI, "result", "Normalize__PI_PI leaves its interval"); break;
    case 4: {
      ANGLE_UNIT u = STRING2ANGLE(r.chance(0.5) ? "DEG" : "RAD");
      double c = 7, s = 7;
      double b = pick_angle(r, u);
      _GetTrigo(b, c, s, u);
      LD t = u == DEG ? b * RADL : (LD) b;
      o.add(c), o.add(s);
      expect_close<double>("result", "cosine", c, D(cosl(t)), 1, 1e-14);
      expect_close<double>("result", "sine", s, D(sinl(t)), 1, 1e-14);
      return;
    }
    default: {
      double b = pick_angle(r, DEG);
      if (r.chance(0.1)) b *= std::pow(10., r.range(2, 12));
      o.add(modulo360(b)), o.add(modulo2pi(b));
      expect_close<double>("result", "modulo360", modulo360(b), std::fmod(b, 360.), 0, 0);
      expect_close<double>("result", "modulo2pi", modulo2pi(b), std::fmod(b, 2 * M_PI), 0, 0);
      return;
    }
  }
  o.add(g);
  LD t = ((LD) g - a) / turn;
  expect(fabsl(t - roundl(t)) < 1e-13L * (1 + fabsl(a)), "result", "a normalised angle differs by a fraction of a turn", k);
}
M rotation(LD roll, LD pitch, LD yaw) {
  M X = eye(3), Y = eye(3), Z = eye(3);
  X(1, 1) = X(2, 2) = cosl(roll), X(1, 2) = -sinl(roll), X(2, 1) = sinl(roll);
  Y(0, 0) = Y(2, 2) = cosl(pitch), Y(0, 2) = sinl(pitch), Y(2, 0) = -sinl(pitch);
  Z(0, 0) = Z(1, 1) = cosl(yaw), Z(0, 1) = -sinl(yaw), Z(1, 0) = sinl(yaw);
  return mul(Z, mul(Y, X));
}
M from_quat(LD w, LD x, LD y, LD z) {
  M m(3, 3);
  LD q[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
             2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)};
  for (int i = 0; i < 9; ++i) m.a[i] = q[i];
  return m;
}
void geometry(Rng &r, Out &o) {
  Eigen::Vector3d e(r.real(-3.1, 3.1), r.real(-1.5, 1.5), r.real(-3.1, 3.1));
  if (r.chance(0.3)) for (int i = 0; i < 3; ++i) e(i) = std::fmod(pick_angle(r, RAD), i == 1 ? 1.5 : 3.1);
  else for (int i = 0; i < 3; ++i) e(i) = tweaked(e(i));
  M want;
  { sim::Quiet q; want = rotation(e(0), e(1), e(2)); }
  switch (r.below(6)) {
    case 0: { auto R = eulerAnglesZYXToRotationMatrix(e); o.mat(R); sim::Quiet q; same("result", "Euler angles to matrix", of(R), want, 1, 1e-14L); break; }
    case 1: { auto Q = eulerAnglesZYXToQuaternion(e); o.add(Q.w()), o.add(Q.x()), o.add(Q.y()), o.add(Q.z());
      sim::Quiet q; same("result", "Euler angles to quaternion", from_quat(Q.w(), Q.x(), Q.y(), Q.z()), want, 1, 1e-14L); break; }
    case 2: {
      Eigen::Quaterniond Q = eulerAnglesZYXToQuaternion(e);
      if (r.chance(0.3)) Q.coeffs() = -Q.coeffs();
      auto R = quaternionToRotationMatrix(Q); o.mat(R);
      sim::Quiet q; same("result", "quaternion to matrix", of(R), want, 1, 1e-13L); break; }
    case 3: { Eigen::Matrix3d R; for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = (double) want.a[i];
      auto g = rotationMatrixToEulerAnglesZYX(R); o.mat(g);
      sim::Quiet q; same("result", "matrix to Euler angles", rotation(g(0), g(1), g(2)), want, 1, 1e-13L);
      expect_close<double>("result", "pitch from a matrix", g(1), e(1), 1, 1e-11); break; }
    case 4: { Eigen::Quaterniond Q = eulerAnglesZYXToQuaternion(e);
      auto g = quaternionToEulerAnglesZYX(Q); o.mat(g);
      sim::Quiet q; same("result", "quaternion to Euler angles", rotation(g(0), g(1), g(2)), want, 1, 1e-11L);
      expect_close<double>("result", "pitch from a quaternion", g(1), e(1), 1, 1e-9); break; }
    default: { Eigen::Matrix3d R; for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = (double) want.a[i];
      auto Q = RotationMatrixToQuaternion(R); o.add(Q.w()), o.add(Q.x()), o.add(Q.y()), o.add(Q.z());
      sim::Quiet q; same("result", "matrix to quaternion", from_quat(Q.w(), Q.x(), Q.y(), Q.z()), want, 1, 1e-13L); }
  }
}
void expect2(const char *what, const Vector2d<double> &g, LD x, LD y, double sc) {
  expect_close<double>("result", what, g(0), D(x), sc, 1e-13);
  expect_close<double>("result", what, g(1), D(y), sc, 1e-13);
}
void plane(Rng &r, Out &o) {
  double x = pick(r), y = pick(r);
  ANGLE_UNIT u = r.chance(0.5) ? DEG : RAD;
  double a = pick_angle(r, u);
  LD t = u == DEG ? a * RADL : (LD) a, c = cosl(t), s = sinl(t), nx = c * x - s * y, ny = s * x + c * y, lx = c * x + s * y, ly = -s * x + c * y;
  double sc = std::fabs(x) + std::fabs(y) + 1e-300;
  Vector2d<double> v(x, y), g;
  switch (r.below(9)) {
    case 0: v.ProjectLocalOnNED(a, u); g = v; expect2("ProjectLocalOnNED in place", g, nx, ny, sc); break;
    case 1: v.ProjectLocalOnNED(g, a, u); expect2("ProjectLocalOnNED", g, nx, ny, sc); expect(v(0) == x && v(1) == y, "result", "a projected vector changed"); break;
    case 2: v.ProjectNEDOnLocal(a, u); g = v; expect2("ProjectNEDOnLocal in place", g, lx, ly, sc); break;
    case 3: g = ProjectNEDOnLocal(v, a, u); expect2("ProjectNEDOnLocal", g, lx, ly, sc); expect(v(0) == x && v(1) == y, "result", "a projected vector changed"); break;
    case 4: g = ProjectLocalOnNED(v, a, u); expect2("ProjectLocalOnNED function", g, nx, ny, sc); break;
    case 5: {
      double q[8] = {v.ProjectOnNorthAxis(a, u), v.ProjectOnEastAxis(a, u), v.ProjectOnLocalXAxis(a, u), v.ProjectOnLocalYAxis(a, u),
                     ProjectOnNorthAxis(v, a, u), ProjectOnEastAxis(v, a, u), ProjectOnLocalXAxis(v, a, u), ProjectOnLocalYAxis(v, a, u)};
      LD w[4] = {nx, ny, lx, ly};
      for (int i = 0; i < 8; ++i) { o.add(q[i]); expect_close<double>("result", "projection on an axis", q[i], D(w[i % 4]), sc, 1e-13); }
      break;
    }
    case 6: g.SetNEDFromLocal(x, y, a, u); expect2("SetNEDFromLocal", g, nx, ny, sc); break;
    case 7: {
      LD f[3] = {1, 1852.0L / 3600, 1 / 3.6L};
      int i = (int) r.below(3), j = (int) r.below(3);
      g = GetNEDVelocityVector<double>(x, y, a, u, (SPEED_UNIT) i, (SPEED_UNIT) j);
      LD k = f[i] / f[j];
      expect2("GetNEDVelocityVector", g, nx * k, ny * k, D(sc * k));
      break;
    }
    default: {
      Vector2d<double> p(pick(r), pick(r));
      int fu = (int) r.below(6);
      double w = pick(r);
      if (w == 0) w = 2;
      LD wr = hd::unit_factor(RADS, to_hz(fu, w));
      if (r.chance(0.5)) v.TransportAtPoint(g, p, w, (FREQUENCY_UNIT) fu);
      else { v.TransportAtPoint(p, w, (FREQUENCY_UNIT) fu); g = v; }
      expect2("TransportAtPoint", g, x - p(1) * wr, y + p(0) * wr, sc + D((fabsl(p(0)) + fabsl(p(1))) * fabsl(wr)));
      auto h = TransportAtPoint(Vector2d<double>(x, y), p, w, (FREQUENCY_UNIT) fu);
      expect(h(0) == g(0) && h(1) == g(1), "result", "the forms of TransportAtPoint differ");
      break;
    }
  }
  o.add(g(0)), o.add(g(1)), o.add(g.infNorm());
  expect(g.infNorm() == std::max(std::fabs(g(0)), std::fabs(g(1))), "result", "Vector2d infNorm");
  Vector2d<double> z;
  expect(z(0) == 0 && z(1) == 0, "result", "a new Vector2d is not null");
}
void space(Rng &r, Out &o) {
  Vector3d<double> a(pick(r), pick(r), pick(r)), b(pick(r), pick(r), pick(r));
  Vector6d<double> c(pick(r), pick(r), pick(r), pick(r), pick(r), pick(r)), d(pick(r), pick(r), pick(r), pick(r), pick(r), pick(r));
  ANGLE_UNIT u = r.chance(0.5) ? DEG : RAD;
  LD k = u == DEG ? 1 / RADL : 1;
  switch (r.below(6)) {
    case 0: {
      double g[3] = {a.GetProjectedAngleAroundX(u), a.GetProjectedAngleAroundY(u), a.GetProjectedAngleAroundZ(u)};
      LD w[3] = {atan2l(a(2), a(1)), atan2l(a(0), a(2)), atan2l(a(1), a(0))};
      for (int i = 0; i < 3; ++i) { o.add(g[i]); expect_close<double>("result", "projected angle", g[i], D(w[i] * k), 0, 1e-13); }
      break;
    }
    case 1: {
      auto m = outer(a, b);
      o.mat(m);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) expect_close<double>("result", "outer 3", m(i, j), a(i) * b(j), 0, 1e-14);
      auto q = outer(a);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) expect_close<double>("result", "outer 3", q(i, j), a(i) * a(j), 0, 1e-14);
      double g = inner(a, b);
      LD w = 0, sc = 0;
      for (int i = 0; i < 3; ++i) w += (LD) a(i) * b(i), sc += fabsl((LD) a(i) * b(i));
      o.add(g);
      expect_close<double>("result", "inner 3", g, D(w), D(sc), 1e-14);
      break;
    }
    case 2: {
      auto m = outer(c, d);
      o.mat(m);
      for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) expect_close<double>("result", "outer 6", m(i, j), c(i) * d(j), 0, 1e-14);
      double g = inner(c, d);
      LD w = 0, sc = 0;
      for (int i = 0; i < 6; ++i) w += (LD) c(i) * d(i), sc += fabsl((LD) c(i) * d(i));
      o.add(g);
      expect_close<double>("result", "inner 6", g, D(w), D(sc), 1e-14);
      break;
    }
    case 3: {
      LD n = sqrtl((LD) a(0) * a(0) + (LD) a(1) * a(1) + (LD) a(2) * a(2));
      if (n == 0) break;
      Vector3d<double> v = a;
      v.Normalize();
      o.mat(v);
      for (int i = 0; i < 3; ++i) expect_close<double>("result", "Normalize", v(i), D(a(i) / n), 1, 1e-14);
      expect(v.IsUnit(), "result", "a normalised vector is not a unit vector");
      if (fabsl(n - 1) > 1e-3L) expect(!a.IsUnit(), "result", "IsUnit of a longer vector");
      break;
    }
    case 4: {
      double m = 0, q = 0;
      for (int i = 0; i < 3; ++i) m = std::max(m, std::fabs(a(i)));
      for (int i = 0; i < 6; ++i) q = std::max(q, std::fabs(c(i)));
      o.add(a.infNorm()), o.add(c.infNorm());
      expect(a.infNorm() == m && c.infNorm() == q, "result", "infNorm of a vector");
      break;
    }
    default: {
      Vector3d<double> a2 = a;
      Vector6d<double> c2 = c;
      expect(a2.IsEqual(a) && c2.IsEqual(c), "result", "a copy is not equal");
      a2.at(1) += 1 + std::fabs(a2.at(1));
      c2.at(5) += 1 + c2.lpNorm<1>();
      expect(!a2.IsEqual(a) || a.norm() > 1e6, "result", "different vectors are equal");
      expect(!c2.IsEqual(c), "result", "different vectors are equal");
      Vector2d<double> e2;
      VectorN<double> f2(6);
      a2 = 2 * a - b, c2 = 2 * c - d, e2 = a.head<2>() + b.tail<2>(), f2 = c - 0.5 * d;    // Eigen expressions assigned
      for (int i = 0; i < 3; ++i) expect_close<double>("result", "an expression assigned to a vector", a2(i), D(2 * (LD) a(i) - b(i)), std::fabs(a(i)) + std::fabs(b(i)), 1e-15);
      for (int i = 0; i < 6; ++i) expect_close<double>("result", "an expression assigned to a vector", c2(i), D(2 * (LD) c(i) - d(i)), std::fabs(c(i)) + std::fabs(d(i)), 1e-15);
      for (int i = 0; i < 2; ++i) expect_close<double>("result", "an expression assigned to a vector", e2(i), D((LD) a(i) + b(i + 1)), std::fabs(a(i)) + std::fabs(b(i + 1)), 1e-15);
      for (int i = 0; i < 6; ++i) expect_close<double>("result", "an expression assigned to a vector", f2(i), D((LD) c(i) - (LD) d(i) / 2), std::fabs(c(i)) + std::fabs(d(i)), 1e-15);
      o.mat(a2), o.mat(c2), o.mat(e2), o.mat(f2);
      a2.SetNull(), c2.SetNull();
      for (int i = 0; i < 3; ++i) expect(a2.at(i) == 0, "result", "SetNull");
      for (int i = 0; i < 6; ++i) expect(c2.at(i) == 0, "result", "SetNull");
    }
  }
}
void stdvec(Rng &r, Out &o) {
  size_t n = pick_n(r);
  auto a = picks(r, n), b = picks(r, n);
  double s = pick(r);
  std::vector<double> g, w(n);
  const char *what = "";
  switch (r.below(9)) {
    case 0: g = Add(a, b); what = "Add"; for (size_t i = 0; i < n; ++i) w[i] = a[i] + b[i]; break;
    case 1: g = AddScalar(a, s); what = "AddScalar"; for (size_t i = 0; i < n; ++i) w[i] = a[i] + s; break;
    case 2: g = Minus(a, b); what = "Minus"; for (size_t i = 0; i < n; ++i) w[i] = a[i] - b[i]; break;
    case 3: g = Mult(a, b); what = "Mult"; for (size_t i = 0; i < n; ++i) w[i] = a[i] * b[i]; break;
    case 4: for (auto &e : b) if (e == 0) e = 1; g = Divide(a, b); what = "Divide"; for (size_t i = 0; i < n; ++i) w[i] = a[i] / b[i]; break;
    case 5: g = a; Scale(g, s); what = "Scale"; for (size_t i = 0; i < n; ++i) w[i] = a[i] * s; break;
    case 6: g = a; Negate(g); what = "Negate"; for (size_t i = 0; i < n; ++i) w[i] = -a[i]; break;
    case 7: { for (auto &e : a) e = std::fabs(e) + 0.1; double p = r.range(-2, 3); g = a; Pow(g, p); what = "Pow"; for (size_t i = 0; i < n; ++i) w[i] = std::pow(a[i], p); break; }
    default: {
      LD t = 0, sc = 0;
      for (double e : a) t += e, sc += fabsl(e);
      double q = Sum(a);
      o.add(q);
      expect_close<double>("result", "Sum", q, D(t), D(sc), 1e-13);
      return;
    }
  }
  o.vec(g);
  expect(g.size() == n, "result", "length of a vector result");
  for (size_t i = 0; i < n; ++i) expect_close<double>("result", what, g[i], w[i], 0, 1e-14);
}
void signals(Rng &r, Out &o) {
  int n = std::max(2, (int) pick_n(r));
  double x0 = pick(r), x1 = x0 + std::fabs(pick(r)) + 0.5;
  std::vector<double> x = linspace<double>(x0, x1, n), g;
  double xs = std::max(std::fabs(x0), std::fabs(x1));
  expect((int) x.size() == n && x.front() == x0 && x.back() == x1, "result", "linspace: ends or length");
  for (int i = 0; i < n; ++i) expect_close<double>("result", "linspace", x[i], D(x0 + ((LD) x1 - x0) * i / (n - 1)), xs, 1e-14);
  o.vec(x);
  auto q = gen_coords(r, n);
  const int which = (int) r.below(8);
  auto qs = q;
  if (which >= 1 && which <= 3 && r.chance(0.4)) {    // in any order, the same point more than once
    for (double &e : qs) e = q[r.below(n)];
    if (which == 3) qs.front() = q.front(), qs.back() = q.back(), std::sort(qs.begin(), qs.end());
  }
  switch (which) {
    case 0: {
      auto xx = picks(r, n);
      g = Sinc(xx);
      for (int i = 0; i < n; ++i) expect_close<double>("result", "Sinc", g[i], xx[i] == 0 ? 1 : D(sinl(xx[i]) / xx[i]), 1e-12, 1e-13);
      break;
    }
    case 1: {
      double st = r.chance(0.5) ? q[r.below(n)] : pick(r);
      g = Heaviside(qs, st);
      for (int i = 0; i < n; ++i) expect(g[i] == (qs[i] < st ? 0. : qs[i] > st ? 1. : 0.5), "result", "Heaviside", i);
      break;
    }
    case 2: {
      double a = gen_in(r, q), b = gen_in(r, q), h = pick(r);
      if (a > b) std::swap(a, b);
      g = Door(qs, a, b, h);
      for (int i = 0; i < n; ++i) {
        double w = (qs[i] < a ? 0 : qs[i] > a ? 1 : 0.5) - (qs[i] < b ? 0 : qs[i] > b ? 1 : 0.5);
        expect_close<double>("result", "Door", g[i], w * h, 0, 1e-14);
      }
      break;
    }
    case 3: {
      double a = gen_in(r, q), b = gen_in(r, q), yl = pick(r), yr = pick(r);
      if (a > b) std::swap(a, b);
      if (!(b - a > 1e-6 * (std::fabs(a) + std::fabs(b)))) return;
      g = Ramp(qs, a, b, yl, yr);
      double sc = (std::fabs(yl) + std::fabs(yr)) * (1 + (std::fabs(a) + std::fabs(b)) / (b - a));
      for (int i = 0; i < n; ++i) {
        LD w = qs[i] <= a ? yl : qs[i] > b ? yr : yl + ((LD) yr - yl) * ((LD) qs[i] - a) / ((LD) b - a);
        expect_close<double>("result", "Ramp", g[i], D(w), sc, 1e-13);
      }
      break;
    }
    case 4: {
      const bool unit_step = r.chance(0.2);
      double st = r.range(-5, 5), step = unit_step ? 1. : r.real(0.1, 2), k = r.range(1, 12), sp = st + (k - 0.5) * step;
      if (!unit_step && r.chance(0.5)) step = r.range(1, 12) * 0.25, sp = st + k * step;      // exact: the stop itself is left out
      else if (r.chance(0.3)) sp = st + (k - 1 + 1e-6) * step;
      g = unit_step ? arange<double>(st, sp) : arange<double>(st, sp, step);
      expect(g.size() == (size_t) k, "result", "length of arange", (long) g.size(), (long) k);
      for (size_t i = 0; i < g.size(); ++i) expect_close<double>("result", "arange", g[i], D(st + (LD) step * i), 10, 1e-14);
      break;
    }
    case 5: {
      double a = r.real(-3, 1), b = a + r.real(0, 3), base = r.chance(0.5) ? 10 : 2;
      g = r.chance(0.5) && base == 10 ? logspace<double>(a, b, n) : logspace<double>(a, b, n, base);
      expect((int) g.size() == n, "result", "length of logspace");
      for (int i = 0; i < n; ++i) expect_close<double>("result", "logspace", g[i], D(powl(base, a + ((LD) b - a) * i / (n - 1))), 0, 1e-12);
      break;
    }
    case 6: {
      auto xx = linspace<double>(-1, 1 + r.unit(), n);
      int k = (int) r.below(n);
      double h = pick(r);
      g = Dirac(xx, xx[k], h);
      for (int i = 0; i < n; ++i) expect(g[i] == (i == k ? h : 0), "result", "Dirac", i, k);
      break;
    }
    default: {
      g = Sinc<double>(x0, x1, n);
      for (int i = 0; i < n; ++i) expect_close<double>("result", "Sinc on a range", g[i], x[i] == 0 ? 1 : D(sinl(x[i]) / x[i]), 1e-12, 1e-13);
    }
  }
  o.vec(g);
}
void complexes(Rng &r, Out &o) {
  size_t n = pick_n(r);
  std::vector<cplx> z(n);
  for (auto &e : z) { double a = pick(r), b = pick(r); e = cplx(a, b); }
  std::vector<double> g;
  ANGLE_UNIT u = r.chance(0.5) ? DEG : RAD;
  int k = (int) r.below(4);
  switch (k) {
    case 0: g = Real(z); break;
    case 1: g = Imag(z); break;
    case 2: g = Amplitude(z); break;
    default: g = Phase(z, u);
  }
  o.vec(g);
  expect(g.size() == n, "result", "length of a complex helper's result");
  for (size_t i = 0; i < n; ++i) {
    LD x = z[i].real(), y = z[i].imag();
    LD w = k == 0 ? x : k == 1 ? y : k == 2 ? sqrtl(x * x + y * y) : atan2l(y, x) * (u == DEG ? 1 / RADL : 1);
    expect_close<double>("result", "complex helper", g[i], D(w), 1e-300, 1e-13);
  }
}
double integrand_a(double x) { return 3 * x * x - x; }
double integrand_b(double x) { return cos(x) + 2; }
void sums(Rng &r, Out &o) {
  size_t n = std::max<size_t>(2, pick_n(r));
  auto y = picks(r, n);
  double g;
  LD w = 0, sc = 0;
  switch (r.below(4)) {
    case 0: {
      double dx = std::fabs(pick(r)) + 0.1;
      g = Trapz(y, dx);
      for (size_t i = 0; i + 1 < n; ++i) w += 0.5L * dx * ((LD) y[i] + y[i + 1]), sc += fabsl(dx * y[i]) + fabsl(dx * y[i + 1]);
      break;
    }
    case 1: {
      auto x = gen_coords(r, (int) n);
      g = Trapz(x, y);
      for (size_t i = 0; i + 1 < n; ++i) {
        LD dx = (LD) x[i + 1] - x[i];
        w += 0.5L * dx * ((LD) y[i] + y[i + 1]);
        sc += (fabsl(dx) + fabsl(x[i]) * 1e-3L) * (fabsl(y[i]) + fabsl(y[i + 1]));
      }
      break;
    }
    case 2: {
      double dt = std::fabs(pick(r)) + 0.1;
      bool rev = r.chance(0.5);
      boost::circular_buffer<double> s(n + 3);
      int m = (int) n + r.range(0, 6);
      for (int i = 0; i < m; ++i) { if (r.chance(0.7)) s.push_front(pick(r)); else s.push_back(pick(r)); }
      while (s.size() < n) s.push_front(0.25);
      g = NaiveConvolution(y, s, dt, rev);
      std::vector<LD> p(n);
      for (size_t i = 0; i < n; ++i) p[i] = (LD) y[i] * (rev ? s[i] : s[n - 1 - i]);
      for (size_t i = 0; i + 1 < n; ++i) w += 0.5L * dt * (p[i] + p[i + 1]), sc += dt * (fabsl(p[i]) + fabsl(p[i + 1]));
      break;
    }
    default: {
      double a = pick(r), b = a + std::fabs(pick(r)) + 0.1;
      int np = r.range(2, 12);
      bool fa = r.chance(0.5);
      if (fabs(a) > 50) a = 1, b = 2;
      Integrate1d<double> I(fa ? integrand_a : integrand_b, a, b, np);
      g = I.Get();
      LD h = ((LD) b - a) / (np - 1);
      for (int i = 0; i < np; ++i) {
        LD x = a + h * i, v = fa ? 3 * x * x - x : cosl(x) + 2;
        w += (i == 0 || i == np - 1 ? 0.5L : 1) * h * v;
        sc += h * (fabsl(v) + 1) * (1 + fabsl(x) * (1 + fabsl(x)));
      }
      o.add(g);
      expect_close<double>("result", "Integrate1d", g, D(w), D(sc), 1e-10);
      return;
    }
  }
  o.add(g);
  expect_close<double>("result", "trapezoidal or convolution sum", g, D(w), D(sc), 1e-12);
}
void polys(Rng &r, Out &o) {
  auto c = picks(r, pick_n(r)), c0 = c;
  double x = std::fmod(pick(r), 3.0);
  LD v = 0, d = 0, m = 0, p = 1, dp = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    v += c[i] * p, d += c[i] * dp, m += fabsl(c[i]) * (fabsl(p) + fabsl(dp));
    dp = dp * x + p, p *= x;
  }
  double g = Horner<double>(c, x), h = Horner_derivative<double>(c, x);
  o.add(g), o.add(h);
  expect_close<double>("result", "Horner", g, D(v), D(m), 1e-12);
  expect_close<double>("result", "Horner_derivative", h, D(d), D(m) * c.size(), 1e-12);
  expect(c == c0, "result", "Horner changed its coefficients");
  cplx z(x, 0.5);
  cplx gz = Horner<cplx>(c, z), wz = 0;
  double sc = 0, pw = 1;
  cplx pz = 1;
  for (double e : c) wz += e * pz, sc += std::fabs(e) * pw, pz *= z, pw *= std::abs(z);
  o.add(gz.real()), o.add(gz.imag());
  expect_close<cplx>("result", "complex Horner", gz, wz, sc, 1e-12);
}
void scalars(Rng &r, Out &o) {
  double v = pick(r), a = pick(r), b = pick(r);
  if (a > b) std::swap(a, b);
  double s = Saturate(v, a, b), q = SgnSqrt(v);
  int g = sgn(v);
  o.add(s), o.add(q), o.add(g);
  expect(s == std::min(std::max(v, a), b), "result", "Saturate");
  expect(g == (v > 0) - (v < 0), "result", "sgn");
  expect_close<double>("result", "SgnSqrt", q, D((v < 0 ? -1 : 1) * sqrtl(fabsl(v))), 0, 1e-14);
  bool c = IsClose(v, a), w = std::fabs(v - a) <= 1e-8 + 1e-5 * std::fabs(a);
  expect(c == w, "result", "IsClose");
  std::vector<double> x, y;
  int n = (int) r.below(5), at = (int) r.below(5);
  for (int i = 0; i < n; ++i) x.push_back(pick(r)), y.push_back(x[i] * (1 + 3e-6));
  if (at < n) y[at] = x[at] * (1 + 3e-5) + std::copysign(1e-3, x[at]);
  expect(IsClose(x, y) == (at >= n), "result", "IsClose of vectors");
  if (at < n) expect(IsClose(x, y, 1., 1.), "result", "IsClose of vectors with wide tolerances");
  else AssertIsClose(x, y), AssertIsClose(v, v);
  int k = r.range(-9, 9);
  expect(is_odd(k) == ((k & 1) != 0) && is_even(k) == ((k & 1) == 0), "result", "is_odd, is_even");
  unsigned p = (unsigned) r.below(31);
  expect(Pow2(p) == 1u << p, "result", "Pow2");
}

}  // namespace
const Kernel kinds[] = {units, unit_vectors, angles, geometry, plane, space, stdvec, signals, complexes, sums, polys, matrices, matrices, fourier, scalars};
const char *const kname[] = {"unit conversion", "vector unit conversion", "angle", "rotation", "plane vector", "space vector", "vector arithmetic",
                       "signal", "complex helper", "integral sum", "polynomial", "matrix", "matrix", "Fourier transform", "scalar helper"};
const int NK = sizeof kinds / sizeof *kinds;
void make_pool(Rng &w) {
  for (auto &e : pool.ang) e = w.chance(0.4) ? w.range(-8, 8) * 45 : w.real(-400, 400);
  for (auto &e : pool.val) e = gen_val(w);
  for (auto &e : pool.n) e = w.range(1, 10);
}
