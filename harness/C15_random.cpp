// Randomised matrices and vectors: reproducible from the generator's state, in range, complete.
#include "common.h"
#include "MathUtils/MathUtils.h"
#include <memory>
using namespace mathutils;
using namespace hc;
const char *harness_name = "C15";

namespace {
typedef std::vector<double> Vals;
struct Thing {
  int rows = 0, cols = 0;
  virtual ~Thing() {}
  virtual void randomize() = 0;
  virtual void fill(double v) = 0;
  virtual Vals get() const = 0;                       // every real number inside, in order
  virtual int r() const = 0;
  virtual int c() const = 0;
  virtual std::unique_ptr<Thing> copy() const = 0;
};
inline void split(Vals &o, double v) { o.push_back(v); }
inline void split(Vals &o, float v) { o.push_back(v); }
inline void split(Vals &o, cplx v) { o.push_back(v.real()), o.push_back(v.imag()); }
inline void same_val(double &d, double v) { d = v; }
inline void same_val(float &d, double v) { d = (float) v; }
inline void same_val(cplx &d, double v) { d = cplx(v, -v); }
template<class T>
struct Is : Thing {
  T t;
  explicit Is(const T &i) : t(i) { rows = (int) t.rows(), cols = (int) t.cols(); }
  void randomize() override { t.Randomize(); }
  void fill(double v) override { for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) same_val(t(i, j), v); }
  Vals get() const override {
    Vals o;
    for (int i = 0; i < (int) t.rows(); ++i) for (int j = 0; j < (int) t.cols(); ++j) split(o, t(i, j));
    return o;
  }
  int r() const override { return (int) t.rows(); }
  int c() const override { return (int) t.cols(); }
  std::unique_ptr<Thing> copy() const override { return std::unique_ptr<Thing>(new Is<T>(t)); }
};
const char *kinds[] = {"MatrixMN", "MatrixMN of floats", "complex MatrixMN", "VectorN", "VectorN of floats", "complex VectorN", "Matrix33", "Matrix66"};
const int NK = 8;
std::unique_ptr<Thing> make(Rng &r, int k) {
  sim::Quiet q;
  int n = r.chance(0.04) ? 0 : r.chance(0.1) ? r.range(10, 24) : r.range(1, 7), m = n == 0 ? 0 : r.range(1, 9);
  if (r.chance(0.02)) n = k < 3 ? r.range(20, 40) : r.range(100, 300);
  typedef std::unique_ptr<Thing> P;
  switch (k) {
    case 0: return P(new Is<MatrixMN<double>>(MatrixMN<double>(n, m)));
    case 1: return P(new Is<MatrixMN<float>>(MatrixMN<float>(n, m)));
    case 2: return P(new Is<MatrixMN<cplx>>(MatrixMN<cplx>(n, m)));
    case 3: return P(new Is<VectorN<double>>(VectorN<double>(n)));
    case 4: return P(new Is<VectorN<float>>(VectorN<float>(n)));
    case 5: return P(new Is<VectorN<cplx>>(VectorN<cplx>(n)));
    case 6: return P(new Is<Matrix33<double>>(Matrix33<double>()));
    default: return P(new Is<Matrix66<double>>(Matrix66<double>()));
  }
}
void in_range(const Thing &t, const char *what) {
  sim::oracle();
  if (t.r() != t.rows || t.c() != t.cols) sim::violation("size", "%s: the size changed from %dx%d to %dx%d", what, t.rows, t.cols, t.r(), t.c());
  Vals v = t.get();
  for (size_t i = 0; i < v.size(); ++i)
    if (!(v[i] >= -1 && v[i] <= 1)) sim::violation("range", "%s: number %d of %d is %.17g", what, (int) i, (int) v.size(), v[i]);
}
void same_vals(const Vals &a, const Vals &b, const char *what) {
  sim::oracle();
  for (size_t i = 0; i < a.size(); ++i)
    if (!sim::same_bits(a[i], b[i])) sim::violation("reproducible", "%s: number %d is %.17g instead of %.17g", what, (int) i, b[i], a[i]);
}
sim::u64 clocks0, entropy0;
void only_rand(const char *what) {
  sim::oracle();
  if (sim::clock_reads() != clocks0 || sim::entropy_reads() != entropy0) sim::violation("source", "%s read the clock or an entropy source", what);
}
// one draw from a given state of the generator; the fill shows numbers that were not drawn
void draw(int op, Thing &t, int mode, sim::u64 state, double fill, const char *what, bool faults = false) {
  { sim::Quiet q; t.fill(fill); }
  sim::rand_mode(mode, state);
  for (int i = 0; i < 2; ++i) {
    auto f = [&] { t.randomize(); };
    sim::Outcome o = faults && i == 0 ? sim::api(op, f) : sim::plain(op, f);
    if (o.ok()) break;
    if (!o.fired) sim::violation("history", "%s failed although nothing went wrong: %s", what, o.what);
    sim::Quiet q;
    sim::oracle();
    if (t.r() != t.rows || t.c() != t.cols) sim::violation("size", "%s: the size changed by a failure", what);
    sim::rand_mode(mode, state);
    t.fill(fill);
  }
  sim::Quiet q;
  in_range(t, what);
  only_rand(what);
}

void alone(int op, Rng r) {
  int k = (int) r.below(NK);
  const char *w = kinds[k];
  std::unique_ptr<Thing> t = make(r, k);
  sim::u64 s = r.next(), s2 = r.next();
  size_t n = t->get().size();
  sim::note_work((sim::u64) k * 1000 + n);
  sim::log("op %d: %s of %d numbers", op, w, (int) n);
  // extreme and mixed generators
  int mode = (int) r.below(5);
  draw(op * 10, *t, mode, s, r.chance(0.5) ? 7.5 : -1e300, w, true);
  Vals a = t->get();
  std::unique_ptr<Thing> c;
  { sim::Quiet q; c = t->copy(); }
  draw(op * 10 + 1, *t, mode, s, 3, w, true);                     // the same state again
  { sim::Quiet q; same_vals(a, t->get(), w); same_vals(a, c->get(), "a copy changed when the original was randomised"); }
  if (mode == 1 || mode == 2) sim::probe("extreme draws");
  // the ordinary generator
  Vals prev[3];
  draw(op * 10 + 2, *t, 0, s, 5, w);
  prev[0] = t->get();
  draw(op * 10 + 3, *t, 0, s2, 5, w);
  prev[1] = t->get();
  sim::Quiet q;
  sim::oracle();
  if (n >= 2 && prev[0] == prev[1]) sim::violation("reproducible", "%s: another state of the generator gives the same %d numbers", w, (int) n);
  std::unique_ptr<Thing> u = make(r, k);
  std::vector<Vals> seen = {prev[0], prev[1]};
  sim::rand_mode(0, s);
  for (int i = 0; i < 6; ++i) {
    // without filling in between: each number must be drawn anew every time
    sim::Outcome o = sim::plain(op * 10 + 4, [&] { t->randomize(); });
    if (!o.ok()) sim::violation("history", "%s failed although nothing went wrong: %s", w, o.what);
    in_range(*t, w);
    seen.push_back(t->get());
    if (i == 0) same_vals(prev[0], seen.back(), w);
  }
  sim::oracle();
  for (size_t j = 0; j < n; ++j) {
    // seen[2..7] are consecutive draws: a number that never moves was not redrawn (chance 2^-100 even for floats)
    bool moves = false;
    for (size_t i = 3; i < seen.size(); ++i) moves |= seen[i][j] != seen[2][j];
    if (!moves) sim::violation("redrawn", "%s: number %d of %d is not redrawn", w, (int) j, (int) n);
  }
  for (size_t j = 0; j < n; ++j)
    for (size_t l = j + 1; l < n; l += n > 100 && l > j + 16 ? 1 + (l - j) / 4 : 1) {
      bool same = true, opposite = true;
      for (auto &v : seen) same &= v[j] == v[l], opposite &= v[j] == -v[l];
      if (same || opposite) sim::violation("redrawn", "%s: numbers %d and %d of %d always move together", w, (int) j, (int) l, (int) n);
    }
  if (n * 8 >= 160) {
    int quarter[4] = {0, 0, 0, 0};
    for (auto &v : seen) for (double x : v) quarter[std::min(3, (int) ((x + 1) * 2))]++;
    for (int i = 0; i < 4; ++i) if (!quarter[i]) sim::violation("range", "%s: none of %d numbers in quarter %d of [-1, 1]", w, (int) n * 8, i);
  }
}

// one thread randomises while others work
void among_others(Rng r) {
  int k = (int) r.below(NK);
  const char *w = kinds[k];
  std::unique_ptr<Thing> t = make(r, k), t2;
  sim::u64 s = r.next();
  sim::note_work(90000 + k);
  draw(1, *t, 0, s, 7, w);
  Vals first = t->get(), second;
  { auto o = sim::plain(1, [&] { t->randomize(); }); (void) o; }
  second = t->get();
  bool two = r.chance(0.3);
  if (two) t2 = make(r, (int) r.below(NK)), t2->fill(9);
  MatrixMN<double> A(3, 3);
  for (int i = 0; i < 9; ++i) A(i / 3, i % 3) = r.real(-1, 1) + (i % 4 == 0 ? 4 : 0);
  MatrixMN<double> inv = A.GetInverse(), sq = A * A;
  { sim::Quiet q; t->fill(7); }
  sim::rand_mode(0, s);
  std::vector<std::function<void()>> fns;
  fns.push_back([&] {
    for (int i = 0; i < 2; ++i) {
      t->randomize();
      sim::Quiet q;
      in_range(*t, w);
      if (!two) same_vals(i == 0 ? first : second, t->get(), "randomised while other threads work");
    }
  });
  int n = r.range(1, 3);
  for (int i = 0; i < n; ++i)
    fns.push_back([&, i] {
      if (!sim::op_enabled(100 + i)) return;
      if (i == 0 && two) {
        t2->randomize();
        sim::Quiet q;
        in_range(*t2, "randomised by a second thread");
        return;
      }
      MatrixMN<double> X = A.GetInverse(), Y = A * A;
      sim::Quiet q;
      sim::oracle();
      for (int j = 0; j < 9; ++j)
        if (!sim::same_bits(X(j / 3, j % 3), inv(j / 3, j % 3)) || !sim::same_bits(Y(j / 3, j % 3), sq(j / 3, j % 3)))
          sim::violation("others", "a thread working beside a randomising one gets other results");
    });
  sim::run_threads(fns);
  only_rand(w);
  sim::probe(two ? "two randomising threads" : "randomised beside other threads");
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  sim::set_rates(w.chance(0.5) ? 0.6 : 0, 0, 0);
  sim::set_heap_reuse(w.chance(0.5));
  clocks0 = sim::clock_reads(), entropy0 = sim::entropy_reads();
  if (w.chance(0.35)) among_others(Rng(w.next()));
  else {
    int n = w.range(1, 3);
    for (int i = 1; i <= n; ++i) if (sim::op_enabled(i)) alone(i, sim::op_rng(i));
  }
}
