// Printing and diagnostics on streams that stop, throw or come back, and while memory fails.
#include "streams.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include <iomanip>
#include <sstream>
using namespace mathutils;
using namespace hc;
const char *harness_name = "C14";

namespace {
hs::FaultBuf out, err;

double odd_val(Rng &r) {
  switch (r.below(14)) {
    case 0: return std::numeric_limits<double>::infinity();
    case 1: return -std::numeric_limits<double>::infinity();
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return -0.;
    case 4: return 5e-324;
    case 5: return 1.7976931348623157e308;
    case 6: return 1. / 3;
    case 7: return 123456789.;
    case 8: return -1e-5;
    default: return gen_val(r);
  }
}
void draw(Rng &r, double &v) { v = odd_val(r); }
void draw(Rng &r, cplx &v) { double a = odd_val(r), b = odd_val(r); v = cplx(a, b); }

struct Thing {                        // something printable
  int rows = 0, cols = 0;
  virtual ~Thing() {}
  virtual void print(const std::string &name) const = 0;
  virtual cplx get(int i, int j) const = 0;          // through the library's const accessor
  virtual void raw(std::vector<char> &b) const = 0;  // the object's own bytes and its coefficients
  virtual std::string coeff(int i, int j, const std::ios &fmt) const = 0;   // naive rendering
};
template<class S> cplx pick(const MatrixMN<S> &m, int i, int j) { return m.at(i, j); }
template<class S> cplx pick(const Matrix33<S> &m, int i, int j) { return m.at(i, j); }
template<class S> cplx pick(const Matrix66<S> &m, int i, int j) { return m.at(i, j); }
template<class V> cplx pick(const V &v, int i, int) { return v.at(i); }
template<class T, class S>
struct Is : Thing {
  T t;
  std::vector<S> v;                   // what was put in, row by row
  Is(Rng &r, T init) : t(init) {
    rows = (int) t.rows(), cols = (int) t.cols();
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
      S s;
      draw(r, s);
      v.push_back(s);
      t(i, j) = s;
    }
  }
  void print(const std::string &name) const override { t.print(name); }
  cplx get(int i, int j) const override { return pick(t, i, j); }
  void raw(std::vector<char> &b) const override {
    const char *p = (const char *) &t;
    b.assign(p, p + sizeof t);
    p = (const char *) t.data();
    b.insert(b.end(), p, p + sizeof(S) * t.size());
  }
  std::string coeff(int i, int j, const std::ios &fmt) const override {
    std::ostringstream s;
    s.flags(fmt.flags());
    s.precision(fmt.precision());
    s << v[(size_t) i * cols + j];
    return s.str();
  }
};
const char *kinds[] = {"MatrixMN", "complex MatrixMN", "VectorN", "complex VectorN", "Vector2d", "Vector3d", "Vector6d", "Matrix33", "Matrix66"};
std::unique_ptr<Thing> make(Rng &r, int k) {
  sim::Quiet q;
  int n = r.chance(0.08) ? 0 : tail(r, 1, 6, 40, 0.06), m = n == 0 ? 0 : tail(r, 1, 6, 40, 0.06);
  switch (k) {
    case 0: return std::unique_ptr<Thing>(new Is<MatrixMN<double>, double>(r, MatrixMN<double>(n, m)));
    case 1: return std::unique_ptr<Thing>(new Is<MatrixMN<cplx>, cplx>(r, MatrixMN<cplx>(n, m)));
    case 2: return std::unique_ptr<Thing>(new Is<VectorN<double>, double>(r, VectorN<double>(n)));
    case 3: return std::unique_ptr<Thing>(new Is<VectorN<cplx>, cplx>(r, VectorN<cplx>(n)));
    case 4: return std::unique_ptr<Thing>(new Is<Vector2d<double>, double>(r, Vector2d<double>()));
    case 5: return std::unique_ptr<Thing>(new Is<Vector3d<double>, double>(r, Vector3d<double>()));
    case 6: return std::unique_ptr<Thing>(new Is<Vector6d<double>, double>(r, Vector6d<double>()));
    case 7: return std::unique_ptr<Thing>(new Is<Matrix33<double>, double>(r, Matrix33<double>()));
    default: return std::unique_ptr<Thing>(new Is<Matrix66<double>, double>(r, Matrix66<double>()));
  }
}

struct Format {                       // a stream's formatting state
  std::ios_base::fmtflags flags;
  std::streamsize precision, width;
  char fill;
  std::ios_base::iostate except;
  std::streambuf *buf;
  static Format of(std::ostream &o) { return {o.flags(), o.precision(), o.width(), o.fill(), o.exceptions(), o.rdbuf()}; }
  void put(std::ostream &o) const { o.flags(flags), o.precision(precision), o.width(width), o.fill(fill); }
};
// threw: the stream gave up inside an item; how wide that item was to be, and its filling, is nobody's concern then
void same_format(std::ostream &o, const Format &f, bool threw, const char *what) {
  sim::oracle();
  Format g = Format::of(o);
  if (g.flags != f.flags) sim::violation("format", "%s: the stream's flags changed from %x to %x", what, (int) f.flags, (int) g.flags);
  if (g.precision != f.precision) sim::violation("format", "%s: the stream's precision changed from %d to %d", what, (int) f.precision, (int) g.precision);
  if (g.buf != f.buf) sim::violation("format", "%s: the stream's buffer was replaced", what);
  if (g.except != f.except) sim::violation("format", "%s: the stream's exception mask changed", what);
  if (!threw && g.width != f.width) sim::violation("format", "%s: the stream's width changed from %d to %d", what, (int) f.width, (int) g.width);
  if (!threw && g.fill != f.fill) sim::violation("format", "%s: the stream's fill character changed from %d to %d", what, f.fill, g.fill);
}
std::vector<std::vector<std::string>> tokens(const std::string &s, bool glue) {
  std::vector<std::vector<std::string>> rows;
  std::istringstream all(s);
  std::string line, t;
  while (std::getline(all, line)) {
    std::istringstream l(line);
    std::vector<std::string> row;
    while (l >> t) { if (glue && !row.empty()) row[0] += t; else row.push_back(t); }
    if (!row.empty()) rows.push_back(row);
  }
  return rows;
}
std::string shown(const std::string &s) {
  std::string t;
  for (char c : s) if (c == '\n') t += "\\n"; else if (c == '\t') t += "\\t"; else t += c;
  return t.size() > 300 ? t.substr(0, 300) + "..." : t;
}
bool is_prefix(const std::string &p, const std::string &s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }
std::string squeezed(const std::string &s) {
  std::string t;
  for (char c : s) if (c != ' ') t += c;
  return t;
}
// what printing this must look like: the name's line, then a line per row with every coefficient
void judge_text(const Thing &t, const std::string &name, const std::string &text, const std::ios &fmt) {
  sim::Quiet q;
  sim::oracle();
  std::string head = "\t" + name + ":\n";
  if (!is_prefix(head, text)) sim::violation("text", "the output does not begin with the name: \"%s\"", shown(text).c_str());
  bool glue = (fmt.flags() & std::ios_base::adjustfield) == std::ios_base::internal;
  auto got = tokens(text.substr(head.size()), glue);
  std::vector<std::vector<std::string>> want;
  for (int i = 0; i < t.rows; ++i) {
    want.emplace_back();
    for (int j = 0; j < t.cols; ++j) {
      std::string c = t.coeff(i, j, fmt);
      if (glue && j) want.back()[0] += c; else want.back().push_back(c);
    }
  }
  if (got != want) sim::violation("text", "the output does not show the coefficients row by row: \"%s\"", shown(text).c_str());
}

std::string gen_name(Rng &r) {
  static const char *n[] = {"M", "", "a name", "a rather long name of a matrix that needs the heap", "x:\n", "%s%n", "\t", "0"};
  return n[r.below(8)];
}
void set_format(Rng &r, std::ostream &o) {
  std::ios_base::fmtflags f = o.flags();
  static const std::ios_base::fmtflags ff[] = {(std::ios_base::fmtflags) 0, std::ios_base::fixed, std::ios_base::scientific};
  static const std::ios_base::fmtflags af[] = {(std::ios_base::fmtflags) 0, std::ios_base::left, std::ios_base::right, std::ios_base::internal};
  o.setf(ff[r.below(3)], std::ios_base::floatfield);
  o.setf(af[r.below(4)], std::ios_base::adjustfield);
  if (r.chance(0.3)) o.setf(std::ios_base::showpos);
  if (r.chance(0.3)) o.setf(std::ios_base::uppercase);
  if (r.chance(0.2)) o.setf(std::ios_base::showpoint);
  if (r.chance(0.2)) o.setf(std::ios_base::unitbuf);
  if (r.chance(0.2)) o.setf(std::ios_base::hex, std::ios_base::basefield);
  (void) f;
  o.precision(r.range(1, 17));
  if (r.chance(0.4)) o.fill("*0_#"[r.below(4)]);
}

template<class F>
void aim(int op, Rng &r, size_t size, long allocs) {
  int k = sim::planned_kind(op);
  if (k == sim::F_STREAM) sim::plan_override(op, sim::F_STREAM, (long) r.below(size + 1), (int) r.below(4));
  if (k == sim::F_ALLOC && allocs > 0) sim::plan_override(op, sim::F_ALLOC, (long) r.below(allocs), r.chance(0.3));
}

// one print (or message) struck by a fault, then repeated on the repaired stream
template<class F>
void struck(int op, Rng &r, F f, const std::string &full, const Format &fmt, int slack, const char *what) {
  int before = (int) err.out.size();
  bool still_good = true;
  std::string w;
  sim::Outcome o = sim::api(op, [&] {
    hs::Armed a(std::cout, out);
    Format armed = fmt;
    armed.except = std::cout.exceptions();
    struct Look {
      bool &g; std::string &w; const Format &f; const char *what; int depth;
      ~Look() { sim::Quiet q; g = std::cout.good(); w = out.written(); same_format(std::cout, f, std::uncaught_exceptions() > depth, what); }
    } look{still_good, w, armed, what, std::uncaught_exceptions()};
    f();
  });
  { sim::Quiet q; sim::log("op %d: %s: %s%s, %d of %d bytes", op, what, sim::outcome_name(o), o.fired ? " (fault)" : "", (int) w.size(), (int) full.size()); }
  sim::oracle();
  if (!o.ok() && !o.fired) sim::violation("history", "%s failed although nothing went wrong: %s", what, o.what);
  sim::Quiet q;
  if (o.fired && o.fired_kind == sim::F_ALLOC) {
    sim::probe("memory failed while printing");
    if (slack == 2) {}                  // libstdc++ itself cuts complex numbers short when its string stream gets no memory
    else if (slack == 1) {              // the alignment may suffer, the content may not
      if (!is_prefix(squeezed(w), squeezed(full))) sim::violation("prefix", "%s wrote \"%s\", no prefix of \"%s\"", what, shown(w).c_str(), shown(full).c_str());
    } else if (!is_prefix(w, full)) sim::violation("prefix", "%s wrote \"%s\", no prefix of \"%s\"", what, shown(w).c_str(), shown(full).c_str());
  } else {
    if (!is_prefix(w, full)) sim::violation("prefix", "%s wrote \"%s\", no prefix of \"%s\"", what, shown(w).c_str(), shown(full).c_str());
    if (!o.fired && w.size() != full.size()) sim::violation("text", "%s wrote \"%s\" instead of \"%s\"", what, shown(w).c_str(), shown(full).c_str());
    if (o.fired) {
      sim::probe(o.ok() ? "stream failed silently" : "stream threw");
      if (o.ok() && still_good) sim::violation("hidden", "%s: the stream failed and is good again afterwards", what);
    }
  }
  if ((int) err.out.size() != before) sim::violation("state", "%s wrote to the error stream", what);
  fmt.put(std::cout);
}

// a stream that had failed before: it stays failed and nothing is written
template<class F>
void broken_before(int op, Rng &r, F f, const Format &fmt, const char *what) {
  static const std::ios_base::iostate st[] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit | std::ios_base::failbit};
  std::ios_base::iostate s = st[r.below(4)];
  out.begin();
  std::cout.clear(s);
  sim::Outcome o = sim::plain(op, f);
  sim::Quiet q;
  sim::oracle();
  std::ios_base::iostate now = std::cout.rdstate();
  std::string w = out.written();
  std::cout.clear();
  if (!o.ok()) sim::violation("history", "%s on a stream that had failed before: %s", what, o.what);
  if ((now & s) != s) sim::violation("hidden", "%s: a stream that had failed before is good afterwards", what);
  if (!w.empty()) sim::violation("prefix", "%s wrote \"%s\" to a stream that had failed before", what, shown(w).c_str());
  same_format(std::cout, fmt, false, what);
  sim::probe("stream broken before");
}

void one_print(int op, Rng r) {
  int k = (int) r.below(9);
  sim::note_work(100 + k);
  std::unique_ptr<Thing> t = make(r, k);
  std::string name = gen_name(r);
  Format before = Format::of(std::cout);
  set_format(r, std::cout);
  Format fmt = Format::of(std::cout);
  std::vector<char> b0, b1;
  { sim::Quiet q; t->raw(b0); }
  sim::u64 rc = sim::rand_calls(), cr = sim::clock_reads(), er = sim::entropy_reads();
  std::string full;
  long allocs = 0;
  auto unchanged = [&](const char *when) {
    sim::Quiet q;
    sim::oracle();
    t->raw(b1);
    if (b0 != b1) sim::violation("object", "%s changed %s", kinds[k], when);
    if (rc != sim::rand_calls() || cr != sim::clock_reads() || er != sim::entropy_reads())
      sim::violation("state", "printing %s drew on the random generator or the clock", kinds[k]);
  };
  auto undisturbed = [&](const char *when) {
    out.begin();
    long live = sim::live_blocks();
    sim::Outcome o = sim::plain(op, [&] { t->print(name); });
    (void) live;
    allocs = o.allocs;
    if (!o.ok()) sim::violation("history", "printing %s failed although nothing went wrong: %s", kinds[k], o.what);
    if (!std::cout.good()) sim::violation("hidden", "printing %s %s left the stream in a failed state", kinds[k], when);
    same_format(std::cout, fmt, false, when);
    unchanged(when);
    sim::Quiet q;
    if (full.empty()) {
      full = out.written();
      judge_text(*t, name, full, std::cout);
    } else if (out.written() != full)
      sim::violation("text", "printing %s %s gave \"%s\" instead of \"%s\"", kinds[k], when, shown(out.written()).c_str(), shown(full).c_str());
  };
  undisturbed("by printing");
  if (r.chance(0.3)) undisturbed("by printing it again");
  int times = r.range(1, 3);
  for (int i = 0; i < times; ++i) {
    int o = op * 10 + i;
    if (!sim::op_enabled(o)) continue;
    aim<int>(o, r, full.size(), allocs);
    struck(o, r, [&] { t->print(name); }, full, fmt, k == 1 || k == 3 ? 2 : 1, kinds[k]);
    unchanged("by printing to a failing stream");
    if (r.chance(0.2)) { broken_before(op, r, [&] { t->print(name); }, fmt, kinds[k]); unchanged("by printing to a broken stream"); }
    if (r.chance(0.7)) undisturbed("after a failure");
  }
  undisturbed("at the end");
  before.put(std::cout);
}

// the message about a refused series
void one_refusal(int op, Rng r) {
  sim::note_work(7);
  bool two = r.chance(0.5);
  std::unique_ptr<LookupTable1D<double, double>> a;
  std::unique_ptr<LookupTable2d<double>> b;
  std::vector<double> x, y, d, e;
  std::string name = series_name((int) r.below(24));
  {
    sim::Quiet q;
    x = gen_coords(r, tail(r, 2, 5, 15)), y = gen_coords(r, tail(r, 2, 5, 15));
    d = gen_vals(r, x.size() * (two ? y.size() : 1));
    e = gen_vals(r, d.size());
  }
  sim::Outcome o = sim::plain(op, [&] {
    if (two) b.reset(new LookupTable2d<double>), b->SetX(x), b->SetY(y), b->AddData(name, d);
    else a.reset(new LookupTable1D<double, double>(LINEAR)), a->SetX(x), a->AddY(name, d);
  });
  if (!o.ok()) sim::violation("history", "building a table failed although nothing went wrong: %s", o.what);
  Format before = Format::of(std::cout);
  set_format(r, std::cout);
  Format fmt = Format::of(std::cout);
  bool added = true;
  auto again = [&] { added = two ? b->AddData(name, e) : a->AddY(name, e); };
  auto intact = [&](const char *when) {
    sim::oracle();
    sim::Outcome p = sim::plain(op, [&] {
      size_t n = two ? b->GetNbSeries() : a->GetNbSeries();
      if (n != 1) sim::violation("object", "a refused series %s left the table with %d series", when, (int) n);
      for (size_t i = 0; i < x.size(); ++i)
        for (size_t j = 0; j < (two ? y.size() : 1); ++j) {
          double got = two ? b->Eval(name, x[i], y[j]) : a->Eval(name, x[i]), want = two ? d[i * y.size() + j] : d[i];
          double s = 0;
          for (double v : d) s = std::max(s, std::fabs(v));
          // coordinates are at most 1e3 and at least about 1e-4 apart
          if (!sim::close(got, want, s, 1e-6)) sim::violation("object", "a refused series %s changed the table: %g instead of %g", when, got, want);
        }
    });
    if (!p.ok()) sim::violation("object", "a refused series %s made the table unusable: %s", when, p.what);
  };
  std::string full;
  long allocs = 0;
  auto undisturbed = [&] {
    out.begin();
    added = true;
    sim::Outcome p = sim::plain(op, again);
    allocs = p.allocs;
    if (!p.ok()) sim::violation("history", "refusing a series failed although nothing went wrong: %s", p.what);
    if (added) sim::violation("object", "a series of a known name was not refused");
    same_format(std::cout, fmt, false, "refusing a series");
    intact("");
    sim::Quiet q;
    if (full.empty()) full = out.written();
    if (full.empty()) sim::violation("text", "a series was refused without a word");
    if (out.written() != full) sim::violation("text", "refusing a series gave \"%s\" instead of \"%s\"", shown(out.written()).c_str(), shown(full).c_str());
  };
  undisturbed();
  for (int i = 0; i < 3; ++i) {
    int q = op * 10 + i;
    if (!sim::op_enabled(q)) continue;
    aim<int>(q, r, full.size(), allocs);
    added = false;
    struck(q, r, again, full, fmt, 0, "refusing a series");
    if (added) sim::violation("object", "a series of a known name was not refused");
    intact("on a failing stream");
    if (r.chance(0.2)) {
      added = true;
      broken_before(op, r, again, fmt, "refusing a series");
      if (added) sim::violation("object", "a series of a known name was not refused");
      intact("on a broken stream");
    }
    if (r.chance(0.7)) undisturbed();
  }
  before.put(std::cout);
}

// one thread prints what others read
void shared_print(Rng r) {
  int k = (int) r.below(9);
  sim::note_work(1000 + k);
  std::unique_ptr<Thing> t = make(r, k);
  std::string name = gen_name(r);
  out.begin();
  t->print(name);
  std::string full = out.written();
  std::vector<cplx> v;
  {
    sim::Quiet q;
    judge_text(*t, name, full, std::cout);
    for (int i = 0; i < t->rows; ++i) for (int j = 0; j < t->cols; ++j) v.push_back(t->get(i, j));
  }
  int threads = r.range(1, 3);
  std::vector<std::function<void()>> fns;
  fns.push_back([&] {
    for (int i = 0; i < 2; ++i) {
      int op = 5000 + i;
      if (!sim::op_enabled(op)) continue;
      out.begin();
      sim::Outcome o = sim::api(op, [&] { hs::Armed a(std::cout, out); t->print(name); });
      sim::Quiet q;
      sim::oracle();
      if (!o.ok() && !o.fired) sim::violation("history", "printing failed although nothing went wrong: %s", o.what);
      std::string w = out.written();
      bool cut = o.fired_kind == sim::F_ALLOC && (k == 1 || k == 3);
      if ((!cut && !is_prefix(squeezed(w), squeezed(full))) || (!o.fired && w != full))
        sim::violation("prefix", "printing while others read wrote \"%s\" instead of \"%s\"", shown(w).c_str(), shown(full).c_str());
      std::cout.width(0);
      std::cout.fill(' ');
    }
  });
  for (int n = 0; n < threads; ++n)
    fns.push_back([&, n] {
      int op = 6000 + 100 * n;
      if (!sim::op_enabled(op)) return;
      for (int i = 0; i < t->rows; ++i) for (int j = 0; j < t->cols; ++j) {
        cplx c = t->get(i, j);
        sim::oracle();
        if (!sim::same_bits(c, v[(size_t) i * t->cols + j])) sim::violation("object", "a coefficient read while another thread prints is %g", c.real());
      }
    });
  sim::run_threads(fns);
  sim::probe("printed while others read");
}
}  // namespace

void scenario() {
  Rng &w = sim::work();
  static const double rates[][2] = {{0, 0.9}, {0.3, 0.6}, {0.8, 0.1}, {0, 0}};
  int rate = (int) w.below(4);
  sim::set_rates(rates[rate][0], 0, rates[rate][1]);
  sim::set_heap_reuse(w.chance(0.5));
  out.out.reserve(1 << 16);
  std::streambuf *oc = std::cout.rdbuf(&out), *oe = std::cerr.rdbuf(&err);
  int mode = (int) w.below(10), n = w.range(1, 3);
  sim::note_work(mode * 10 + rate);
  if (mode < 2) shared_print(Rng(w.next()));
  else for (int i = 1; i <= n; ++i) {
    Rng r = sim::op_rng(i);
    if (!sim::op_enabled(i)) continue;
    if (r.chance(0.75)) one_print(i, r);
    else one_refusal(i, r);
  }
  std::cout.rdbuf(oc);
  std::cerr.rdbuf(oe);
}
