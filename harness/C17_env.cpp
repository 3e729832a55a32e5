// The same calls in two different surroundings - content and place of memory, thread, what ran or failed before, process-wide
// settings, clock, random generator - give the same bits, and leave the surroundings as they were.
#include "probes.h"
#include "streams.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <ctime>
#include <iomanip>
#include <locale>
#include <xmmintrin.h>
using namespace hc;
const char *harness_name = "C17";

namespace {
hs::FaultBuf outbuf, errbuf;
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
// what a process shares among all its parts
struct Shared {
  int round;
  unsigned mxcsr;
  unsigned short x87;
  std::string cloc;
  std::locale loc;
  std::new_handler nh;
  std::terminate_handler th;
  struct S { std::ios_base::fmtflags f; std::streamsize p, w; char fill; std::ios_base::iostate ex, st; std::streambuf *b; std::ostream *tie; std::locale l; } s[3];
  sim::u64 rands;
  size_t written;
  struct sigaction sa[3];
  static S of(std::ostream &o) { return S{o.flags(), o.precision(), o.width(), o.fill(), o.exceptions(), o.rdstate(), o.rdbuf(), o.tie(), o.getloc()}; }
  static bool same(const S &a, const S &b) { return a.f == b.f && a.p == b.p && a.w == b.w && a.fill == b.fill && a.ex == b.ex && a.st == b.st && a.b == b.b && a.tie == b.tie && a.l == b.l; }
  Shared() {
    sim::Quiet q;
    round = fegetround();
    mxcsr = _mm_getcsr() & ~0x3fu;
    __asm__ __volatile__("fnstcw %0" : "=m"(x87));
    cloc = setlocale(LC_ALL, nullptr);
    nh = std::get_new_handler();
    th = std::get_terminate();
    s[0] = of(std::cout), s[1] = of(std::cerr), s[2] = of(std::clog);
    rands = sim::rand_calls();
    written = outbuf.out.size() + errbuf.out.size();
    const int sg[3] = {SIGFPE, SIGSEGV, SIGABRT};
    for (int i = 0; i < 3; ++i) sigaction(sg[i], nullptr, &sa[i]);
  }
  // streams: whether nobody else may be writing
  void unchanged(const char *what, bool global) const {
    Shared n;
    sim::Quiet q;
    sim::oracle();
    const char *c = nullptr;
    if (n.round != round || n.mxcsr != mxcsr || n.x87 != x87) c = "the floating-point mode";
    else if (n.cloc != cloc || !(n.loc == loc)) c = "the locale";
    else if (n.nh != nh || n.th != th) c = "the new or terminate handler";
    else if (n.sa[0].sa_handler != sa[0].sa_handler || n.sa[1].sa_handler != sa[1].sa_handler || n.sa[2].sa_handler != sa[2].sa_handler) c = "a signal handler";
    else if (!same(n.s[0], s[0]) || !same(n.s[1], s[1]) || !same(n.s[2], s[2])) c = "the state of a standard stream";
    else if (global && n.rands != rands) c = "the state of the random generator";
    else if (global && n.written != written) c = "the standard output";
    if (c) sim::violation("surroundings", "%s changed %s", what, c);
  }
};
struct Job {
  int kind, nq;
  Rng mk{0};
  std::vector<Rng> q;
  std::vector<char> upd;
  std::vector<std::vector<double>> res[2];
};
}  // namespace

void scenario() {
  Rng &w = sim::work();
  std::cout.rdbuf(&outbuf);
  std::cerr.rdbuf(&errbuf);
  std::clog.rdbuf(&errbuf);
  outbuf.out.reserve(4096), errbuf.out.reserve(4096);
  call_pools(w);
  static const double rates[] = {0, 0.3, 0.8};
  int rate = (int) w.below(3);
  sim::set_rates(rates[rate], 0, 0);
  int nj = w.chance(0.6) ? 1 : w.range(2, 3);
  std::vector<Job> jobs(nj);
  for (int i = 0; i < nj; ++i) {
    Job &j = jobs[i];
    j.kind = (int) w.below(n_probes());
    j.mk = Rng(w.next());
    j.nq = w.range(1, 6);
    for (int k = 0; k < j.nq; ++k) j.q.push_back(Rng(w.next())), j.upd.push_back(k && w.chance(0.3));
    sim::log("job %d: %s, %d calls", i, probe_kind(j.kind).name, j.nq);
    sim::note_work(j.kind * 100 + j.nq);
  }
  struct Ch { bool content, place, mode, noise, thread, settings, clock; } ch = {};
  // one pass over all jobs; op numbers: pass * 10000 + job * 100 + call
  auto pass = [&](int p, bool struck, bool alone) {
    for (int i = 0; i < nj; ++i) {
      Job &j = jobs[i];
      const ProbeKind &k = probe_kind(j.kind);
      auto &res = j.res[p];
      res.assign(j.nq, {});
      Rng mk = j.mk;
      std::unique_ptr<Probe> o;
      Shared before;
      sim::Outcome oc = sim::plain(p * 10000 + i * 100 + 99, [&] { o.reset(k.make(mk)); });
      if (!oc.ok()) sim::violation("result", "making a %s failed: %s %s", k.name, sim::outcome_name(oc), oc.what);
      for (int c = 0; c < j.nq; ++c) {
        int op = i * 100 + c;                       // the same calls are left out in both passes
        if (!sim::op_enabled(op)) continue;
        Rng r = j.q[c];
        if (j.upd[c] && k.updates) { Out d; sim::plain(20000 + op, [&] { o->update(r, d); }); }
        if (struck && k.strike) {
          Rng r2 = r;
          Out d;
          sim::Outcome f = sim::api(p * 10000 + op + 30000, [&] { o->query(r2, d); });
          if (f.fired && !f.ok()) sim::probe("a call failed before");
        }
        Out out;
        if (p && ch.settings) {                     // what earlier calls of the program may have left behind
          static const int es[] = {0, EDOM, ERANGE, ENOMEM, EINVAL};
          static const int fs[] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT};
          Rng e = sim::op_rng(70000 + op);
          errno = es[e.below(5)];
          feclearexcept(FE_ALL_EXCEPT);
          for (int b : fs) if (e.chance(0.5)) feraiseexcept(b);
        }
        sim::Outcome q = sim::plain(p * 10000 + op, [&] { o->query(r, out); });
        if (!q.ok()) sim::violation("result", "a %s call failed: %s %s", k.name, sim::outcome_name(q), q.what);
        res[c] = out.v;
        before.unchanged(k.name, alone);
      }
      sim::plain(p * 10000 + i * 100 + 98, [&] { o.reset(); });
      before.unchanged(k.name, alone);
    }
  };
  int pat = (int) w.below(4);
  sim::set_heap_content(pat);
  sim::scribble_stack(pat);
  pass(0, false, true);

  // other surroundings
  ch.content = w.chance(0.7), ch.place = w.chance(0.5), ch.mode = w.chance(0.5), ch.noise = w.chance(0.5), ch.thread = w.chance(0.5);
  ch.settings = w.chance(0.5), ch.clock = w.chance(0.5);
  int pat2 = (pat + 1 + (int) w.below(3)) & 3;
  sim::log("second pass: content=%d place=%d reuse=%d noise=%d thread=%d settings=%d clock=%d", ch.content, ch.place, ch.mode, ch.noise, ch.thread, ch.settings, ch.clock);
  if (ch.content) { sim::set_heap_content(pat2); sim::probe("other memory content"); }
  if (ch.place) sim::shift_heap(16 * (long) w.range(1, 500));
  if (ch.mode) sim::set_heap_reuse(!sim::heap_reuse());
  auto noise = [&](int base) {
    for (int k = 0; k < 4; ++k) {
      int op = base + k;
      if (!sim::op_enabled(op)) continue;
      Rng r = sim::op_rng(op);
      int kind = r.chance(0.5) ? jobs[r.below(nj)].kind : (int) r.below(n_probes());
      const ProbeKind &pk = probe_kind(kind);
      std::unique_ptr<Probe> o;
      Out d;
      sim::plain(op, [&] { o.reset(pk.make(r)); });
      if (!o) continue;
      if (pk.strike) { sim::Outcome f = sim::api(op, [&] { o->query(r, d); }); if (f.fired && !f.ok()) sim::probe("another call failed before"); }
      else sim::plain(op, [&] { o->query(r, d); });
      sim::plain(op, [&] { o->query(r, d); });
    }
  };
  if (ch.noise) noise(50000), sim::probe("other calls before");
  if (ch.settings) {
    sim::Quiet q;
    sim::probe("other process settings");
    std::locale::global(std::locale(std::locale::classic(), new Comma));
    std::cout << std::setprecision(3) << std::fixed << std::showpos;
    std::cerr << std::hex << std::setfill('*');
    std::cout.clear(w.chance(0.5) ? std::ios::badbit : std::ios::goodbit);
    errno = ERANGE;
    feraiseexcept(FE_INVALID | FE_OVERFLOW | FE_DIVBYZERO);
  }
  if (ch.clock) {
    sim::Quiet q;
    sim::rand_mode((int) w.below(5), w.next());
    for (int i = w.range(1, 20); i > 0; --i) (void) time(nullptr);
  }
  if (!ch.thread) {
    sim::scribble_stack(ch.content ? pat2 : pat);
    pass(1, rate > 0, true);
  } else {
    sim::probe("another thread");
    int others = w.range(0, 2);
    std::vector<std::function<void()>> tf;
    tf.push_back([&] { sim::scribble_stack(ch.content ? pat2 : pat); pass(1, rate > 0, others == 0); });
    for (int t = 0; t < others; ++t) tf.push_back([&, t] { noise(60000 + 1000 * t); });
    sim::run_threads(tf);
  }
  for (int i = 0; i < nj; ++i) {
    const Job &j = jobs[i];
    for (int c = 0; c < j.nq; ++c) {
      const auto &a = j.res[0][c], &b = j.res[1][c];
      sim::oracle();
      if (a.size() != b.size()) sim::violation("result", "%s: call %d returned %d numbers first and %d in other surroundings", probe_kind(j.kind).name, c, (int) a.size(), (int) b.size());
      for (size_t k = 0; k < a.size(); ++k)
        if (!sim::same_bits(a[k], b[k]))
          sim::violation("result", "%s: number %d of call %d was %.17g first and is %.17g in other surroundings", probe_kind(j.kind).name, (int) k, c, a[k], b[k]);
    }
  }
}
