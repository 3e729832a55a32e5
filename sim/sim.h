// Deterministic simulator: public interface used by the harnesses.
// The runtime (sim.cpp) is compiled without instrumentation; the harness and with it every library
// header of /repo (and Eigen, Boost, libstdc++ templates) is compiled with -fsanitize=thread
// *instrumentation only* - the __tsan_* entry points are the simulator's own.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <complex>
#include <exception>
#include <functional>
#include <new>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int) below((u64) (hi - lo + 1)); }
  double unit() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
};

u64 mix(u64 a, u64 b);

// ---- run-level decisions -------------------------------------------------------------------
u64 run_seed();
Rng &work();                    // workload choices of the run (shape, sizes)
Rng op_rng(int op);             // choices of one operation: independent of which other ops are enabled
bool op_enabled(int op);        // false when the minimiser removed this operation
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name);   // "this rare condition was reached"
void note_work(u64 h);          // contributes to the distinct-workload hash of the run
void oracle();                  // counts one oracle evaluation

// Ends the run as a violation of the property.
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run as an error of the check itself.
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Ends the run as passed
[[noreturn]] void finish_run();

// ---- threads ---------------------------------------------------------------------------------
// Runs the functions as simulated caller threads; returns when all have ended.
void run_threads(const std::vector<std::function<void()>> &fns);
int self();
const int MAX_THREADS = 8;      // including thread 0 (the scenario itself)

// ---- faults ----------------------------------------------------------------------------------
enum FaultKind { F_NONE = 0, F_ALLOC = 1, F_CALLBACK = 2, F_STREAM = 3, F_RAND = 4, F_KINDS = 5 };
struct CallbackFault {          // what an injected user-callback failure throws
  int op;
};
// Per-run fault rates (probability that an operation gets a fault of that kind).
void set_rates(double alloc, double callback, double stream);

enum OutcomeKind { OK = 0, BAD_ALLOC, CALLBACK_FAULT, STD_EXCEPTION, STREAM_EXCEPTION, OTHER_EXCEPTION };
struct Outcome {
  OutcomeKind kind;
  bool fired;                   // an injected fault of this operation really fired
  int fired_kind;               // its kind
  long allocs;                  // allocations made inside
  char what[96];
  bool ok() const { return kind == OK; }
};
const char *outcome_name(const Outcome &o);

void arm(int op);               // begin API region: faults of plan(op) may fire
void arm_plain(int op);         // begin API region without faults (counts allocations)
void disarm(Outcome *o);        // end API region
int planned_kind(int op);       // kind of fault planned for op (before arming); 0 if none
void plan_override(int op, int kind, long at, int persist); // harness decides the fault for op itself (still subject to the minimiser)
void callback_point();          // called by harness callbacks; may throw CallbackFault
void set_reentry(std::function<void()> f);
bool stream_fault_budget(long *bytes, int *mode); // inside armed region: is a stream fault planned?
void stream_fault_fired();

void classify(Outcome *o);      // rethrows the current exception and fills o

template<class F>
Outcome api(int op, F f) {
  Outcome o;
  arm(op);
  try {
    f();
    disarm(&o);
    o.kind = OK;
    o.what[0] = 0;
  } catch (...) {
    disarm(&o);
    classify(&o);
  }
  return o;
}
// same, with faults off (used for the oracle's own look at the objects)
template<class F>
Outcome plain(int op, F f) {
  Outcome o;
  arm_plain(op);
  try {
    f();
    disarm(&o);
    o.kind = OK;
    o.what[0] = 0;
  } catch (...) {
    disarm(&o);
    classify(&o);
  }
  return o;
}

// ---- process end -----------------------------------------------------------------------------
// The code under test may call exit(): a run in which that is not announced is a violation "exit".
// While announced, exit ends the run: handler(status) is called (may call violation), then the run passes.
// Only the announcing thread may end the process; assertion_too: a failed assertion counts as status 134.
void expect_exit(std::function<void(int)> handler, bool assertion_too = false);
void no_exit();

// ---- memory ledger ---------------------------------------------------------------------------
long live_blocks();
long live_bytes();
void set_heap_reuse(bool on);   // LIFO reuse of freed blocks (default) or quarantine
bool heap_reuse();
// what a later part of the run finds around it: content of fresh heap blocks (pattern 0-3), where they lie, what lies on the stack
void set_heap_content(int pattern);
void shift_heap(long bytes);
void scribble_stack(int pattern);
u64 steps();                    // instrumented accesses so far

// ---- simulated libc randomness ------------------------------------------------------------------
void rand_mode(int mode, u64 seed);  // 0 normal LCG stream, 1 always 0, 2 always RAND_MAX, 3 mixture, 4 constant mid
u64 rand_calls();
u64 clock_reads();
u64 entropy_reads();

// the reference models run between quiet_begin/quiet_end: no scheduling points, no faults, no race bookkeeping
void quiet_begin();
void quiet_end();
struct Quiet {
  Quiet() { quiet_begin(); }
  ~Quiet() { quiet_end(); }
};

// ---- numeric helpers ------------------------------------------------------------------------
inline bool same_bits(double a, double b) { return (a != a && b != b) || a == b; }
inline bool same_bits(std::complex<double> a, std::complex<double> b) {
  return same_bits(a.real(), b.real()) && same_bits(a.imag(), b.imag());
}
inline bool close(double a, double b, double scale, double tol = 1e-9) {
  if (a != a || b != b) return (a != a) && (b != b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * (scale + std::fabs(b)) ;
}
inline bool close(std::complex<double> a, std::complex<double> b, double scale, double tol = 1e-9) {
  return std::abs(a - b) <= tol * (scale + std::abs(b));
}

}  // namespace sim

// Provided by each harness:
extern const char *harness_name;
void scenario();

#endif
