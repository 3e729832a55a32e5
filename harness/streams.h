// A stream buffer of the simulator: records what is written and stops after the planned number of bytes.
#ifndef VERIF_STREAMS_H
#define VERIF_STREAMS_H
#include "common.h"
#include <iostream>
#include <streambuf>
namespace hs {
class FaultBuf : public std::streambuf {
 public:
  std::string out;               // everything accepted so far
  size_t mark = 0;               // length when the current operation began
  bool broken = false;
  void begin() { mark = out.size(); broken = false; }
  std::string written() const { return out.substr(mark); }
 protected:
  long room(long n) {
    long bytes;
    int mode;
    if (!sim::stream_fault_budget(&bytes, &mode)) return n;
    long left = bytes - (long) (out.size() - mark);
    if (mode == 3 && broken) return n;             // the device was only away for a moment
    if (!broken && left >= n) return n;
    if (broken) left = 0;
    broken = true;
    sim::stream_fault_fired();
    return left > 0 ? left : 0;
  }
  void fail() {
    long bytes;
    int mode;
    if (sim::stream_fault_budget(&bytes, &mode) && mode == 2) throw std::ios_base::failure("simulated device failure");
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    long k = room((long) n);
    { sim::Quiet q; out.append(s, (size_t) k); }
    if (k < n) fail();
    return k;
  }
  int overflow(int c) override {
    if (c == EOF) return 0;
    if (room(1) < 1) { fail(); return EOF; }
    { sim::Quiet q; out.push_back((char) c); }
    return c;
  }
  int sync() override {
    if (broken) return -1;
    return 0;
  }
};
// Inside an armed region: lets the stream throw when the plan says so; restores it afterwards.
struct Armed {
  std::ostream &o;
  std::ios_base::iostate ex;
  Armed(std::ostream &s, FaultBuf &b) : o(s), ex(s.exceptions()) {
    long bytes;
    int mode;
    b.begin();
    if (sim::stream_fault_budget(&bytes, &mode) && (mode == 1 || mode == 2)) o.exceptions(std::ios_base::badbit | std::ios_base::failbit);
  }
  ~Armed() {
    o.exceptions(std::ios_base::goodbit);
    o.clear();
    o.exceptions(ex);
  }
};
}  // namespace hs
#endif
