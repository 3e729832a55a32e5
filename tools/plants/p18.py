id="integral-buffer-grows"; prop="C18"
needs="one integral whose bounds are changed and which is computed again many times"
breaks="every computation takes more memory than the one before"
edits=[("Integration1d.h","""            m_Y.clear();
            m_Y.swap(m_Y);
""","""            m_Y.reserve(m_Y.capacity() + m_NbPoints);
            m_Y.clear();
""")]
demo=r"""
#include <cassert>
#include <cstdio>
#include <stdexcept>
#include <malloc.h>
#include "MathUtils/Integration1d.h"
using namespace mathutils;
double f(double x) { return x * x; }
int main() {
  Integrate1d<double> I(f, 0, 1, 100);
  size_t used[2];
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < 400; ++i) { I.SetXmax(1 + i); volatile double v = I.Get(); }
    struct mallinfo2 m = mallinfo2();
    used[k] = m.uordblks + m.hblkhd;
  }
  printf("%zu %zu\n", used[0], used[1]);
  return used[1] > used[0] + 10000;
}
"""
