id="inverse-through-identity"; prop="C12"
needs="memory running out while a dynamic matrix is inverted in place"
breaks="the matrix being inverted is left as the identity"
edits=[("Matrix.h","""        this->swap(this->inverse());
""","""        // Solving A X = I, with the right-hand side in place
        const MatrixMN<Scalar> A = *this;
        this->setIdentity();
        const MatrixMN<Scalar> X = A.partialPivLu().solve(*this);
        *this = X;
""")]
demo=r"""
#include <cstdio>
#include <cstdlib>
#include <new>
extern "C" void *__libc_malloc(size_t);
static long left = -1;
extern "C" void *malloc(size_t n) { if (left > 0 && --left == 0) return nullptr; return __libc_malloc(n); }
#include "MathUtils/MathUtils.h"
using namespace mathutils;
int main() {
  for (long k = 1; k < 12; ++k) {
    MatrixMN<double> m(6, 6);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = i == j ? 3 + i : 1. / (1 + i + j);
    MatrixMN<double> c = m;
    bool failed = false;
    left = k;
    try { m.Inverse(); } catch (const std::bad_alloc &) { failed = true; }
    left = -1;
    if (failed && (m - c).norm() != 0) { printf("changed by the failure of allocation %ld\n", k); return 1; }
  }
  return 0;
}
"""
