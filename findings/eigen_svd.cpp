// Shows the known finding of C12: g++ -std=c++17 -I/repo/src -I/usr/include/eigen3 findings/eigen_svd.cpp -o /tmp/f && /tmp/f
// For each k the k-th allocation of GetSVDDecomposition of a 4x3 matrix fails, in a child process; some children die of a double free.
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/wait.h>
#include <unistd.h>
#include "MathUtils/MathUtils.h"
static long countdown = -1;
extern "C" void *__libc_malloc(size_t);
extern "C" void *malloc(size_t n) { if (countdown >= 0 && countdown-- == 0) return nullptr; return __libc_malloc(n); }
int main() {
  int died = 0;
  for (int k = 0; k < 40; ++k) {
    pid_t p = fork();
    if (p == 0) {
      close(2);
      mathutils::MatrixMN<double> A(4, 3), U, S, V;
      for (int i = 0; i < 12; ++i) A(i / 3, i % 3) = i * i - 5 * (i % 4);
      countdown = k;
      try { A.GetSVDDecomposition(U, S, V); } catch (const std::bad_alloc &) {}
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st)) { printf("failure of allocation %d: the process died of signal %d\n", k, WTERMSIG(st)); ++died; }
  }
  printf("%d of 40 failure points end in a double free\n", died);
}
