id="struve-memo"; prop="C04"
needs="two threads asking for the zero-order Struve function at different arguments: argument and value of the memo are stored one after the other"
breaks="a call returns the value at another thread's argument"
edits=[("BoostFunctions.h","""  T Struve_zero_order(const T x){
    T Struve = 0.;
    if(x >= 0. and x <= 3.) {
      T arg = x / 3.;
      std::vector<double> coef_a""","""  T Struve_zero_order(const T x){
    T Struve = 0.;
    // The same argument is asked for several times in a row in the Green's function.
    static T last_x = -1.;
    static T last_value = 0.;
    if(x == last_x) {
      return last_value;
    }
    if(x >= 0. and x <= 3.) {
      T arg = x / 3.;
      std::vector<double> coef_a"""),
("BoostFunctions.h","""      std::cout << "Zero-order Struve function is only defined for a positive argument." << std::endl;
      exit(EXIT_FAILURE);
    }

    return Struve;""","""      std::cout << "Zero-order Struve function is only defined for a positive argument." << std::endl;
      exit(EXIT_FAILURE);
    }
    last_x = x;
    last_value = Struve;

    return Struve;""")]
demo=r"""
#include <thread>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <vector>
#include "MathUtils/MathUtils.h"
#include "MathUtils/BoostFunctions.h"
using namespace mathutils;
int main() {
  double xs[] = {0.5, 1.5, 2.5, 2.75}, want[4];
  for (int i = 0; i < 4; ++i) want[i] = Struve_zero_order<double>(xs[i]);
  std::atomic<long> bad{0};
  auto work = [&](int a, int b) {
    for (int i = 0; i < 4000000 && !bad; ++i) {
      int k = i & 1 ? a : b;
      if (Struve_zero_order<double>(xs[k]) != want[k]) ++bad;
    }
  };
  std::thread a(work, 0, 1), b(work, 1, 2), c(work, 0, 3);
  a.join(), b.join(), c.join();
  printf("%ld wrong values\n", bad.load());
  return bad ? 1 : 0;
}
"""
