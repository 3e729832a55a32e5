id="randomize-own-scale"; prop="C15"
needs="the generator returning one of its largest values"
breaks="the coefficient leaves [-1, 1]"
edits=[("Matrix.h","""        this->setRandom();
""","""        const int half = RAND_MAX / 2;
        for (int i = 0; i < this->size(); ++i) {
            this->data()[i] = Scalar(std::rand()) / Scalar(half) - Scalar(1);
        }
""")]
demo=r"""
#include <cstdio>
#include <cstdlib>
static int next_value = 1;
extern "C" int rand() { return next_value; }
#include "MathUtils/MathUtils.h"
using namespace mathutils;
int main() {
  int bad = 0;
  for (int v : {0, 1, RAND_MAX / 2, RAND_MAX - 1, RAND_MAX}) {
    next_value = v;
    MatrixMN<double> m(4, 4);
    m.Randomize();
    for (int i = 0; i < 16; ++i) bad += !(m.data()[i] >= -1 && m.data()[i] <= 1);
  }
  return bad != 0;
}
"""
