id="print-adjusts-stream"; prop="C14"
needs="std::cout throwing while a matrix is printed"
breaks="the caller's stream keeps the alignment set for the matrix"
edits=[("Matrix.h","""        std::cout << "\\t" << name << ":\\n";
        std::cout << std::endl << *this << std::endl;
""","""        // Columns are aligned on the right, whatever the alignment of the stream
        const auto flags = std::cout.flags();
        std::cout << "\\t" << name << ":\\n";
        std::cout << std::right << std::endl << *this << std::endl;
        std::cout.flags(flags);
""")]
demo=r"""
#include <cstdio>
#include <iostream>
#include <streambuf>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
struct Short : std::streambuf { int left = 12; int overflow(int c) override { return left-- > 0 ? c : EOF; } };
int main() {
  MatrixMN<double> m(3, 3);
  m.setIdentity();
  Short b;
  std::cout << std::left;
  auto before = std::cout.flags();
  std::streambuf *old = std::cout.rdbuf(&b);
  std::cout.exceptions(std::ios::badbit | std::ios::failbit);
  try { m.print("m"); } catch (const std::ios_base::failure &) {}
  std::cout.exceptions(std::ios::goodbit);
  std::cout.rdbuf(old);
  std::cout.clear();
  return std::cout.flags() != before;
}
"""
