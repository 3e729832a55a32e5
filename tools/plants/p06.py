id="lut1d-add-order"; prop="C06"
needs="a refused addition (name already present) whose notice cannot be written because std::cout throws"
breaks="the refused data stay in the table: the number of series is one too many and every later series answers for another name"
edits=[("LookupTable1D.h","""    // Trying to insert the new name/index into the association map
    auto res_pair""","""    // The data are stored first, so that the index is the one of an existing serie
    Ydata.push_back(std::make_shared<std::vector<Yscalar>>(Y));

    // Trying to insert the new name/index into the association map
    auto res_pair"""),
("LookupTable1D.h","""      std::cout << "Data have not been added to the LUT" << std::endl;
""","""      std::cout << "Data have not been added to the LUT" << std::endl;
      Ydata.pop_back();
"""),
("LookupTable1D.h","""      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
      Ydata.push_back(Y_shared);
""","""      auto Y_shared = Ydata.back();
""")]
demo=r"""
#include <cstdio>
#include <iostream>
#include <streambuf>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
struct Full : std::streambuf {};  // every write fails
int main() {
  LookupTable1D<double, double> t(LINEAR);
  t.SetX({0, 1, 2});
  t.AddY("a", {0, 1, 2});
  Full full;
  std::streambuf *old = std::cout.rdbuf(&full);
  std::cout.exceptions(std::ios::badbit | std::ios::failbit);
  try { t.AddY("a", {5, 5, 5}); } catch (const std::ios_base::failure &) {}
  std::cout.exceptions(std::ios::goodbit);
  std::cout.rdbuf(old);
  std::cout.clear();
  printf("series: %lu\n", t.GetNbSeries());
  return t.GetNbSeries() != 1;
}
"""
