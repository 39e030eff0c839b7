// Verification unit: bunched field vectors.  The members below are instantiated for one bunch size;
// the lane count is treated as a symbol.
#include "FFInt.cpp"
#include "FFIntVec.cpp"
namespace firefly {
  template FFIntVec<2> FFIntVec<2>::pow(const int&) const;
  template FFIntVec<2> FFIntVec<2>::pow(const std::vector<int>&) const;
}
