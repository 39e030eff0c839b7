// Verification unit: the field element class, with the instantiations of its
// templated members that are put under contract.
#include "FFInt.cpp"
namespace firefly {
  template FFInt::FFInt(const int);
  template FFInt::FFInt(const long);
  template FFInt::FFInt(const unsigned int);
  template FFInt::FFInt(const unsigned long);
  template FFInt FFInt::pow(const int&) const;
  template FFInt FFInt::pow(const long&) const;
  template FFInt FFInt::pow(const unsigned int&) const;
  template FFInt FFInt::pow(const unsigned long&) const;
}
