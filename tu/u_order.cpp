// Verification unit: exponent-vector orders and enumerations.
#include "FFInt.cpp"
#include "RationalNumber.cpp"
#include "utils.cpp"
#include "Monomial.cpp"
#include "Polynomial.cpp"
