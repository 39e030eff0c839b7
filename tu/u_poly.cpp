// Verification unit: dense univariate polynomials.
#include "FFInt.cpp"
#include "Poly.cpp"
