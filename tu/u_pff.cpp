// Verification unit: multivariate polynomials over the field and the Vandermonde solver.
#include "FFInt.cpp"
#include "RationalNumber.cpp"
#include "utils.cpp"
#include "PolynomialFF.cpp"
