// Verification unit: univariate interpolation.
#include "FFInt.cpp"
#include "RationalNumber.cpp"
#include "utils.cpp"
#include "PolynomialFF.cpp"
#include "FFThieleInterpolator.cpp"
#include "PolyReconst.cpp"
