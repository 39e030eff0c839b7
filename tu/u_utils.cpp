// Verification unit: number-theoretic and bookkeeping helpers.
#include "FFInt.cpp"
#include "RationalNumber.cpp"
#include "utils.cpp"
