// Verification unit: exact rational numbers and monomials over them.
#include "RationalNumber.cpp"
#include "Monomial.cpp"
