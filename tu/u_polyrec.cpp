// Verification unit: the polynomial reconstruction class.
#include "PolyReconst.cpp"
