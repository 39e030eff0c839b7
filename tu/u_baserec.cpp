// Verification unit: random number generation.
#include "FFInt.cpp"
#include "BaseReconst.cpp"
