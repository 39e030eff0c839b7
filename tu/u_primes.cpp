// Verification unit: the table of moduli.
#include "ReconstHelper.cpp"
