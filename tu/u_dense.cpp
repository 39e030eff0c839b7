// Verification unit: dense linear algebra, instantiated for field elements.
#include "FFInt.cpp"
#include "firefly/DenseSolver.hpp"
namespace firefly {
  template void calc_inverse(mat_ff<FFInt>&, uint32_t);
  template std::vector<FFInt> solve_gauss_system(mat_ff<FFInt>&, uint32_t, bool);
  template std::vector<FFInt> solve_lu(mat_ff<FFInt>&, std::vector<int>&, const std::vector<FFInt>&, uint32_t);
  template void calc_inverse_lu(const mat_ff<FFInt>&, mat_ff<FFInt>&, const std::vector<int>&, uint32_t);
  template FFInt calc_determinant_lu(const mat_ff<FFInt>&, const std::vector<int>&, uint32_t);
  template void calc_lu_decomposition(mat_ff<FFInt>&, std::vector<int>&, uint32_t);
}
