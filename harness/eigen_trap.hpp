// Force-included in every translation unit: Eigen's index/size assertions are kept on (the repository
// disables them), recorded, and turned into an exception so that the exploration can go on.
#pragma once
#ifdef __cplusplus
extern "C" void mc_eigen_assert(const char* expr, const char* file, int line);
#define eigen_assert(x) do { if (!(x)) mc_eigen_assert(#x, __FILE__, __LINE__); } while (false)
#endif
