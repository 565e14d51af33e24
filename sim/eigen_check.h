// Index and size checks of Eigen and of the standard containers stay on in the simulated build (they are off in a release build,
// where an index beyond a small vector on the stack goes unnoticed).
#pragma once
extern "C" [[noreturn]] void sim_assert_failed(const char* cond, const char* file, int line);
#define eigen_assert(x) do { if (!(x)) sim_assert_failed(#x, __FILE__, __LINE__); } while (0)
