// clang rejects "struct X {...} alignas(16);", which the repository's point types expand to (gcc ignores it there).
#include <Eigen/Core>
#undef EIGEN_ALIGN16
#define EIGEN_ALIGN16 __attribute__((aligned(16)))
