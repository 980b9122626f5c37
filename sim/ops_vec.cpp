// Instrumented: bit vectors with std::allocator.
#include "vec_ops.hpp"
static_assert(sizeof(bit::bit_vector<std::uint8_t>) <= 128, "object slot size");
namespace { template <class T> using Std = std::allocator<T>; }
void lib_vec(int wt, int al, VecArgs& a) { if (al == 0) vec_run<Std>(wt, a); else lib_vec_user(wt, al, a); }
void lib_vec_view(int wt, int al, void* s, VecView& v) { if (al == 0) vec_view<Std>(wt, s, v); else lib_vec_view_user(wt, al, s, v); }
