// Instrumented: bit vectors with allocators of the user's, which have an identity.
#include "vec_ops.hpp"
extern "C" void* sim_user_alloc(int id, std::size_t bytes);        // throws std::bad_alloc
extern "C" void sim_user_free(int id, void* p, std::size_t bytes) noexcept;
namespace {
template <class T, bool P> struct UserAlloc {                        // P: the allocator travels with the contents
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<P>;
    using propagate_on_container_move_assignment = std::bool_constant<P>;
    using propagate_on_container_swap = std::bool_constant<P>;
    using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = UserAlloc<U, P>; };
    int id = 0;
    UserAlloc() = default;
    explicit UserAlloc(int i) : id(i) {}
    template <class U> UserAlloc(const UserAlloc<U, P>& o) : id(o.id) {}
    T* allocate(std::size_t n) { return static_cast<T*>(sim_user_alloc(id, n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { sim_user_free(id, p, n * sizeof(T)); }
    std::size_t max_size() const noexcept { return (std::size_t(1) << 27) / sizeof(T); }
    UserAlloc select_on_container_copy_construction() const { return P ? *this : UserAlloc(); }
    friend bool operator==(const UserAlloc& a, const UserAlloc& b) { return a.id == b.id; }
    friend bool operator!=(const UserAlloc& a, const UserAlloc& b) { return a.id != b.id; }
};
template <class T> using Travels = UserAlloc<T, true>;
template <class T> using Stays = UserAlloc<T, false>;
}
static_assert(sizeof(bit::bit_vector<std::uint8_t, Stays<std::uint8_t>>) <= 128, "object slot size");
void lib_vec_user(int wt, int al, VecArgs& a) { if (al == 1) vec_run<Travels>(wt, a); else vec_run<Stays>(wt, a); }
void lib_vec_view_user(int wt, int al, void* s, VecView& v) { if (al == 1) vec_view<Travels>(wt, s, v); else vec_view<Stays>(wt, s, v); }
