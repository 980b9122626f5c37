// Force-included before the library: block memory functions go through the
// simulator even where the compiler would expand them inline.
#pragma once
#include <cstddef>
// std::string is compiled here and not taken from the library, whose accesses cannot be seen
#ifdef _GLIBCXX_EXTERN_TEMPLATE
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
extern "C" void* sim_memmove(void*, const void*, std::size_t) noexcept;
extern "C" void* sim_memcpy(void*, const void*, std::size_t) noexcept;
extern "C" void* sim_memset(void*, int, std::size_t) noexcept;
extern "C" int sim_memcmp(const void*, const void*, std::size_t) noexcept;
extern "C" void* sim_memchr(const void*, int, std::size_t) noexcept;
#define __builtin_memmove sim_memmove
#define __builtin_memcpy sim_memcpy
#define __builtin_memset sim_memset
#define __builtin_memcmp sim_memcmp
