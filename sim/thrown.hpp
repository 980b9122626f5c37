// What the functions and iterators of the user's throw.
#pragma once
#include <cstdint>
#include <exception>
#include <new>
#include <stdexcept>
struct ThrowPlain { int64_t payload; };
struct ThrowStd : std::exception { int64_t payload; explicit ThrowStd(int64_t p) : payload(p) {} };
struct ThrowRun : std::runtime_error { int64_t payload; explicit ThrowRun(int64_t p) : std::runtime_error("user"), payload(p) {} };
struct ThrowMem : std::bad_alloc { int64_t payload; explicit ThrowMem(int64_t p) : payload(p) {} };
struct ThrowLen : std::length_error { int64_t payload; explicit ThrowLen(int64_t p) : std::length_error("user"), payload(p) {} };
constexpr int THROW_KINDS = 6;
[[noreturn]] void sim_throw(int kind, int64_t payload);       // harness
