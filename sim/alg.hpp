#pragma once
#include <cstddef>
#include <cstdint>
#include "thrown.hpp"
struct AlgArgs {
    int code = 0;
    void* base = nullptr;                       // first word of the array
    int64_t words = 0;                          // words in the array
    void* obj = nullptr;                        // bit_vector that owns the array (K_OBJ)
    int64_t d = 0, len = 0, s = 0, s2 = 0, n = 0; // bit offsets from base
    int fn = 0, val = 0;
    int64_t throw_at = 0, calls = 0; int thk = 0; // throwing functions
    int reent = 0; void* scratch = nullptr;     // functions that call the library themselves, on 3 words of their own
    int64_t ret = 0;
    int64_t out[8] = {0};
};
// what the bit iterators of a run are made of
#ifndef SIM_SKIP
#define SIM_SKIP 0
#endif
enum Kind { K_RAW, K_VEC, K_OBJ, K_MIX, K_MIX2, K_REV, K_NUM };
enum AlgCode { A_COPY, A_MOVE, A_COPYB, A_SWAP, A_REVERSE, A_ROTATE, A_SHL, A_SHR, A_FILL, A_TR1, A_TR2,
    A_COUNT, A_FIND, A_EQUAL, A_READ, A_TR1X, A_TR2X,
    P_SET, P_RESET, P_FLIP, P_ASSIGN, P_ASSIGNREF, P_AND, P_OR, P_XOR, P_GET, P_SWAP, P_SWAPVAL, P_PTR, P_PTRDIFF, P_ITER, P_STDCOPY, P_STDCOUNT,
    P_STDFIND, P_STDFILL, P_STDREV, P_ASSIGNW, O_COPY, P_NUM };
constexpr int64_t SCRATCH_BITS = 3;             // in words
void lib_alg(int wt, int it, AlgArgs& a);
void lib_prx(int wt, int it, AlgArgs& a);
// makes a bit_vector over `bits` bits in `at` and tells where its words are; size of the object
std::size_t lib_obj_size(int wt);
void* lib_obj_make(int wt, void* at, int64_t bits);
// whether every kind is built, or only the plain one
int lib_alg_skip();   // kinds that do not compile on the tree under test, one bit each
int lib_prx_skip();
