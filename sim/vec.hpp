#pragma once
#include <cstddef>
#include <cstdint>
#include "thrown.hpp"
struct VecArgs {
    int code = 0;
    void* s = nullptr; void* t = nullptr;        // objects: subject and other
    int64_t p = 0, q = 0, n = 0;
    uint64_t size = 0;                           // requested size (unsigned, any value)
    bool v = false; int x = 0;
    int aid = 0; bool deflt = false;             // allocator identity; leave the allocator argument out
    const void* words = nullptr;                 // shared source array
    const bool* bools = nullptr; int64_t nbools = 0;
    const char* text = nullptr; int64_t ntext = 0;
    int64_t ret = 0; int64_t done = 0;
    int64_t throw_at = 0, calls = 0; int kind = 0, thk = 0;   // the user's iterator throws at this operation of its kind
};
struct VecView { uint64_t size, capacity, max_size; const void* data; bool empty; int64_t span; };
enum VecCode {
    V_NEW, V_NEWALLOC, V_NEWN, V_NEWNV, V_NEWBITS, V_NEWFROM, V_NEWBOOL, V_NEWWORDS, V_NEWILB, V_NEWILW, V_NEWILV, V_NEWTEXT, V_COPY, V_COPYALLOC, V_MOVE, V_MOVEALLOC, V_DESTROY,
    V_ASSIGN, V_MASSIGN, V_SWAP,
    V_PUSH, V_INS1, V_INSN, V_INSR, V_RESIZE, V_RESIZEV, V_RESERVE, V_SHRINK,
    V_ERASE1, V_ERASER, V_POP, V_CLEAR,
    V_GET, V_PUT, V_AT, V_FRONT, V_BACK, V_ITER, V_CGET, V_DEBUG,
    V_REVERSE, V_ROTATE, V_SHL, V_SHR, V_FILL, V_NOT, V_COUNT, V_FIND, V_EQUAL, V_COPYR, V_SWAPR,
    V_HUGE, V_UBOOL, V_UWORDS, V_NUM };
void lib_vec(int wt, int al, VecArgs& a);
void lib_vec_view(int wt, int al, void* s, VecView& v);
void lib_vec_user(int wt, int al, VecArgs& a);
void lib_vec_view_user(int wt, int al, void* s, VecView& v);
void sim_take_text(const char* p, std::size_t n);   // harness: copies the text
