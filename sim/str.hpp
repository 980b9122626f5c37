#pragma once
#include <cstddef>
#include <cstdint>
#include <istream>
#include <ostream>
struct StrArgs {
    bool wide = false;
    std::istream* is = nullptr; std::wistream* wis = nullptr;
    std::ostream* os = nullptr; std::wostream* wos = nullptr;
    int mode = 0;                 // 0 value, 1 reference, 2 through an iterator
    void* base = nullptr;         // words
    int64_t bit = 0;
    int val = 0;                  // value in and out (mode 0)
};
void lib_read_bit(int wt, StrArgs& a);
void lib_write_bit(int wt, StrArgs& a);
