// Marks the dynamic extent of calls into the library, so that allocations made
// there can be told from those of the harness.
#pragma once
#include <cstddef>
extern thread_local int sut_depth;
struct InSut {
    InSut() { ++sut_depth; }
    ~InSut() { --sut_depth; }
    InSut(const InSut&) = delete;
};
// back in the harness for a while
struct NoSut {
    int was = sut_depth;
    NoSut() { sut_depth = 0; }
    ~NoSut() { sut_depth = was; }
    NoSut(const NoSut&) = delete;
};
// number of blocks allocated inside of the library and still alive
size_t track_live();
void track_reset();
// their size, and the most it was since the reset
size_t track_bytes();
size_t track_peak();
