// The allocator of the whole process, with counting and failing of the
// allocations made in library calls (also those of the C library).
#include "fault.hpp"
#include "track.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
}
thread_local int sut_depth = 0;
namespace {
constexpr size_t cap = 1 << 14;
const void* table[cap];
size_t live = 0;
bool enabled = false;
long fail_at = 0, count = 0, hits = 0;
bool persist = false;

size_t slot(const void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 50; }
void put(const void* p) {
    if (!enabled || sut_depth == 0 || !p || live > cap / 2) return;
    size_t i = slot(p) % cap;
    while (table[i] && table[i] != p) i = (i + 1) % cap;
    if (!table[i]) ++live;
    table[i] = p;
}
void del(const void* p) {
    if (!enabled || !p || live == 0) return;
    size_t i = slot(p) % cap;
    while (table[i] && table[i] != p) i = (i + 1) % cap;
    if (!table[i]) return;
    --live;
    size_t j = i;
    table[i] = nullptr;
    while (true) {
        j = (j + 1) % cap;
        if (!table[j]) return;
        size_t k = slot(table[j]) % cap;
        bool between = i <= j ? (i < k && k <= j) : (i < k || k <= j);
        if (between) continue;
        table[i] = table[j];
        table[j] = nullptr;
        i = j;
    }
}
bool fails() {
    if (sut_depth == 0) return false;
    ++count;
    if (fail_at && (persist ? count >= fail_at : count == fail_at)) {
        ++hits;
        errno = ENOMEM;
        return true;
    }
    return false;
}
} // namespace

extern "C" {
void* malloc(size_t n) {
    if (fails()) return nullptr;
    void* p = __libc_malloc(n);
    put(p);
    return p;
}
void* calloc(size_t a, size_t b) {
    if (fails()) return nullptr;
    void* p = __libc_calloc(a, b);
    put(p);
    return p;
}
void* realloc(void* q, size_t n) {
    if (fails()) return nullptr;
    if (!q) {
        void* p = __libc_malloc(n);
        put(p);
        return p;
    }
    del(q);
    void* p = __libc_realloc(q, n);
    put(p);
    return p;
}
void free(void* p) {
    del(p);
    __libc_free(p);
}
}
size_t track_live() { return live; }
void track_reset() {
    enabled = true;
    if (live) {
        memset(table, 0, sizeof table);
        live = 0;
    }
}
void fault_arm(long k, bool p) {
    fail_at = k;
    persist = p;
    count = 0;
    hits = 0;
}
long fault_count() { return count; }
long fault_hits() { return hits; }
