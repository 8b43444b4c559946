#include "track.hpp"
#include <cstdint>
#include <sanitizer/allocator_interface.h>
thread_local int sut_depth = 0;
namespace {
constexpr size_t cap = 1 << 16;
const volatile void* table[cap];
uint32_t sizes[cap];
size_t live = 0, bytes = 0, peak = 0;
bool enabled = false;
size_t slot(const volatile void* p) {
    return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 48;
}
void on_malloc(const volatile void* p, size_t n) {
    if (!enabled || sut_depth == 0 || !p || live > cap / 2) return;
    size_t i = slot(p) % cap;
    while (table[i] && table[i] != p) i = (i + 1) % cap;
    if (!table[i]) ++live;
    else bytes -= sizes[i];
    table[i] = p;
    sizes[i] = static_cast<uint32_t>(n);
    bytes += n;
    if (bytes > peak) peak = bytes;
}
void on_free(const volatile void* p) {
    if (!enabled || !p || live == 0) return;
    size_t i = slot(p) % cap;
    while (table[i] && table[i] != p) i = (i + 1) % cap;
    if (!table[i]) return;
    --live;
    bytes -= sizes[i];
    // delete from the open addressing table
    size_t j = i;
    table[i] = nullptr;
    while (true) {
        j = (j + 1) % cap;
        if (!table[j]) return;
        size_t k = slot(table[j]) % cap;
        bool between = i <= j ? (i < k && k <= j) : (i < k || k <= j);
        if (between) continue;
        table[i] = table[j];
        sizes[i] = sizes[j];
        table[j] = nullptr;
        i = j;
    }
}
} // namespace
size_t track_live() { return live; }
void track_reset() {
    if (!enabled) {
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        enabled = true;
    }
    if (live) {
        for (auto& t : table) t = nullptr;
        live = 0;
    }
    bytes = peak = 0;
}
size_t track_bytes() { return bytes; }
size_t track_peak() { return peak; }
