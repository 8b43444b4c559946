// Failing allocations under AddressSanitizer: operator new and the calls of
// realloc in the library (linked with --wrap=realloc).
#include "fault.hpp"
#include "track.hpp"
#include <cerrno>
#include <cstdlib>
#include <new>
namespace {
long fail_at = 0, count = 0, hits = 0;
bool persist = false;
bool fails() {
    if (sut_depth == 0) return false;
    ++count;
    if (fail_at && (persist ? count >= fail_at : count == fail_at)) {
        ++hits;
        errno = ENOMEM;
        return true;
    }
    return false;
}
} // namespace
void* operator new(size_t n) {
    if (fails()) throw std::bad_alloc{};
    void* p = malloc(n);
    if (!p) throw std::bad_alloc{};
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (fails()) return nullptr;
    return __real_realloc(p, n);
}
void fault_arm(long k, bool p) {
    fail_at = k;
    persist = p;
    count = 0;
    hits = 0;
}
long fault_count() { return count; }
long fault_hits() { return hits; }
