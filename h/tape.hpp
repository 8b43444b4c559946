// Choice tape: every random decision of a generated case is one draw recorded
// here, so that a case can be replayed and shrunk. 0 is always the simplest.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s{seed} {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r{a ^ (b * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull)};
    r.next();
    return r.next();
}

struct TapeOverflow {};

struct Tape {
    enum class Kind { generate, replay, bytes };
    Kind kind = Kind::generate;
    Rng rng;
    // storage is external so that it survives a crash of the process
    uint32_t* out = nullptr;
    uint32_t* out_size = nullptr;
    size_t cap = 0;
    const uint32_t* in = nullptr;
    size_t in_size = 0;
    size_t pos = 0;
    const uint8_t* bytes = nullptr;
    size_t bytes_size = 0;
    size_t drawn = 0; // bytes only, where pos counts the bytes

    uint32_t below(uint32_t n) {
        uint32_t x = 0;
        if (n == 0) n = 1;
        switch (kind) {
        case Kind::generate:
            x = static_cast<uint32_t>((rng.next() >> 11) % n);
            break;
        case Kind::replay:
            x = pos < in_size ? in[pos] : 0;
            if (x >= n) x = n - 1;
            break;
        case Kind::bytes: {
            int w = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
            for (int i = 0; i < w; ++i) {
                x = (x << 8) | (pos < bytes_size ? bytes[pos] : 0);
                if (pos < bytes_size) ++pos;
            }
            if (n > 1) x %= n; else x = 0;
            if (drawn >= cap) throw TapeOverflow{};
            if (out) {
                out[drawn] = x;
                *out_size = static_cast<uint32_t>(drawn + 1);
            }
            ++drawn;
            return x;
        }
        }
        if (pos >= cap) throw TapeOverflow{};
        if (out) {
            out[pos] = x;
            *out_size = static_cast<uint32_t>(pos + 1);
        }
        ++pos;
        return x;
    }
    // simplest is lo
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
    // true with probability num/den; simplest is false
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    template <typename C>
    auto& pick(const C& c) { return c[below(static_cast<uint32_t>(c.size()))]; }
    char pickc(const std::string& s) { return s[below(static_cast<uint32_t>(s.size()))]; }
    // index by weights; simplest is the first
    size_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t sum = 0;
        for (auto x : w) sum += x;
        uint32_t r = below(sum);
        size_t i = 0;
        for (auto x : w) {
            if (r < x) return i;
            r -= x;
            ++i;
        }
        return 0;
    }
};
