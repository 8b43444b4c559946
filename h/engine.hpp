#pragma once
#include "tape.hpp"
#include <cstdio>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct Fail {
    std::string msg;
};

// set while a Fail may be raised; all oracles report through this
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

struct Ctx {
    bool verbose = false;
    std::string desc;        // human readable case, built when verbose
    bool nontrivial = false; // by the rule of the property
    uint64_t hash = 1469598103934665603ull;
    std::map<std::string, uint64_t>* labels = nullptr;

    void h(const std::string& s) {
        for (unsigned char c : s) hash = (hash ^ c) * 1099511628211ull;
        hash = (hash ^ 0xff) * 1099511628211ull;
    }
    void h(uint64_t x) {
        for (int i = 0; i < 8; ++i) hash = (hash ^ ((x >> (8 * i)) & 0xff)) * 1099511628211ull;
    }
    void label(const char* l) {
        if (labels) ++(*labels)[l];
    }
    void note(const std::string& s) {
        if (verbose) desc += s + "\n";
    }
    bool notes() const { return verbose; }
};

struct Family {
    const char* name;
    unsigned weight;
    void (*fn)(Tape&, Ctx&);
};

// defined by each property
extern const char* const prop_id;
extern const char* const prop_rule;
extern const std::vector<Family> families;
// called once in each process before the first case
void prop_init(const std::string& scratch, bool thorough);
// true if memory allocated inside of library calls must be gone after a case
extern const bool prop_check_leaks;

// printable form of a byte string
inline std::string show(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string r = "\"";
    size_t i = 0;
    while (i < s.size()) {
        unsigned char c = s[i];
        size_t n = 1;
        while (i + n < s.size() && static_cast<unsigned char>(s[i + n]) == c) ++n;
        std::string one;
        if (c == '\n') one = "\\n";
        else if (c == '\r') one = "\\r";
        else if (c == '\t') one = "\\t";
        else if (c == '"') one = "\\\"";
        else if (c == '\\') one = "\\\\";
        else if (c < 32 || c >= 127) one = std::string("\\x") + hex[c >> 4] + hex[c & 15];
        else one = std::string(1, static_cast<char>(c));
        if (n >= 12) {
            r += "<" + one + "*" + std::to_string(n) + ">";
        } else {
            for (size_t k = 0; k < n; ++k) r += one;
        }
        i += n;
    }
    return r + "\"";
}
