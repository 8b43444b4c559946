// Type-erased access to the library, so that one harness can drive any setup,
// error mode and build of it.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

enum Mode { m_plain = 0, m_string = 1, m_throw = 2 };
inline const char* mode_name(int m) { return m == 0 ? "default" : m == 1 ? "string_error" : "throw_on_error"; }
// 0: separate headers, 1: single header, 2: separate headers with the portable line reader
enum Variant { v_headers = 0, v_single = 1, v_portable = 2 };
inline const char* variant_name(int v) { return v == 0 ? "headers" : v == 1 ? "single-header" : "portable-reader"; }

enum class Exc { none, ss, bad_alloc, user, other };

struct Res {
    Exc exc = Exc::none;
    std::string what;
    std::string val; // canonical text of the returned values
    bool flag = false;
    bool threw() const { return exc != Exc::none; }
};

struct Obs {
    bool valid = true, eof = false;
    size_t line = 0, pos = 0;
    std::string err; // only with string_error
};

// request forms; every form reads one row
enum Shape {
    sh_s1, sh_s2, sh_s3, sh_s4, // strings
    sh_v2,                      // two string views
    sh_is,                      // int, string
    sh_svs,                     // string, void, string
    sh_os,                      // optional<int>, string
    sh_vs,                      // variant<int, string>, string
    sh_i1,                      // int
    sh_tup_is,                  // std::tuple<int, string>
    sh_tied_is,                 // class with tied members
    sh_obj_is,                  // get_object from int, string
    sh_obj_sv,                  // get_object from a std::tuple<string, void, string>
    sh_ne2,                     // ne<string>, int
    sh_sss_vec,                 // get_object<vector<string>> from 3 strings
    sh_s5,
    sh_cr,                      // char, int from -9 to 99
    sh_bv,                      // optional<bool>, variant<char, bool, string>
    sh_count
};

// one row delivered by an iteration
struct IterRow {
    std::string val;
    Obs obs;
};

constexpr int iterate_styles = 6;
constexpr int chain_kinds = 14;
// the callback given by bits >> 8 (0, 10, 1, 11, 2, 12) throws
constexpr int chain_thrown = 20;
struct ChainOut {
    // one entry per alternative: canonical value or "none"
    std::vector<std::string> values;
    // log of callback invocations in order
    std::vector<std::string> calls;
};

class IParser {
public:
    virtual ~IParser() = default;
    virtual int mode() const = 0;
    virtual Obs obs() const = 0;
    virtual Res get(int shape) = 0;
    virtual bool can(int shape) const = 0;
    virtual bool ignore_next() = 0;
    virtual bool has_header() const = 0;
    virtual Res header() = 0;
    virtual Res raw_header() = 0;
    virtual Res field_exists(const std::string& f) = 0;
    // form 0: vector, otherwise separate arguments (up to 4)
    virtual Res use_fields(const std::vector<std::string>& f, int form) = 0;
    // iterates up to max rows, returns after the loop (res.flag: ended by itself)
    virtual Res iterate(int shape, size_t max, const std::function<void(const IterRow&)>& f, int style) = 0;
    // predicates: bit i is the result of the i-th callback
    // kind below chain_kinds
    virtual Res chain(int kind, unsigned bits, ChainOut& out) = 0;
    virtual std::unique_ptr<IParser> move_construct() = 0;
    virtual bool move_assign(IParser& from) = 0;
    virtual const std::vector<std::string_view>& views() const = 0;
};

class IConverter {
public:
    virtual ~IConverter() = default;
    virtual int mode() const = 0;
    // a converter which this one was copied to or moved to, 0 to 3
    virtual std::unique_ptr<IConverter> clone(int how) = 0;
    // all take a line which may be modified in place (size + terminator)
    virtual Res split(char* line, const std::string& delim, bool dflt) = 0; // val: all columns
    virtual Res convert(int shape, char* line, const std::string& delim, bool dflt) = 0;
    // converts the result of the previous split, through the returned vector or the cache
    virtual Res convert_split(int shape, bool cached) = 0;
    // converts columns that somebody else has split
    virtual Res convert_columns(int shape, const std::vector<std::pair<const char*, const char*>>& cols) = 0;
    virtual bool valid() const = 0;
    virtual std::string error() const = 0;
    // the columns of the previous split as they are now
    virtual std::string columns() const = 0;
    virtual std::vector<std::pair<const char*, const char*>> ranges() const = 0;
};

struct Source {
    // file if path is not empty
    std::string path;
    const char* data = nullptr;
    size_t size = 0;
};

using ParserFn = std::unique_ptr<IParser> (*)(const Source&, const std::string& delim, bool dflt, Res& res);
using ConverterFn = std::unique_ptr<IConverter> (*)();

struct Registry {
    struct Entry {
        int setup, mode, variant;
        ParserFn parser;
        ConverterFn converter;
    };
    std::vector<Entry> entries;
    static Registry& get() {
        static Registry r;
        return r;
    }
    const Entry* find(int setup, int mode, int variant) const {
        for (auto& e : entries)
            if (e.setup == setup && e.mode == mode && e.variant == variant) return &e;
        return nullptr;
    }
};
