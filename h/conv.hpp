// Access to the conversion of a single field to one of many types, by route.
#pragma once
#include "iface.hpp"
#include <string>
#include <vector>

enum ConvVariant { cv_headers = 0, cv_single = 1, cv_strtod = 3 };
inline const char* conv_variant_name(int v) { return v == 0 ? "headers" : v == 1 ? "single-header" : "headers without fast_float"; }

enum Route {
    rt_conv,       // converter, the only column
    rt_conv3,      // converter, second of three columns
    rt_split,      // split, then conversion of the result
    rt_cached,     // split, then conversion of the cache
    rt_throw,      // converter with exceptions, second of two columns
    rt_plain,      // converter in the default mode, first of two columns
    rt_parser,     // parser, the only column
    rt_parser3,    // parser, last of three columns
    rt_try,        // substitute conversion behind a failing one
    rt_extract,    // direct call on an exact range without terminator
    rt_columns,    // columns made by the caller, without terminator
    rt_count
};
inline const char* route_name(int r) {
    static const char* n[] = {"converter", "converter, second of three columns", "converter, split", "converter, cached split", "converter with exceptions", "converter in the default mode", "parser", "parser, last of three columns", "substitute conversion", "ss::extract", "columns of the caller"};
    return n[r];
}

struct ConvOut {
    bool ok = false, has = true; // has: the type can be used that way
    std::string val;             // canonical, starts with the type
    std::string err;             // if the route reports errors
    bool err_known = false;
    bool dflt = true;            // on failure: the returned value is default constructed
};

using ConvFn = ConvOut (*)(const std::string& field, const std::string& delim, int route);

struct ConvType {
    const char* name;
    int variant;
    ConvFn fn;
};
struct ConvRegistry {
    std::vector<ConvType> all;
    static ConvRegistry& get() {
        static ConvRegistry r;
        return r;
    }
    std::vector<const ConvType*> named(const std::string& n) const {
        std::vector<const ConvType*> r;
        for (auto& t : all)
            if (n == t.name) r.push_back(&t);
        return r;
    }
};
