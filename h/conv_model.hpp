// What a field converts to, written independently of the library.
#pragma once
#include "conv.hpp"
#include "engine.hpp"
#include <cmath>
#include <cstring>
#include <functional>
#include <map>

namespace cm {

struct V {
    bool ok = false;
    std::string text;     // as in enc_types.hpp
    std::string error;    // message of a failed restriction
    long double num = 0;  // numbers, characters, bool, enumerators
    bool null = false;    // empty optional
    std::string s;        // texts
};
using Spec = std::function<V(const std::string&)>;

inline bool digits(const std::string& s) {
    if (s.empty()) return false;
    for (char c : s) if (c < '0' || c > '9') return false;
    return true;
}

// lo, hi: limits as decimal text without sign; lo empty for unsigned types
inline V integer(const std::string& f, const char* tag, const std::string& lo, const std::string& hi) {
    V v;
    bool neg = !f.empty() && f[0] == '-';
    if (neg && lo.empty()) return v;
    std::string d = f.substr(neg ? 1 : 0);
    if (!digits(d)) return v;
    size_t z = d.find_first_not_of('0');
    d = z == std::string::npos ? "0" : d.substr(z);
    const std::string& lim = neg ? lo : hi;
    if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return v;
    v.ok = true;
    for (char c : d) v.num = v.num * 10 + (c - '0');
    if (neg) v.num = -v.num;
    v.text = std::string(tag) + " " + (neg && d != "0" ? "-" : "") + d;
    return v;
}

inline Spec int_spec(const std::string& n) {
    struct T { const char* n; const char* lo; const char* hi; };
    static const T ts[] = {{"short", "32768", "32767"}, {"ushort", "", "65535"}, {"int", "2147483648", "2147483647"}, {"uint", "", "4294967295"},
        {"long", "9223372036854775808", "9223372036854775807"}, {"ulong", "", "18446744073709551615"}, {"llong", "9223372036854775808", "9223372036854775807"},
        {"ullong", "", "18446744073709551615"}, {"ss::int8", "128", "127"}, {"ss::uint8", "", "255"}};
    for (auto& t : ts)
        if (n == t.n) return [t](const std::string& f) { return integer(f, t.n, t.lo, t.hi); };
    return {};
}

inline bool decimal(const std::string& f) {
    size_t i = 0, n = f.size(), k = 0;
    auto dig = [&] { size_t b = i; while (i < n && f[i] >= '0' && f[i] <= '9') ++i; return i - b; };
    if (i < n && f[i] == '-') ++i;
    k = dig();
    if (i < n && f[i] == '.') { ++i; k += dig(); }
    if (!k) return false;
    if (i < n && (f[i] == 'e' || f[i] == 'E')) {
        ++i;
        if (i < n && (f[i] == '-' || f[i] == '+')) ++i;
        if (!dig()) return false;
    }
    return i == n;
}

// a spelling of infinity or not-a-number, which is left open
inline bool special(const std::string& f) {
    std::string s;
    for (char c : f) s += static_cast<char>(tolower(static_cast<unsigned char>(c)));
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1);
    return s == "inf" || s == "infinity" || s.rfind("nan", 0) == 0;
}

inline std::string dbl_text(double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    char b[40];
    snprintf(b, sizeof b, "double %016llx", static_cast<unsigned long long>(u));
    return b;
}
inline std::string flt_text(float v) {
    uint32_t u;
    memcpy(&u, &v, 4);
    char b[40];
    snprintf(b, sizeof b, "float %08x", u);
    return b;
}

inline V dbl(const std::string& f) {
    V v;
    if (!decimal(f)) return v;
    double d = strtod(f.c_str(), nullptr);
    v.ok = true;
    v.num = d;
    v.text = dbl_text(d);
    return v;
}
inline V flt(const std::string& f) {
    V v;
    if (!decimal(f)) return v;
    float d = strtof(f.c_str(), nullptr);
    v.ok = true;
    v.num = d;
    v.text = flt_text(d);
    return v;
}

template <typename T>
V chr(const std::string& f, const char* tag) {
    V v;
    if (f.size() != 1) return v;
    v.ok = true;
    v.num = static_cast<T>(f[0]);
    v.text = std::string(tag) + " " + std::to_string(static_cast<int>(static_cast<T>(f[0])));
    return v;
}

inline V boolean(const std::string& f) {
    V v;
    bool t = f == "1" || f == "true";
    if (!t && f != "0" && f != "false") return v;
    v.ok = true;
    v.num = t;
    v.text = std::string("bool ") + (t ? "1" : "0");
    return v;
}

inline V text(const std::string& f, const char* tag) {
    V v;
    v.ok = true;
    v.s = f;
    v.text = std::string(tag) + " " + std::to_string(f.size()) + ":" + f;
    return v;
}

inline V shape(const std::string& f) {
    V v;
    v.num = f == "circle" ? 0 : f == "square" ? 1 : f == "rectangle" ? 2 : -1;
    v.ok = v.num >= 0;
    v.text = "shape " + std::to_string(static_cast<int>(v.num));
    return v;
}

inline V hex(const std::string& f) {
    V v;
    v.ok = !f.empty() && f.find_first_not_of("0123456789abcdef") == std::string::npos;
    v.text = "hex " + std::to_string(f.size()) + ":" + f;
    return v;
}

inline Spec opt(Spec s) {
    return [s](const std::string& f) {
        V v = s(f);
        if (v.ok) v.text = "some(" + v.text + ")";
        else { v = V{}; v.null = true; v.text = "none"; }
        v.ok = true;
        return v;
    };
}

inline Spec var(std::vector<Spec> ss) {
    return [ss](const std::string& f) {
        for (size_t i = 0; i < ss.size(); ++i) {
            V v = ss[i](f);
            if (!v.ok) continue;
            v.text = "alt" + std::to_string(i) + "(" + v.text + ")";
            return v;
        }
        return V{};
    };
}

inline Spec only(Spec s, std::function<bool(const V&)> p, const std::string& msg = "validation error") {
    return [s, p, msg](const std::string& f) {
        V v = s(f);
        if (v.ok && !p(v)) { v = V{}; v.error = msg; }
        return v;
    };
}

inline const std::map<std::string, Spec>& specs() {
    static const std::map<std::string, Spec> m = [] {
        std::map<std::string, Spec> r;
        for (auto n : {"short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "ss::int8", "ss::uint8"}) r[n] = int_spec(n);
        r["float"] = flt;
        r["double"] = dbl;
        r["char"] = [](const std::string& f) { return chr<char>(f, "char"); };
        r["schar"] = [](const std::string& f) { return chr<signed char>(f, "schar"); };
        r["uchar"] = [](const std::string& f) { return chr<unsigned char>(f, "uchar"); };
        r["bool"] = boolean;
        r["string"] = [](const std::string& f) { return text(f, "string"); };
        r["view"] = [](const std::string& f) { return text(f, "view"); };
        r["shape"] = shape;
        r["hex"] = hex;
        auto s = [&](const char* n) { return r.at(n); };
        for (auto n : {"int", "char", "bool", "string", "double", "shape", "ss::uint8"}) r[std::string("opt<") + n + ">"] = opt(s(n));
        r["opt<opt<int>>"] = opt(opt(s("int")));
        r["opt<var<int,char>>"] = opt(var({s("int"), s("char")}));
        r["var<int,char>"] = var({s("int"), s("char")});
        r["var<char,int>"] = var({s("char"), s("int")});
        r["var<int,double,string>"] = var({s("int"), s("double"), s("string")});
        r["var<bool,int,shape>"] = var({s("bool"), s("int"), s("shape")});
        r["var<string,int>"] = var({s("string"), s("int")});
        r["var<shape,view>"] = var({s("shape"), s("view")});
        r["var<opt<int>,string>"] = var({opt(s("int")), s("string")});
        r["var<ss::int8,short,long>"] = var({s("ss::int8"), s("short"), s("long")});
        r["var<float,bool,char>"] = var({s("float"), s("bool"), s("char")});
        r["var<hex,ullong>"] = var({s("hex"), s("ullong")});
        r["var<int>"] = var({s("int")});
        const std::string ex = "value excluded";
        auto one_of = [](std::vector<long double> xs, bool in) {
            return [xs, in](const V& v) {
                for (auto x : xs) if (v.num == x) return in;
                return !in;
            };
        };
        auto gt = [](long double x) { return [x](const V& v) { return !v.null && v.num > x; }; };
        auto gte = [](long double x) { return [x](const V& v) { return !v.null && v.num >= x; }; };
        auto lt = [](long double x) { return [x](const V& v) { return v.num < x; }; };
        auto lte = [](long double x) { return [x](const V& v) { return v.num <= x; }; };
        auto ir = [](long double a, long double b) { return [a, b](const V& v) { return v.num >= a && v.num <= b; }; };
        auto oor = [](long double a, long double b) { return [a, b](const V& v) { return v.num < a || v.num > b; }; };
        r["ax<int,10,20>"] = only(s("int"), one_of({10, 20}, false), ex);
        r["ax<int,0>"] = only(s("int"), one_of({0}, false), ex);
        r["nx<int,10,20,30>"] = only(s("int"), one_of({10, 20, 30}, true), ex);
        r["nx<int,-1>"] = only(s("int"), one_of({-1}, true), ex);
        r["gt<int,5>"] = only(s("int"), gt(5));
        r["gte<int,5>"] = only(s("int"), gte(5));
        r["lt<int,-5>"] = only(s("int"), lt(-5));
        r["lte<int,-5>"] = only(s("int"), lte(-5));
        r["ir<int,-3,7>"] = only(s("int"), ir(-3, 7));
        r["oor<int,-3,7>"] = only(s("int"), oor(-3, 7));
        r["ir<int,4,4>"] = only(s("int"), ir(4, 4));
        r["oor<int,4,4>"] = only(s("int"), oor(4, 4));
        r["ax<char,'a','b','c'>"] = only(s("char"), one_of({'a', 'b', 'c'}, false), ex);
        r["nx<char,'A','B'>"] = only(s("char"), one_of({'A', 'B'}, true), ex);
        r["ir<char,'a','f'>"] = only(s("char"), ir('a', 'f'));
        r["gte<double,0>"] = only(s("double"), gte(0));
        r["gt<float,1>"] = only(s("float"), gt(1));
        r["ir<double,0,10>"] = only(s("double"), ir(0, 10));
        r["oor<float,-1,1>"] = only(s("float"), oor(-1, 1));
        r["lte<double,2>"] = only(s("double"), lte(2));
        r["ax<double,0>"] = only(s("double"), one_of({0}, false), ex);
        r["nx<float,3,4>"] = only(s("float"), one_of({3, 4}, true), ex);
        r["gt<uint,7u>"] = only(s("uint"), gt(7));
        r["lte<long,-2147483649>"] = only(s("long"), lte(-2147483649.0L));
        r["gt<ullong,9e18>"] = only(s("ullong"), gt(9000000000000000000.0L));
        auto nonempty = [](const V& v) { return !v.s.empty(); };
        r["ne<string>"] = only(s("string"), nonempty, "empty field");
        r["ne<view>"] = only(s("view"), nonempty, "empty field");
        auto even = [](const V& v) { return fmodl(v.num, 2) == 0; };
        r["even<int>"] = only(s("int"), even, "number not even");
        r["even<long>"] = only(s("long"), even, "number not even");
        r["odd<int>"] = only(s("int"), [](const V& v) { return fmodl(v.num, 2) != 0; });
        r["short_text"] = only(s("string"), [](const V& v) { return v.s.size() < 4; }, "text too long");
        r["nx<shape,circle,square>"] = only(s("shape"), one_of({0, 1}, true), ex);
        r["ax<shape,circle>"] = only(s("shape"), one_of({0}, false), ex);
        r["gte<opt<int>,0>"] = only(opt(s("int")), gte(0));
        r["is_set<int>"] = only(opt(s("int")), [](const V& v) { return !v.null; }, "not set");
        r["ax<bool,false>"] = only(s("bool"), one_of({0}, false), ex);
        r["gte<ss::int8,3>"] = only(s("ss::int8"), gte(3));
        // limits that the type cannot represent
        r["lt<int,5000000000>"] = only(s("int"), lt(5000000000.0L));
        r["gte<int,-5000000000>"] = only(s("int"), gte(-5000000000.0L));
        r["lt<short,40000>"] = only(s("short"), lt(40000));
        r["ir<short,-40000,40000>"] = only(s("short"), ir(-40000, 40000));
        r["oor<ss::int8,-300,200>"] = only(s("ss::int8"), oor(-300, 200));
        r["gt<ss::uint8,-1>"] = only(s("ss::uint8"), gt(-1));
        r["lte<ss::uint8,300>"] = only(s("ss::uint8"), lte(300));
        r["nx<ss::int8,5,200,261>"] = only(s("ss::int8"), one_of({5, 200, 261}, true), ex);
        r["ax<ss::int8,5,200,261>"] = only(s("ss::int8"), one_of({5, 200, 261}, false), ex);
        r["ax<short,65541,-3>"] = only(s("short"), one_of({65541, -3}, false), ex);
        r["ax<int,'a',4294967301>"] = only(s("int"), one_of({97, 4294967301.0L}, false), ex);
        return r;
    }();
    return m;
}

// a delimiter which occurs neither in the field nor in its surroundings, preferably
// one that would continue the field
inline std::string delim_for(Tape& t, const std::string& f) {
    static const std::vector<std::string> ds = {",", ";", "5", "9", "7", ".", "e", "-", "E", "::", " ", "r", "l", "n", "(", "::,", "f", "55", "+"};
    size_t k = t.below(static_cast<uint32_t>(ds.size()));
    for (size_t i = 0; i < ds.size(); ++i) {
        auto& d = ds[(k + i) % ds.size()];
        if ((f + d).find(d) == f.size() && (d.size() == 1 || f.find(d[0]) == std::string::npos)) return d;
    }
    return "\x01";
}

// checks a field against one type by one route, in every build
inline bool check(Ctx& c, const std::string& type, const std::string& field, const std::string& delim, int route) {
    // a converter takes an empty line as no columns at all
    if (field.empty() && (route == rt_conv || route == rt_split)) route = rt_conv3;
    // only these take a NUL within a field
    if (field.find('\0') != std::string::npos && route != rt_extract) route = rt_columns;
    V want = specs().at(type)(field);
    std::string suffix;
    if (!want.ok) {
        static const int col[] = {1, 2, 1, 1, 2, 1, 1, 3, 1, 1, 2};
        suffix = (want.error.empty() ? "invalid conversion for parameter" : want.error) + " at column " + std::to_string(col[route]) + ": '" + field + "'";
    }
    for (auto* ct : ConvRegistry::get().named(type)) {
        ConvOut o = ct->fn(field, delim, route);
        if (!o.has) continue;
        std::string where = std::string(conv_variant_name(ct->variant)) + ", " + route_name(route) + ", delimiter " + show(delim) + ": " + show(field) + " to " + type;
        if (c.notes()) c.note(where + " -> " + (o.ok ? o.val : "failure " + show(o.err)));
        if (o.ok != want.ok) fail(where + (o.ok ? " gave " + o.val + ", expected a failure" : " failed, expected " + want.text));
        if (o.ok && o.val != want.text) fail(where + " gave " + show(o.val) + ", expected " + show(want.text));
        if (!o.ok && !o.dflt) fail(where + " failed, but returned " + show(o.val));
        if (!o.ok && o.err_known) {
            if (o.err.size() < suffix.size() || o.err.compare(o.err.size() - suffix.size(), suffix.size(), suffix) != 0)
                fail(where + ": message " + show(o.err) + ", expected " + show(suffix));
        }
        if (o.ok && o.err_known && !o.err.empty()) fail(where + ": message " + show(o.err) + " for a success");
    }
    return want.ok;
}

inline std::string num(Tape& t, int maxd) {
    std::string r;
    int n = t.range(1, maxd);
    for (int i = 0; i < n; ++i) r += static_cast<char>('0' + t.below(10));
    return r;
}

// a stray change of a field
inline std::string mutate(Tape& t, std::string f, const std::string& alphabet) {
    size_t at = t.below(static_cast<uint32_t>(f.size() + 1));
    switch (t.weighted({4, 2, 2, 1})) {
    case 0: f.insert(at, 1, alphabet[t.below(static_cast<uint32_t>(alphabet.size()))]); break;
    case 1: if (at < f.size()) f.erase(at, 1); break;
    case 2: if (at < f.size()) f[at] = alphabet[t.below(static_cast<uint32_t>(alphabet.size()))]; break;
    case 3: if (at < f.size()) f.insert(at, 1, f[at]); break;
    }
    return f;
}
} // namespace cm
