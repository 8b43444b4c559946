#include "conv_model.hpp"
#include <cfloat>
const char* const prop_id = "C09";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one field, converted to float and double by a generated route in the builds with fast_float, without it, and of the single header; the bits are "
    "compared with the correctly rounded value, the acceptance with a grammar; non-trivial: the text is not the shortest one of its value (halfway, long, "
    "subnormal, overflowing), or a near miss";
void prop_init(const std::string&, bool) {}

static std::string exact(long double v) {
    // all digits; the values here have at most 64 significant bits
    int n = snprintf(nullptr, 0, "%.1200Lf", v);
    std::string s(static_cast<size_t>(n) + 1, 0);
    snprintf(s.data(), s.size(), "%.1200Lf", v);
    s.pop_back();
    size_t e = s.find_last_not_of('0');
    s.erase(e + 1);
    if (!s.empty() && s.back() == '.') s.pop_back();
    return s;
}

// the same number, written with an exponent
static std::string with_exp(Tape& t, const std::string& f) {
    size_t dot = f.find('.');
    std::string neg = !f.empty() && f[0] == '-' ? "-" : "";
    std::string ip = f.substr(neg.size(), dot == std::string::npos ? std::string::npos : dot - neg.size());
    std::string fp = dot == std::string::npos ? "" : f.substr(dot + 1);
    std::string all = ip + fp;
    int point = static_cast<int>(ip.size());
    int at = static_cast<int>(t.below(static_cast<uint32_t>(std::min<size_t>(all.size(), 30) + 1)));
    // strip leading zeros of the digits in front of the point only
    int e = point - at;
    std::string r = neg + all.substr(0, static_cast<size_t>(at)) + "." + all.substr(static_cast<size_t>(at));
    if (all.empty()) return f;
    static const std::vector<std::string> es = {"e", "E"};
    r += t.pick(es);
    if (e < 0) r += "-" + std::to_string(-e);
    else r += (t.chance(1, 2) ? "+" : "") + std::to_string(e);
    return r;
}

static double random_double(Tape& t) {
    uint64_t u = 0;
    switch (t.weighted({4, 2, 2, 2})) {
    case 0: u = static_cast<uint64_t>(1023 + t.range(0, 120) - 60) << 52; break;
    case 1: u = static_cast<uint64_t>(t.range(0, 2046)) << 52; break;
    case 2: u = static_cast<uint64_t>(t.range(0, 2)) << 52; break; // around the smallest normal
    case 3: u = static_cast<uint64_t>(2046 - t.range(0, 1)) << 52; break;
    }
    switch (t.weighted({3, 2, 2, 1})) {
    case 0: u |= (static_cast<uint64_t>(t.below(1u << 20)) << 32) | t.below(0xffffffffu); break;
    case 1: u |= t.below(4); break;
    case 2: u |= 0xfffffffffffffull - t.below(4); break;
    case 3: u |= 1ull << t.below(52); break;
    }
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static float random_float(Tape& t) {
    uint32_t u = 0;
    switch (t.weighted({4, 2, 2, 2})) {
    case 0: u = static_cast<uint32_t>(127 + t.range(0, 60) - 30) << 23; break;
    case 1: u = static_cast<uint32_t>(t.range(0, 254)) << 23; break;
    case 2: u = static_cast<uint32_t>(t.range(0, 2)) << 23; break;
    case 3: u = static_cast<uint32_t>(254 - t.range(0, 1)) << 23; break;
    }
    switch (t.weighted({3, 2, 2, 1})) {
    case 0: u |= t.below(1u << 23); break;
    case 1: u |= t.below(4); break;
    case 2: u |= 0x7fffffu - t.below(4); break;
    case 3: u |= 1u << t.below(23); break;
    }
    float f;
    memcpy(&f, &u, 4);
    return f;
}

static void check(Tape& t, Ctx& c, const std::string& f) {
    c.h(f);
    std::string d = cm::delim_for(t, f);
    if (cm::special(f)) {
        // only the builds are compared
        for (auto ty : {"float", "double"}) {
            int route = static_cast<int>(t.below(rt_count));
            ConvOut first;
            bool have = false;
            for (auto* ct : ConvRegistry::get().named(ty)) {
                auto o = ct->fn(f, d, route);
                // the payload of a not-a-number is left open
                if (o.val.size() > 6 && (o.val[0] == 'f' ? (strtoul(o.val.c_str() + 6, nullptr, 16) & 0x7fffffff) > 0x7f800000 : (strtoull(o.val.c_str() + 7, nullptr, 16) << 1 >> 1) > 0x7ff0000000000000ull)) o.val = "nan";
                if (!have) first = o;
                else if (o.ok != first.ok || (o.ok && o.val != first.val))
                    fail(std::string("builds disagree on ") + show(f) + " to " + ty + ": " + (first.ok ? first.val : "failure") + " and " + (o.ok ? o.val : "failure"));
                have = true;
            }
        }
        return;
    }
    for (auto ty : {"float", "double"}) {
        cm::check(c, ty, f, d, static_cast<int>(t.below(rt_count)));
    }
}

static void literals(Tape& t, Ctx& c) {
    std::string f;
    if (t.chance(1, 3)) f += "-";
    int a = static_cast<int>(t.weighted({6, 3, 1}));
    int ip = a == 0 ? t.range(1, 6) : a == 1 ? t.range(0, 25) : t.range(30, 400);
    int fp = !t.chance(1, 2) ? 0 : a == 2 ? t.range(0, 400) : t.range(0, 25);
    bool zeros = t.chance(1, 6);
    for (int i = 0; i < ip; ++i) f += zeros ? '0' : static_cast<char>('0' + t.below(10));
    if (fp || t.chance(1, 6)) f += ".";
    bool zf = t.chance(1, 6);
    for (int i = 0; i < fp; ++i) f += zf && i + 3 < fp ? '0' : static_cast<char>('0' + t.below(10));
    if (t.chance(1, 2)) {
        f += t.chance(1, 2) ? "e" : "E";
        static const std::vector<std::string> sg = {"", "-", "+"};
        f += t.pick(sg);
        int k = static_cast<int>(t.weighted({6, 3, 2, 1}));
        int e = k == 0 ? t.range(0, 20) : k == 1 ? t.range(0, 330) : k == 2 ? t.range(300, 345) : t.range(0, 99999);
        if (t.chance(1, 8)) f += std::string(static_cast<size_t>(t.range(1, 20)), '0');
        f += std::to_string(e);
    }
    // around the size of the scratch buffer
    if (t.chance(1, 6)) {
        size_t want = static_cast<size_t>(t.range(58, 70));
        size_t sign = !f.empty() && f[0] == '-';
        if (f.size() < want) f.insert(sign, want - f.size(), '0');
        c.label("around 64 characters");
    }
    if (t.chance(1, 4)) {
        f = cm::mutate(t, f, "0123456789+-.eE xXpP_infaNI,%\t()\x80" "d");
        c.nontrivial = true;
    }
    if (f.size() > 25) c.nontrivial = true;
    c.label(cm::decimal(f) ? "decimal" : "not a decimal");
    check(t, c, f);
}

template <typename F>
static void halfway_of(Tape& t, Ctx& c, F lo, F inf, F maxv) {
    uint64_t bits = 0;
    memcpy(&bits, &lo, sizeof(F));
    bool even = !(bits & 1);
    F hi = std::nextafter(lo, inf);
    // the point between the largest number and what would be the next power
    long double mid = lo == maxv ? static_cast<long double>(lo) + (static_cast<long double>(lo) - std::nextafter(lo, F(0))) / 2 : (static_cast<long double>(lo) + static_cast<long double>(hi)) / 2;
    std::string f = exact(mid);
    F want;
    int k = static_cast<int>(t.weighted({3, 2, 2, 2}));
    if (f.find('.') == std::string::npos) f += ".";
    if (k == 0) {
        want = even ? lo : hi;
        if (t.chance(1, 3)) f += std::string(static_cast<size_t>(t.range(1, 800)), '0');
    } else if (k == 1) {
        // a little more, far behind
        f += std::string(static_cast<size_t>(t.range(0, 60)), '0') + "1";
        want = hi;
    } else if (k == 2) {
        // a little less: the last digit is not 0
        size_t i = f.size() - 1;
        while (f[i] == '0' || f[i] == '.') {
            if (f[i] == '0') f[i] = '9';
            --i;
        }
        --f[i];
        f += std::string(static_cast<size_t>(t.range(1, 30)), '9');
        want = lo;
    } else {
        f = exact(static_cast<long double>(lo));
        want = lo;
    }
    bool neg = t.chance(1, 3);
    if (neg) f = "-" + f;
    if (t.chance(1, 3)) f = with_exp(t, f);
    if (neg) want = -want;
    bool is_float = sizeof(F) == 4;
    std::string w = is_float ? cm::flt_text(static_cast<float>(want)) : cm::dbl_text(static_cast<double>(want));
    // the two oracles have to agree
    cm::V o = is_float ? cm::flt(f) : cm::dbl(f);
    if (!o.ok || o.text != w) fail("oracle: " + show(f) + " is " + o.text + " by strtod, " + w + " by construction");
    c.nontrivial = true;
    c.label(is_float ? "halfway float" : "halfway double");
    check(t, c, f);
}

static void halfway(Tape& t, Ctx& c) {
    if (t.chance(1, 2)) halfway_of<float>(t, c, random_float(t), HUGE_VALF, FLT_MAX);
    else halfway_of<double>(t, c, random_double(t), HUGE_VAL, DBL_MAX);
}

static void spellings(Tape& t, Ctx& c) {
    static const std::vector<std::string> ss = {"inf", "INF", "infinity", "nan", "NaN", "-inf", "-nan", "+inf", "nan(1)", "infinit", "in", "0x1p3", "0X1", "-0x1", "1e", "1e+", "e1", ".", "-", "-.", "+1", " 1", "1 ", "1.5f", "1.5L", "",
        ".5", "5.", "-.5", "-5.", "0", "-0", "00", "1..2", "1.2.3", "1e5.0", "1e5e5", "--1", "1-", "\t1", "1\t", "1,5", "1_000", "1'0", "0e0", "0e99999", "1e99999", "1e-99999", "-1e99999", "nan()", "nan(", "infx", "1e400", "4e-324", "2e-324", "1p3", "\v1", "\f1"};
    std::string f = t.pick(ss);
    if (t.chance(1, 3)) f = cm::mutate(t, f, "0123456789+-.eE xXpPinfa\t()");
    c.nontrivial = !cm::decimal(f);
    check(t, c, f);
}

const std::vector<Family> families = {{"literals", 5, literals}, {"halfway cases", 3, halfway}, {"spellings", 1, spellings}};
