#include "conv_model.hpp"
const char* const prop_id = "C11";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one field, converted under a group of restrictions in all builds by a generated route, against their meaning, their own error text and the "
    "underlying type; non-trivial: some restrictions of the group reject a field which converts to the underlying type and others accept it";
void prop_init(const std::string&, bool) {}

static const std::vector<std::string> ints = {"ax<int,10,20>", "ax<int,0>", "nx<int,10,20,30>", "nx<int,-1>", "gt<int,5>", "gte<int,5>", "lt<int,-5>", "lte<int,-5>", "ir<int,-3,7>", "oor<int,-3,7>",
    "ir<int,4,4>", "oor<int,4,4>", "even<int>", "odd<int>", "even<long>", "gte<opt<int>,0>", "is_set<int>", "gte<ss::int8,3>", "gt<uint,7u>"};
static const std::vector<std::string> wide = {"lte<long,-2147483649>", "gt<ullong,9e18>", "even<long>", "gt<uint,7u>", "gt<int,5>"};
static const std::vector<std::string> beyond = {"lt<int,5000000000>", "gte<int,-5000000000>", "lt<short,40000>", "ir<short,-40000,40000>", "oor<ss::int8,-300,200>", "gt<ss::uint8,-1>", "lte<ss::uint8,300>",
    "nx<ss::int8,5,200,261>", "ax<ss::int8,5,200,261>", "ax<short,65541,-3>", "ax<int,'a',4294967301>"};
static const std::vector<std::string> floats = {"gte<double,0>", "gt<float,1>", "ir<double,0,10>", "oor<float,-1,1>", "lte<double,2>", "ax<double,0>", "nx<float,3,4>"};
static const std::vector<std::string> others = {"ax<char,'a','b','c'>", "nx<char,'A','B'>", "ir<char,'a','f'>", "ne<string>", "ne<view>", "short_text", "nx<shape,circle,square>", "ax<shape,circle>", "ax<bool,false>"};

static void group(Tape& t, Ctx& c, const std::vector<std::string>& types, const std::string& f) {
    c.h(f);
    if (c.notes()) c.note("field " + show(f));
    std::string d = cm::delim_for(t, f);
    bool no = false, yes = false;
    for (auto& ty : types) {
        if (cm::check(c, ty, f, d, static_cast<int>(t.below(rt_count)))) yes = true;
        else if (!cm::specs().at(ty)(f).error.empty()) no = true;
    }
    c.nontrivial = yes && no;
}

static void small_ints(Tape& t, Ctx& c) {
    static const std::vector<int> at = {10, 20, 30, 0, -1, 5, -5, -3, 7, 4, 3, 127, 255};
    std::string f;
    switch (t.weighted({6, 2, 1})) {
    case 0: f = std::to_string(t.pick(at) + t.range(0, 4) - 2); break;
    case 1: f = std::to_string(t.range(0, 200) - 100); break;
    case 2: f = std::to_string(static_cast<int>(t.below(0xffffffffu))); break;
    }
    if (t.chance(1, 12)) f = cm::mutate(t, f, "0123456789+-. a");
    group(t, c, ints, f);
}

static void wide_ints(Tape& t, Ctx& c) {
    static const std::vector<std::string> at = {"-2147483649", "-2147483648", "-2147483650", "9000000000000000000", "9000000000000000001", "8999999999999999999", "18446744073709551615", "18446744073709551616",
        "2147483647", "2147483648", "4294967295", "4294967303", "4294967304", "7", "8", "-4294967297"};
    std::string f = t.pick(at);
    if (t.chance(1, 3)) f = cm::mutate(t, f, "0123456789-");
    group(t, c, wide, f);
}

// limits which the type of the column cannot represent
static void limits_beyond(Tape& t, Ctx& c) {
    static const std::vector<int> at = {0, 5, -3, -56, -44, 44, 97, 127, -128, 200, 255, 261, 32767, -32768, -25536, 25536, 705032704, -705032704, 65541};
    std::string f = std::to_string(t.pick(at) + t.range(0, 2) - 1);
    if (t.chance(1, 8)) f = t.chance(1, 2) ? "2147483647" : "-2147483648";
    if (t.chance(1, 12)) f = cm::mutate(t, f, "0123456789+-. a");
    group(t, c, beyond, f);
}

static void float_fields(Tape& t, Ctx& c) {
    static const std::vector<std::string> at = {"0", "1", "-1", "10", "2", "3", "4", "-0", "0.0", "1e0", "10.0000000000000001", "10.000000000000002", "9.9999999999999999", "1.00000001", "1.0000001", "0.99999999", "1e-320", "-1e-320", "1e-50",
        "-1e-50", "1e-400", "-1e-400", "2.0000000000000004", "3.0000001", "2.9999999", "3.00000001", "4.0000004", "-1.0000001", "-1.00000001", "1e39", "-1e39", "1e400", "-1e400", "10.", ".5", "-.5"};
    std::string f;
    if (t.chance(2, 3)) f = t.pick(at);
    else {
        f = (t.chance(1, 3) ? "-" : "") + cm::num(t, 2);
        if (t.chance(1, 2)) f += "." + cm::num(t, 6);
    }
    if (t.chance(1, 10)) f = cm::mutate(t, f, "0123456789-.e");
    group(t, c, floats, f);
}

static void texts(Tape& t, Ctx& c) {
    static const std::vector<std::string> at = {"", "a", "b", "c", "d", "f", "g", "A", "B", "C", "circle", "square", "rectangle", "0", "1", "true", "false", "abc", "abcd", "abcde", " ", "  ", "`", "circles", "\xe9"};
    std::string f = t.pick(at);
    if (t.chance(1, 4)) f = std::string(1, static_cast<char>(t.range(32, 126)));
    if (t.chance(1, 8)) f = cm::mutate(t, f, "abcdefgABC01 .");
    group(t, c, others, f);
}

// whether infinities and not-a-number convert at all is left open; where they do, the
// restrictions follow the comparison of their value
static void specials(Tape& t, Ctx& c) {
    static const std::vector<std::string> at = {"nan", "NaN", "NAN", "-nan", "nan(1)", "inf", "-inf", "INF", "-INF", "Infinity", "-infinity", "+inf", "nan()", "-NaN"};
    std::string f = t.pick(at);
    std::string d = cm::delim_for(t, f);
    int route = static_cast<int>(t.below(rt_count));
    c.h(f + d + std::to_string(route));
    if (c.notes()) c.note("field " + show(f));
    bool tried = false;
    for (auto* base : ConvRegistry::get().named("double")) {
        for (bool dbl : {true, false}) {
            ConvOut b = dbl ? base->fn(f, d, route) : ConvOut{};
            if (!dbl)
                for (auto* x : ConvRegistry::get().named("float")) if (x->variant == base->variant) b = x->fn(f, d, route);
            bool nan = false, neg = false;
            if (b.ok) {
                uint64_t u = strtoull(b.val.c_str() + b.val.find(' '), nullptr, 16);
                double v = 0;
                if (dbl) memcpy(&v, &u, 8);
                else { auto w = static_cast<uint32_t>(u); float fl; memcpy(&fl, &w, 4); v = fl; }
                nan = std::isnan(v);
                neg = v < 0;
                if (!nan && !std::isinf(v)) fail(show(f) + " gave " + b.val);
                tried = true;
            }
            struct R { const char* n; bool dbl, nan, pos, neg; };
            static const R rs[] = {{"gte<double,0>", true, false, true, false}, {"ir<double,0,10>", true, false, false, false}, {"lte<double,2>", true, false, false, true}, {"ax<double,0>", true, true, true, true},
                {"gt<float,1>", false, false, true, false}, {"nx<float,3,4>", false, false, false, false}, {"oor<float,-1,1>", false, false, true, true}};
            for (auto& r : rs) {
                if (r.dbl != dbl || (b.ok && nan && r.n[0] == 'o')) continue; // not-a-number is neither inside nor outside
                for (auto* x : ConvRegistry::get().named(r.n)) {
                    if (x->variant != base->variant || (route == rt_extract)) continue;
                    bool want = b.ok && (nan ? r.nan : neg ? r.neg : r.pos);
                    ConvOut o = x->fn(f, d, route);
                    if (!o.has) continue;
                    std::string where = std::string(conv_variant_name(x->variant)) + ", " + route_name(route) + ": " + show(f) + " to " + r.n;
                    if (c.notes()) c.note(where + (o.ok ? " -> " + o.val : " -> failure"));
                    if (o.ok != want) fail(where + (o.ok ? " gave " + o.val + ", expected a failure" : " failed, expected " + b.val));
                    if (o.ok && o.val != b.val) fail(where + " gave " + o.val + ", expected " + b.val);
                    if (!o.ok && !o.dflt) fail(where + " failed, but returned " + show(o.val));
                }
            }
        }
    }
    c.nontrivial = tried;
}

const std::vector<Family> families = {{"integers", 4, small_ints}, {"limits beyond the type", 2, limits_beyond}, {"wide integers", 1, wide_ints}, {"floating point", 2, float_fields}, {"texts", 2, texts}, {"infinities and nan", 1, specials}};
