#include "conv_model.hpp"
#include "lists.hpp"
const char* const prop_id = "C22";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a field converted to a selection of the types and restrictions by a generated route, or a row converted to a list of types in a generated "
    "form, by the separate headers and by the single header; acceptance, values and messages are compared; non-trivial: a field which some of the types "
    "accept and others reject, or a row of two or more columns";
void prop_init(const std::string&, bool) {}

static std::string word(Tape& t) {
    static const std::vector<std::string> words = {"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "10", "19", "20", "30", "-1", "-3", "-4", "-5", "-6", "9", "true", "false", "circle", "square", "rectangle", "a", "b", "c", "f", "g", "A", "B",
        "abc", "abcd", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9000000000000000000", "9000000000000000001",
        "1.5", "0.0", "-0", "1e0", "1.0000001", "1.00000001", "10.0", "10.000000000000002", "2.0000000000000004", "1e39", "1e400", "-1e400", "1e-400", "1e-320", "4e-324", ".5", "5.", "-.5", ".", "1e", "1e+5", "1E-5", "inf", "nan",
        "-inf", "infinity", "0x10", "+1", " 1", "1 ", "--1", "ff", "fg", "\x80", "\xff", "\"", "`", "3.0000001", "9007199254740993", "0.1", "179769313486231570814527423731704356798070e267", "0.000000000000000000000000000000000000011754943508222875"};
    std::string f;
    switch (t.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: f = t.pick(words); break;
    case 1: f = (t.chance(1, 3) ? "-" : "") + cm::num(t, 22); break;
    case 2: f = (t.chance(1, 3) ? "-" : "") + cm::num(t, 12) + "." + cm::num(t, 30) + (t.chance(1, 3) ? "e" + std::to_string(t.range(0, 640) - 320) : ""); break;
    case 3: f = std::string(1, static_cast<char>(t.range(1, 255))); break;
    case 4: f = std::string(static_cast<size_t>(t.range(1, 600)), t.chance(1, 2) ? '0' : '7') + (t.chance(1, 2) ? "." + cm::num(t, 5) : ""); break;
    case 5: f = t.pick(words) + t.pick(words); break;
    }
    if (t.chance(1, 5)) f = cm::mutate(t, f, "0123456789+-.eE truefals\"\\");
    for (char& x : f) if (x == '\n' || x == '\r' || x == '\x01') x = '.';
    return f;
}

// the payload of a not-a-number is left open
static std::string plain(const std::string& s) {
    auto nan = [](const std::string& v) {
        if (v.rfind("float ", 0) == 0) return (strtoul(v.c_str() + 6, nullptr, 16) & 0x7fffffff) > 0x7f800000;
        if (v.rfind("double ", 0) == 0) return (strtoull(v.c_str() + 7, nullptr, 16) << 1 >> 1) > 0x7ff0000000000000ull;
        return false;
    };
    std::string r = s;
    for (const char* tag : {"float ", "double "})
        for (size_t i = 0; (i = r.find(tag, i)) != std::string::npos; ++i)
            if (nan(r.substr(i))) r.replace(i, tag[0] == 'f' ? 14 : 23, "nan");
    return r;
}

static void compare(const std::string& what, const ConvOut& a, const ConvOut& b) {
    auto s = [](const ConvOut& o) { return o.ok ? o.val : "failure" + (o.err_known ? " (" + o.err + ")" : ""); };
    if (a.has != b.has || a.ok != b.ok || (a.ok ? plain(a.val) != plain(b.val) : a.err_known != b.err_known || a.err != b.err || a.dflt != b.dflt))
        fail(what + ": headers: " + s(a) + ", single header: " + s(b));
}

static void fields(Tape& t, Ctx& c) {
    struct Both { const ConvType *a, *b; };
    static const std::vector<Both> all = [] {
        std::vector<Both> r;
        for (auto& x : ConvRegistry::get().all)
            if (x.variant == cv_headers)
                for (auto& y : ConvRegistry::get().all)
                    if (y.variant == cv_single && !strcmp(x.name, y.name)) r.push_back({&x, &y});
        return r;
    }();
    std::string f = word(t), d = cm::delim_for(t, f);
    c.h(f);
    if (c.notes()) c.note("field " + show(f) + ", delimiter " + show(d));
    int yes = 0, of = 0;
    for (int n = t.range(3, 9); n > 0; --n) {
        auto& ty = t.pick(all);
        int route = static_cast<int>(t.below(rt_count));
        c.h(ty.a->name);
        c.h(static_cast<uint64_t>(route));
        ConvOut a = ty.a->fn(f, d, route), b = ty.b->fn(f, d, route);
        if (c.notes()) c.note(std::string("  ") + ty.a->name + " by " + route_name(route) + ": " + (a.ok ? a.val : "failure"));
        compare(show(f) + " to " + ty.a->name + " by " + route_name(route), a, b);
        yes += a.ok;
        ++of;
    }
    c.nontrivial = yes && yes < of;
}

static void rows(Tape& t, Ctx& c) {
    struct Both { const ListType *a, *b; };
    static const std::vector<Both> all = [] {
        std::vector<Both> r;
        for (auto& x : ListRegistry::get().all)
            if (x.variant == cv_headers)
                for (auto& y : ListRegistry::get().all)
                    if (y.variant == cv_single && !strcmp(x.name, y.name)) r.push_back({&x, &y});
        return r;
    }();
    auto& ty = t.pick(all);
    int n = 1;
    for (const char* p = ty.a->name; *p; ++p) n += *p == ';';
    if (t.chance(1, 10)) n = t.range(1, n + 2);
    static const std::vector<std::string> ds = {",", ";", "::", "\t", "|", "--x"}, pool = {"1", "7", "0", "true", "6", "12", "circle", "square", "-3", "2.5", "x", "", "abc", "8", "256", "70000", "false"};
    std::string d = t.pick(ds), row;
    for (int i = 0; i < n; ++i) {
        std::string f = t.chance(1, 2) ? "6" : t.pick(pool);
        row += (i ? d : "") + f;
    }
    int form = static_cast<int>(t.below(fm_count));
    c.h(ty.a->name);
    c.h(row);
    c.h(static_cast<uint64_t>(form));
    ConvOut a = ty.a->fn(row, d, form), b = ty.b->fn(row, d, form);
    if (c.notes()) c.note("row " + show(row) + " to " + ty.a->name + " by " + form_name(form) + ": " + (a.ok ? a.val : "failure"));
    compare("row " + show(row) + " to " + ty.a->name + " by " + form_name(form), a, b);
    c.nontrivial = n >= 2;
}

const std::vector<Family> families = {{"fields", 3, fields}, {"rows", 1, rows}};
