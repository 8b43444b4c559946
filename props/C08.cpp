#include "conv_model.hpp"
const char* const prop_id = "C08";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one field, converted to all ten integer types in all builds by a generated route, against string arithmetic on the limits; "
    "non-trivial: the types do not all agree, or the field has a digit and is rejected by all of them";
void prop_init(const std::string&, bool) {}

static const std::vector<std::string> types = {"short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "ss::int8", "ss::uint8"};

// adds k to a decimal number without sign
static std::string plus(std::string d, int k) {
    for (; k > 0; --k) {
        size_t i = d.size();
        while (i > 0 && d[i - 1] == '9') d[--i] = '0';
        if (i == 0) d = "1" + d;
        else ++d[i - 1];
    }
    for (; k < 0; ++k) {
        size_t i = d.size();
        while (i > 0 && d[i - 1] == '0') d[--i] = '9';
        if (i == 0) return "0";
        --d[i - 1];
    }
    size_t z = d.find_first_not_of('0');
    return z == std::string::npos ? "0" : d.substr(z);
}

static std::string magnitude(Tape& t) {
    static const std::vector<std::string> limits = {"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "36893488147419103232", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "0"};
    switch (t.weighted({4, 6, 2, 3, 2, 2})) {
    case 0: return cm::num(t, 5);
    case 1: return plus(t.pick(limits), t.range(0, 6) - 3);
    case 2: return cm::num(t, 30);
    case 3: {
        // a small number beyond a power of two, which wraps into the range of some type
        static const std::vector<std::string> wraps = {"256", "65536", "4294967296", "18446744073709551616", "36893488147419103232", "184467440737095516160"};
        return plus(t.pick(wraps), t.range(0, 200));
    }
    case 4: {
        // powers of ten
        std::string d = "1" + std::string(t.below(24), '0');
        return plus(d, t.range(0, 2) - 1);
    }
    default: {
        // a limit with one more or one changed digit
        std::string d = t.pick(limits);
        if (t.chance(1, 2)) d += static_cast<char>('0' + t.below(10));
        else d[t.below(static_cast<uint32_t>(d.size()))] = static_cast<char>('0' + t.below(10));
        return d;
    }
    }
}

static void integers(Tape& t, Ctx& c) {
    std::string f;
    if (t.chance(1, 30)) {
        static const std::vector<std::string> odd = {"", "-", "+", "--1", "+1", "-+1", " 1", "1 ", "0x10", "1e3", "1.", "1.0", "0b1", "1'000", "1,000", "a", "\xd9\xa1", "-0", "-00", "٣", "1\t", "\v1", "1_0", "١"};
        f = t.pick(odd);
    } else {
        f = magnitude(t);
        if (t.chance(1, 5)) f = std::string(static_cast<size_t>(t.chance(1, 8) ? t.range(1, 300) : t.range(1, 8)), '0') + f;
        if (t.chance(2, 5)) f = "-" + f;
        if (t.chance(1, 6)) f = cm::mutate(t, f, "-+ .eExab_'\t/:\x80\xff\v0123456789");
    }
    c.h(f);
    if (c.notes()) c.note("field " + show(f));
    std::string d = cm::delim_for(t, f);
    int yes = 0;
    for (auto& ty : types) yes += cm::check(c, ty, f, d, static_cast<int>(t.below(rt_count)));
    if ((yes && yes != 10) || (!yes && f.find_first_of("0123456789") != std::string::npos)) c.nontrivial = true;
    c.label(yes == 10 ? "fits all" : yes ? "fits some" : "fits none");
}

const std::vector<Family> families = {{"integers", 1, integers}};
