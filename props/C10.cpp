#include "conv_model.hpp"
const char* const prop_id = "C10";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one field, converted to all character, bool, text, user-defined, optional and variant types in all builds by a generated route, against a "
    "compositional specification; non-trivial: the field is accepted by some of the character, bool, numeric and user-defined types and rejected by others";
void prop_init(const std::string&, bool) {}

static const std::vector<std::string> types = {"char", "schar", "uchar", "bool", "string", "view", "shape", "hex", "opt<int>", "opt<char>", "opt<bool>", "opt<string>", "opt<double>", "opt<shape>",
    "opt<ss::uint8>", "opt<opt<int>>", "opt<var<int,char>>", "var<int,char>", "var<char,int>", "var<int,double,string>", "var<bool,int,shape>", "var<string,int>", "var<shape,view>",
    "var<opt<int>,string>", "var<ss::int8,short,long>", "var<float,bool,char>", "var<hex,ullong>", "var<int>"};

static void fields(Tape& t, Ctx& c) {
    static const std::vector<std::string> words = {"0", "1", "true", "false", "circle", "square", "rectangle", "a", "", "2", "True", "TRUE", "tru", "truee", "fals", "falsee", "10", "01", "t", "f", "circl", "circles",
        "-1", "127", "128", "-129", "32768", "2147483648", "1.5", "1e3", "ff", "fg", "00", "-", " ", "true ", " true", "  ", "9223372036854775808", "18446744073709551616", "\x80", "\xff", "\"", "\\", "ab", "0x", "nul"};
    std::string f;
    switch (t.weighted({6, 2, 2, 2, 1})) {
    case 0: f = t.pick(words); break;
    case 1: f = std::string(1, static_cast<char>(t.range(1, 255))); break;
    case 2: f = (t.chance(1, 3) ? "-" : "") + cm::num(t, t.chance(1, 4) ? 22 : 5); break;
    case 3: {
        int n = t.range(0, 8);
        for (int i = 0; i < n; ++i) f += static_cast<char>(t.chance(1, 2) ? t.range(32, 126) : t.range(1, 255));
        break;
    }
    case 4: f = std::string(static_cast<size_t>(t.range(20, 700)), static_cast<char>(t.range('a', 'z'))); break;
    }
    if (t.chance(1, 5)) f = cm::mutate(t, f, "0123456789+-.eE truefals\"\\");
    for (char& x : f) if (x == '\n' || x == '\r' || x == '\x01') x = '.';
    if (cm::special(f)) f += "x";
    if (t.chance(1, 20)) {
        size_t at = t.below(static_cast<uint32_t>(f.size() + 1));
        f.insert(at, 1, '\0');
    }
    c.h(f);
    if (c.notes()) c.note("field " + show(f));
    std::string d = cm::delim_for(t, f);
    int yes = 0, of = 0;
    for (auto& ty : types) {
        bool ok = cm::check(c, ty, f, d, static_cast<int>(t.below(rt_count)));
        if (ty[0] != 'o' && ty != "string" && ty != "view") { yes += ok; ++of; }
    }
    c.nontrivial = yes > 5 && yes < of;
}

const std::vector<Family> families = {{"fields", 1, fields}};
