#include "lockstep.hpp"
using lockstep::Side;
const char* const prop_id = "C03";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document (tables, text over the special characters, arbitrary bytes, long lines) and a history of operations applied in lockstep to a "
    "parser of a file (or pipe) and one of a buffer holding these bytes, or to one with the POSIX and one with the portable line reader; all results, states and "
    "messages (with the name of the source replaced) are compared; non-trivial: at least two rows read and two different operations";

namespace {
std::string arbitrary(Tape& t, const model::Cfg& c, const std::string& d, bool nul) {
    std::string r;
    if (t.chance(1, 20)) r = "\xef\xbb\xbf";
    std::string al = "a1 \n\n\r" + d + gen::specials(c, d);
    int n = t.range(0, 40);
    for (int i = 0; i < n; ++i) {
        if (nul && t.chance(1, 12)) r += '\0';
        else if (t.chance(1, 16)) r += static_cast<char>(t.range(nul ? 0 : 1, 255));
        else r += t.pickc(al);
        if (t.chance(1, 60)) r += std::string(gen::long_len(t), t.pickc("ab"));
    }
    return r;
}

} // namespace

static void file_buffer(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    bool arb = t.chance(1, 3), nul = arb && t.chance(1, 2);
    std::string doc = arb ? arbitrary(t, g.cfg(), g.delim, nul) : ops::some_doc(t, g.cfg(), g.delim, &names);
    Target h = g;
    g.file = true;
    h.file = false;
    bool pipe = t.chance(1, 5);
    Side a{g, doc, pipe ? "|" : "in.csv"}, b{h, doc, ""};
    if (pipe) c.label("pipe");
    c.label(nul ? "with NUL" : arb ? "arbitrary bytes" : "document");
    auto did = lockstep::run(t, c, a, b, doc, names, !nul);
    c.nontrivial = did.rows >= 2 && did.kinds.size() >= 2;
}

static void portable(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant == v_portable; });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    bool arb = t.chance(1, 3);
    std::string doc = arb ? arbitrary(t, g.cfg(), g.delim, false) : ops::some_doc(t, g.cfg(), g.delim, &names);
    Target h = g;
    h.variant = v_headers;
    g.file = true;
    h.file = t.chance(1, 2);
    Side a{h, doc, "in.csv"}, b{g, doc, t.chance(1, 5) ? "|" : "in2.csv"};
    c.label("portable reader");
    auto did = lockstep::run(t, c, a, b, doc, names, true);
    c.nontrivial = did.rows >= 2 && did.kinds.size() >= 2;
}

const std::vector<Family> families = {{"file and buffer", 3, file_buffer}, {"portable line reader", 2, portable}};
