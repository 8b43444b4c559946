#include "ops.hpp"
const char* const prop_id = "C05";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document with line breaks inside of quoted or escaped fields, or text over quotes, escapes, spacing and line ends, read under a multiline "
    "setup (unlimited or limited to 1, 2, 3 or 4 joined line ends) and compared with the reference framing: values, rejection and the lines and bytes "
    "consumed by each row; non-trivial: at least one row spans two or more lines";

namespace {
std::string breaks_soup(Tape& t, const model::Cfg& c, const std::string& d) {
    std::string r;
    int n = t.range(1, 24);
    const char* eol = t.chance(1, 3) ? "\r\n" : "\n";
    for (int i = 0; i < n; ++i) {
        switch (t.weighted({4, 3, c.quote ? 5u : 0u, c.has_e() ? 4u : 0u, c.tl.empty() ? 0u : 2u, 6, 1})) {
        case 0: r += t.pickc("ab1"); break;
        case 1: r += d; break;
        case 2: r += c.quote; break;
        case 3: r += t.pickc(c.esc); break;
        case 4: r += t.pickc(c.tl); break;
        case 5: r += t.chance(1, 10) ? (t.chance(1, 2) ? "\n" : "\r\n") : eol; break;
        case 6: r += '\r'; break;
        }
    }
    return r;
}

// one row of many lines, around the limit of the setup
std::string tall(Tape& t, const model::Cfg& c, const std::string& d) {
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    int n = c.limit ? static_cast<int>(c.limit) + t.range(0, 3) - 1 : t.range(1, 40);
    std::string r = t.chance(1, 2) ? "a" + d : "";
    bool q = c.has_q() && (!c.has_e() || t.chance(1, 2));
    if (q) r += c.quote;
    for (int i = 0; i < n; ++i) {
        int len = t.chance(1, 6) ? static_cast<int>(gen::long_len(t)) : t.range(0, 3);
        std::string part(static_cast<size_t>(len), static_cast<char>('a' + i % 26));
        if (q && t.chance(1, 6)) part += std::string(2, c.quote);
        if (q && t.chance(1, 8)) part += d;
        r += part;
        if (c.has_e() && (!q || t.chance(1, 3))) r += t.pickc(c.esc);
        r += eol;
    }
    r += "z";
    if (q && !t.chance(1, 8)) r += c.quote;
    if (t.chance(1, 2)) r += d + "end";
    return r;
}
} // namespace

static void framing(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return setup_cfgs()[static_cast<size_t>(e.setup)].ml; });
    Target g = pick_target(t, es);
    const auto& cfg = g.cfg();
    std::string doc;
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    int parts = t.range(1, 3);
    for (int i = 0; i < parts; ++i) {
        switch (t.weighted({3, 3, 2})) {
        case 0: doc += breaks_soup(t, cfg, g.delim); break;
        case 1: {
            gen::DocOpt o;
            doc += gen::document(t, cfg, g.delim, o);
            break;
        }
        case 2: doc += tall(t, cfg, g.delim); break;
        }
        if (i + 1 < parts || !t.chance(1, 3)) doc += eol;
    }
    Checks k;
    k.defaults = false;
    k.msgs = false;
    Hist h{c, g, doc, k};
    while (!h.m.eof()) {
        size_t n = ops::next_columns(h.m);
        int s = n >= 1 && n <= 4 ? static_cast<int>(n) - 1 : n == 5 ? static_cast<int>(sh_s5) : t.range(0, 3);
        auto st = h.get(s);
        if (st.split_err == model::Err::limit) c.label("limit reached");
        if (st.framed_multi) {
            c.label("joined row");
            if (!st.ok) c.label("joined row rejected");
        }
    }
    h.get(sh_s1);
    c.nontrivial = h.multis > 0;
}

const std::vector<Family> families = {{"framing", 1, framing}};
