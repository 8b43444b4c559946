#include "ops.hpp"
const char* const prop_id = "C14";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document with a well-formed, duplicate, malformed or missing header and a history in which header queries and valid or invalid selections "
    "are mixed with reads, compared with the reference model after every operation; non-trivial: at least two header operations and one row read after one "
    "of them, or an error reported by one";

static std::string bad_header(Tape& t, const model::Cfg& c, const std::string& d) {
    std::string r;
    switch (t.weighted({3, 3, 2, 2})) {
    case 0: { // duplicate
        auto h = ops::header(t, c, d, t.range(1, 3));
        std::string dup = gen::field(t, c.single(), d, t.pick(h.names));
        return t.chance(1, 2) ? h.text + d + dup : dup + d + h.text;
    }
    case 1: return gen::soup(t, c, d, 8);
    case 2: // unterminated
        r = "a" + d;
        if (c.has_q() && (!c.has_e() || t.chance(1, 2))) { r += c.quote; r += "b"; if (t.chance(1, 3)) { r += c.quote; r += "c"; } }
        else if (c.has_e()) { r += "b"; r += c.esc[0]; }
        return r;
    default: return "";
    }
}

static void queries(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    std::vector<std::string> names = {"id", "name", "a", "b"};
    std::string doc;
    if (t.chance(2, 3)) {
        auto d = ops::document(t, g.cfg(), g.delim);
        names = d.names;
        doc = d.text;
    } else {
        std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
        if (g.cfg().ign_empty) for (int k = t.range(0, 4) - 2; k > 0; --k) doc += eol;
        doc += bad_header(t, g.cfg(), g.delim);
        if (!t.chance(1, 6)) {
            doc += eol;
            gen::DocOpt o;
            doc += gen::document(t, g.cfg(), g.delim, o);
        }
        c.label("odd header");
    }
    Checks k;
    k.defaults = false;
    Hist h{c, g, doc, k};
    ops::Mix m;
    m.get = 6;
    m.ignore = 1;
    m.header = 3;
    m.raw = 2;
    m.exists = 3;
    m.use = 3;
    m.iterate = 0;
    int queries = 0, beyond = 0;
    bool err = false, read_after = false;
    for (int i = 0; i < 25 && beyond < 5; ++i) {
        if (h.m.eof()) ++beyond;
        size_t before = h.oks + h.fails;
        size_t idx = h.m.index();
        ops::step(t, h, m, names);
        bool was_read = h.oks + h.fails != before || h.step_name == "ignore_next";
        if (!was_read) {
            ++queries;
            if (!h.m.valid()) err = true;
        } else if (queries) {
            read_after = true;
        }
        (void)idx;
    }
    c.nontrivial = queries >= 2 && (err || read_after);
}

const std::vector<Family> families = {{"queries", 1, queries}};
