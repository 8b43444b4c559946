#include "lockstep.hpp"
const char* const prop_id = "C22";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document (structured or arbitrary bytes) and a history applied in lockstep to a parser of the separate headers and one of the single header, "
    "or a line given to the converters of both, or a field converted to a numeric type by both; all results are compared; non-trivial: two or more rows "
    "read, a line with two or more columns, or a field of digits";
using lockstep::Side;

static void parsers(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant == v_headers && Registry::get().find(e.setup, e.mode, v_single); });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc;
    bool raw = t.chance(1, 5);
    if (raw) {
        std::string al = "a1 \n\n\r" + g.delim + gen::specials(g.cfg(), g.delim);
        for (int n = t.range(0, 40); n > 0; --n) doc += t.chance(1, 16) ? static_cast<char>(t.range(0, 255)) : t.pickc(al);
    } else {
        doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    }
    Target h = g;
    h.variant = v_single;
    Side a{g, doc, "in.csv"}, b{h, doc, "in2.csv"};
    auto did = lockstep::run(t, c, a, b, doc, names, !raw);
    c.nontrivial = did.rows >= 2;
}

static void converters(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant == v_headers && Registry::get().find(e.setup, e.mode, v_single); });
    Target g = pick_target(t, es);
    auto a = Registry::get().find(g.setup, g.mode, v_headers)->converter();
    auto b = Registry::get().find(g.setup, g.mode, v_single)->converter();
    if (c.notes()) c.note("converters, " + g.str());
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    for (int n = t.range(1, 4); n > 0; --n) {
        gen::DocOpt o;
        o.newlines = false;
        o.ints = true;
        std::string s = t.chance(1, 2) ? gen::good_row(t, g.cfg(), g.delim, 0, o, "\n").text : gen::soup(t, g.cfg(), g.delim, 12);
        std::string d = t.chance(1, 30) ? "" : g.delim;
        std::unique_ptr<char[]> x{new char[s.size() + 1]}, y{new char[s.size() + 1]};
        memcpy(x.get(), s.c_str(), s.size() + 1);
        memcpy(y.get(), s.c_str(), s.size() + 1);
        int shape = static_cast<int>(t.below(sh_count));
        int form = t.range(0, 2);
        Res u, v;
        if (form == 0) {
            u = a->convert(shape, x.get(), d, g.dflt);
            v = b->convert(shape, y.get(), d, g.dflt);
        } else {
            u = a->split(x.get(), d, g.dflt);
            v = b->split(y.get(), d, g.dflt);
            if (u.exc == v.exc && u.val == v.val) {
                u = a->convert_split(shape, form == 1);
                v = b->convert_split(shape, form == 1);
            }
        }
        c.h(s);
        c.h(static_cast<uint64_t>(shape * 3 + form));
        if (c.notes()) c.note("  " + show(s) + " as " + shape_name(shape) + " form " + std::to_string(form) + ": " + (u.threw() ? show(u.what) : show(u.val)) + " " + a->error());
        if (u.exc != v.exc || u.what != v.what || u.val != v.val || a->valid() != b->valid() || a->error() != b->error())
            fail("headers: " + show(u.val) + u.what + a->error() + ", single header: " + show(v.val) + v.what + b->error());
        if (model::split_row(s, g.cfg().single(), g.delim).f.size() >= 2) c.nontrivial = true;
    }
}

const std::vector<Family> families = {{"parsers", 3, parsers}, {"converters", 1, converters}};
