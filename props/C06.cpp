#include "ops.hpp"
const char* const prop_id = "C06";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and a history of operations; line() and position() are compared with the reference after every operation, and a second parser "
    "started at the reported offset has to deliver the remaining rows; or arbitrary bytes, for which both have to name the same beginning of a line after every read; non-trivial: at least three physical lines and two operations that consume rows";

namespace {
Checks only_pos() {
    Checks k;
    k.values = k.defaults = k.msgs = k.eof = false;
    return k;
}
} // namespace

static void counters(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names, t.chance(1, 10) ? 40 : 6);
    Hist h{c, g, doc, only_pos()};
    ops::Mix m;
    m.iterate = 1;
    m.chain = g.mode == m_throw ? 0 : 1;
    m.ignore = 2;
    size_t line = 0, pos = 0;
    int beyond = 0;
    for (int i = 0; i < 60 && beyond < 3; ++i) {
        if (h.m.eof()) ++beyond;
        ops::step(t, h, m, names);
        Obs o = h.p->obs();
        if (o.line < line) h.bad("line() decreased");
        if (o.pos < pos) h.bad("position() decreased");
        line = o.line;
        pos = o.pos;
    }
    // long documents to their end
    if (h.m.lines().size() > 100) while (!h.m.eof()) h.get(ops::fitting_shape(t, h, true));
    if (h.m.eof()) {
        Obs o = h.p->obs();
        if (o.pos != doc.size()) h.bad("position() at the end is " + std::to_string(o.pos) + " of " + std::to_string(doc.size()) + " bytes");
        if (o.line != h.m.lines().size()) h.bad("line() at the end");
    }
    if (h.multis) c.label("joined rows");
    c.nontrivial = h.m.lines().size() >= 3 && h.oks + h.fails + h.chains >= 2;
}

// no reference model: the suffix at position() has to hold the remaining rows
static void restart(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    SutSource src{g.file, doc};
    auto p = open_sut(g, src);
    model::Parser hint{doc, g.cfg(), g.delim, "x"};
    auto shapes = ops::shapes_of(*p);
    auto choose = [&] {
        size_t n = ops::next_columns(hint);
        std::vector<int> fit;
        for (int s : shapes) if (shape_cols(s).size() == n) fit.push_back(s);
        return !fit.empty() && !t.chance(1, 5) ? t.pick(fit) : t.pick(shapes);
    };
    int before = t.range(0, 5);
    for (int i = 0; i < before && !p->obs().eof; ++i) {
        if (t.chance(1, 4)) {
            c.note("  ignore_next");
            p->ignore_next();
            hint.ignore_next();
        } else {
            int s = choose();
            if (c.notes()) c.note(std::string("  get_next<") + shape_name(s) + ">");
            p->get(s);
            hint.get(shape_cols(s));
        }
    }
    size_t at = p->obs().pos, line = p->obs().line;
    if (at > doc.size()) fail("position() " + std::to_string(at) + " is beyond the end");
    if (c.notes()) c.note("  restart at " + std::to_string(at));
    std::string rest = doc.substr(at);
    Target g2 = g;
    g2.file = t.chance(1, 2);
    SutSource src2{g2.file, rest, "rest.csv"};
    auto q = open_sut(g2, src2);
    int rows = 0;
    while (true) {
        Obs a = p->obs(), b = q->obs();
        if (a.eof != b.eof) fail("row " + std::to_string(rows) + " behind the offset: eof() is " + (a.eof ? "true" : "false") + " for the first, not for the restarted parser");
        if (a.pos - at != b.pos) fail("row " + std::to_string(rows) + " behind the offset: positions " + std::to_string(a.pos) + " and " + std::to_string(at) + "+" + std::to_string(b.pos));
        if (a.line - line != b.line) fail("row " + std::to_string(rows) + " behind the offset: lines " + std::to_string(a.line) + " and " + std::to_string(line) + "+" + std::to_string(b.line));
        if (a.eof) break;
        int s = choose();
        Res x = p->get(s), y = q->get(s);
        hint.get(shape_cols(s));
        if (x.exc != y.exc || x.val != y.val || p->obs().valid != q->obs().valid) fail("row " + std::to_string(rows) + " behind the offset: " + show(x.val) + " and " + show(y.val) + " from the restarted parser");
        if (++rows > 100000) fail("no end");
    }
    c.nontrivial = at > 0 && rows >= 1;
}

// no reference model: any bytes, NUL and stray carriage returns included
static void bytes(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    const auto& cfg = g.cfg();
    std::string doc, al = std::string("a1 \n\n\r\r") + g.delim + gen::specials(cfg, g.delim);
    bool nul = g.variant != v_portable && t.chance(2, 3); // that reader cannot see behind a NUL
    for (int n = t.range(0, t.chance(1, 10) ? 300 : 40); n > 0; --n) {
        switch (t.weighted({12, nul ? 3u : 0u, 1, 2})) {
        case 0: doc += t.pickc(al); break;
        case 1: doc += '\0'; break;
        case 2: doc += static_cast<char>(t.range(1, 255)); break;
        case 3: doc += t.chance(1, 2) ? "\r\n" : "\n"; break;
        }
    }
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode * 3 + g.variant));
    size_t total = static_cast<size_t>(std::count(doc.begin(), doc.end(), '\n')) + (!doc.empty() && doc.back() != '\n');
    SutSource src{g.file, doc};
    auto p = open_sut(g, src);
    auto shapes = ops::shapes_of(*p);
    Obs last = p->obs();
    size_t reads = 0;
    int beyond = 0;
    auto check = [&](const std::string& op, bool read) {
        Obs o = p->obs();
        std::string at = "after " + op + ": line() " + std::to_string(o.line) + ", position() " + std::to_string(o.pos);
        if (c.notes()) c.note("  " + at);
        if (o.pos > doc.size()) fail(at + " of " + std::to_string(doc.size()) + " bytes");
        if (o.pos && o.pos < doc.size() && doc[o.pos - 1] != '\n') fail(at + ", which is not the beginning of a line");
        size_t lines = static_cast<size_t>(std::count(doc.begin(), doc.begin() + static_cast<long>(o.pos), '\n')) + (o.pos == doc.size() && !doc.empty() && doc.back() != '\n');
        if (o.line != lines) fail(at + ", which has " + std::to_string(lines) + " lines in front of it");
        if (o.line < last.line || o.pos < last.pos) fail(at + ", before " + std::to_string(last.line) + " and " + std::to_string(last.pos));
        if (!read && (o.line != last.line || o.pos != last.pos || o.eof != last.eof)) fail(at + ", before " + std::to_string(last.line) + " and " + std::to_string(last.pos));
        if (read && last.eof && o.pos != last.pos) fail(at + ", although the end was reached");
        if (read && !last.eof && o.pos == last.pos) fail(at + ", although a row was read");
        if (read && !last.eof && !cfg.ml && !cfg.ign_empty && o.line != last.line + 1) fail(at + ", one line behind " + std::to_string(last.line) + " was read");
        if (o.eof && (o.pos != doc.size() || o.line != total)) fail(at + " at the end of " + std::to_string(doc.size()) + " bytes in " + std::to_string(total) + " lines");
        last = o;
    };
    if (last.pos || last.line) {
        // the header was left out
        if (!cfg.ign_header && !cfg.ign_empty) fail("position() is " + std::to_string(last.pos) + " at the beginning");
        last = Obs{};
        check("construction", true);
    }
    for (int i = 0; i < 400 && beyond < 2; ++i) {
        if (last.eof) ++beyond;
        if (p->has_header() && t.chance(1, 8)) {
            if (t.chance(1, 2)) p->raw_header();
            else p->header();
            check("a header query", false);
        } else if (t.chance(1, 6)) {
            p->ignore_next();
            check("ignore_next", true);
        } else {
            int s = t.pick(shapes);
            p->get(s);
            check(std::string("get_next<") + shape_name(s) + ">", true);
            ++reads;
        }
    }
    if (doc.find('\0') != std::string::npos) c.label("with NUL");
    c.nontrivial = total >= 3 && reads >= 2;
}

const std::vector<Family> families = {{"counters", 3, counters}, {"restart", 2, restart}, {"bytes", 1, bytes}};
