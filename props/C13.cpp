#include "ops.hpp"
const char* const prop_id = "C13";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document with a well-formed header (names quoted, escaped, spaced, empty, long) and rows of the same or other widths, and a history of "
    "selections, re-selections and reads; the oracle is the generated table (rows as name to value maps) or the reference model; non-trivial: a selection "
    "that is not all columns in order, with at least one row accepted under it";

// against the generated table itself
static void table(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    const auto& cfg = g.cfg();
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    int cols = t.range(1, 5);
    if (t.chance(1, 80)) cols = t.chance(1, 6) ? t.range(250, 300) : t.range(6, 40);
    std::string doc;
    if (cfg.ign_empty) for (int k = t.range(0, 4) - 2; k > 0; --k) doc += eol;
    auto h = ops::header(t, cfg, g.delim, cols);
    doc += h.text + eol;
    struct Row { std::vector<std::string> v; bool full; };
    std::vector<Row> rows;
    int n = t.range(1, 6);
    gen::DocOpt o;
    o.longs = cols < 10;
    o.newlines = cfg.limit == 0;
    for (int i = 0; i < n; ++i) {
        if (cfg.ign_empty && t.chance(1, 5)) doc += eol;
        int w = t.chance(1, 6) ? t.range(1, 6) : cols;
        auto r = gen::good_row(t, cfg, g.delim, w, o, eol);
        if (r.text.empty() && (cfg.ign_empty || i + 1 == n)) { r.values = {"v"}; r.text = "v"; }
        rows.push_back({r.values, w == cols});
        doc += r.text;
        if (i + 1 < n || r.text.back() == '\n' || !t.chance(1, 3)) doc += eol;
    }
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    SutSource src{g.file, doc};
    auto p = open_sut(g, src);
    std::vector<size_t> map;
    size_t i = 0;
    bool header_left = true;
    bool odd = false;
    int steps = 0;
    while (i < rows.size() && ++steps < 40) {
        if (header_left || t.chance(1, 3)) {
            auto sel = ops::selection(t, h.names, true);
            if (sel.size() > 4) sel.resize(4);
            if (c.notes()) {
                std::string l = "  use_fields";
                for (auto& f : sel) l += " " + show(f);
                c.note(l);
            }
            Res r = p->use_fields(sel, static_cast<int>(t.below(3)));
            Obs ob = p->obs();
            if (r.threw() || !ob.valid) fail("the selection failed: " + r.what + ob.err);
            map.clear();
            odd = false;
            for (size_t k = 0; k < sel.size(); ++k) {
                c.h(sel[k]);
                map.push_back(static_cast<size_t>(std::find(h.names.begin(), h.names.end(), sel[k]) - h.names.begin()));
                if (map.back() != k) odd = true;
            }
            if (sel.size() != h.names.size()) odd = true;
            header_left = false;
            continue;
        }
        const auto& row = rows[i];
        std::string at = "row " + std::to_string(i) + ": ";
        if (p->obs().eof) fail(at + "eof() is true in front of it");
        ++i;
        if (t.chance(1, 10)) {
            c.note("  ignore_next");
            p->ignore_next();
            continue;
        }
        int shape = static_cast<int>(map.size()) - 1;
        if (map.size() == 2 && t.chance(1, 3)) shape = sh_v2;
        // one type too many or too few
        bool wrong = t.chance(1, 12);
        if (wrong) shape = map.size() == 1 ? static_cast<int>(sh_s2) : static_cast<int>(map.size()) - 2;
        Res r = p->get(shape);
        Obs ob = p->obs();
        bool ok = !r.threw() && ob.valid;
        if (c.notes()) c.note("  get " + std::to_string(shape) + " -> " + (ok ? show(r.val) : "failed " + ob.err + r.what));
        bool want_ok = row.full && !wrong;
        if (ok != want_ok) fail(at + (ok ? "accepted " + show(r.val) + " although the number of columns differs" : "rejected: " + r.what + ob.err));
        if (!ok) continue;
        std::string want;
        for (size_t k : map) want += model::enc_str(row.v[k]);
        if (r.val != want) fail(at + "returned " + show(r.val) + ", expected " + show(want));
        if (odd) c.nontrivial = true;
    }
    if (i == rows.size() && !p->obs().eof) fail("eof() is false after the last row");
}

static void history(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    auto d = ops::document(t, g.cfg(), g.delim);
    Checks k;
    k.defaults = k.msgs = k.pos = false;
    Hist h{c, g, d.text, k};
    ops::Mix m;
    m.get = 8;
    m.use = 4;
    m.valid_use = true;
    m.iterate = 1;
    for (int i = 0; i < 25 && !h.m.eof(); ++i) {
        ops::step(t, h, m, d.names);
        bool odd = h.m.mapping().size() > 0 && h.m.mapping().size() < h.m.mapped_columns();
        for (size_t q = 0; q < h.m.mapping().size(); ++q) odd |= h.m.mapping()[q] != q;
        if (odd && h.oks > 0) c.nontrivial = true;
    }
}

const std::vector<Family> families = {{"table", 3, table}, {"history", 2, history}};
