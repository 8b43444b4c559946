#include "ops.hpp"
const char* const prop_id = "C07";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document of valid, malformed, wrongly sized, unconvertible and skipped rows (some with a user-defined conversion that throws), optionally "
    "behind a field selection; each row is read in the document and alone by a fresh parser, and both must agree in values or in the reason of the failure; "
    "non-trivial: a failed row precedes an accepted one";

namespace {
// the reason of a failure without source and line
std::string reason(const std::string& e, const std::string& src) {
    std::string s = e;
    if (s.rfind(src + " ", 0) == 0) {
        s = s.substr(src.size() + 1);
        auto p = s.find(": ");
        bool num = p != std::string::npos && p > 0;
        for (size_t i = 0; num && i < p; ++i) num = s[i] >= '0' && s[i] <= '9';
        if (num) s = s.substr(p + 2);
    }
    return s;
}

std::string outcome(const Res& r, const Obs& o, int mode, const std::string& src) {
    if (r.exc == Exc::user) return "user exception";
    if (r.exc == Exc::bad_alloc || r.exc == Exc::other) return "other exception " + r.what;
    if (mode == m_throw) return r.threw() ? "failed " + reason(r.what, src) : "ok " + r.val;
    if (!o.valid) return "failed " + (mode == m_string ? reason(o.err, src) : "");
    return "ok " + r.val;
}

std::string row_text(Tape& t, const model::Cfg& c, const std::string& d, int cols, const std::string& eol) {
    gen::DocOpt o;
    o.cols = cols;
    o.ints = true;
    switch (t.weighted({8, 4, 2, 2, 3, 2})) {
    case 0: return gen::good_row(t, c, d, cols, o, eol).text;
    case 1: return gen::soup(t, c, d, 10);
    case 2: return "";
    case 3: return gen::good_row(t, c, d, t.range(1, 5), o, eol).text;
    case 4: return "a" + d + (t.chance(1, 2) ? "boom" : t.chance(1, 2) ? "nope" : "fine");
    case 5: {
        // unterminated or mismatched
        std::string s = "x" + d;
        if (c.has_q()) { s += c.quote; s += "abc"; if (t.chance(1, 2)) { s += c.quote; s += "y"; } }
        else if (c.has_e()) { s += "abc"; s += c.esc[0]; }
        return s;
    }
    }
    return "";
}
} // namespace

static void alone(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    const auto& cfg = g.cfg();
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    int cols = t.range(1, 4);
    std::string head, doc;
    std::vector<std::string> sel;
    if (t.chance(1, 3)) {
        auto h = ops::header(t, cfg, g.delim, cols);
        sel = ops::selection(t, h.names, true);
        head = h.text + eol;
    }
    doc = head;
    int n = t.range(1, 7);
    for (int i = 0; i < n; ++i) {
        doc += row_text(t, cfg, g.delim, cols, eol);
        if (i + 1 < n || !t.chance(1, 3)) doc += eol;
    }
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
        for (auto& f : sel) c.note("  selected " + show(f));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    SutSource src{g.file, doc};
    auto p = open_sut(g, src);
    if (!sel.empty()) p->use_fields(sel, 0);
    auto shapes = ops::shapes_of(*p);
    // forms with conversions and constructors that throw
    static const char* const bombs[] = {"string,bomb", "iterate string,bomb", "object from 2 strings, throwing constructor", "string,optional<bomb>", "iterate object", "try_next string,bomb or string,variant<bomb,string>"};
    for (int k = 0; k < 6; ++k) shapes.push_back(sh_count + k);
    // only used to find the text of each row and to choose requests that fit
    auto ls = model::phys_lines(doc);
    size_t i = head.empty() ? 0 : 1;
    bool failed = false;
    int row = 0;
    while (true) {
        if (cfg.ign_empty) while (i < ls.size() && ls[i].text.empty()) ++i;
        if (i >= ls.size()) break;
        auto f = model::frame_row(ls, i, cfg, g.delim);
        std::string text;
        for (size_t k = 0; k < f.count; ++k) text += ls[i + k].text + ls[i + k].eol;
        i += f.count;
        if (p->obs().eof) fail("row " + std::to_string(row) + " " + show(text) + " is missing: eof() is true");
        if (t.chance(1, 8)) {
            if (c.notes()) c.note("  " + std::to_string(row) + ". skipped");
            p->ignore_next();
            ++row;
            continue;
        }
        size_t cnt = sel.empty() ? (f.s.ok() ? f.s.f.size() : 0) : sel.size();
        std::vector<int> fit;
        for (int s : shapes) if ((s >= sh_count ? 2 : shape_cols(s).size()) == cnt) fit.push_back(s);
        int s = !fit.empty() && !t.chance(1, 5) ? t.pick(fit) : t.pick(shapes);
        Res r = p->get(s);
        std::string got = outcome(r, p->obs(), g.mode, src.name());
        // the row alone
        Target ga = g;
        ga.file = t.chance(1, 3);
        SutSource asrc{ga.file, head + text, "alone.csv"};
        auto q = open_sut(ga, asrc);
        if (!sel.empty()) q->use_fields(sel, 0);
        Res ra = q->get(s);
        std::string want = outcome(ra, q->obs(), g.mode, asrc.name());
        c.h(static_cast<uint64_t>(s));
        if (c.notes()) c.note("  " + std::to_string(row) + ". " + show(text) + " as " + (s >= sh_count ? bombs[s - sh_count] : shape_name(s)) + ": " + show(got));
        if (got != want) fail("row " + std::to_string(row) + " " + show(text) + " gave " + show(got) + ", alone it gives " + show(want));
        if (r.exc == Exc::user) c.label("conversion threw");
        if (got.rfind("ok", 0) == 0) { if (failed) c.nontrivial = true; }
        else failed = true;
        ++row;
    }
    if (!p->obs().eof) fail("eof() is false after the last row");
}

const std::vector<Family> families = {{"row alone", 1, alone}};
