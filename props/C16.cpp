#include "ops.hpp"
const char* const prop_id = "C16";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and a set of skipped rows (ignore_next), a setup with ignore_header or ignore_empty; the oracle is a parser of the same setup "
    "without that option reading the document from which exactly the skipped rows were removed, with the same requests; non-trivial: at least one row "
    "skipped or removed and one row read after it";

namespace {
// the rows of a document as texts with their line ends
std::vector<std::string> rows_of(const std::string& doc, const model::Cfg& c, const std::string& d) {
    auto ls = model::phys_lines(doc);
    std::vector<std::string> r;
    size_t i = 0;
    while (i < ls.size()) {
        auto f = model::frame_row(ls, i, c, d);
        std::string x;
        for (size_t k = 0; k < f.count; ++k) x += ls[i + k].text + ls[i + k].eol;
        r.push_back(x);
        i += f.count;
    }
    return r;
}

struct Pair {
    Ctx& c;
    Target ga, gb;
    SutSource sa, sb;
    std::unique_ptr<IParser> a, b;
    bool eofs = true; // eof() has to agree after each row
    std::string unlined(std::string e, const SutSource& s) {
        if (e.rfind(s.name(), 0) != 0) return e;
        e = e.substr(s.name().size());
        if (e.empty() || e[0] != ' ') return e;
        auto p = e.find(": ");
        return p == std::string::npos ? e : e.substr(p);
    }
    Pair(Ctx& ctx, const Target& x, const std::string& dx, const Target& y, const std::string& dy)
        : c{ctx}, ga{x}, gb{y}, sa{x.file, dx, "a.csv"}, sb{y.file, dy, "b.csv"}, a{open_sut(x, sa)}, b{open_sut(y, sb)} {
        if (c.notes()) {
            c.note(x.str());
            c.note("document " + show(dx));
            c.note("compared with setup " + std::to_string(y.setup) + " on " + show(dy));
        }
        c.h(dx);
        c.h(static_cast<uint64_t>(x.setup * 10 + x.mode));
    }
    // reads one row from both
    bool read(int shape, const std::string& what) {
        Res x = a->get(shape), y = b->get(shape);
        Obs o = a->obs(), q = b->obs();
        if (c.notes()) c.note("  " + what + " as " + shape_name(shape) + ": " + (x.threw() ? show(x.what) : o.valid ? show(x.val) : "failed " + o.err));
        std::string at = what + " as " + shape_name(shape) + ": ";
        if (x.exc != y.exc || o.valid != q.valid) fail(at + (x.threw() || !o.valid ? "failed " + x.what + o.err : "accepted " + show(x.val)) + ", expected " + (y.threw() || !q.valid ? "failure " + y.what + q.err : "values " + show(y.val)));
        if (!x.threw() && o.valid && x.val != y.val) fail(at + "returned " + show(x.val) + ", expected " + show(y.val));
        if (unlined(x.what, sa) != unlined(y.what, sb)) fail(at + "threw " + show(x.what) + ", expected " + show(y.what));
        if (unlined(o.err, sa) != unlined(q.err, sb)) fail(at + "reported " + show(o.err) + ", expected " + show(q.err));
        if (eofs && o.eof != q.eof) fail(at + "eof() is " + (o.eof ? "true" : "false"));
        return !x.threw() && o.valid;
    }
};

// an odd line among the rows
std::string doc_for(Tape& t, const Target& g) {
    gen::DocOpt o;
    o.max_rows = 8;
    o.ints = t.chance(1, 2);
    o.w_empty = g.cfg().ign_empty ? 5 : 2;
    o.w_soup = 3;
    if (t.chance(1, 2)) o.cols = t.range(1, 3);
    return gen::document(t, g.cfg(), g.delim, o);
}

int choose(Tape& t, IParser& p, const std::string& row, const model::Cfg& c, const std::string& d) {
    auto ls = model::phys_lines(row);
    size_t n = 0;
    if (!ls.empty()) {
        auto f = model::frame_row(ls, 0, c, d);
        if (f.s.ok()) n = f.s.f.size();
    }
    auto shapes = ops::shapes_of(p);
    std::vector<int> fit;
    for (int s : shapes) if (shape_cols(s).size() == n) fit.push_back(s);
    return !fit.empty() && !t.chance(1, 5) ? t.pick(fit) : t.pick(shapes);
}
} // namespace

static void ignore_next(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    const auto& cfg = g.cfg();
    std::string doc = doc_for(t, g), rest;
    if (cfg.ign_header) doc = "h\n" + doc;
    auto rows = rows_of(doc, cfg, g.delim);
    std::vector<bool> skip;
    std::string last;
    size_t k = 0;
    // empty lines are no rows if they are ignored
    std::vector<std::string> seen;
    for (auto& r : rows) {
        bool empty = r == "\n" || r == "\r\n";
        if (cfg.ign_header && k++ == 0) { rest += r; continue; }
        if (cfg.ign_empty && empty) { rest += r; continue; }
        seen.push_back(r);
        skip.push_back(t.chance(1, 3));
        if (!skip.back()) rest += r;
        // a row that was cut off at the end of the input would change with a successor: it stays last
    }
    Target g2 = g;
    g2.file = t.chance(1, 3);
    Pair p{c, g, doc, g2, rest};
    p.eofs = false; // rows at the end may still be skipped
    bool skipped = false;
    for (size_t i = 0; i < seen.size(); ++i) {
        std::string what = "row " + std::to_string(i) + " " + show(seen[i]);
        if (p.a->obs().eof) fail(what + " is missing: eof() is true");
        if (skip[i]) {
            bool r = p.a->ignore_next();
            if (c.notes()) c.note("  ignored " + what);
            bool left = i + 1 < seen.size();
            if (r != left) fail("ignoring " + what + " returned " + (r ? "true" : "false"));
            if (p.a->obs().eof == left) fail("eof() after ignoring " + what);
            skipped = true;
            c.h(i);
            if (seen[i].find('\n') + 1 < seen[i].size()) c.label("skipped a joined row");
            continue;
        }
        p.read(choose(t, *p.a, seen[i], cfg, g.delim), what);
        if (skipped) c.nontrivial = true;
    }
    if (!p.a->obs().eof) fail("eof() is false at the end");
    if (p.a->ignore_next()) fail("ignore_next returned true at the end of the input");
    p.read(sh_s1, "end");
}

// setups which differ in one option: {with, without}
static void options(Tape& t, Ctx& c) {
    static const int pairs[][3] = {{24, 0, 1}, {25, 21, 1}, {28, 9, 1}, {19, 0, 2}, {21, 8, 2}, {22, 11, 2}, {20, 29, 2}, {25, 8, 3}};
    auto& pr = pairs[t.below(8)];
    int mode = static_cast<int>(t.below(3)), variant = t.chance(1, 4) ? 1 : 0;
    if (!Registry::get().find(pr[0], mode, variant) || !Registry::get().find(pr[1], mode, variant)) variant = 0;
    Target g;
    g.setup = pr[0];
    g.mode = mode;
    g.variant = variant;
    g.file = t.chance(1, 2);
    g.delim = gen::delim(t, g.cfg());
    Target g2 = g;
    g2.setup = pr[1];
    g2.file = t.chance(1, 2);
    const auto& cfg = g.cfg();
    std::string doc = doc_for(t, g);
    if ((pr[2] & 1) && t.chance(1, 2)) {
        gen::DocOpt o;
        doc = (t.chance(1, 2) ? gen::soup(t, cfg.single(), g.delim, 8) : "id" + g.delim + "name") + (t.chance(1, 6) ? "\r\n" : "\n") + doc;
    }
    auto ls = model::phys_lines(doc);
    size_t i = 0;
    auto empties = [&] { if (pr[2] & 2) while (i < ls.size() && ls[i].text.empty()) ++i; };
    std::string rest;
    bool removed = false;
    // 25 and 21 both ignore empty lines
    if (pr[2] & 1) {
        if (cfg.ign_empty) while (i < ls.size() && ls[i].text.empty()) ++i;
        if (i < ls.size()) removed = true;
        ++i;
    }
    size_t first = i;
    std::vector<std::string> seen;
    while (true) {
        size_t was = i;
        empties();
        if (i > was) removed = true;
        if (i >= ls.size()) break;
        auto f = model::frame_row(ls, i, cfg, g.delim);
        std::string x;
        for (size_t k = 0; k < f.count; ++k) x += ls[i + k].text + ls[i + k].eol;
        rest += x;
        seen.push_back(x);
        i += f.count;
    }
    (void)first;
    Pair p{c, g, doc, g2, rest};
    // without line numbers: the same outcomes in the same order
    size_t n = 0;
    while (!p.b->obs().eof) {
        if (p.a->obs().eof) fail("row " + std::to_string(n) + " is missing: eof() is true");
        std::string row = n < seen.size() ? seen[n] : "";
        p.read(choose(t, *p.a, row, cfg, g.delim), "row " + std::to_string(n) + " " + show(row));
        if (removed) c.nontrivial = true;
        if (++n > 100000) fail("no end");
    }
    if (!p.a->obs().eof) fail("eof() is false at the end");
    p.read(sh_s1, "end");
}

// without ignore_empty
static void empty_lines(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { auto& k = setup_cfgs()[static_cast<size_t>(e.setup)]; return e.variant != v_portable && !k.ign_empty && !k.ign_header; });
    Target g = pick_target(t, es);
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n", doc;
    int n = t.range(1, 6);
    std::vector<bool> empty;
    for (int i = 0; i < n; ++i) {
        empty.push_back(t.chance(1, 2));
        doc += (empty.back() ? "" : "Q" + g.delim + "Z") + eol;
    }
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    SutSource src{g.file, doc};
    auto p = open_sut(g, src);
    bool any = false;
    for (int i = 0; i < n; ++i) {
        std::string at = "line " + std::to_string(i + 1) + ": ";
        if (p->obs().eof) fail(at + "eof() is true in front of it");
        bool single = t.chance(1, 3);
        Res r = p->get(single ? sh_s1 : t.chance(1, 2) ? sh_s2 : sh_v2);
        bool ok = !r.threw() && p->obs().valid;
        bool want = empty[static_cast<size_t>(i)] == single;
        c.h(single);
        if (ok != want) fail(at + (ok ? "accepted" : "rejected") + (empty[static_cast<size_t>(i)] ? " an empty line" : " a line of two columns") + (single ? " for one column" : " for two columns"));
        if (ok && r.val != (single ? "0:|" : "1:Q|1:Z|")) fail(at + "returned " + show(r.val));
        if (any) c.nontrivial = true;
        any |= empty[static_cast<size_t>(i)];
    }
    if (!p->obs().eof) fail("eof() is false at the end");
}

const std::vector<Family> families = {{"ignore_next", 4, ignore_next}, {"options", 4, options}, {"empty lines", 1, empty_lines}};
