#include "ops.hpp"
#include <fcntl.h>
#include <sys/stat.h>
const char* const prop_id = "C19";
const bool prop_check_leaks = true;
const char* const prop_rule =
    "a case is a document of arbitrary bytes (NUL, stray CR, control characters, long runs, mutated well formed text) or an odd source (missing file, directory), "
    "an arbitrary delimiter (empty, sharing characters with other roles, holding NUL or line ends) and a history over the whole interface, under Address- and "
    "UndefinedBehaviorSanitizer with block and descriptor counting; checked are sanitizer reports, foreign exceptions, progress of every read and the number of "
    "reads until the end; non-trivial: at least two reads, of which the document or delimiter has a byte with a role in the setup";

namespace {
int free_fd() {
    int fd = dup(2);
    close(fd);
    return fd;
}

const std::vector<Registry::Entry>& every() {
    static const auto v = built([](auto&) { return true; });
    return v;
}
const std::vector<Registry::Entry>& convs() {
    static const auto v = built([](auto& e) { return e.converter != nullptr && e.variant != v_portable; });
    return v;
}

std::string roles(const model::Cfg& c, const std::string& d) {
    std::string s = d + c.esc + c.tl + c.tr;
    if (c.quote) s += c.quote;
    return s;
}

std::string any_delim(Tape& t, const model::Cfg& c) {
    switch (t.weighted({6, 3, 2, 1, 1})) {
    case 0: return gen::delim(t, c);
    case 1: {
        // made of characters which have other roles
        std::string s = roles(c, ",") + "\n\r ;", r;
        int n = t.range(1, 4);
        for (int i = 0; i < n; ++i) r += t.pickc(s);
        return r;
    }
    case 2: {
        std::string r;
        int n = t.range(1, 5);
        for (int i = 0; i < n; ++i) r += static_cast<char>(t.below(256));
        return r;
    }
    case 3: return "";
    default: return std::string(static_cast<size_t>(t.range(1, 300)), t.pickc(",;:\"\\ "));
    }
}

char some_byte(Tape& t, const std::string& sp) {
    switch (t.weighted({8, 5, 3, 1, 1, 2})) {
    case 0: return t.pickc("abc017-.");
    case 1: return sp.empty() ? 'x' : t.pickc(sp);
    case 2: return '\n';
    case 3: return '\r';
    case 4: return '\0';
    default: return static_cast<char>(t.below(256));
    }
}

std::string soup(Tape& t, const model::Cfg& c, const std::string& d) {
    std::string sp = gen::specials(c, d), r;
    int n = t.chance(1, 6) ? t.range(0, 300) : t.range(0, 40);
    bool longs = t.chance(1, 5);
    for (int i = 0; i < n; ++i) {
        switch (t.weighted({20, 2, 2})) {
        case 0: r += some_byte(t, sp); break;
        case 1: r += d; break;
        case 2: {
            size_t k = longs ? gen::long_len(t) : static_cast<size_t>(t.range(2, 9));
            if (longs && t.chance(1, 60)) k *= 50;
            if (r.size() + k < 400000) r.append(k, some_byte(t, sp));
            break;
        }
        }
    }
    return r;
}

std::string any_doc(Tape& t, const model::Cfg& c, const std::string& d, std::vector<std::string>& names) {
    if (t.chance(1, 2)) return soup(t, c, d);
    std::string r = ops::some_doc(t, c, gen::shares(d, c) || d.empty() ? "," : d, &names, 10);
    std::string sp = gen::specials(c, d);
    for (int k = t.range(0, 6); k > 0; --k) {
        size_t at = t.below(static_cast<uint32_t>(r.size() + 1));
        switch (t.weighted({3, 2, 2, 1, 1})) {
        case 0: r.insert(at, 1, some_byte(t, sp)); break;
        case 1: if (at < r.size()) r.erase(at, 1 + t.below(3)); break;
        case 2: if (at < r.size()) r[at] = some_byte(t, sp); break;
        case 3: r.erase(at); break;
        case 4: {
            size_t n = t.below(20);
            r.insert(at, r.substr(at / 2, n));
            break;
        }
        }
    }
    return r;
}

struct Run {
    Ctx& c;
    Target g;
    size_t size;
    std::unique_ptr<IParser> p;
    size_t pos = 0, line = 0, reads = 0, lines;

    [[noreturn]] void bad(const std::string& op, const std::string& m) { fail(op + ": " + m); }

    void result(const std::string& op, const Res& r) {
        if (r.exc == Exc::none) return;
        if (r.exc != Exc::ss) bad(op, "threw something else: " + r.what);
        if (g.mode != m_throw) bad(op, "threw " + show(r.what) + " without exceptions");
    }
    // a: operation that reads rows
    void after(const std::string& op, bool reads_row, bool was_eof) {
        Obs o = p->obs();
        if (o.pos > size) bad(op, "position " + std::to_string(o.pos) + " beyond the size " + std::to_string(size));
        if (o.pos < pos) bad(op, "position went back from " + std::to_string(pos) + " to " + std::to_string(o.pos));
        if (o.line < line) bad(op, "line went back");
        if (o.line > lines) bad(op, "line " + std::to_string(o.line) + " of " + std::to_string(lines));
        if (was_eof && (o.pos != pos || o.line != line || !o.eof)) bad(op, "moved at the end of the input");
        if (reads_row && !was_eof && o.line == line && !o.eof) bad(op, "no line was consumed");
        pos = o.pos;
        line = o.line;
    }
};
} // namespace

static void histories(Tape& t, Ctx& c) {
    int fd = free_fd();
    {
        Target g = pick_target(t, every());
        g.delim = any_delim(t, g.cfg());
        g.dflt = g.delim == "," && t.chance(1, 4);
        std::vector<std::string> names;
        std::string doc = any_doc(t, g.cfg(), g.delim, names);
        SutSource src{g.file, doc, "in.csv"};
        if (c.notes()) {
            c.note(g.str());
            c.note("document " + show(doc));
        }
        c.h(doc);
        c.h(g.delim);
        c.h(static_cast<uint64_t>(g.setup * 10 + g.mode * 3 + g.file));
        Res r;
        size_t lines = static_cast<size_t>(std::count(doc.begin(), doc.end(), '\n')) + 1;
        Run run{c, g, doc.size(), open_sut(g, src, &r), 0, 0, 0, lines};
        run.result("construction", r);
        if (!run.p) fail("construction failed with " + r.what);
        auto shapes = ops::shapes_of(*run.p);
        run.pos = run.p->obs().pos;
        run.line = run.p->obs().line;
        int extra = t.range(1, 3);
        size_t steps = 0;
        while (extra > 0) {
            if (++steps > lines + 60) fail("still reading after " + std::to_string(steps) + " operations on " + std::to_string(lines) + " lines");
            bool eof = run.p->obs().eof;
            if (eof) --extra;
            bool hd = run.p->has_header();
            bool quiet = steps > 40;
            size_t k = t.weighted({12, 1, quiet || !hd ? 0u : 1u, quiet || !hd ? 0u : 1u, quiet || !hd ? 0u : 1u, quiet || !hd ? 0u : 1u, 1, g.mode == m_throw ? 0u : 1u, quiet ? 0u : 1u});
            std::string op;
            auto note = [&](const std::string& o) {
                op = "step " + std::to_string(steps) + " " + o;
                if (c.notes()) c.note("  " + op);
                c.h(o);
            };
            switch (k) {
            case 0: {
                int s = t.pick(shapes);
                note(std::string("get_next<") + shape_name(s) + ">");
                run.result(op, run.p->get(s));
                run.after(op, true, eof);
                ++run.reads;
                break;
            }
            case 1:
                note("ignore_next");
                run.p->ignore_next();
                run.after(op, true, eof);
                ++run.reads;
                break;
            case 2: note("header"); run.result(op, run.p->header()); run.after(op, false, eof); break;
            case 3: note("raw_header"); run.result(op, run.p->raw_header()); run.after(op, false, eof); break;
            case 4: note("field_exists"); run.result(op, run.p->field_exists(ops::some_name(t, names))); run.after(op, false, eof); break;
            case 5: note("use_fields"); run.result(op, run.p->use_fields(ops::selection(t, names), static_cast<int>(t.below(3)))); run.after(op, false, eof); break;
            case 6: {
                note("iterate");
                int s = t.chance(1, 2) ? sh_s2 : sh_is;
                size_t rows = 0, max = static_cast<size_t>(t.range(1, 5));
                run.result(op, run.p->iterate(s, max, [&](const IterRow&) { if (++rows > lines + 1) fail(op + ": more rows than lines"); }, static_cast<int>(t.below(iterate_styles))));
                run.after(op, rows > 0, eof);
                run.reads += rows;
                break;
            }
            case 7: {
                int kind = static_cast<int>(t.below(chain_kinds));
                note("chain " + std::to_string(kind));
                ChainOut o;
                run.result(op, run.p->chain(kind, t.below(32), o));
                run.after(op, true, eof);
                ++run.reads;
                break;
            }
            case 8:
                note("move");
                run.p = run.p->move_construct();
                run.after(op, false, eof);
                break;
            }
        }
        if (!src.unchanged()) fail("the input was modified");
        std::string rs = roles(g.cfg(), g.delim);
        if (run.reads > 1 && (doc.find_first_of(rs.empty() ? std::string(",") : rs) != std::string::npos || gen::shares(g.delim, g.cfg()))) c.nontrivial = true;
        if (doc.find('\0') != std::string::npos) c.label("NUL in the document");
        if (gen::shares(g.delim, g.cfg())) c.label("delimiter shares characters");
        if (g.delim.empty()) c.label("empty delimiter");
        if (doc.size() > 2000) c.label("long document");
    }
    if (free_fd() != fd) fail("a file descriptor was leaked");
}

static void lines(Tape& t, Ctx& c) {
    Target g = pick_target(t, convs());
    g.delim = any_delim(t, g.cfg());
    auto conv = Registry::get().find(g.setup, g.mode, g.variant)->converter();
    if (c.notes()) c.note("converter, " + g.str());
    c.h(g.delim);
    std::vector<std::unique_ptr<char[]>> keep;
    static const std::vector<int> shapes = {sh_s1, sh_s2, sh_s3, sh_s4, sh_v2, sh_is, sh_svs, sh_os, sh_vs, sh_i1, sh_tup_is, sh_tied_is, sh_obj_is, sh_obj_sv, sh_ne2, sh_sss_vec, sh_cr, sh_bv};
    int n = t.range(1, 5);
    auto check = [&](const std::string& op, const Res& r) {
        if (r.exc != Exc::none && (r.exc != Exc::ss || g.mode != m_throw)) fail(op + " threw " + r.what);
    };
    for (int i = 0; i < n; ++i) {
        std::string s = soup(t, g.cfg(), g.delim);
        s = s.c_str();
        keep.emplace_back(new char[s.size() + 1]);
        memcpy(keep.back().get(), s.c_str(), s.size() + 1);
        int shape = t.pick(shapes);
        c.h(s);
        if (c.notes()) c.note("  line " + show(s) + " to " + shape_name(shape));
        if (t.chance(1, 2)) {
            check("convert", conv->convert(shape, keep.back().get(), g.delim, false));
        } else {
            check("split", conv->split(keep.back().get(), g.delim, false));
            check("convert of the split", conv->convert_split(shape, t.chance(1, 2)));
        }
        conv->valid();
        conv->error();
        if (s.size() > 3) c.nontrivial = true;
    }
}

// sources which cannot be read, or not as expected
static void sources(Tape& t, Ctx& c) {
    int fd = free_fd();
    {
        Target g = pick_target(t, every());
        Source s;
        std::string dir = hist_scratch + "/dir";
        mkdir(dir.c_str(), 0700);
        bool gone = false;
        switch (t.below(4)) {
        case 0: s.path = hist_scratch + "/missing.csv"; gone = true; break;
        case 1: s.path = dir; break;
        case 2: s.path = hist_scratch + "/no/such/dir.csv"; gone = true; break;
        case 3: s.data = nullptr; s.size = 0; break;
        }
        if (c.notes()) c.note(g.str() + " source " + (s.path.empty() ? "null buffer" : show(s.path)));
        c.h(s.path);
        c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
        auto* e = Registry::get().find(g.setup, g.mode, g.variant);
        Res r;
        auto p = e->parser(s, g.delim, false, r);
        Run run{c, g, 1u << 30, nullptr, 0, 0, 0, 1};
        run.result("construction", r);
        if (gone && g.mode == m_throw && !r.threw()) fail("no exception for a missing file");
        if (p) {
            if (gone && g.mode != m_throw && p->obs().valid) fail("valid() is true for a missing file");
            if (!p->obs().eof) fail("eof() is false for a source without rows");
            auto shapes = ops::shapes_of(*p);
            for (int i = t.range(1, 4); i > 0; --i) {
                switch (t.below(4)) {
                case 0: run.result("read", p->get(t.pick(shapes))); break;
                case 1: if (p->ignore_next()) fail("ignore_next() is true without rows"); break;
                case 2: run.result("iterate", p->iterate(sh_s2, 5, [&](const IterRow&) { fail("a row from nowhere"); }, 0)); break;
                case 3: if (p->has_header()) run.result("header", p->header()); break;
                }
                if (!p->obs().eof) fail("eof() became false");
            }
            c.nontrivial = true;
        }
    }
    if (free_fd() != fd) fail("a file descriptor was leaked");
}

const std::vector<Family> families = {{"histories", 12, histories}, {"lines", 3, lines}, {"sources", 1, sources}};
