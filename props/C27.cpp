#include "ops.hpp"
#include "track.hpp"
const char* const prop_id = "C27";
const bool prop_check_leaks = true;
const char* const prop_rule =
    "a case is a document of a header and a few rows, the rows repeated, with a cycle of operations applied to each repetition (or lines for a converter, "
    "repeated); the most memory the library held at once must not grow with the number of repetitions, and all of it is released at the end; non-trivial: "
    "at least two rows per repetition, one of them longer than nothing, or a converter given at least two lines";

namespace {
// the digits of line numbers, and the rounding of sizes, may differ
constexpr size_t slack = 512;

struct Op {
    int kind = 0, a = 0;
    unsigned bits = 0;
    std::vector<std::string> names;
};
Op some_op(Tape& t, const std::vector<int>& shapes, const std::vector<std::string>& names, bool header, bool chains) {
    Op o;
    o.kind = static_cast<int>(t.weighted({12, 1, header ? 1u : 0u, header ? 1u : 0u, header ? 1u : 0u, header ? 2u : 0u, 2, chains ? 3u : 0u}));
    switch (o.kind) {
    case 0: o.a = t.pick(shapes); break;
    case 4: o.names = {ops::some_name(t, names)}; break;
    case 5: o.names = ops::selection(t, names); o.a = static_cast<int>(t.below(3)); break;
    case 6: o.a = t.chance(1, 2) ? sh_s2 : sh_is; o.bits = t.below(iterate_styles); break;
    case 7: o.a = static_cast<int>(t.below(chain_kinds)); o.bits = t.below(32); break;
    default: break;
    }
    return o;
}
void apply(IParser& p, const Op& o) {
    Res r;
    switch (o.kind) {
    case 0: r = p.get(o.a); break;
    case 1: p.ignore_next(); break;
    case 2: r = p.header(); break;
    case 3: r = p.raw_header(); break;
    case 4: r = p.field_exists(o.names[0]); break;
    case 5: r = p.use_fields(o.names, o.a); break;
    case 6: r = p.iterate(o.a, 1, [](const IterRow&) {}, static_cast<int>(o.bits)); break;
    case 7: {
        ChainOut u;
        r = p.chain(o.a, o.bits, u);
        break;
    }
    default: break;
    }
    if (r.exc != Exc::none && r.exc != Exc::ss) fail("threw something else: " + r.what);
}
bool reads(const Op& o) { return o.kind == 0 || o.kind == 1 || o.kind == 6 || o.kind == 7; }
std::string times(const std::string& s, size_t n) {
    std::string r;
    for (; n > 0; --n) r += s;
    return r;
}
} // namespace

static void parsers(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    const auto& cfg = g.cfg();
    // a first line, and rows which end where the next begin
    auto head = ops::document(t, cfg, g.delim, 0, t.chance(1, 10));
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    if (head.text.empty() || head.text.back() != '\n') head.text += eol;
    gen::DocOpt o;
    o.ints = true;
    o.many = false;
    o.longs = t.chance(1, 5);
    if (t.chance(3, 4)) o.cols = head.names.empty() ? t.range(1, 3) : static_cast<int>(std::min<size_t>(head.names.size(), 4));
    std::string body;
    size_t rows = 0, longest = 0, bad = 0;
    for (int n = t.range(1, 6); n > 0; --n) {
        std::string row;
        switch (t.weighted({10, 3, 1})) {
        case 0: row = gen::good_row(t, cfg, g.delim, o.cols, o, eol).text; break;
        case 1: row = gen::soup(t, cfg, g.delim, 8); break;
        case 2: break;
        }
        row += eol;
        auto ls = model::phys_lines(row);
        bool fits = true;
        for (size_t i = 0; i < ls.size();) {
            auto f = model::frame_row(ls, i, cfg, g.delim);
            i += f.count;
            bool cut = f.s.err == model::Err::unterminated_quote || f.s.err == model::Err::unterminated_escape || f.s.err == model::Err::limit;
            if (i >= ls.size() && cut && cfg.ml) fits = false;
            bad += !f.s.ok();
            if (!(cfg.ign_empty && f.count == 1 && f.text.empty())) ++rows;
        }
        if (!fits) row = "a" + eol;
        body += row;
        longest = std::max(longest, row.size());
    }
    if (rows == 0) { body += "a" + eol; rows = 1; }
    const size_t few = 8, many = static_cast<size_t>(longest > 200 ? t.range(100, 200) : t.range(40, 80));
    SutSource s1{g.file, head.text + times(body, few), "few.csv"}, s2{g.file, head.text + times(body, many), "few.csv2"};
    // one operation that reads per row, others in between
    auto shapes = ops::shapes_of(*open_sut(g, s1));
    bool header = !cfg.ign_header;
    std::vector<Op> cycle;
    size_t n = 0;
    bool selects = false;
    while (n < rows) {
        cycle.push_back(some_op(t, shapes, head.names, header, g.mode != m_throw));
        if (reads(cycle.back())) ++n;
        selects |= cycle.back().kind == 5;
        if (cycle.size() > 30) break;
    }
    c.h(body);
    c.h(head.text);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    for (auto& x : cycle) c.h(static_cast<uint64_t>(x.kind * 100 + x.a));
    if (c.notes()) {
        c.note(g.str());
        c.note("first " + show(head.text) + ", then repeated " + show(body));
        for (auto& x : cycle) c.note("  operation " + std::to_string(x.kind) + " " + std::to_string(x.a) + " " + std::to_string(x.bits));
    }
    auto use = [&](const SutSource& s, size_t reps) {
        track_reset();
        {
            auto p = open_sut(g, s);
            if (header && !cfg.ign_header) p->ignore_next();
            for (size_t k = 0; k < reps; ++k) {
                for (auto& x : cycle) apply(*p, x);
                if (c.notes()) c.note("after " + std::to_string(k + 1) + ": " + std::to_string(track_bytes()) + " peak " + std::to_string(track_peak()) + " line " + std::to_string(p->obs().line));
            }
            if (!p->obs().eof && rows == n && !selects) c.label("not at the end");
        }
        if (track_live()) fail(std::to_string(track_live()) + " blocks are still alive");
        return track_peak();
    };
    // which of the buffers a long line gets to, and how getline() grows it, depends on where it is
    size_t room = slack + 6 * std::max(longest, head.text.size());
    size_t a = use(s1, few), b = use(s2, many);
    if (c.notes()) c.note("at most " + std::to_string(a) + " bytes for " + std::to_string(few) + ", " + std::to_string(b) + " for " + std::to_string(many) + " repetitions");
    if (b > a + room) fail("held up to " + std::to_string(b) + " bytes for " + std::to_string(many) + " repetitions, " + std::to_string(a) + " for " + std::to_string(few));
    c.nontrivial = rows >= 2 && longest > 2;
    if (bad) c.label("malformed rows");
    if (g.file) c.label("file");
}

static void converters(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.converter != nullptr && e.variant != v_portable; });
    Target g = pick_target(t, es);
    const auto& cfg = g.cfg();
    std::vector<std::string> lines;
    std::vector<std::pair<int, int>> how;
    gen::DocOpt o;
    o.newlines = false;
    o.ints = true;
    for (int n = t.range(1, 5); n > 0; --n) {
        lines.push_back(t.chance(2, 3) ? gen::good_row(t, cfg, g.delim, 0, o, "\n").text : gen::soup(t, cfg, g.delim, 10));
        how.emplace_back(t.range(0, 2), t.range(0, 3));
        c.h(lines.back());
    }
    if (c.notes()) {
        c.note("converter, " + g.str());
        for (auto& l : lines) c.note("  line " + show(l));
    }
    const size_t few = 10, many = static_cast<size_t>(t.range(30, 100));
    auto use = [&](size_t reps) {
        track_reset();
        {
            InSut* in = new InSut;
            auto conv = Registry::get().find(g.setup, g.mode, g.variant)->converter();
            delete in;
            for (size_t k = 0; k < reps; ++k) {
                for (size_t i = 0; i < lines.size(); ++i) {
                    std::unique_ptr<char[]> l{new char[lines[i].size() + 1]};
                    memcpy(l.get(), lines[i].c_str(), lines[i].size() + 1);
                    if (how[i].first == 0) {
                        conv->convert(how[i].second, l.get(), g.delim, g.dflt);
                    } else {
                        if (!conv->split(l.get(), g.delim, g.dflt).threw()) conv->convert_split(how[i].second, how[i].first == 1);
                    }
                }
            }
        }
        if (track_live()) fail(std::to_string(track_live()) + " blocks are still alive");
        return track_peak();
    };
    size_t a = use(few), b = use(many);
    if (b > a + slack) fail("held up to " + std::to_string(b) + " bytes for " + std::to_string(many) + " repetitions, " + std::to_string(a) + " for " + std::to_string(few));
    c.nontrivial = lines.size() > 1;
    c.label("converter");
}

const std::vector<Family> families = {{"parsers", 4, parsers}, {"converters", 1, converters}};
