#include "hist.hpp"
const char* const prop_id = "C02";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a table of strings encoded under a generated setup, delimiter, line end and choice of plain, quoted or escaped form per field, read back "
    "from a file or a buffer; the oracle is the table itself; non-trivial: at least two rows, or one row whose encoding differs from its plain text";

namespace {
struct Table {
    std::vector<std::vector<std::string>> rows;
    std::string doc;
    bool encoded = false;
};

size_t breaks(const std::string& s) {
    size_t n = 0;
    for (char c : s) n += c == '\n';
    return n;
}

Table table(Tape& t, const model::Cfg& c, const std::string& d) {
    Table r;
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    int rows = t.chance(1, 12) ? t.range(20, 200) : t.range(1, 6);
    int cols = static_cast<int>(t.weighted({2, 4, 4, 2, 1})) + 1;
    bool varying = t.chance(1, 4);
    bool newlines = c.ml && t.chance(2, 3);
    gen::FieldOpt fo;
    fo.newlines = newlines;
    fo.longs = rows < 20;
    fo.long_den = 12;
    bool final_nl = !t.chance(1, 3);
    if (c.ign_header) r.doc = "h1" + d + "h2" + eol;
    for (int i = 0; i < rows; ++i) {
        std::vector<std::string> row;
        std::string text;
        int n = varying ? t.range(1, 5) : cols;
        size_t room = c.limit ? c.limit : 1000;
        for (int k = 0; k < n; ++k) {
            std::string v = gen::value(t, c, d, fo);
            // an escape in front of a break counts as one line end as well
            if (breaks(v) > room) {
                std::string w;
                size_t left = room;
                for (char ch : v) if (ch != '\n' || left-- > 0) w += ch; else ++left;
                v = w;
            }
            if (eol == "\r\n" && newlines && !t.chance(1, 6)) v = gen::crlf(v);
            v = gen::fit(c, d, v);
            bool must_show = n == 1 && c.ign_empty;
            if (must_show && v.empty() && !c.has_q()) v = "v";
            std::string f = gen::field(t, c, d, v, !must_show);
            room -= breaks(v);
            if (k) text += d;
            text += f;
            r.encoded |= f != v;
            row.push_back(v);
        }
        bool last = i + 1 == rows;
        r.doc += text;
        // an escaped break at the very end needs a line to continue with
        if (!last || final_nl || text.empty() || text.back() == '\n') r.doc += eol;
        r.rows.push_back(row);
    }
    return r;
}
} // namespace

static void round_trip(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    Table tb = table(t, g.cfg(), g.delim);
    if (c.notes()) {
        c.note(g.str());
        for (auto& r : tb.rows) {
            std::string l = "  row:";
            for (auto& f : r) l += " " + show(f);
            c.note(l);
            if (c.desc.size() > 4000) break;
        }
        c.note("document " + show(tb.doc));
    }
    c.h(tb.doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    c.nontrivial = tb.rows.size() > 1 || tb.encoded;
    if (tb.rows.size() > 10) c.label("many rows");
    if (tb.doc.size() > 1000) c.label("over 1000 bytes");
    if (g.cfg().ml && breaks(tb.doc) > tb.rows.size()) c.label("line breaks in fields");
    SutSource src{g.file, tb.doc};
    auto p = open_sut(g, src);
    size_t i = 0;
    for (auto& r : tb.rows) {
        std::string at = "row " + std::to_string(i++) + ": ";
        Obs before = p->obs();
        if (before.eof) fail(at + "eof() is true in front of it");
        int shape = r.size() == 5 ? static_cast<int>(sh_s5) : static_cast<int>(r.size()) - 1;
        if (r.size() == 2 && t.chance(1, 3)) shape = sh_v2;
        Res res = p->get(shape);
        Obs o = p->obs();
        std::string want;
        for (auto& f : r) want += model::enc_str(f);
        if (res.threw()) fail(at + "threw " + show(res.what) + ", expected " + show(want));
        if (!o.valid) fail(at + "rejected " + show(o.err) + ", expected " + show(want));
        if (res.val != want) fail(at + "returned " + show(res.val) + ", expected " + show(want));
    }
    if (!p->obs().eof) fail("eof() is false after the last row");
}

const std::vector<Family> families = {{"round trip", 1, round_trip}};
