#include "hist.hpp"
const char* const prop_id = "C01";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one line (well-formed encodings of generated values, or text over the special characters of the setup, some lines hundreds of characters long) "
    "split by a converter, or a document of such lines read by a parser, under a generated setup, error mode, build and delimiter; non-trivial: the line holds "
    "at least two of the special roles (delimiter, quote, escape, trim character) and the model either finds two or more fields or an error";

static bool interesting(const std::string& s, const model::Cfg& c, const std::string& d, const model::Split& sp) {
    int roles = 0;
    auto has = [&](auto f) { for (char x : s) if (f(x)) return true; return false; };
    roles += s.find(d) != std::string::npos;
    roles += has([&](char x) { return c.is_quote(x); });
    roles += has([&](char x) { return c.is_esc(x); });
    roles += has([&](char x) { return c.is_tl(x) || c.is_tr(x); });
    bool plain = !c.has_q() && !c.has_e() && c.tl.empty() && c.tr.empty();
    return (roles >= 2 || (plain && roles >= 1)) && (!sp.ok() || sp.f.size() >= 2);
}

static std::string line(Tape& t, const model::Cfg& c, const std::string& d) {
    if (t.chance(1, 2)) {
        gen::DocOpt o;
        o.newlines = false;
        return gen::good_row(t, c, d, 0, o, "\n").text;
    }
    std::string s = gen::soup(t, c, d, 14);
    return s;
}

static const std::vector<Registry::Entry>& convs() {
    static const auto v = built([](auto& e) { return e.converter != nullptr; });
    return v;
}

static void conv_line(Tape& t, Ctx& c) {
    Target g = pick_target(t, convs());
    auto conv = Registry::get().find(g.setup, g.mode, g.variant)->converter();
    const auto& cfg = g.cfg();
    if (c.notes()) c.note("converter, " + g.str());
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    int n = t.range(1, 3);
    for (int i = 0; i < n; ++i) {
        std::string d = t.chance(1, 40) ? "" : g.delim;
        std::string s = line(t, cfg, g.delim);
        auto want = model::split_row(s, cfg.single(), d);
        c.h(s);
        c.h(d);
        if (c.notes()) c.note("  split " + show(s) + " by " + show(d));
        std::unique_ptr<char[]> buf{new char[s.size() + 1]};
        memcpy(buf.get(), s.c_str(), s.size() + 1);
        bool dflt = g.dflt && !d.empty();
        if (s.empty()) {
            // a converter splits an empty line into no columns
            Res r = conv->split(buf.get(), d, dflt);
            if (r.threw() || !r.val.empty()) fail("splitting an empty line returned " + show(r.val) + r.what);
            continue;
        }
        if (interesting(s, cfg, g.delim, want)) c.nontrivial = true;
        c.label(want.ok() ? "well formed" : model::err_text({{}, want.err, 0}).substr(0, 18).c_str());
        auto check = [&](const Res& r, bool valid, const std::string& err, const std::string& val, const char* what) {
            if (g.mode == m_throw) {
                if (r.threw() == want.ok()) fail(std::string(what) + (want.ok() ? " threw " + show(r.what) : " accepted a malformed line, expected " + model::err_text(want)));
                if (!want.ok() && r.what != model::err_text(want)) fail(std::string(what) + " threw " + show(r.what) + ", expected " + show(model::err_text(want)));
            } else {
                if (r.threw()) fail(std::string(what) + " threw " + show(r.what));
                if (valid != want.ok()) fail(std::string(what) + (want.ok() ? " rejected a well formed line" : " accepted a malformed line, expected " + model::err_text(want)));
                if (g.mode == m_string && err != (want.ok() ? "" : model::err_text(want))) fail(std::string(what) + " reported " + show(err) + ", expected " + show(model::err_text(want)));
            }
            if (want.ok() && r.val != val) fail(std::string(what) + " returned " + show(r.val) + ", expected " + show(val));
        };
        std::string all;
        for (auto& f : want.f) all += model::enc_str(f);
        // the validity of a bare split shows in a later conversion only
        bool one = t.chance(1, 2);
        if (!one) {
            Res r = conv->split(buf.get(), d, dflt);
            if (g.mode == m_throw && r.threw()) {
                if (!want.ok() && r.what != model::err_text(want)) fail("split threw " + show(r.what) + ", expected " + show(model::err_text(want)));
                if (!want.ok()) continue;
            }
            if (want.ok() && (r.threw() || r.val != all)) fail("split returned " + show(r.val) + r.what + ", expected " + show(all));
        }
        if (want.ok() && want.f.size() > 4) continue;
        int shape = want.ok() ? static_cast<int>(want.f.size()) - 1 : t.range(0, 3);
        if (one) {
            Res r = conv->convert(shape, buf.get(), d, dflt);
            check(r, conv->valid(), conv->error(), all, "convert");
        } else {
            Res r = conv->convert_split(shape, t.chance(1, 2));
            check(r, conv->valid(), conv->error(), all, "convert of the split line");
        }
    }
}

static void parse_rows(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    Target g = pick_target(t, es);
    const auto& cfg = g.cfg();
    std::string doc;
    int n = t.range(1, 5);
    const char* eol = t.chance(1, 3) ? "\r\n" : "\n";
    bool last_nl = !t.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        std::string s = line(t, cfg, g.delim);
        if (interesting(s, cfg, g.delim, model::split_row(s, cfg, g.delim))) c.nontrivial = true;
        doc += s;
        if (i + 1 < n || last_nl) doc += eol;
    }
    Checks k;
    k.pos = false;
    k.defaults = false;
    Hist h{c, g, doc, k};
    while (!h.m.eof()) {
        // ask for the number of columns there are
        auto f = model::frame_row(h.m.lines(), h.m.index(), cfg, g.delim);
        int shape = f.s.ok() && f.s.f.size() <= 4 ? static_cast<int>(f.s.f.size()) - 1 : t.range(0, 3);
        h.get(shape);
    }
}

const std::vector<Family> families = {{"converter", 2, conv_line}, {"parser", 3, parse_rows}};
