#include "custom_map.hpp"
#include "lockstep.hpp"
const char* const prop_id = "C25";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and a history applied in lockstep to parsers of two setups which mean the same (other order of options, predefined or nested setup, one-sided for both-sided "
    "trimming), or of two setups whose difference does not apply to the document (characters which do not occur, multiline without rows left open, skipping of empty lines where there are none), "
    "or lines given to the converters of two such setups; all results are compared; non-trivial: two or more rows read from a document with a delimiter, or a line with two or more columns";
using lockstep::Side;
using model::Cfg;

static const std::vector<Registry::Entry>& customs() {
    static const auto v = built([](auto& e) { return e.setup >= 100; });
    return v;
}

static Target pick_custom(Tape& t) {
    const auto& e = t.pick(customs());
    Target g;
    g.as = e.setup;
    g.setup = custom_of[e.setup - 100];
    g.mode = e.mode;
    g.variant = e.variant;
    g.file = t.chance(1, 2);
    g.delim = gen::delim(t, g.cfg());
    g.dflt = g.delim == "," && t.chance(1, 4);
    return g;
}

static void regrouped(Tape& t, Ctx& c) {
    Target h = pick_custom(t), g = h;
    // against the plain setup, or another one which means the same
    g.as = -1;
    if (t.chance(1, 5))
        for (auto& e : customs()) if (e.setup != h.as && e.mode == h.mode && custom_of[e.setup - 100] == h.setup && e.variant == h.variant) g.as = e.setup;
    std::vector<std::string> names;
    std::string doc;
    bool raw = t.chance(1, 5);
    if (raw) {
        std::string al = "a1 \n\n\r" + g.delim + gen::specials(g.cfg(), g.delim);
        for (int n = t.range(0, 40); n > 0; --n) doc += t.chance(1, 16) ? static_cast<char>(t.range(0, 255)) : t.pickc(al);
    } else {
        doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    }
    c.h(static_cast<uint64_t>(h.as));
    Side a{g, doc, "in.csv"}, b{h, doc, "in2.csv"};
    auto did = lockstep::run(t, c, a, b, doc, names, !raw);
    c.nontrivial = did.rows >= 2 && doc.find(g.delim) != std::string::npos;
    if (did.kinds.find_first_of("2345") != std::string::npos) c.label("header used");
}

// the same roles for every character that occurs, and no use for the other options
static bool inapplicable(const Cfg& a, const Cfg& b, const std::string& doc, const std::string& delim) {
    if (a.ign_header != b.ign_header) return false;
    for (char x : doc + delim)
        if (a.is_quote(x) != b.is_quote(x) || a.is_esc(x) != b.is_esc(x) || a.is_tl(x) != b.is_tl(x) || a.is_tr(x) != b.is_tr(x)) return false;
    bool ml = a.ml != b.ml || (a.ml && a.limit != b.limit);
    for (size_t i = 0; i < doc.size();) {
        size_t e = doc.find('\n', i);
        std::string l = doc.substr(i, e == std::string::npos ? e : e - i);
        if (e != std::string::npos && !l.empty() && l.back() == '\r') l.pop_back();
        i = e == std::string::npos ? doc.size() : e + 1;
        if (a.ign_empty != b.ign_empty && l.empty()) return false;
        if (ml) {
            auto s = model::split_row(l, a.single(), delim);
            if (s.err == model::Err::unterminated_quote || s.err == model::Err::unterminated_escape) return false;
            size_t k = l.size();
            while (k > 0 && a.is_esc(l[k - 1])) --k;
            if ((l.size() - k) % 2) return false;
        }
    }
    return true;
}

static Cfg common(const Cfg& a, const Cfg& b) {
    Cfg c = a;
    auto both = [](const std::string& x, const std::string& y) {
        std::string r;
        for (char z : x) if (y.find(z) != std::string::npos) r += z;
        return r;
    };
    if (a.quote != b.quote) c.quote = 0;
    c.esc = both(a.esc, b.esc);
    c.tl = both(a.tl, b.tl);
    c.tr = both(a.tr, b.tr);
    c.ml = a.ml && b.ml && a.limit == b.limit && (c.quote || !c.esc.empty());
    c.ign_empty = a.ign_empty && b.ign_empty;
    return c;
}

static void unused(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.setup < 100 && e.variant == v_headers; });
    Target g = pick_target(t, es), h = g;
    std::vector<int> others;
    for (auto& e : es) if (e.mode == g.mode && e.setup != g.setup && setup_cfgs()[static_cast<size_t>(e.setup)].ign_header == g.cfg().ign_header) others.push_back(e.setup);
    if (others.empty()) return;
    h.setup = t.pick(others);
    const Cfg &a = g.cfg(), &b = h.cfg();
    const Cfg k = common(a, b);
    static const std::vector<std::string> delims = {",", ";", "::", "--", "=>", "aab", "\t", " ", ":;:"};
    std::vector<std::string> ds;
    for (auto& d : delims) if (!gen::shares(d, a) && !gen::shares(d, b)) ds.push_back(d);
    h.delim = g.delim = t.pick(ds);
    h.dflt = g.dflt = g.delim == "," && t.chance(1, 4);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, k, g.delim, &names);
    auto fix = [&](std::string& s) {
        for (char& x : s)
            if (a.is_quote(x) != b.is_quote(x) || a.is_esc(x) != b.is_esc(x) || a.is_tl(x) != b.is_tl(x) || a.is_tr(x) != b.is_tr(x)) x = 'q';
    };
    fix(doc);
    for (auto& n : names) fix(n);
    if (a.ign_empty != b.ign_empty) {
        std::string s;
        bool start = true;
        for (size_t i = 0; i < doc.size(); ++i) {
            bool crlf = doc[i] == '\r' && i + 1 < doc.size() && doc[i + 1] == '\n';
            if (start && (doc[i] == '\n' || crlf)) s += "e";
            start = doc[i] == '\n';
            s += doc[i];
            if (crlf) s += doc[++i], start = true;
        }
        doc = s;
    }
    if (!inapplicable(a, b, doc, g.delim)) {
        c.label("difference applies");
        return;
    }
    c.h(static_cast<uint64_t>(h.setup));
    Side x{g, doc, "in.csv"}, y{h, doc, "in2.csv"};
    auto did = lockstep::run(t, c, x, y, doc, names, true);
    c.nontrivial = did.rows >= 2 && doc.find(g.delim) != std::string::npos;
    if (a.ml != b.ml) c.label("multiline unused");
    if (a.ign_empty != b.ign_empty) c.label("ignore_empty unused");
    if (a.quote != b.quote) c.label("quote unused");
    if (a.esc != b.esc) c.label("escape unused");
    if (a.tl != b.tl || a.tr != b.tr) c.label("trim unused");
}

static void converters(Tape& t, Ctx& c) {
    Target h = pick_custom(t), g = h;
    g.as = -1;
    auto a = Registry::get().find(g.setup, g.mode, g.variant)->converter();
    auto b = Registry::get().find(h.as, h.mode, h.variant)->converter();
    if (c.notes()) c.note("converters, " + g.str() + "  versus  " + h.str());
    c.h(static_cast<uint64_t>(h.as * 10 + g.mode));
    for (int n = t.range(1, 4); n > 0; --n) {
        gen::DocOpt o;
        o.newlines = false;
        o.ints = true;
        std::string s = t.chance(1, 2) ? gen::good_row(t, g.cfg(), g.delim, 0, o, "\n").text : gen::soup(t, g.cfg(), g.delim, 12);
        std::unique_ptr<char[]> x{new char[s.size() + 1]}, y{new char[s.size() + 1]};
        memcpy(x.get(), s.c_str(), s.size() + 1);
        memcpy(y.get(), s.c_str(), s.size() + 1);
        int shape = static_cast<int>(t.below(sh_count));
        int form = t.range(0, 2);
        Res u, v;
        if (form == 0) {
            u = a->convert(shape, x.get(), g.delim, g.dflt);
            v = b->convert(shape, y.get(), g.delim, g.dflt);
        } else {
            u = a->split(x.get(), g.delim, g.dflt);
            v = b->split(y.get(), g.delim, g.dflt);
            if (u.exc == v.exc && u.val == v.val) {
                u = a->convert_split(shape, form == 1);
                v = b->convert_split(shape, form == 1);
            }
        }
        c.h(s);
        c.h(static_cast<uint64_t>(shape * 3 + form));
        if (c.notes()) c.note("  " + show(s) + " as " + shape_name(shape) + " form " + std::to_string(form) + ": " + (u.threw() ? show(u.what) : show(u.val)) + " " + a->error());
        if (u.exc != v.exc || u.what != v.what || u.val != v.val || a->valid() != b->valid() || a->error() != b->error())
            fail("first: " + show(u.val) + u.what + a->error() + ", second: " + show(v.val) + v.what + b->error());
        if (model::split_row(s, g.cfg().single(), g.delim).f.size() >= 2) c.nontrivial = true;
    }
}

const std::vector<Family> families = {{"regrouped options", 3, regrouped}, {"unused options", 3, unused}, {"regrouped converters", 1, converters}};
