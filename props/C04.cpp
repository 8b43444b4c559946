#include "ops.hpp"
const char* const prop_id = "C04";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and one history of operations applied in lockstep to three parsers of the same setup, one per error mode, each compared with "
    "the reference model including the exact error text, and with each other, or a source that is not there; non-trivial: at least one operation was rejected and one later operation accepted, or a read of a missing source";

// names that are long, or mean something elsewhere
static std::string file_name(Tape& t) {
    static const std::vector<std::string> all = {"a b.csv", "%s%n%d.csv", "x", "in: 3: x.csv", std::string(200, 'n'), "d\xc3\xa9j\xc3\xa0.csv", "..csv", "in.csv:", "\"q\",csv", "line\nbreak", "CSV data buffer", "-", "in.csv 7: "};
    return t.chance(2, 3) ? "in.csv" : t.pick(all);
}

static void modes(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    Checks k;
    k.pos = false;
    k.defaults = false;
    std::vector<std::unique_ptr<Hist>> hs;
    Ctx quiet;
    std::string fname = file_name(t);
    for (int m = 0; m < 3; ++m) {
        Target x = g;
        x.mode = m;
        hs.push_back(std::make_unique<Hist>(m == m_string ? c : quiet, x, doc, k, fname));
    }
    int rejected_at = -1;
    int i = 0;
    int beyond = 0;
    while (beyond < 2 && i < 30) {
        Hist& s = *hs[m_string];
        if (s.m.eof()) ++beyond;
        // the same operation on each; requests are chosen from the model, which is the same for all
        size_t op = t.weighted({12, 1, s.p->has_header() ? 1u : 0u, s.p->has_header() ? 1u : 0u, s.p->has_header() ? 2u : 0u});
        int shape = ops::fitting_shape(t, s);
        std::string nm = ops::some_name(t, names);
        auto sel = ops::selection(t, names);
        int form = static_cast<int>(t.below(3));
        for (auto& h : hs) {
            switch (op) {
            case 0: h->get(shape); break;
            case 1: h->ignore(); break;
            case 2: h->header(); break;
            case 3: h->field_exists(nm); break;
            case 4:
                if (h->m.eof() && !h->field_exists("id")) break;
                h->use_fields(sel, form);
                break;
            }
        }
        // what the string and the exception say was compared with the same text of the model;
        // states the model leaves open are compared directly
        if (!s.m.valid() && rejected_at < 0) rejected_at = i;
        if (s.m.valid() && rejected_at >= 0 && op == 0) c.nontrivial = true;
        ++i;
    }
}

// a mismatched quote in a joined row: the position is left open by the model, the
// two modes have to say the same
static void texts(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.mode == m_string && setup_cfgs()[static_cast<size_t>(e.setup)].has_q(); });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    SutSource src{g.file, doc};
    Target x = g;
    x.mode = m_throw;
    auto a = open_sut(g, src), b = open_sut(x, src);
    if (c.notes()) {
        c.note(g.str() + " against " + mode_name(m_throw));
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup));
    auto shapes = ops::shapes_of(*a);
    bool rej = false;
    for (int i = 0; i < 12; ++i) {
        int s = t.pick(shapes);
        Res u = a->get(s), v = b->get(s);
        c.h(static_cast<uint64_t>(s));
        std::string err = a->obs().err;
        if (c.notes()) c.note(std::string("  get_next<") + shape_name(s) + "> " + show(err));
        if (v.exc != Exc::none && v.exc != Exc::ss) fail("other exception " + v.what);
        if ((err.empty()) != !v.threw()) fail("error string " + show(err) + ", exception " + (v.threw() ? show(v.what) : "none"));
        if (err != v.what) fail("error string " + show(err) + " and exception text " + show(v.what) + " differ");
        if (err.empty() && u.val != v.val) fail("values differ: " + show(u.val) + " and " + show(v.val));
        if (!err.empty()) rej = true;
        else if (rej) c.nontrivial = true;
        if (a->obs().eof != b->obs().eof || a->obs().line != b->obs().line || a->obs().pos != b->obs().pos) fail("eof(), line() or position() differ between the modes");
    }
}

// a source that is not there: the same in each mode, and named
static void no_source(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.mode == m_string; });
    Target g = pick_target(t, es), x = g, y = g;
    x.mode = m_throw;
    y.mode = m_plain;
    SutSource src{true, "", "unused"};
    Source s;
    if (g.file) s.path = hist_scratch + "/missing/" + file_name(t);
    else s.size = t.chance(1, 2) ? 0 : t.below(100);
    std::string name = g.file ? s.path : "CSV data buffer";
    std::string want = name + (g.file ? ": could not be opened" : ": received null data buffer");
    if (c.notes()) {
        c.note(g.str());
        c.note("source " + show(g.file ? s.path : "null, " + std::to_string(s.size)));
    }
    c.h(s.path);
    c.h(static_cast<uint64_t>(g.setup * 100) + s.size);
    auto open = [&](const Target& k, Res& r) { return Registry::get().find(k.entry(), k.mode, k.variant)->parser(s, k.delim, k.dflt, r); };
    Res ra, rb, rt;
    auto a = open(g, ra), b = open(y, rb);
    static_cast<void>(open(x, rt));
    if (rt.exc != Exc::ss || rt.what != want) fail("the constructor threw " + show(rt.what) + ", expected " + show(want));
    if (ra.threw() || rb.threw()) fail("a constructor threw " + ra.what + rb.what);
    if (a->obs().err != want) fail("error_msg() is " + show(a->obs().err) + ", expected " + show(want));
    auto same = [&](const std::string& at) {
        if (!a->obs().eof || !b->obs().eof) fail(at + "eof() is false");
        if (a->obs().valid != b->obs().valid) fail(at + "valid() is " + (b->obs().valid ? "true" : "false") + ", with string_error it is not");
        if (a->obs().err.empty() != a->obs().valid) fail(at + "valid() is wrong, the error is " + show(a->obs().err));
    };
    same("");
    if (b->obs().valid) fail("valid() is true");
    auto shapes = ops::shapes_of(*a);
    for (int i = 0, n = t.range(1, 6); i < n; ++i) {
        std::string at = "step " + std::to_string(i) + ": ";
        switch (t.weighted({4, 1, a->has_header() ? 1u : 0u, a->has_header() ? 1u : 0u})) {
        case 0: {
            int k = t.pick(shapes);
            Res u = a->get(k), v = b->get(k);
            if (c.notes()) c.note("  get_next<" + std::string(shape_name(k)) + "> " + show(a->obs().err));
            if (u.threw() || v.threw() || a->obs().err != name + ": read on end of file") fail(at + "the error is " + show(a->obs().err + u.what + v.what));
            c.nontrivial = true;
            break;
        }
        case 1:
            if (a->ignore_next() || b->ignore_next()) fail(at + "ignore_next() returned true");
            break;
        case 2: {
            Res u = a->header(), v = b->header();
            if (u.threw() || v.threw() || u.val != v.val) fail(at + "header() differs");
            break;
        }
        case 3: {
            Res u = a->field_exists("id"), v = b->field_exists("id");
            if (u.threw() || v.threw() || u.val != v.val || u.flag || v.flag) fail(at + "field_exists() differs");
            break;
        }
        }
        same(at);
    }
}

const std::vector<Family> families = {{"three modes", 16, modes}, {"texts", 4, texts}, {"no source", 1, no_source}};
