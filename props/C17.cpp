#include "ops.hpp"
const char* const prop_id = "C17";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and a history of substitute conversion chains (15 kinds of two to five alternatives, with generated callback results and exceptions) mixed with "
    "reads, selections and skips, compared with the reference model: the values of every alternative, the calls of every callback with their arguments and "
    "order, validity, the error, eof(), line() and position(); non-trivial: a chain whose first alternative failed";

static void chains(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.mode != m_throw && e.setup < 100; });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    Hist h{c, g, doc};
    ops::Mix m;
    m.get = 2;
    m.chain = 10;
    m.ignore = 1;
    m.header = m.raw = m.exists = 1;
    m.use = 1;
    m.valid_use = true;
    int beyond = 0;
    for (int i = 0; i < 30 && beyond < 3; ++i) {
        if (h.m.eof()) ++beyond;
        ops::step(t, h, m, names);
    }
    c.nontrivial = h.chain_fallbacks > 0;
    if (h.multis) c.label("joined rows");
}

// an alternative that succeeds holds what a direct read of its types gives
static void direct(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.mode != m_throw && e.setup < 100; });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    SutSource src{g.file, doc};
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    auto a = open_sut(g, src), s2 = open_sut(g, src), is = open_sut(g, src);
    bool has_ii = false;
    (void)has_ii;
    int n = 0;
    while (!a->obs().eof) {
        std::string at = "row " + std::to_string(n++) + ": ";
        ChainOut o;
        // int,string with a predicate, then string,string
        unsigned bits = t.below(4);
        a->chain(8, bits, o);
        Res u = is->get(sh_is);
        bool iok = is->obs().valid;
        Res v = s2->get(sh_s2);
        bool sok = s2->obs().valid;
        std::string w0 = iok && !(bits & 1) ? u.val : "none";
        std::string w1 = w0 == "none" && sok && !(bits & 2) ? v.val : "none";
        if (c.notes()) c.note("  " + at + show(o.values[0]) + " " + show(o.values[1]));
        if (o.values[0] != w0 || o.values[1] != w1) fail(at + "the chain holds " + show(o.values[0]) + " and " + show(o.values[1]) + ", direct reads give " + show(w0) + " and " + show(w1));
        if (a->obs().valid != (w0 != "none" || w1 != "none")) fail(at + "valid() is wrong after the chain");
        if (a->obs().eof != s2->obs().eof || a->obs().pos != s2->obs().pos || a->obs().line != s2->obs().line) fail(at + "the chain did not consume exactly one row");
        if (w0 == "none") c.nontrivial = true;
    }
}

// an exception of a callback ends the chain and reaches the caller; the row is consumed like without it
static void thrown(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.mode != m_throw && e.setup < 100; });
    Target g = pick_target(t, es);
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    SutSource src{g.file, doc};
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    // b is read like a, by callbacks that do not throw
    auto a = open_sut(g, src), b = open_sut(g, src);
    bool threw = false;
    int beyond = 0;
    for (int n = 0; n < 40 && beyond < 3; ++n) {
        if (b->obs().eof) ++beyond;
        std::string at = "read " + std::to_string(n) + ": ";
        if (t.chance(1, 3)) {
            int s = t.pick(std::vector<int>{sh_s1, sh_s2, sh_is, sh_tied_is, sh_i1});
            Res x = a->get(s), y = b->get(s);
            if (c.notes()) c.note("  " + at + shape_name(s) + " " + show(x.val));
            if (x.exc != y.exc || (b->obs().valid && x.val != y.val) || x.what != y.what) fail(at + "gave " + show(x.val) + show(x.what) + ", without the exception " + show(y.val) + show(y.what));
            if (a->obs().valid != b->obs().valid || a->obs().err != b->obs().err) fail(at + "the error is " + show(a->obs().err) + ", without the exception " + show(b->obs().err));
            if (threw && a->obs().valid) c.nontrivial = true;
        } else {
            static const std::vector<int> points{0, 10, 1, 11, 2, 12};
            int point = t.pick(points);
            unsigned bits = t.below(8);
            ChainOut u, v;
            Res x = a->chain(chain_thrown, bits | static_cast<unsigned>(point) << 8, u);
            Res y = b->chain(chain_thrown, bits | 99u << 8, v);
            if (y.threw()) fail(at + "the chain threw " + show(y.what));
            std::string mark = std::to_string(point) + "(";
            size_t k = 0;
            while (k < v.calls.size() && v.calls[k].rfind(mark, 0) != 0) ++k;
            bool reached = k < v.calls.size();
            if (c.notes()) c.note("  " + at + "chain, callback " + std::to_string(point) + " throws, " + (reached ? "called" : "not called"));
            if (reached) {
                if (x.exc != Exc::user) fail(at + "the exception of callback " + std::to_string(point) + " did not reach the caller");
                v.calls.resize(k + 1);
                threw = true;
            } else {
                if (x.threw()) fail(at + "the chain threw " + show(x.what) + " and callback " + std::to_string(point) + " is not to be called");
                if (u.values != v.values) fail(at + "the values differ");
                if (a->obs().valid != b->obs().valid || a->obs().err != b->obs().err) fail(at + "the error is " + show(a->obs().err) + ", without the exceptions " + show(b->obs().err));
            }
            if (u.calls != v.calls) fail(at + "the callbacks called differ: " + std::to_string(u.calls.size()) + " calls instead of " + std::to_string(v.calls.size()));
        }
        if (a->obs().eof != b->obs().eof) fail(at + "eof() is " + (a->obs().eof ? "true" : "false"));
        if (a->obs().line != b->obs().line) fail(at + "line() is " + std::to_string(a->obs().line) + ", without the exception " + std::to_string(b->obs().line));
        if (a->obs().pos != b->obs().pos) fail(at + "position() is " + std::to_string(a->obs().pos) + ", without the exception " + std::to_string(b->obs().pos));
    }
}

const std::vector<Family> families = {{"chains", 8, chains}, {"direct", 2, direct}, {"thrown", 3, thrown}};
