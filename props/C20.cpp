#include "ops.hpp"
const char* const prop_id = "C20";
const bool prop_check_leaks = true;
const char* const prop_rule =
    "a case is one or two parsers with their own documents and a history in which reads, selections, queries and chains are interrupted by move construction, "
    "move assignment onto a live or moved-from parser, and destruction or reuse of the moved-from one; every result is compared with the reference model, "
    "views taken before a move are read after it, and all memory and files have to be released at the end; non-trivial: a move between two reads";

namespace {
struct Slot {
    std::unique_ptr<Hist> h;
    std::vector<std::string> names;
};
} // namespace

static void moves(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    auto open = [&](const std::string& f, const Slot* other = nullptr) {
        Slot s;
        Target x = g;
        // the parsers that are assigned to may differ in everything but the type, or only in how far they were read
        if (other && t.chance(2, 3)) {
            x.delim = gen::delim(t, g.cfg());
            x.dflt = false;
        }
        if (other && t.chance(1, 3)) {
            x.file = other->h->t.file;
            s.names = other->names;
            s.h = std::make_unique<Hist>(c, x, other->h->src.doc, Checks{}, f, other->h->src_holder);
            return s;
        }
        x.file = t.chance(1, 2);
        std::string doc = ops::some_doc(t, g.cfg(), x.delim, &s.names);
        s.h = std::make_unique<Hist>(c, x, doc, Checks{}, f);
        return s;
    };
    ops::Mix m;
    m.chain = g.mode == m_throw ? 0 : 1;
    m.iterate = 1;
    m.use = 2;
    Slot a = open("a.csv");
    std::vector<std::unique_ptr<IParser>> husks; // moved-from
    int moved = 0, reads_before = 0;
    for (int i = 0; i < 14; ++i) {
        size_t what = t.weighted({8, 3, 3, 1, 1});
        size_t rows = a.h->oks + a.h->fails;
        std::vector<std::string> held;
        std::vector<std::string_view> v;
        auto keep = [&] {
            v = a.h->p->views();
            for (auto& x : v) held.emplace_back(x);
        };
        bool views_ok = !a.h->p->views().empty() && (a.h->step_name == "string_view x2" || a.h->step_name.find("string_view x2") != std::string::npos);
        auto still = [&] {
            for (size_t k = 0; k < v.size(); ++k) if (std::string{v[k]} != held[k]) fail("a string view changed by a move: " + show(held[k]) + " became " + show(std::string{v[k]}));
        };
        switch (what) {
        case 0:
            ops::step(t, *a.h, m, a.names);
            if (moved && a.h->oks + a.h->fails > rows && reads_before) c.nontrivial = true;
            break;
        case 1: { // move construction
            if (views_ok) keep();
            a.h->begin("move construction");
            auto n = a.h->p->move_construct();
            husks.push_back(std::move(a.h->p));
            a.h->p = std::move(n);
            if (t.chance(1, 2)) husks.clear();
            still();
            a.h->obs_check(false);
            a.h->obs_check(a.h->steps > 1);
            ++moved;
            reads_before += rows > 0;
            break;
        }
        case 2: { // move assignment onto a live parser with its own state
            if (views_ok) keep();
            Slot b = open("b" + std::to_string(i) + ".csv", &a);
            int k = t.range(0, 4);
            for (int q = 0; q < k; ++q) ops::step(t, *b.h, m, b.names);
            a.h->begin("move assignment onto a live parser");
            if (!b.h->p->move_assign(*a.h->p)) fail("different types");
            husks.push_back(std::move(a.h->p));
            a.h->p = std::move(b.h->p);
            if (t.chance(1, 2)) husks.clear();
            still();
            a.h->obs_check();
            ++moved;
            reads_before += rows > 0;
            break;
        }
        case 3: { // move assignment onto a moved-from parser
            if (husks.empty()) break;
            if (views_ok) keep();
            a.h->begin("move assignment onto a moved-from parser");
            auto x = std::move(husks.back());
            husks.pop_back();
            if (!x->move_assign(*a.h->p)) fail("different types");
            husks.push_back(std::move(a.h->p));
            a.h->p = std::move(x);
            still();
            a.h->obs_check();
            ++moved;
            reads_before += rows > 0;
            break;
        }
        case 4: { // a moved-from parser is given a new one and used to the end
            if (husks.empty()) break;
            Slot b = open("n" + std::to_string(i) + ".csv", &a);
            b.h->begin("reuse of a moved-from parser");
            auto x = std::move(husks.back());
            husks.pop_back();
            if (!x->move_assign(*b.h->p)) fail("different types");
            b.h->p = std::move(x);
            b.h->obs_check();
            while (!b.h->m.eof()) ops::step(t, *b.h, m, b.names);
            break;
        }
        }
    }
    ops::drain(t, *a.h, 1);
}

// a parser moved onto itself can be read on (only its header and its name are unspecified), reassigned and destroyed
static void onto_itself(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names);
    SutSource src{g.file, doc};
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    auto a = open_sut(g, src), b = open_sut(g, src);
    if (t.chance(1, 3)) {
        std::vector<std::string> sel{names.empty() ? "x" : t.pick(names)};
        if (a->has_header()) {
            a->use_fields(sel, 0);
            b->use_fields(sel, 0);
        }
    }
    auto shapes = ops::shapes_of(*a);
    int beyond = 0;
    bool moved = false;
    for (int n = 0; n < 20 && beyond < 2; ++n) {
        std::string at = "step " + std::to_string(n) + ": ";
        if (b->obs().eof) ++beyond;
        if (t.chance(1, 4)) {
            if (c.notes()) c.note("  " + at + "moved onto itself");
            a->move_assign(*a);
            moved = true;
        } else if (t.chance(1, 6)) {
            a->ignore_next();
            b->ignore_next();
            if (c.notes()) c.note("  " + at + "ignore_next");
        } else {
            int s = t.pick(shapes);
            Res x = a->get(s), y = b->get(s);
            if (c.notes()) c.note("  " + at + shape_name(s) + " " + show(y.threw() ? y.what : y.val));
            if (x.exc != y.exc || (b->obs().valid && x.val != y.val)) fail(at + "gave " + show(x.val) + show(x.what) + ", without the moves " + show(y.val) + show(y.what));
            if (a->obs().valid != b->obs().valid) fail(at + "valid() is wrong");
            if (moved && !y.threw() && b->obs().valid) c.nontrivial = true;
        }
        if (a->obs().eof != b->obs().eof || a->obs().line != b->obs().line || a->obs().pos != b->obs().pos) fail(at + "eof(), line() or position() is wrong");
    }
    if (t.chance(1, 3)) {
        // as the target and as the source of a move
        bool into = t.chance(1, 2);
        if (!(into ? a : b)->move_assign(into ? *b : *a)) fail("different types");
        (into ? b : a).reset();
    }
}

const std::vector<Family> families = {{"moves", 8, moves}, {"onto itself", 1, onto_itself}};
