#include "ops.hpp"
const char* const prop_id = "C15";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document (also empty, without final line end, ending in empty lines or an unterminated row) and a history that mixes all ways of reading "
    "until eof() and beyond, compared with the reference model: which row each operation delivers, eof() after it, and what is reported beyond the end; "
    "non-trivial: at least two rows and two different ways of reading";

static void delivery(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names, t.chance(1, 12) ? 60 : 7);
    Checks k;
    k.defaults = k.msgs = k.pos = false;
    Hist h{c, g, doc, k};
    ops::Mix m;
    m.get = 10;
    m.ignore = 2;
    m.iterate = 4;
    m.chain = g.mode == m_throw ? 0 : 2;
    m.header = m.raw = m.exists = 0;
    m.use = 1;
    m.valid_use = true;
    std::string ways;
    while (!h.m.eof()) {
        ops::step(t, h, m, names);
        char w = h.step_name[0];
        if (ways.find(w) == std::string::npos) ways += w;
    }
    size_t rows = h.oks + h.fails;
    if (!h.p->obs().eof) h.bad("eof() is false at the end");
    // beyond the end
    Obs at_end = h.p->obs();
    m.use = 0;
    for (int i = t.range(1, 3); i > 0; --i) {
        auto s = h.oks;
        ops::step(t, h, m, names);
        (void)s;
        Obs o = h.p->obs();
        if (!o.eof || o.line != at_end.line || o.pos != at_end.pos) h.bad("an operation at the end changed eof(), line() or position()");
    }
    // the error is the one of the end of the file
    auto shapes = ops::shapes_of(*h.p);
    Res r = h.p->get(t.pick(shapes));
    std::string e = g.mode == m_throw ? r.what : h.p->obs().err;
    if (g.mode == m_throw && r.exc != Exc::ss) h.bad("reading at the end did not throw");
    if (g.mode != m_throw && h.p->obs().valid) h.bad("valid() is true after reading at the end");
    if (g.mode != m_plain && e != h.src.name() + ": read on end of file") h.bad("reading at the end reported " + show(e));
    c.nontrivial = rows >= 2 && ways.size() >= 2;
    if (rows == 0) c.label("no rows");
}

const std::vector<Family> families = {{"delivery", 1, delivery}};
