#include "ops.hpp"
const char* const prop_id = "C18";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a document and a history in which string views and split columns are kept while queries, status calls and substitute conversions run; buffers "
    "lie in read-only pages that end (or begin) next to an inaccessible page and have no terminator, files are compared with what was written; lines of "
    "converters without quotes and escapes lie in read-only pages; non-trivial: at least one view was checked after another operation, or the input has "
    "three or more rows";

namespace {
struct Held {
    std::vector<std::string_view> v;
    std::vector<std::string> want;
    void take(const std::vector<std::string_view>& x) {
        v = x;
        want.clear();
        for (auto& y : v) want.emplace_back(y);
    }
    void check(const std::string& when) {
        for (size_t i = 0; i < v.size(); ++i)
            if (std::string{v[i]} != want[i]) fail("after " + when + ": a string view of the row changed from " + show(want[i]) + " to " + show(std::string{v[i]}));
    }
};
} // namespace

static void views(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    const auto& cfg = g.cfg();
    std::vector<std::string> names;
    std::string doc;
    if (t.chance(1, 2)) {
        doc = ops::some_doc(t, cfg, g.delim, &names);
    } else {
        // two columns throughout
        gen::DocOpt o;
        o.cols = 2;
        o.ints = true;
        o.w_soup = 0;
        auto h = ops::header(t, cfg, g.delim, 2);
        names = h.names;
        doc = h.text + "\n" + gen::document(t, cfg, g.delim, o);
    }
    auto src = std::make_shared<SutSource>(g.file, doc, "in.csv", t.range(1, 2));
    Checks k;
    k.values = true;
    k.defaults = k.msgs = k.pos = k.eof = false;
    Hist h{c, g, doc, k, "in.csv", src};
    int checked = 0;
    for (int i = 0; i < 12 && !h.m.eof(); ++i) {
        size_t n = h.m.mapping().empty() ? ops::next_columns(h.m) : h.m.mapping().size();
        Held held;
        bool have = false;
        if (n == 2 && !t.chance(1, 5)) {
            if (g.mode != m_throw && t.chance(1, 3)) {
                // the views are taken inside of the chain, further conversions follow
                auto before = h.m.valid();
                (void)before;
                model::Parser copy = h.m;
                auto s = copy.get({model::Col::view, model::Col::view});
                h.chain(9, t.below(8));
                if (s.ok) {
                    held.v = h.p->views();
                    held.want = copy.fields();
                    if (!copy.mapping().empty()) {
                        auto f = copy.fields();
                        held.want = {f[copy.mapping()[0]], f[copy.mapping()[1]]};
                    }
                    have = true;
                }
            } else {
                auto s = h.get(sh_v2);
                if (s.ok) {
                    held.take(h.p->views());
                    auto f = h.m.fields();
                    held.want = h.m.mapping().empty() ? f : std::vector<std::string>{f[h.m.mapping()[0]], f[h.m.mapping()[1]]};
                    have = true;
                }
            }
        } else {
            h.get(ops::fitting_shape(t, h));
        }
        if (have) held.check(h.step_name);
        for (int q = t.range(0, 4); q > 0; --q) {
            if (!h.p->has_header()) { h.obs_check(false); break; }
            switch (t.below(4)) {
            case 0: h.header(); break;
            case 1: h.raw_header(); break;
            case 2: h.field_exists(ops::some_name(t, names)); break;
            case 3: h.obs_check(false); break;
            }
            if (have) { held.check(h.step_name); ++checked; }
        }
        if (t.chance(1, 8)) ops::use(t, h, names, false);
    }
    if (!src->unchanged()) fail("the input was modified");
    c.nontrivial = checked > 0 || h.m.lines().size() >= 3;
}

static const std::vector<Registry::Entry>& convs() {
    static const auto v = built([](auto& e) { return e.converter != nullptr; });
    return v;
}

static void lines(Tape& t, Ctx& c) {
    Target g = pick_target(t, convs());
    const auto& cfg = g.cfg();
    bool ro = !cfg.has_q() && !cfg.has_e();
    auto conv = Registry::get().find(g.setup, g.mode, g.variant)->converter();
    if (c.notes()) c.note("converter, " + g.str() + (ro ? " read-only line" : ""));
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    int n = t.range(1, 4);
    for (int i = 0; i < n; ++i) {
        std::string s;
        if (t.chance(2, 3)) {
            gen::DocOpt o;
            o.newlines = false;
            s = gen::good_row(t, cfg, g.delim, 0, o, "\n").text;
        } else {
            s = gen::soup(t, cfg, g.delim, 12);
        }
        c.h(s);
        if (c.notes()) c.note("  split " + show(s));
        Guarded gd{s.c_str(), s.size() + 1, t.chance(1, 2)};
        std::unique_ptr<char[]> own{new char[s.size() + 1]};
        memcpy(own.get(), s.c_str(), s.size() + 1);
        char* line = ro ? gd.data : own.get();
        Res r = conv->split(line, g.delim, g.dflt);
        auto want = model::split_row(s, cfg.single(), g.delim);
        if (!want.ok() || s.empty()) continue;
        std::string cols = conv->columns();
        if (cols != r.val) fail("the split columns changed right away");
        for (int q = t.range(0, 3); q > 0; --q) {
            int shape = t.pick(std::vector<int>{sh_s1, sh_s2, sh_s3, sh_s4, sh_v2, sh_is, sh_os, sh_vs});
            conv->convert_split(shape, t.chance(1, 2));
            std::string now = conv->columns();
            if (now != cols) fail(std::string("after converting to ") + shape_name(shape) + " the split columns changed from " + show(cols) + " to " + show(now));
            if (want.f.size() >= 2) c.nontrivial = true;
        }
        if (ro && memcmp(gd.data, s.c_str(), s.size() + 1) != 0) fail("the line was modified");
    }
}

const std::vector<Family> families = {{"views", 4, views}, {"lines", 1, lines}};
