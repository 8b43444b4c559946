#include "ops.hpp"
const char* const prop_id = "C24";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a sequence of lines, some at the same address and with another delimiter, given to one converter, which is copied and moved in between, each through a generated entry point (line, split result, cached split, columns of another converter or of the caller, object) and several "
    "requests; each result is compared with a fresh converter, with a parser of the one-line document and with the reference model; non-trivial: a "
    "converter reused for a second line, with an invalid line or failed conversion before an accepted one";

static const std::vector<Registry::Entry>& convs() {
    static const auto v = built([](auto& e) { return e.converter != nullptr && e.variant != v_portable && !setup_cfgs()[static_cast<size_t>(e.setup)].ign_header; });
    return v;
}

namespace {
struct Out {
    bool ok = false;
    std::string val, err;
};
Out outcome(const Res& r, IConverter& c) {
    Out o;
    if (r.exc != Exc::none && r.exc != Exc::ss) fail("other exception: " + r.what);
    if (c.mode() == m_throw) {
        o.ok = !r.threw();
        o.err = r.what;
    } else {
        if (r.threw()) fail("threw " + r.what);
        o.ok = c.valid();
        o.err = c.error();
    }
    if (!r.threw()) o.val = r.val;
    return o;
}
std::string text(const Out& o) { return o.ok ? "values " + show(o.val) : "failure " + show(o.err); }
} // namespace

static void entry_points(Tape& t, Ctx& c) {
    Target g = pick_target(t, convs());
    const auto& cfg = g.cfg();
    auto* e = Registry::get().find(g.setup, g.mode, g.variant);
    auto conv = e->converter();
    if (c.notes()) c.note("converter, " + g.str());
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode));
    bool had_bad = false, own_bad = false;
    int n = t.range(1, 6);
    std::vector<std::unique_ptr<char[]>> keep;
    auto copy = [&](const std::string& s) {
        keep.emplace_back(new char[s.size() + 1]);
        memcpy(keep.back().get(), s.c_str(), s.size() + 1);
        return keep.back().get();
    };
    // lines read into one place, like those of a stream
    std::unique_ptr<char[]> spot{new char[4096]};
    auto place = [&](const std::string& s) {
        if (s.size() + 1 > 4096 || t.chance(1, 2)) return copy(s);
        memcpy(spot.get(), s.c_str(), s.size() + 1);
        return spot.get();
    };
    auto moved = [&] {
        int how = t.range(0, 3);
        static const char* const names[] = {"copy assigned", "move assigned", "copy constructed", "move constructed"};
        if (c.notes()) c.note(std::string("  converter ") + names[how]);
        conv = conv->clone(how);
    };
    static const std::vector<int> shapes = {sh_s1, sh_s2, sh_s3, sh_s4, sh_v2, sh_is, sh_svs, sh_os, sh_vs, sh_i1, sh_tup_is, sh_tied_is, sh_obj_is, sh_obj_sv, sh_ne2, sh_sss_vec, sh_cr, sh_bv};
    for (int i = 0; i < n; ++i) {
        if (i > 0 && t.chance(1, 4)) {
            g.delim = gen::delim(t, cfg);
            g.dflt = g.delim == "," && t.chance(1, 2);
            if (c.notes()) c.note("  delimiter " + show(g.delim));
        }
        gen::DocOpt o;
        o.newlines = false;
        o.ints = true;
        std::string s;
        switch (t.weighted({8, 5, 1})) {
        case 0: s = gen::good_row(t, cfg.single(), g.delim, 0, o, "\n").text; break;
        case 1: s = gen::soup(t, cfg, g.delim, 10); break;
        case 2: s = ""; break;
        }
        c.h(s);
        if (t.chance(1, 8)) moved();
        auto want_split = model::split_row(s, cfg.single(), g.delim);
        if (s.empty()) want_split.f.clear();
        int form = static_cast<int>(t.weighted({3, 3, 3, 2}));
        // a converter that has seen a malformed line itself keeps to that
        if (form == 3 && (own_bad || !want_split.ok())) form = 0;
        if (c.notes()) c.note("  line " + show(s) + (form == 0 ? " directly" : form == 1 ? " by split and its result" : form == 2 ? " by split and the cache" : " as columns of its own"));
        bool split_threw = false;
        std::vector<std::pair<const char*, const char*>> cols;
        std::unique_ptr<IConverter> other;
        bool caller = false;
        if (form == 3) {
            // split by another converter, or by the caller
            caller = t.chance(1, 2);
            if (caller && !want_split.f.empty() && t.chance(1, 3)) {
                auto& f = want_split.f[t.below(static_cast<uint32_t>(want_split.f.size()))];
                f.insert(t.below(static_cast<uint32_t>(f.size() + 1)), 1, t.chance(1, 2) ? '\0' : '\n');
            }
            if (caller && t.chance(1, 6)) want_split.f.resize(want_split.f.size() + 1);
            if (c.notes()) for (auto& f : want_split.f) c.note("    column " + show(f));
            for (auto& f : want_split.f) {
                keep.emplace_back(new char[f.size() + 1]);
                char* p = keep.back().get();
                memcpy(p, f.data(), f.size());
                p[f.size()] = t.pickc("0x,\"");
                cols.emplace_back(p, p + f.size());
            }
            if (!caller) {
                other = e->converter();
                static_cast<void>(other->split(copy(s), g.delim, g.dflt));
                cols = other->ranges();
            }
        }
        if (form == 1 || form == 2) {
            Res r = conv->split(place(s), g.delim, g.dflt);
            if (r.exc != Exc::none && r.exc != Exc::ss) fail("split threw something else: " + r.what);
            split_threw = r.threw();
            if (split_threw && (want_split.ok() || g.mode != m_throw)) fail("split threw " + r.what);
            if (want_split.ok()) {
                std::string all;
                for (auto& f : want_split.f) all += model::enc_str(f);
                if (r.val != all) fail("split returned " + show(r.val) + ", expected " + show(all));
            }
        }
        if (form == 2 && !split_threw && t.chance(1, 6)) moved();
        int reqs = t.range(1, 3);
        for (int q = 0; q < reqs && !split_threw; ++q) {
            std::vector<int> fit;
            for (int x : shapes) if (shape_cols(x).size() == want_split.f.size()) fit.push_back(x);
            int shape = !fit.empty() && !t.chance(1, 5) ? t.pick(fit) : t.pick(shapes);
            Res r;
            if (form == 3) r = conv->convert_columns(shape, cols);
            else if (form == 0) r = conv->convert(shape, place(s), g.delim, g.dflt);
            else r = conv->convert_split(shape, form == 2);
            Out got = outcome(r, *conv);
            c.h(static_cast<uint64_t>(shape));
            if (c.notes()) c.note(std::string("     to ") + shape_name(shape) + ": " + text(got));
            // a fresh converter, directly
            auto fresh = e->converter();
            Out one = outcome(caller ? fresh->convert_columns(shape, cols) : fresh->convert(shape, copy(s), g.delim, g.dflt), *fresh);
            auto differ = [&](const Out& a, const Out& b) { return a.ok != b.ok || (a.ok && a.val != b.val) || a.err != b.err; };
            if (differ(got, one)) fail("the converter gave " + text(got) + ", a fresh one " + text(one));
            // the model
            Out m;
            if (!want_split.ok()) {
                m.err = model::err_text(want_split);
            } else {
                auto k = model::convert(want_split.f, shape_cols(shape), {}, 0);
                m.ok = k.ok;
                m.val = k.val;
                m.err = k.reason;
            }
            if (g.mode == m_plain) m.err = "";
            if (g.mode == m_throw) m.err = m.err.c_str(); // as what() ends at a NUL
            if (differ(got, m)) fail("the converter gave " + text(got) + ", expected " + text(m));
            // a parser of this line only; it takes an empty line as one empty column, and joins
            // nothing as there is no further line
            if (!caller && !s.empty() && s.find('\r') == std::string::npos && s.find('\n') == std::string::npos) {
                SutSource src{g.file, s + (t.chance(1, 2) ? "\n" : ""), "one.csv"};
                auto p = open_sut(g, src);
                Res pr = p->get(shape);
                Out po;
                if (g.mode == m_throw) { po.ok = !pr.threw(); po.err = pr.what; }
                else { po.ok = p->obs().valid; po.err = p->obs().err; }
                po.val = pr.val;
                std::string prefix = src.name() + " 1: ";
                if (po.err.rfind(prefix, 0) == 0) po.err = po.err.substr(prefix.size());
                // a malformed line may have several faults
                if (!want_split.ok()) po.err = got.err;
                if (differ(got, po)) fail("the converter gave " + text(got) + ", a parser of the line " + text(po));
            }
            if (!got.ok) had_bad = true;
            else if (had_bad && i > 0) c.nontrivial = true;
        }
        if (split_threw) had_bad = true;
        if (form != 3) own_bad = !want_split.ok();
    }
}

const std::vector<Family> families = {{"entry points", 1, entry_points}};
