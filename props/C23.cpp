#include "ops.hpp"
#include <thread>
const char* const prop_id = "C23";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is two to four parsers (same or different setups, same or different input, also the same buffer or file), or parsers and converters, or parsers one after the other on the same storage, whose "
    "operations are interleaved in a generated order, or run in parallel threads (some made or destroyed in another one) under ThreadSanitizer; each result is compared with the reference model "
    "of that parser alone; non-trivial: at least two instances read rows";

#ifdef __has_feature
#if __has_feature(thread_sanitizer)
#define TSAN_BUILD 1
#endif
#endif

namespace {
std::vector<Target> targets(Tape& t) {
    std::vector<Target> r;
    int n = t.range(2, 4);
    Target first = pick_target(t, built_all());
    r.push_back(first);
    for (int i = 1; i < n; ++i) {
        Target x = first;
        if (t.chance(1, 2)) {
            x = pick_target(t, built_all());
        } else if (t.chance(1, 2)) {
            x.delim = gen::delim(t, x.cfg());
            x.dflt = false;
        }
        if (t.chance(1, 3)) x.file = !x.file;
        r.push_back(x);
    }
    return r;
}
} // namespace

static void interleaved(Tape& t, Ctx& c) {
    auto ts = targets(t);
    std::vector<std::unique_ptr<Hist>> hs;
    std::vector<std::vector<std::string>> names(ts.size());
    std::shared_ptr<SutSource> shared;
    for (size_t i = 0; i < ts.size(); ++i) {
        bool same = i > 0 && ts[i].setup == ts[0].setup && t.chance(1, ts[i].delim == ts[0].delim ? 2 : 8);
        std::string doc;
        std::shared_ptr<SutSource> s;
        if (same) {
            names[i] = names[0];
            doc = hs[0]->src.doc;
            if (ts[i].file == ts[0].file) s = hs[0]->src_holder;
        } else {
            doc = ops::some_doc(t, ts[i].cfg(), ts[i].delim, &names[i]);
        }
        hs.push_back(std::make_unique<Hist>(c, ts[i], doc, Checks{}, "in" + std::to_string(i) + ".csv", s));
    }
    ops::Mix m;
    m.iterate = 1;
    int n = t.range(2, 30);
    for (int i = 0; i < n; ++i) {
        size_t k = t.below(static_cast<uint32_t>(hs.size()));
        if (c.notes()) c.note(" parser " + std::to_string(k));
        ops::Mix mm = m;
        mm.chain = hs[k]->t.mode == m_throw ? 0 : 1;
        ops::step(t, *hs[k], mm, names[k]);
        for (auto& h : hs) h->obs_check(h->steps > 0 && h->step_name != "ignore_next" && h->step_name != "raw_header");
    }
    int reading = 0;
    for (auto& h : hs) reading += h->oks + h->fails + h->chains > 0;
    c.nontrivial = reading >= 2;
}

// one after the other, all on the same storage or file name with another content
static void reused(Tape& t, Ctx& c) {
    auto ts = targets(t);
    if (t.chance(1, 2)) for (size_t i = 0, n = ts.size(); i < n; ++i) ts.push_back(Target{ts[i]});
    ops::Mix m;
    m.iterate = 1;
    int reading = 0;
    for (size_t i = 0; i < ts.size(); ++i) {
        std::vector<std::string> names;
        std::string doc = ops::some_doc(t, ts[i].cfg(), ts[i].delim, &names);
        auto s = std::make_shared<SutSource>(ts[i].file, doc, "in.csv", ts[i].file ? 0 : 3);
        Hist h{c, ts[i], doc, Checks{}, "in.csv", s};
        m.chain = ts[i].mode == m_throw ? 0 : 1;
        for (int n = t.range(1, 6); n > 0; --n) ops::step(t, h, m, names);
        reading += h.oks + h.fails + h.chains > 0;
    }
    c.nontrivial = reading >= 2;
}

static void converters(Tape& t, Ctx& c) {
    static const auto es = built([](auto& e) { return e.converter != nullptr && e.variant != v_portable; });
    std::vector<Target> ts;
    std::vector<std::unique_ptr<IConverter>> cs;
    struct State {
        bool any = false;
        model::Split want;
        std::unique_ptr<char[]> line;
        std::string all;
    };
    std::vector<State> st(static_cast<size_t>(t.range(2, 4)));
    Target first = pick_target(t, es);
    for (size_t i = 0; i < st.size(); ++i) {
        ts.push_back(i && t.chance(1, 3) ? pick_target(t, es) : first);
        if (i && t.chance(1, 2)) {
            ts[i].delim = gen::delim(t, ts[i].cfg());
            ts[i].dflt = false;
        }
        cs.push_back(Registry::get().find(ts[i].setup, ts[i].mode, ts[i].variant)->converter());
        if (c.notes()) c.note("converter " + std::to_string(i) + ": " + ts[i].str());
    }
    for (int n = t.range(2, 16); n > 0; --n) {
        size_t k = t.below(static_cast<uint32_t>(cs.size()));
        auto& s = st[k];
        const auto& cfg = ts[k].cfg();
        if (!s.any || t.chance(1, 2)) {
            gen::DocOpt o;
            o.newlines = false;
            std::string l = t.chance(2, 3) ? gen::good_row(t, cfg, ts[k].delim, 0, o, "\n").text : gen::soup(t, cfg, ts[k].delim, 10);
            if (l.empty()) l = "a";
            c.h(l);
            if (c.notes()) c.note("  " + std::to_string(k) + " splits " + show(l));
            s.line.reset(new char[l.size() + 1]);
            memcpy(s.line.get(), l.c_str(), l.size() + 1);
            s.want = model::split_row(l, cfg.single(), ts[k].delim);
            s.all.clear();
            for (auto& f : s.want.f) s.all += model::enc_str(f);
            Res r = cs[k]->split(s.line.get(), ts[k].delim, false);
            s.any = s.want.ok();
            if (s.want.ok() && (r.threw() || r.val != s.all)) fail("converter " + std::to_string(k) + " split into " + show(r.val) + r.what + ", expected " + show(s.all));
        } else {
            size_t f = s.want.f.size();
            int shape = t.range(0, 3);
            if (f <= 4 && !t.chance(1, 4)) shape = static_cast<int>(f) - 1;
            Res r = cs[k]->convert_split(shape, t.chance(1, 2));
            bool ok = !r.threw() && cs[k]->valid();
            bool want = static_cast<size_t>(shape) + 1 == f;
            if (c.notes()) c.note("  " + std::to_string(k) + " converts to " + std::to_string(shape + 1) + " strings");
            if (ok != want) fail("converter " + std::to_string(k) + (ok ? " accepted" : " rejected") + " its line for " + std::to_string(shape + 1) + " columns of " + std::to_string(f));
            if (ok && r.val != s.all) fail("converter " + std::to_string(k) + " returned " + show(r.val) + ", expected " + show(s.all));
            c.nontrivial = true;
        }
    }
}

static void threads(Tape& t, Ctx& c) {
    auto ts = targets(t);
    struct Job {
        Target t;
        std::string doc;
        std::shared_ptr<SutSource> shared;
        std::vector<std::pair<int, int>> ops; // kind, shape
        std::string sel;
        std::string error;
        int handed = 0; // made here; destroyed here (2)
        Ctx own;
        std::unique_ptr<Hist> h;
    };
    std::vector<Job> jobs;
    for (size_t i = 0; i < ts.size(); ++i) {
        Job j;
        j.t = ts[i];
        bool same = i > 0 && ts[i].setup == ts[0].setup && ts[i].delim == ts[0].delim && t.chance(2, 3);
        std::vector<std::string> names;
        j.doc = same ? jobs[0].doc : ops::some_doc(t, ts[i].cfg(), ts[i].delim, &names, 10, false);
        if (same && ts[i].file == ts[0].file) j.shared = jobs[0].shared;
        else j.shared = std::make_shared<SutSource>(ts[i].file, j.doc, "t" + std::to_string(i) + ".csv");
        j.sel = names.empty() ? "id" : names[0];
        for (int n = t.range(2, 12); n > 0; --n) j.ops.push_back({static_cast<int>(t.weighted({10, 1, 1, 1, 1, 1})), t.range(0, 5)});
        if (t.chance(1, 3)) j.handed = t.range(1, 2);
        jobs.push_back(std::move(j));
    }
    if (c.notes())
        for (auto& j : jobs) c.note("thread: " + j.t.str() + " document " + show(j.doc) + " operations " + std::to_string(j.ops.size()));
    for (auto& j : jobs) { c.h(j.doc); c.h(static_cast<uint64_t>(j.t.setup)); for (auto& o : j.ops) c.h(static_cast<uint64_t>(o.first * 100 + o.second)); }
    for (auto& j : jobs) {
        if (!j.handed) continue;
        j.h = std::make_unique<Hist>(j.own, j.t, j.doc, Checks{}, "", j.shared);
        j.h->get(j.ops[0].second);
    }
    std::vector<std::thread> th;
    for (auto& j : jobs) {
        th.emplace_back([&j] {
            try {
                auto hist = std::move(j.h);
                if (!hist) hist = std::make_unique<Hist>(j.own, j.t, j.doc, Checks{}, "", j.shared);
                Hist& h = *hist;
                for (auto& [k, s] : j.ops) {
                    bool hd = h.p->has_header();
                    if (k == 0) h.get(s);
                    else if (k == 1) h.ignore();
                    else if (k == 2 && hd) h.header();
                    else if (k == 3 && hd) h.field_exists(j.sel);
                    else if (k == 4 && hd) { if (!h.m.eof() || h.field_exists(j.sel)) h.use_fields({j.sel}, 0); }
                    else if (k == 5 && h.t.mode != m_throw) h.chain(s, 2);
                    else h.get(s);
                }
                if (j.handed == 2) j.h = std::move(hist);
            } catch (const Fail& f) {
                j.error = f.msg;
            }
        });
    }
    for (auto& x : th) x.join();
    for (size_t i = 0; i < jobs.size(); ++i) if (!jobs[i].error.empty()) fail("thread " + std::to_string(i) + ": " + jobs[i].error);
    c.nontrivial = true;
}

#ifdef TSAN_BUILD
const std::vector<Family> families = {{"threads", 1, threads}};
#else
const std::vector<Family> families = {{"interleaved", 6, interleaved}, {"reused", 1, reused}, {"converters", 2, converters}, {"threads", 2, threads}};
#endif
