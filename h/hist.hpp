// Runs a history of operations on a parser and on the model, and compares what
// the property under test speaks about.
#pragma once
#include "engine.hpp"
#include "gen.hpp"
#include "iface.hpp"
#include "setups_model.hpp"
#include "track.hpp"
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>

struct Checks {
    bool values = true;   // values and acceptance
    bool defaults = true; // default values on failure
    bool msgs = true;     // exact error texts
    bool pos = true;      // line() and position()
    bool eof = true;
};

inline const std::vector<model::Col>& shape_cols(int shape) {
    using model::Col;
    static const std::vector<std::vector<Col>> v = {
        {Col::str},
        {Col::str, Col::str},
        {Col::str, Col::str, Col::str},
        {Col::str, Col::str, Col::str, Col::str},
        {Col::view, Col::view},
        {Col::integer, Col::str},
        {Col::str, Col::skip, Col::str},
        {Col::opt_int, Col::str},
        {Col::var_int_str, Col::str},
        {Col::integer},
        {Col::integer, Col::str},
        {Col::integer, Col::str},
        {Col::integer, Col::str},
        {Col::str, Col::skip, Col::str},
        {Col::nonempty, Col::integer},
        {Col::str, Col::str, Col::str},
        {Col::str, Col::str, Col::str, Col::str, Col::str},
        {Col::chr, Col::range},
        {Col::opt_bool, Col::var_cbs},
    };
    return v[static_cast<size_t>(shape)];
}
inline const char* shape_name(int s) {
    static const char* const n[] = {"string", "string,string", "string x3", "string x4", "string_view x2", "int,string", "string,void,string", "optional<int>,string", "variant<int,string>,string", "int", "tuple<int,string>", "tied{int,string}", "object{int,string}", "object from tuple<string,void,string>", "ne<string>,int", "vector<string> from 3", "string x5", "char,ir<int,-9,99>", "optional<bool>,variant<char,bool,string>", "string,bomb"};
    return n[s];
}
inline std::string default_of(int shape) {
    // a vector object is built from the default constructed strings
    return model::default_val(shape_cols(shape));
}

extern std::string hist_scratch;

// bytes in pages that may only be read, next to pages that may not be touched
struct Guarded {
    char* base = nullptr;
    size_t total = 0;
    char* data = nullptr;
    // at_end: the last byte is the last of its page, otherwise the first is the first
    Guarded(const char* d, size_t n, bool at_end) {
        size_t pg = static_cast<size_t>(sysconf(_SC_PAGESIZE));
        size_t pages = (n + pg - 1) / pg;
        if (pages == 0) pages = 1;
        total = (pages + 2) * pg;
        base = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED) { perror("mmap"); _Exit(2); }
        data = at_end ? base + (pages + 1) * pg - n : base + pg;
        if (n) memcpy(data, d, n);
        mprotect(base, pg, PROT_NONE);
        mprotect(base + pg, pages * pg, PROT_READ);
        mprotect(base + (pages + 1) * pg, pg, PROT_NONE);
    }
    Guarded(const Guarded&) = delete;
    ~Guarded() { munmap(base, total); }
};

struct SutSource {
    bool file = false;
    std::string path, doc;
    std::unique_ptr<char[]> buf; // exactly as long as the document
    std::unique_ptr<Guarded> guard;
    int pipe_end = -1;
    const char* ext = nullptr;
    // guarded: 1 at the end, 2 at the start of a page, 3 always at the same place (buffers only)
    SutSource(bool f, const std::string& d, const std::string& name = "in.csv", int guarded = 0) : file{f}, doc{d} {
        if (!file && guarded == 3) {
            static char place[8192];
            if (d.size() <= sizeof place) {
                memcpy(place, d.data(), d.size());
                ext = place;
                return;
            }
            guarded = 0;
        }
        if (!file && guarded) {
            guard = std::make_unique<Guarded>(d.data(), d.size(), guarded == 1);
            return;
        }
        if (file && name == "|" && d.size() <= 60000) {
            // a file that cannot be sought
            int fd[2];
            if (pipe2(fd, O_CLOEXEC) != 0 || write(fd[1], d.data(), d.size()) != static_cast<ssize_t>(d.size())) {
                perror("pipe");
                _Exit(2);
            }
            close(fd[1]);
            pipe_end = fd[0];
            path = "/dev/fd/" + std::to_string(pipe_end);
        } else if (file) {
            path = hist_scratch + "/" + (name == "|" ? "in.csv" : name);
            FILE* o = fopen(path.c_str(), "wb");
            if (!o || fwrite(d.data(), 1, d.size(), o) != d.size() || fclose(o) != 0) {
                perror(path.c_str());
                _Exit(2);
            }
        } else {
            buf.reset(new char[d.size()]);
            memcpy(buf.get(), d.data(), d.size());
        }
    }
    ~SutSource() {
        if (pipe_end >= 0) close(pipe_end);
    }
    SutSource(const SutSource&) = delete;
    Source src() const {
        Source s;
        if (file) s.path = path;
        else { s.data = ext ? ext : guard ? guard->data : buf.get(); s.size = doc.size(); }
        return s;
    }
    std::string name() const { return file ? path : "CSV data buffer"; }
    bool unchanged() const {
        if (pipe_end >= 0) return true;
        if (!file) return memcmp(guard ? guard->data : buf.get(), doc.data(), doc.size()) == 0;
        std::ifstream f(path, std::ios::binary);
        return std::string{std::istreambuf_iterator<char>(f), {}} == doc;
    }
};

struct Target {
    int setup = 0, mode = 0, variant = 0;
    bool file = false;
    std::string delim = ",";
    bool dflt = false; // use the default delimiter argument
    int as = -1;       // the registered setup, if it differs from the modelled one
    int entry() const { return as >= 0 ? as : setup; }
    const model::Cfg& cfg() const { return setup_cfgs()[static_cast<size_t>(setup)]; }
    std::string str() const {
        return "setup " + std::to_string(entry()) + " [" + cfg().name + "] " + mode_name(mode) + " " + variant_name(variant) + (file ? " file" : " buffer") + " delimiter " + show(delim) + (dflt ? " (default)" : "");
    }
};

inline std::unique_ptr<IParser> open_sut(const Target& t, const SutSource& s, Res* res = nullptr) {
    auto* e = Registry::get().find(t.entry(), t.mode, t.variant);
    if (!e) { fprintf(stderr, "setup %d mode %d variant %d not built\n", t.setup, t.mode, t.variant); _Exit(2); }
    Res r;
    auto p = e->parser(s.src(), t.delim, t.dflt, r);
    if (res) *res = r;
    else if (r.threw()) fail("constructor threw: " + r.what);
    return p;
}

// the pairs (setup, mode, variant) built into this binary, restricted by a predicate
template <typename P>
std::vector<Registry::Entry> built(P&& pred) {
    std::vector<Registry::Entry> r;
    for (auto& e : Registry::get().entries) if (pred(e)) r.push_back(e);
    std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return std::tie(a.variant, a.setup, a.mode) < std::tie(b.variant, b.setup, b.mode); });
    return r;
}
inline const std::vector<Registry::Entry>& built_all() {
    static const auto v = built([](auto& e) { return e.setup < 100 && e.variant != v_portable; });
    return v;
}

inline Target pick_target(Tape& t, const std::vector<Registry::Entry>& es) {
    // three out of four on the separate headers, if both builds are present
    Target g;
    size_t n = 0;
    while (n < es.size() && es[n].variant == 0) ++n;
    const Registry::Entry* e;
    if (n > 0 && n < es.size() && t.chance(1, 4)) e = &es[n + t.below(static_cast<uint32_t>(es.size() - n))];
    else if (n > 0) e = &es[t.below(static_cast<uint32_t>(n))];
    else e = &es[t.below(static_cast<uint32_t>(es.size()))];
    g.setup = e->setup;
    g.mode = e->mode;
    g.variant = e->variant;
    g.file = t.chance(1, 2);
    g.delim = gen::delim(t, g.cfg());
    g.dflt = g.delim == "," && t.chance(1, 4);
    return g;
}

class Hist {
public:
    Ctx& c;
    Target t;
    std::shared_ptr<SutSource> src_holder;
    SutSource& src;
    model::Parser m;
    std::unique_ptr<IParser> p;
    Checks ck;
    size_t steps = 0, fails = 0, oks = 0, multis = 0, chains = 0, chain_fallbacks = 0;
    std::string step_name;

    Hist(Ctx& ctx, const Target& tg, const std::string& doc, const Checks& k = {}, const std::string& fname = "in.csv", std::shared_ptr<SutSource> shared = nullptr)
        : c{ctx}, t{tg}, src_holder{shared ? shared : std::make_shared<SutSource>(tg.file, doc, fname)}, src{*src_holder}, m{doc, tg.cfg(), tg.delim, src.name()}, ck{k} {
        if (c.notes()) {
            c.note(t.str());
            c.note("document " + show(doc));
        }
        c.h(doc);
        c.h(static_cast<uint64_t>(t.setup * 100 + t.mode * 10 + t.variant * 3 + t.file));
        c.h(t.delim);
        p = open_sut(t, src);
        step_name = "construct";
        obs_check(true);
    }

    [[noreturn]] void bad(const std::string& what) { fail("after step " + std::to_string(steps) + " (" + step_name + "): " + what); }

    void begin(const std::string& n) {
        ++steps;
        step_name = n;
        c.h(n);
        if (c.notes()) c.note("  " + std::to_string(steps) + ". " + n);
    }

    void obs_check(bool valid_matters = true) {
        Obs o = p->obs();
        if (ck.eof && o.eof != m.eof()) bad(std::string("eof() is ") + (o.eof ? "true" : "false") + ", expected " + (m.eof() ? "true" : "false"));
        if (ck.pos) {
            if (o.line != m.line()) bad("line() is " + std::to_string(o.line) + ", expected " + std::to_string(m.line()));
            if (o.pos != m.position()) bad("position() is " + std::to_string(o.pos) + ", expected " + std::to_string(m.position()));
        }
        if (valid_matters && ck.values) {
            bool want = t.mode == m_throw || m.valid();
            if (o.valid != want) bad(std::string("valid() is ") + (o.valid ? "true" : "false") + ", expected " + (want ? "true" : "false") + (o.err.empty() ? "" : " [" + o.err + "]"));
        }
        if (t.mode == m_string && valid_matters && ck.msgs) {
            if (m.valid() ? !o.err.empty() : (m.error_exact() && o.err != m.error()))
                bad("error_msg() is " + show(o.err) + ", expected " + show(m.valid() ? "" : m.error()));
        }
    }

    // compares the result of an operation that is expected to succeed or not
    void res_check(const Res& r, bool ok, const std::string& val, const std::string& dflt, const std::string& msg, bool exact) {
        if (r.exc != Exc::none && r.exc != Exc::ss) bad("threw something else than ss::exception: " + r.what);
        if (t.mode == m_throw) {
            if (r.threw() == ok) bad(ok ? "threw " + show(r.what) + ", expected values " + show(val) : "did not throw, returned " + show(r.val) + ", expected failure " + show(msg));
            if (!ok && ck.msgs && exact && r.what != msg) bad("threw " + show(r.what) + ", expected " + show(msg));
        } else if (r.threw()) {
            bad("threw " + show(r.what));
        }
        if (ok && ck.values && r.val != val) bad("returned " + show(r.val) + ", expected " + show(val));
        if (!ok && ck.defaults && t.mode != m_throw && r.val != dflt) bad("failed (as expected) but returned " + show(r.val) + " instead of default values");
    }

    model::Parser::Step get(int shape) {
        if (c.notes()) begin(std::string("get_next<") + shape_name(shape) + ">");
        else begin(shape_name(shape));
        auto s = m.get(shape_cols(shape));
        Res r = p->get(shape);
        if (c.notes()) c.note("       -> " + (s.ok ? show(s.val) : "error " + show(s.msg)));
        res_check(r, s.ok, s.val, default_of(shape), s.msg, s.msg_exact);
        obs_check();
        (s.ok ? oks : fails)++;
        multis += s.framed_multi;
        return s;
    }

    void ignore() {
        begin("ignore_next");
        bool want = m.ignore_next();
        bool got = p->ignore_next();
        if (got != want && ck.eof) bad(std::string("returned ") + (got ? "true" : "false"));
        obs_check(false);
    }

    void header() {
        begin("header");
        auto q = m.header();
        Res r = p->header();
        res_check(r, q.ok, q.val, "", q.msg, q.msg_exact);
        obs_check();
    }
    void raw_header() {
        begin("raw_header");
        Res r = p->raw_header();
        if (r.threw() || r.val != m.raw_header()) bad("returned " + show(r.val) + ", expected " + show(m.raw_header()));
        obs_check();
    }
    bool field_exists(const std::string& f) {
        begin("field_exists " + (c.notes() ? show(f) : f));
        auto q = m.field_exists(f);
        Res r = p->field_exists(f);
        res_check(r, q.ok, q.val, "0", q.msg, q.msg_exact);
        obs_check();
        return q.ok;
    }
    bool use_fields(const std::vector<std::string>& fs, int form) {
        std::string n = "use_fields";
        for (auto& f : fs) n += " " + (c.notes() ? show(f) : f);
        begin(n);
        auto q = m.use_fields(fs);
        Res r = p->use_fields(fs, form);
        res_check(r, q.ok, "", "", q.msg, q.msg_exact);
        obs_check();
        return q.ok;
    }

    // one chain of substitute conversions; see the adapter for the kinds
    void chain(int kind, unsigned bits) {
        using model::Col;
        begin("chain " + std::to_string(kind) + " results " + std::to_string(bits));
        struct Alt {
            std::vector<Col> cols;
            int cb = 0;        // 0: none, 1: no result, 2: result
            bool noargs = false;
            bool on_err = false;
            bool chr = false;  // a single char
            int gte = 0;       // 1: first >= 5, 2: first < 0
        };
        static const Col I = Col::integer, S = Col::str, V = Col::skip, N = Col::nonempty;
        static const std::vector<std::vector<Alt>> kinds = {
            {{{I, I}}, {{I, S}}, {{S, S, S}}},
            {{{I, I}, 1}, {{I, S}, 1}, {{S, S, S}, 1}},
            {{{I, I}, 2}, {{I, S}, 2}, {{S, S}, 2}},
            {{{I}, 2}, {{S}, 2, false, false, true}, {{S}, 2}},
            {{{I, S}, 2}, {{S, S}, 2}, {{S}, 1}},
            {{{I, I}, 2, true, true}, {{I, S}, 1, true, true}, {{S}, 2, true, true}},
            {{{I, V, S}, 2}, {{I, S}, 2}, {{S, V, S}, 2}},
            {{{I, S}, 2, false, false, false, 1}, {{I, N}, 2, false, false, false, 2}, {{I, S}, 2}},
            {{{I, S}, 2, false, true}, {{S, S}, 2, false, true}},
            {{{Col::view, Col::view}, 2}, {{S, S}, 2}, {{I, S}, 2}},
            {{{I, S}, 2}, {{S, S}, 2}, {{S}, 2}},
            {{{S, S}, 2}, {{I, S}, 2}, {{S, S, S}}, {{S}, 2}},
            {{{I, S}, 2}, {{S, S}, 2}, {{S}, 2}},
            {{{I, I}, 2, false, true}, {{I, S}, 2, false, true}, {{S, S, S}, 2}, {{S}, 2}, {{S, S}, 2}},
        };
        const auto& alts = kinds[static_cast<size_t>(kind)];
        ChainOut got;
        bool skip_throw = t.mode == m_throw;
        if (skip_throw) fail("chains do not exist with exceptions");
        const bool starts_at_eof = m.eof();
        std::vector<std::string> want_vals, want_calls;
        std::vector<bool> call_exact;
        bool done = false;
        for (size_t i = 0; i < alts.size(); ++i) {
            const auto& a = alts[i];
            std::string val = "none";
            bool exact_err = true;
            if (i == 0 || !done) {
                auto s = i == 0 ? m.get(a.cols) : m.again(a.cols);
                if (i == 0) multis += s.framed_multi;
                bool ok = s.ok;
                std::string v = s.val;
                if (ok && a.chr) {
                    const auto& f = m.fields();
                    size_t k = m.mapping().empty() ? 0 : m.mapping()[0];
                    ok = f[k].size() == 1;
                    v = "c" + f[k] + "|";
                    if (!ok) m.force_error(false);
                }
                if (ok && a.gte) {
                    const auto& f = m.fields();
                    size_t k = m.mapping().empty() ? 0 : m.mapping()[0];
                    long x = *model::as_int(f[k]);
                    ok = a.gte == 1 ? x >= 5 : x < 0;
                    if (!ok) m.force_error(false);
                }
                if (ok) {
                    if (a.cb) {
                        want_calls.push_back(std::to_string(i) + "(" + (a.noargs ? "" : v) + ")");
                        call_exact.push_back(true);
                    }
                    if (a.cb == 2 && ((bits >> i) & 1)) {
                        m.failed_check();
                        ok = false;
                    }
                }
                if (ok) {
                    done = true;
                    val = v;
                }
                exact_err = m.error_exact();
            }
            want_vals.push_back(val);
            if (a.on_err && !done) {
                std::string arg = kind == 8 && t.mode == m_string ? m.error() : "";
                want_calls.push_back(std::to_string(10 + i) + "(" + arg + ")");
                call_exact.push_back(arg.empty() ? kind != 8 || t.mode != m_string : exact_err);
            }
        }
        Res r = p->chain(kind, bits, got);
        if (r.threw()) bad("the chain threw " + show(r.what));
        auto list = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += show(x) + " "; return s; };
        if (got.values != want_vals) bad("the alternatives hold " + list(got.values) + ", expected " + list(want_vals));
        bool same = got.calls.size() == want_calls.size();
        for (size_t i = 0; same && i < want_calls.size(); ++i) {
            if (call_exact[i] && ck.msgs) same = got.calls[i] == want_calls[i];
            else same = got.calls[i].substr(0, got.calls[i].find('(')) == want_calls[i].substr(0, want_calls[i].find('('));
            if (call_exact[i] && !ck.msgs && want_calls[i][0] != '1') same = got.calls[i] == want_calls[i];
        }
        if (!same) bad("the callbacks were " + list(got.calls) + ", expected " + list(want_calls));
        if (c.notes()) c.note("       -> " + list(want_vals) + " calls " + list(want_calls));
        (void)starts_at_eof;
        (done ? oks : fails)++;
        if (done) m.clear();
        ++chains;
        if (!done || want_vals[0] == "none") ++chain_fallbacks;
        obs_check();
    }

    // iterates at most max rows; returns the number delivered
    size_t iterate(int shape, size_t max, int style) {
        begin(std::string("iterate<") + shape_name(shape) + "> max " + std::to_string(max) + " style " + std::to_string(style));
        size_t n = 0;
        bool threw_expected = false;
        std::string want_msg;
        bool want_exact = true;
        // the model runs ahead by one row: an iteration reads a row before it is seen
        auto next_row = [&]() -> std::optional<model::Parser::Step> {
            if (m.eof()) return std::nullopt;
            auto s = m.get(shape_cols(shape));
            (s.ok ? oks : fails)++;
            multis += s.framed_multi;
            return s;
        };
        std::optional<model::Parser::Step> cur;
        size_t delivered = 0;
        Res r = p->iterate(shape, max, [&](const IterRow& row) {
            cur = next_row();
            if (!cur) bad("iteration delivered a row beyond the end");
            if (t.mode == m_throw && !cur->ok) bad("iteration delivered a row that should have failed with " + show(cur->msg));
            if (ck.values && row.obs.valid != (t.mode == m_throw || cur->ok)) bad("iteration: valid() wrong for row " + std::to_string(delivered));
            if (cur->ok && ck.values && row.val != cur->val) bad("iteration delivered " + show(row.val) + ", expected " + show(cur->val));
            if (!cur->ok && ck.defaults && row.val != default_of(shape)) bad("iteration delivered " + show(row.val) + " for a failed row");
            if (ck.msgs && t.mode == m_string && cur->msg_exact && row.obs.err != cur->msg) bad("iteration: error " + show(row.obs.err) + ", expected " + show(cur->msg));
            if (ck.eof && row.obs.eof != m.eof()) bad("iteration: eof() wrong");
            if (ck.pos && (row.obs.line != m.line() || row.obs.pos != m.position())) bad("iteration: line() or position() wrong");
            ++delivered;
            ++n;
        }, style);
        if (r.exc != Exc::none && r.exc != Exc::ss) bad("iteration threw something else than ss::exception: " + r.what);
        if (r.threw()) {
            if (t.mode != m_throw) bad("iteration threw " + show(r.what));
            cur = next_row();
            if (!cur) bad("iteration threw at the end: " + show(r.what));
            if (cur->ok) bad("iteration threw " + show(r.what) + ", expected values " + show(cur->val));
            if (ck.msgs && cur->msg_exact && r.what != cur->msg) bad("iteration threw " + show(r.what) + ", expected " + show(cur->msg));
        } else if (r.flag) {
            if (!m.eof()) bad("iteration ended early, after " + std::to_string(n) + " rows");
        } else if (n != max) {
            bad("iteration delivered " + std::to_string(n) + " rows, expected " + std::to_string(max));
        }
        (void)threw_expected; (void)want_msg; (void)want_exact;
        obs_check(n > 0 || r.threw());
        return n;
    }
};
