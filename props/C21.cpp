#include "fault.hpp"
#include "ops.hpp"
#include <cerrno>
#include <set>
#include <sys/stat.h>
const char* const prop_id = "C21";
const bool prop_check_leaks = true;
const char* const prop_rule =
    "a case is a document, a setup and a short history; it is run once without faults and then once for every allocation k made inside of the library (and the "
    "C library below it), with the k-th, or all from the k-th, failing; up to the fault every result equals the one of the run without faults, the operation "
    "with the fault throws std::bad_alloc (or its result is unaffected), afterwards the parser delivers rows from the end of the document or none, gives the same header, and can be used and destroyed without memory errors, leaked blocks or "
    "descriptors; stale values of errno change nothing; or a source that cannot be read for another reason, where no std::bad_alloc may come; non-trivial: at least four allocations of two "
    "operations failed in turn, or an operation on a directory";

namespace {
int free_fd() {
    int fd = dup(2);
    close(fd);
    return fd;
}

struct Op {
    int kind = 0, a = 0, form = 0;
    unsigned bits = 0;
    std::string name;
    std::vector<std::string> sel;
    std::string str() const {
        switch (kind) {
        case 0: return std::string("get_next<") + shape_name(a) + ">";
        case 1: return "ignore_next";
        case 2: return "header";
        case 3: return "raw_header";
        case 4: return "field_exists " + show(name);
        case 5: { std::string r = "use_fields"; for (auto& s : sel) r += " " + show(s); return r; }
        case 6: return std::string("iterate<") + shape_name(a) + "> max " + std::to_string(form);
        default: return "chain " + std::to_string(a) + " bits " + std::to_string(bits);
        }
    }
};

// the result of an operation as text; kind of exception apart
struct Step {
    Exc exc = Exc::none;
    std::string text;
};

std::string obs_text(const IParser& p) {
    Obs o = p.obs();
    return " valid=" + std::to_string(o.valid) + " eof=" + std::to_string(o.eof) + " line=" + std::to_string(o.line) + " pos=" + std::to_string(o.pos) + " error=" + o.err;
}

bool not_opened(const Obs& o) { return !o.valid && o.eof && (o.err.empty() || o.err.find("could not be opened") != std::string::npos); }

Step apply(IParser& p, const Op& op) {
    Step s;
    Res r;
    std::string more;
    try {
        switch (op.kind) {
        case 0: r = p.get(op.a); break;
        case 1: r.flag = p.ignore_next(); break;
        case 2: r = p.header(); break;
        case 3: r = p.raw_header(); break;
        case 4: r = p.field_exists(op.name); break;
        case 5: r = p.use_fields(op.sel, op.form); break;
        case 6: r = p.iterate(op.a, static_cast<size_t>(op.form), [&](const IterRow& row) { more += row.val + "#" + std::to_string(row.obs.valid) + std::to_string(row.obs.eof) + row.obs.err + "#"; }, 0); break;
        default: {
            ChainOut o;
            r = p.chain(op.a, op.bits, o);
            for (auto& v : o.values) more += v + "#";
            for (auto& v : o.calls) more += v + "#";
        }
        }
    } catch (const std::bad_alloc&) {
        r.exc = Exc::bad_alloc;
    }
    s.exc = r.exc;
    s.text = (r.threw() ? "threw " + r.what : r.val) + " " + std::to_string(r.flag) + " " + more + obs_text(p);
    return s;
}

std::vector<std::string> drain(IParser& p, int shape, size_t limit) {
    std::vector<std::string> r;
    Op o;
    o.a = shape;
    while (!p.obs().eof && r.size() <= limit + 2) {
        Step s = apply(p, o);
        r.push_back((s.exc == Exc::none ? "" : s.exc == Exc::ss ? "exception " : "OTHER ") + s.text);
    }
    return r;
}

bool suffix(const std::vector<std::string>& a, const std::vector<std::string>& of) { return a.size() <= of.size() && std::equal(a.rbegin(), a.rend(), of.rbegin()); }
} // namespace

static void faults(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    std::vector<std::string> names;
    std::string doc = ops::some_doc(t, g.cfg(), g.delim, &names, 4);
    SutSource src{g.file, doc, "in.csv"};
    if (c.notes()) {
        c.note(g.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(g.setup * 10 + g.mode * 3 + g.file));
    std::vector<Op> hist;
    std::vector<Step> want;
    std::vector<long> allocs; // made until the end of the i-th operation, construction first
    const bool hd = !g.cfg().ign_header;
    auto* e = Registry::get().find(g.setup, g.mode, g.variant);
    long total = 0;
    {
        fault_arm(0, false);
        Res r;
        auto p = e->parser(src.src(), g.delim, g.dflt, r);
        if (r.threw()) fail("construction threw " + r.what);
        allocs.push_back(fault_count());
        want.push_back({Exc::none, obs_text(*p)});
        model::Parser m{doc, g.cfg(), g.delim, src.name()};
        int n = t.range(1, 6);
        auto shapes = ops::shapes_of(*p);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.kind = static_cast<int>(t.weighted({10, 1, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, 1, g.mode == m_throw ? 0u : 2u}));
            switch (o.kind) {
            case 0: {
                o.a = t.pick(shapes);
                size_t k = m.mapping().empty() ? ops::next_columns(m) : m.mapping().size();
                std::vector<int> fit;
                for (int z : shapes) if (shape_cols(z).size() == k) fit.push_back(z);
                if (!fit.empty() && !t.chance(1, 5)) o.a = t.pick(fit);
                m.get(shape_cols(o.a));
                break;
            }
            case 1: m.ignore_next(); break;
            case 4: o.name = ops::some_name(t, names); break;
            case 5: o.sel = ops::selection(t, names); o.form = static_cast<int>(t.below(3)); m.use_fields(o.sel); break;
            case 6: o.a = t.chance(1, 2) ? sh_s2 : sh_is; o.form = t.range(1, 3); for (int k = 0; k < o.form; ++k) m.get(shape_cols(o.a)); break;
            case 7: o.a = static_cast<int>(t.below(chain_kinds)); o.bits = t.below(16); m.get(shape_cols(sh_s1)); break;
            }
            if (c.notes()) c.note("  " + o.str());
            c.h(o.str());
            hist.push_back(o);
            want.push_back(apply(*p, o));
            if (want.back().exc == Exc::bad_alloc || want.back().exc == Exc::other) fail(o.str() + " threw without a fault");
            allocs.push_back(fault_count());
        }
        total = fault_count();
    }
    if (track_live()) fail("blocks leaked without a fault");
    int fd = free_fd();

    // stale values of errno
    {
        static const int vals[] = {ENOMEM, EINTR, ERANGE, EINVAL};
        int v = vals[t.below(4)];
        Res r;
        errno = v;
        auto p = e->parser(src.src(), g.delim, g.dflt, r);
        if (r.threw()) fail("construction threw " + r.what + " with errno " + std::to_string(v));
        if (obs_text(*p) != want[0].text) fail("errno " + std::to_string(v) + " changes the construction");
        for (size_t i = 0; i < hist.size(); ++i) {
            errno = v;
            Step s = apply(*p, hist[i]);
            if (s.exc != want[i + 1].exc || s.text != want[i + 1].text) fail("errno " + std::to_string(v) + " changes " + hist[i].str() + " to " + show(s.text) + " from " + show(want[i + 1].text));
        }
    }

    // the rows left after each operation, and the header
    const int row = sh_s1 + static_cast<int>(std::min<size_t>(std::max<size_t>(names.size(), 1), 4)) - 1;
    std::vector<std::vector<std::string>> after;
    for (size_t n = 0; n <= hist.size(); ++n) {
        Res r;
        auto p = e->parser(src.src(), g.delim, g.dflt, r);
        for (size_t i = 0; i < n; ++i) apply(*p, hist[i]);
        after.push_back(drain(*p, row, doc.size()));
    }
    std::string head;
    std::vector<Op> asked;
    std::vector<Res> exists;
    if (hd) {
        Res r;
        auto p = e->parser(src.src(), g.delim, g.dflt, r);
        head = p->header().val;
        for (size_t j = 0; j < names.size() && j < 2; ++j) {
            asked.push_back({});
            asked.back().kind = 4;
            asked.back().name = names[j ? names.size() - 1 : 0];
            exists.push_back(p->field_exists(asked.back().name));
        }
    }

    bool persist = t.chance(1, 3);
    if (c.notes()) c.note(std::to_string(total) + " allocations, " + (persist ? "all from the k-th fail" : "the k-th fails"));
    std::set<size_t> ops_hit;
    long surfaced = 0;
    for (long k = 1; k <= total && k <= 400; ++k) {
        std::string at = "allocation " + std::to_string(k) + " of " + std::to_string(total) + " failing" + (persist ? " with all later ones" : "");
        fault_arm(k, persist);
        {
            Res r;
            std::unique_ptr<IParser> p = e->parser(src.src(), g.delim, g.dflt, r);
            bool faulted = fault_hits() > 0;
            if (faulted != (allocs[0] >= k)) fail(at + ": not reproducible");
            if (r.exc == Exc::bad_alloc) {
                if (!faulted) fail(at + ": bad_alloc without a fault");
                ops_hit.insert(0);
                ++surfaced;
            } else if (!p && faulted && g.file && r.what.find("could not be opened") != std::string::npos) {
                ops_hit.insert(0);
                ++surfaced;
            } else if (!p) {
                fail(at + ": construction threw " + r.what);
            } else if (faulted && g.file && not_opened(p->obs())) {
                // the C library could not open the file
                p.reset();
                ops_hit.insert(0);
                ++surfaced;
            } else if (obs_text(*p) != want[0].text) {
                fail(at + ": construction ended with" + obs_text(*p) + ", without the fault" + want[0].text);
            }
            if (p) {
                size_t i = 0;
                bool raised = false;
                for (; i < hist.size() && !raised; ++i) {
                    Step s = apply(*p, hist[i]);
                    bool hit = fault_hits() > 0;
                    if (s.exc == Exc::bad_alloc) {
                        if (!hit) fail(at + ": bad_alloc from " + hist[i].str() + " without a fault");
                        raised = true;
                        ops_hit.insert(i + 1);
                        ++surfaced;
                    } else if (s.exc != want[i + 1].exc || s.text != want[i + 1].text) {
                        fail(at + ": " + hist[i].str() + " gave " + show(s.text) + ", without the fault " + show(want[i + 1].text));
                    }
                }
                if (raised && k % 2) {
                    // what is read later are rows of the document, or nothing
                    fault_arm(0, false);
                    auto rest = drain(*p, row, doc.size());
                    if (!suffix(rest, after[i - 1]) && !suffix(rest, after[i]))
                        fail(at + ": " + hist[i - 1].str() + " threw std::bad_alloc, then " + show(rest.empty() ? "" : rest[0]) + " was read as the first of " + std::to_string(rest.size()) +
                             " rows which are not the last rows of the document");
                    if (hd) {
                        if (p->header().val != head) fail(at + ": another header after std::bad_alloc from " + hist[i - 1].str());
                        for (size_t j = 0; j < asked.size(); ++j) {
                            Res r2 = p->field_exists(asked[j].name);
                            if (r2.exc != exists[j].exc || r2.val != exists[j].val || r2.what != exists[j].what)
                                fail(at + ": another answer to " + asked[j].str() + " after std::bad_alloc from " + hist[i - 1].str());
                        }
                    }
                } else {
                    // it may still be used, in any way, and ends without damage
                    for (size_t j = i; j < hist.size() + 3; ++j) apply(*p, j < hist.size() ? hist[j] : hist[j % hist.size()]);
                }
                fault_arm(0, false);
                if (k % 3 == 0) p = p->move_construct();
            }
        }
        fault_arm(0, false);
        if (size_t n = track_live()) fail(at + ": " + std::to_string(n) + " blocks leaked");
        if (free_fd() != fd) fail(at + ": a file descriptor leaked");
    }
    if (surfaced >= 4 && ops_hit.size() >= 2) c.nontrivial = true;
    c.label(surfaced == total ? "every fault surfaced" : "some faults had no effect");
}

// std::bad_alloc comes from failed allocations only, not from other failures to read
static void other_failures(Tape& t, Ctx& c) {
    Target g = pick_target(t, built_all());
    auto* e = Registry::get().find(g.setup, g.mode, g.variant);
    Source s;
    bool dir = t.chance(3, 4);
    s.path = hist_scratch + (dir ? "/directory" : "/missing.csv");
    if (dir) mkdir(s.path.c_str(), 0700);
    static const int vals[] = {0, ENOMEM, EINTR, ERANGE, EIO};
    int v = vals[t.below(5)];
    if (c.notes()) c.note(g.str() + ", " + (dir ? "the file is a directory" : "no such file") + ", errno " + std::to_string(v));
    c.h(g.str());
    c.h(static_cast<uint64_t>(v * 2 + dir));
    fault_arm(0, false);
    Res r;
    errno = v;
    std::unique_ptr<IParser> p;
    try {
        p = e->parser(s, g.delim, g.dflt, r);
    } catch (const std::bad_alloc&) {
        r.exc = Exc::bad_alloc;
    }
    if (r.exc == Exc::bad_alloc) fail("construction threw std::bad_alloc without a failed allocation");
    if (!p) {
        if (dir || g.mode != m_throw) fail("construction threw " + r.what);
        return;
    }
    if (!p->obs().eof) fail("eof() is false");
    const bool hd = !g.cfg().ign_header;
    for (int n = t.range(1, 5); n > 0; --n) {
        Op o;
        o.kind = static_cast<int>(t.weighted({4, 1, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, 1, g.mode == m_throw ? 0u : 2u}));
        auto shapes = ops::shapes_of(*p);
        o.a = o.kind == 0 ? t.pick(shapes) : o.kind == 6 ? sh_s2 : static_cast<int>(t.below(chain_kinds));
        o.form = o.kind == 5 ? static_cast<int>(t.below(3)) : 1;
        o.bits = t.below(16);
        o.name = "id";
        o.sel = {"id"};
        c.h(o.str());
        errno = v;
        Step q = apply(*p, o);
        if (c.notes()) c.note("  " + o.str() + ": " + q.text);
        if (q.exc == Exc::bad_alloc || q.exc == Exc::other) fail(o.str() + " threw std::bad_alloc without a failed allocation");
        if (o.kind == 0 && q.exc == Exc::none && p->obs().valid) fail(o.str() + " returned a row");
        if (o.kind == 6 && q.text.find('#') != std::string::npos) fail(o.str() + " delivered a row");
        if (!p->obs().eof) fail("eof() is false");
        c.nontrivial = dir;
    }
}

const std::vector<Family> families = {{"faults", 12, faults}, {"other failures", 1, other_failures}};
