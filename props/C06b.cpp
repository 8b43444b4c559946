// Offsets which do not fit into 31 or 32 bits: sparse inputs of more than 2 or
// 4 GB, with a few rows around those borders.
#include "ops.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
const char* const prop_id = "C06";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is a sparse input of more than 2 or 4 GB (a mapping or a file, long lines of NUL with rows in between, several of them around the borders of 2 "
    "and 4 GB), read to its end by skipping and reading; line(), position(), eof() and the values of the rows are compared after every operation; every case "
    "is non-trivial";

namespace {
struct Line {
    size_t at, size;  // without the line end
    std::string text; // empty: NUL
};
struct Far {
    std::vector<Line> lines;
    size_t size = 0;
    bool last_eol = true;
};
Far layout(Tape& t) {
    Far f;
    size_t border = t.chance(1, 3) ? size_t{1} << 32 : size_t{1} << 31;
    auto row = [&] {
        std::string s = std::to_string(t.below(100000)) + ",row at " + std::to_string(f.size);
        f.lines.push_back({f.size, s.size(), s});
        f.size += s.size() + 1;
    };
    auto gap = [&](size_t n) {
        f.lines.push_back({f.size, n, ""});
        f.size += n + 1;
    };
    row();
    while (f.size < border) {
        size_t left = border - f.size;
        // short of the border, so that it falls into a row, on its line end or between two
        if (left < (size_t{64} << 20)) {
            size_t n = static_cast<size_t>(t.range(1, 60));
            if (left > n + 1) gap(left - n);
            while (f.size < border) row();
            break;
        }
        gap((static_cast<size_t>(t.range(1, 40)) << 20) + t.below(1000));
        for (int n = t.range(0, 2); n > 0; --n) row();
    }
    for (int n = t.range(1, 4); n > 0; --n) row();
    f.last_eol = t.chance(1, 2);
    if (!f.last_eol) --f.size;
    return f;
}
struct Sparse {
    char* p = nullptr;
    size_t n = 0;
    std::string path;
    Sparse(const Far& f, bool file) : n{f.size} {
        if (file) {
            path = hist_scratch + "/far.csv";
            int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
            if (fd < 0 || ftruncate(fd, static_cast<off_t>(n)) != 0) { perror(path.c_str()); _Exit(2); }
            for (auto& l : f.lines) {
                std::string s = l.text + (l.at + l.size < n ? "\n" : "");
                if (pwrite(fd, s.data(), s.size(), static_cast<off_t>(l.at + l.size - l.text.size())) != static_cast<ssize_t>(s.size())) { perror(path.c_str()); _Exit(2); }
            }
            close(fd);
            return;
        }
        void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _Exit(2); }
        p = static_cast<char*>(m);
        for (auto& l : f.lines) {
            memcpy(p + l.at, l.text.data(), l.text.size());
            if (l.at + l.size < n) p[l.at + l.size] = '\n';
        }
        mprotect(m, n, PROT_READ);
    }
    ~Sparse() {
        if (p) munmap(p, n);
        if (!path.empty()) unlink(path.c_str());
    }
    Sparse(const Sparse&) = delete;
};
} // namespace

static void far(Tape& t, Ctx& c) {
    const auto& es = Registry::get().entries;
    const auto& e = es[t.below(es.size())];
    bool file = t.chance(1, 2);
    Far f = layout(t);
    c.h(f.size);
    c.h(static_cast<uint64_t>(e.setup * 10 + e.mode * 2 + file));
    if (c.notes()) c.note(std::string(file ? "file" : "buffer") + " of " + std::to_string(f.size) + " bytes in " + std::to_string(f.lines.size()) + " lines, setup " + std::to_string(e.setup) + " " + mode_name(e.mode));
    Sparse s{f, file};
    Source src;
    if (file) src.path = s.path;
    else { src.data = s.p; src.size = s.n; }
    Res res;
    auto p = e.parser(src, ",", false, res);
    if (res.threw() || !p) fail("construction threw " + res.what);
    bool ih = setup_cfgs()[static_cast<size_t>(e.setup)].ign_header;
    size_t k = ih ? 1 : 0;
    auto check = [&](const std::string& op) {
        Obs o = p->obs();
        size_t pos = k < f.lines.size() ? f.lines[k].at : f.size;
        if (o.pos != pos) fail("after " + op + ": position() is " + std::to_string(o.pos) + ", not " + std::to_string(pos));
        if (o.line != k) fail("after " + op + ": line() is " + std::to_string(o.line) + ", not " + std::to_string(k));
        if (o.eof != (k == f.lines.size())) fail("after " + op + ": eof() is " + (o.eof ? "true" : "false"));
    };
    check("construction");
    while (k < f.lines.size()) {
        const Line& l = f.lines[k];
        ++k;
        std::string at = "row at " + std::to_string(l.at);
        if (t.chance(1, l.text.empty() ? 2 : 6)) {
            if (p->ignore_next() != (k < f.lines.size())) fail("wrong result of ignore_next() for the " + at);
            check("skipping the " + at);
            continue;
        }
        int shape = l.text.empty() ? sh_s1 : sh_s2;
        Res r = p->get(shape);
        Obs o = p->obs();
        if (r.threw() || !o.valid) fail(at + " is not read: " + r.what + o.err);
        // the same row on its own
        if (!l.text.empty()) {
            Source one;
            one.data = l.text.data();
            one.size = l.text.size();
            static const auto* plain = Registry::get().find(0, m_plain, v_headers);
            Res q;
            auto w = plain->parser(one, ",", false, q);
            Res want = w->get(shape);
            if (r.val != want.val) fail(at + " is read as " + show(r.val));
        }
        check("reading the " + at);
    }
    if (p->ignore_next()) fail("ignore_next() is true at the end");
    check("skipping at the end");
    c.nontrivial = true;
    c.label(file ? "file" : "buffer");
    if (f.size > (size_t{1} << 32)) c.label("beyond 4 GB");
}

const std::vector<Family> families = {{"far", 1, far}};
