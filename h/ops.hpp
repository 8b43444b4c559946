// Generators of whole documents with headers and of operation histories.
#pragma once
#include "hist.hpp"
#include <algorithm>

namespace ops {
using model::Cfg;

inline std::vector<int> shapes_of(IParser& p) {
    std::vector<int> r;
    for (int s = 0; s < sh_count; ++s) if (p.can(s)) r.push_back(s);
    return r;
}

// number of columns of the row that is read next (0: no row or malformed)
inline size_t next_columns(model::Parser& m) {
    if (m.eof()) return 0;
    auto f = model::frame_row(m.lines(), m.index(), m.cfg, m.d);
    return f.s.ok() ? f.s.f.size() : 0;
}

// a request which fits the next row three times out of four
inline int fitting_shape(Tape& t, Hist& h, bool plain = false) {
    size_t n = h.m.mapping().empty() ? next_columns(h.m) : h.m.mapping().size();
    std::vector<int> all = shapes_of(*h.p), fit;
    if (plain) all = {sh_s1, sh_s2, sh_s3, sh_s4};
    for (int s : all) if (shape_cols(s).size() == n) fit.push_back(s);
    if (!fit.empty() && !t.chance(1, 5)) return t.pick(fit);
    return t.pick(all);
}

// distinct names, encoded as a header line
struct Header {
    std::vector<std::string> names;
    std::string text;
};

inline std::string name(Tape& t, const Cfg& c, const std::string& d, bool longs = true) {
    static const std::vector<std::string> pool = {"id", "name", "x", "Id", "a b", "", "n1", "col", "value", "idx"};
    std::string n = t.chance(2, 3) ? t.pick(pool) : gen::value(t, c, d, {false, longs, 24});
    return gen::fit(c.single(), d, n);
}

inline Header header(Tape& t, const Cfg& c, const std::string& d, int cols, bool longs = true) {
    Header h;
    for (int tries = 0; static_cast<int>(h.names.size()) < cols && tries < 30; ++tries) {
        auto n = name(t, c, d, longs);
        if (std::find(h.names.begin(), h.names.end(), n) == h.names.end()) h.names.push_back(n);
    }
    for (int k = 0; static_cast<int>(h.names.size()) < cols; ++k) {
        // letters only, and nothing that would need to be changed
        std::string n;
        for (int q = k; q > 0 || n.empty(); q /= 20) n += "cdeghjklmnopqstuvwyz"[q % 20];
        if (gen::fit(c.single(), d, n) == n && std::find(h.names.begin(), h.names.end(), n) == h.names.end()) h.names.push_back(n);
    }
    // an empty line is not a header if empty lines are ignored
    if (cols == 1 && h.names[0].empty()) h.names[0] = "h";
    for (int k = 0; k < cols; ++k) {
        if (k) h.text += d;
        h.text += gen::field(t, c.single(), d, h.names[static_cast<size_t>(k)]);
    }
    return h;
}

struct Doc {
    std::vector<std::string> names; // of a well formed header, if there is one
    std::string text;
};

// header and rows; most rows have as many columns as the header
inline Doc document(Tape& t, const Cfg& c, const std::string& d, int max_rows = 6, bool longs = true) {
    Doc r;
    int cols = static_cast<int>(t.weighted({2, 4, 4, 3})) + 1;
    if (t.chance(1, 80)) cols = t.chance(1, 6) ? t.range(250, 300) : t.range(5, 40);
    if (cols > 8) longs = false;
    std::string eol = t.chance(1, 3) ? "\r\n" : "\n";
    if (c.ign_empty) for (int k = t.range(0, 5) - 3; k > 0; --k) r.text += eol;
    auto h = header(t, c, d, cols, longs);
    r.names = h.names;
    r.text += h.text;
    int rows = t.range(0, max_rows);
    gen::DocOpt o;
    o.cols = cols;
    o.ints = true;
    o.longs = longs;
    int many_at = t.chance(1, 200) ? static_cast<int>(t.below(static_cast<uint32_t>(rows + 1))) : -1;
    o.huge = true;
    for (int i = 0; i < rows; ++i) {
        r.text += eol;
        if (i == many_at) {
            r.text += gen::many_rows(t, c, d, o, eol, r.text);
            if (r.text.size() >= eol.size() && !t.chance(1, 4)) r.text.resize(r.text.size() - eol.size());
            continue;
        }
        if (t.chance(1, 10)) eol = eol == "\n" ? "\r\n" : "\n";
        switch (t.weighted({10, 2, 2, 1})) {
        case 0: r.text += gen::good_row(t, c, d, cols, o, eol).text; break;
        case 1: r.text += gen::good_row(t, c, d, 0, o, eol).text; break;
        case 2: r.text += gen::soup(t, c, d, 8); break;
        case 3: break;
        }
    }
    if (!t.chance(1, 3)) r.text += eol;
    return r;
}

inline std::string some_doc(Tape& t, const Cfg& c, const std::string& d, std::vector<std::string>* names = nullptr, int max_rows = 6, bool longs = true) {
    if (t.chance(1, 2)) {
        auto x = document(t, c, d, max_rows, longs);
        if (names) *names = x.names;
        return x.text;
    }
    gen::DocOpt o;
    o.max_rows = max_rows;
    o.longs = longs;
    o.ints = t.chance(1, 2);
    if (t.chance(1, 2)) o.cols = t.range(1, 4);
    return gen::document(t, c, d, o);
}

// names for a selection: mostly existing, distinct ones
inline std::vector<std::string> selection(Tape& t, const std::vector<std::string>& names, bool valid_only = false) {
    std::vector<std::string> pool = names, r;
    size_t n = names.empty() ? 0 : t.below(static_cast<uint32_t>(names.size())) + 1;
    if (n > 4 && !t.chance(1, 10)) n = t.below(4) + 1;
    for (size_t i = 0; i < n && !pool.empty(); ++i) {
        size_t k = t.below(static_cast<uint32_t>(pool.size()));
        r.push_back(pool[k]);
        pool.erase(pool.begin() + static_cast<long>(k));
    }
    if (!valid_only && t.chance(1, 4)) {
        switch (t.weighted({3, 2, 1})) {
        case 0: r.insert(r.begin() + static_cast<long>(t.below(static_cast<uint32_t>(r.size() + 1))), t.chance(1, 2) ? "unknown" : " id"); break;
        case 1: if (!r.empty()) r.push_back(r[t.below(static_cast<uint32_t>(r.size()))]); break;
        case 2: r.clear(); break;
        }
    }
    if (valid_only && r.empty() && !names.empty()) r.push_back(names[0]);
    return r;
}

struct Mix {
    unsigned get = 10, ignore = 1, header = 1, raw = 1, exists = 1, use = 1, iterate = 0, chain = 0;
    bool valid_use = false;
};

inline void use(Tape& t, Hist& h, const std::vector<std::string>& names, bool valid_only) {
    if (!h.p->has_header()) return;
    auto sel = selection(t, names, valid_only);
    if (h.m.eof()) {
        // at the end of the input the header must have been looked at before
        auto q = h.field_exists("id");
        if (!q) return;
    }
    h.use_fields(sel, static_cast<int>(t.below(3)));
}

inline std::string some_name(Tape& t, const std::vector<std::string>& names) {
    if (!names.empty() && t.chance(3, 4)) return t.pick(names);
    static const std::vector<std::string> other = {"unknown", "id", "", " id", "ID"};
    return t.pick(other);
}

// one operation
inline void step(Tape& t, Hist& h, const Mix& m, const std::vector<std::string>& names) {
    bool hd = h.p->has_header();
    // in long documents: on to a row in the middle, often one about a multiple of 256 lines
    size_t at = h.m.index(), left = h.m.lines().size() - std::min(at, h.m.lines().size());
    if (left > 60 && t.chance(1, 3)) {
        size_t k = t.below(static_cast<uint32_t>(left));
        if (t.chance(2, 3)) k = 254 - at % 256 + t.below(5);
        if (t.chance(1, 6) && at + k < 65534 && left > 65536) k = 65534 - at % 65536 + t.below(5);
        int s = fitting_shape(t, h);
        while (k > 0 && !h.m.eof()) {
            size_t before = h.m.index();
            if (m.get) h.get(s);
            else h.ignore();
            k -= std::min(k, h.m.index() - before);
        }
        return;
    }
    switch (t.weighted({m.get, m.ignore, hd ? m.header : 0, hd ? m.raw : 0, hd ? m.exists : 0, hd ? m.use : 0, m.iterate, m.chain})) {
    case 0: h.get(fitting_shape(t, h)); break;
    case 1: h.ignore(); break;
    case 2: h.header(); break;
    case 3: h.raw_header(); break;
    case 4: h.field_exists(some_name(t, names)); break;
    case 5: use(t, h, names, m.valid_use); break;
    case 6: {
        static const std::vector<int> ss = {sh_s2, sh_s1, sh_s3, sh_is, sh_tup_is, sh_tied_is, sh_obj_is};
        size_t n = h.m.mapping().empty() ? next_columns(h.m) : h.m.mapping().size();
        std::vector<int> fit;
        for (int s : ss) if (shape_cols(s).size() == n) fit.push_back(s);
        int s = !fit.empty() && !t.chance(1, 5) ? t.pick(fit) : t.pick(ss);
        size_t max = t.chance(1, 3) ? 1000 : static_cast<size_t>(t.range(1, 3));
        h.iterate(s, max, static_cast<int>(t.below(iterate_styles)));
        break;
    }
    case 7: h.chain(static_cast<int>(t.below(chain_kinds)), t.below(32)); break;
    }
}

// reads what is left with fitting requests, then once or twice beyond the end
inline void drain(Tape& t, Hist& h, int beyond = 2) {
    while (!h.m.eof()) h.get(fitting_shape(t, h));
    for (int i = t.range(1, beyond); i > 0; --i) h.get(t.pick(shapes_of(*h.p)));
}
} // namespace ops
