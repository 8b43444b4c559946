// Generators of delimiters, fields, rows and documents.
#pragma once
#include "engine.hpp"
#include "setups_model.hpp"
#include <string>
#include <vector>

namespace gen {
using model::Cfg;

inline bool shares(const std::string& d, const Cfg& c) {
    for (char x : d)
        if (c.is_quote(x) || c.is_esc(x) || c.is_tl(x) || c.is_tr(x) || x == '\n' || x == '\r' || x == 0) return true;
    return false;
}

inline std::string delim(Tape& t, const Cfg& c) {
    static const std::vector<std::string> all = {",", ";", "::", "--", "|", "=>", ",,", "\t", ":;:", "aab", "a", "1", ".,.,", " ", "#####", "ab", "\xff", "\xc2\xa7", "\x1f", "~"};
    // long ones: with repeated parts, with a first part that is also a delimiter's, around sizes of small buffers
    static const std::vector<std::string> longs = {"=========", "abcabcabd", "0123456789abcdefXY", "aaaaaaaaaaaaaaaab", "<-*-*-*-*-*-*-*-*-*-*-*-*-*-*-*->",
                                                   std::string(40, '='), std::string(70, '.') + "x", "::::::::", ";:;:;:;:;:;:;:;"};
    if (t.chance(1, 12)) {
        size_t k = t.below(static_cast<uint32_t>(longs.size()));
        if (!shares(longs[k], c)) return longs[k];
    }
    size_t i = t.chance(1, 2) ? t.below(static_cast<uint32_t>(all.size())) : t.below(4);
    for (size_t k = 0; k < all.size(); ++k) {
        auto& d = all[(i + k) % all.size()];
        if (!shares(d, c)) return d;
    }
    return ",";
}

// lengths around the sizes at which buffers grow, moderate in total
inline size_t long_len(Tape& t) {
    // rarely beyond what 16 bits can count
    if (t.chance(1, 50)) {
        static const int huge[] = {16384, 32768, 65536, 70000, 131072};
        return static_cast<size_t>(huge[t.weighted({2, 3, 6, 1, 1})] + t.range(0, 9) - 5);
    }
    static const int base[] = {60, 124, 128, 252, 256, 380, 508, 512, 1020, 1024, 2044, 4092};
    size_t i = t.weighted({3, 8, 8, 6, 6, 3, 4, 4, 3, 3, 2, 1});
    return static_cast<size_t>(base[i] + t.range(0, 9) - 5);
}

// length of a run of trimming characters
inline int pad_len(Tape& t) {
    if (!t.chance(1, 60)) return t.range(1, 3);
    static const int base[] = {12, 60, 124, 252, 508, 1020, 4092, 5000, 16384, 65536};
    return base[t.weighted({4, 4, 4, 4, 2, 2, 4, 4, 2, 1})] + t.range(0, 9);
}

struct FieldOpt {
    bool newlines = false; // line breaks in values (multiline setups only)
    bool longs = true;
    unsigned long_den = 24;
};

// characters that matter under a setup
inline std::string specials(const Cfg& c, const std::string& d) {
    std::string s = d;
    if (c.quote) s += c.quote;
    s += c.esc + c.tl + c.tr;
    if (!c.quote) s += '"';
    if (c.esc.empty()) s += '\\';
    s += " '-.";
    return s;
}

inline std::string value(Tape& t, const Cfg& c, const std::string& d, const FieldOpt& o) {
    std::string sp = specials(c, d), r;
    bool is_long = o.longs && t.chance(1, o.long_den);
    size_t n = is_long ? long_len(t) : t.below(t.chance(1, 4) ? 12 : 5);
    static const std::string plain = "abcxyz0123456789", odd = "\x80\xff\xef\xbb\xbf\xe9\xc3\xa0\x1a\v\f\x7f\x1b\t";
    if (is_long) {
        // a few distinct parts, repeated
        char fill = t.pickc(plain);
        r.assign(n, fill);
        // many characters that need to be escaped or doubled
        if (t.chance(1, 3)) {
            char mark = t.pickc(sp);
            size_t step = t.below(3) + 1;
            for (size_t i = t.below(3); i < n; i += step) r[i] = mark;
        }
        int marks = t.range(0, 6);
        for (int i = 0; i < marks; ++i) {
            size_t at = t.below(static_cast<uint32_t>(n));
            r[at] = t.chance(1, 2) ? t.pickc(sp) : t.pickc(plain);
        }
        if (o.newlines) {
            int nl = t.range(0, 2);
            // sometimes hundreds of lines in one field
            if (t.chance(1, 8)) nl = t.range(50, 400);
            if (n > 5000 && nl > 50) nl = 50;
            for (int i = 0; i < nl; ++i) r[t.below(static_cast<uint32_t>(n))] = '\n';
        }
    } else {
        for (size_t i = 0; i < n; ++i) {
            size_t k = t.weighted({5, 5, o.newlines ? 2u : 0u});
            if (k == 0) r += t.chance(1, 24) ? t.pickc(odd) : t.pickc(plain);
            else if (k == 1) r += t.pickc(sp);
            else r += '\n';
        }
    }
    return r;
}

// with CRLF line breaks: every \n in a value becomes \r\n
inline std::string crlf(const std::string& v) {
    std::string r;
    for (char ch : v) {
        if (ch == '\n') r += '\r';
        r += ch;
    }
    return r;
}

enum class Enc { plain, quoted, escaped };

// can the value be written with this encoding under the setup?
inline bool can(const Cfg& c, const std::string& d, const std::string& v, Enc e) {
    bool nl = v.find('\n') != std::string::npos;
    switch (e) {
    case Enc::plain:
        if (nl) return false;
        if (!v.empty() && (c.is_quote(v[0]) || c.is_tl(v[0]) || c.is_tr(v.back()))) return false;
        for (char ch : v) if (c.is_esc(ch)) return false;
        if (v == std::string(v.size(), ' ') && !v.empty() && (c.is_tl(' ') || c.is_tr(' '))) return false;
        return (v + d).find(d) == v.size();
    case Enc::quoted:
        if (!c.has_q()) return false;
        if (nl && !c.ml) return false;
        return true; // a quote is doubled, an escape needs escaping which is then enabled
    case Enc::escaped:
        if (!c.has_e()) return false;
        if (nl && !c.ml) return false;
        return true;
    }
    return false;
}

// the value must be written in a way allowed by can()
inline std::string encode(Tape& t, const Cfg& c, const std::string& d, const std::string& v, Enc e) {
    std::string r;
    char esc = c.has_e() ? c.esc[0] : 0;
    auto pick_esc = [&] { return c.esc.size() > 1 ? t.pickc(c.esc) : esc; };
    // how many characters are escaped without need
    unsigned style = c.has_e() ? t.below(4) : 0;
    auto extra = [&](char ch) {
        if (style == 0 || ch == '\n' || ch == '\r') return false;
        if (v.size() > 40) return style == 3 && (ch == 'x' || ch == '1');
        return t.chance(style, 6);
    };
    switch (e) {
    case Enc::plain: return v;
    case Enc::quoted:
        r += c.quote;
        for (size_t i = 0; i < v.size(); ++i) {
            char ch = v[i];
            if (c.is_quote(ch)) {
                if (c.has_e() && t.chance(1, 2)) r += pick_esc();
                else r += c.quote;
            } else if (c.is_esc(ch)) {
                r += pick_esc();
            } else if (ch == '\n' || ch == '\r') {
                // an escape in front of a quoted line break is allowed too
                if (c.has_e() && ch == '\n' && !(i > 0 && v[i - 1] == '\r') && t.chance(1, 4)) r += pick_esc();
                else if (c.has_e() && ch == '\r' && i + 1 < v.size() && v[i + 1] == '\n' && t.chance(1, 4)) r += pick_esc();
            } else if (c.has_e() && extra(ch)) {
                r += pick_esc();
            }
            r += ch;
        }
        r += c.quote;
        return r;
    case Enc::escaped:
        for (size_t i = 0; i < v.size(); ++i) {
            char ch = v[i];
            bool must = c.is_esc(ch) || d.find(ch) != std::string::npos;
            if (i == 0 && (c.is_quote(ch) || c.is_tl(ch))) must = true;
            if (i + 1 == v.size() && c.is_tr(ch)) must = true;
            // a run of spacing up to the front of the field
            if (c.is_tl(ch) && i == 0) must = true;
            if (ch == '\n' && !(i > 0 && v[i - 1] == '\r')) must = true;
            if (ch == '\r' && i + 1 < v.size() && v[i + 1] == '\n') must = true;
            if (must || extra(ch)) r += pick_esc();
            r += ch;
        }
        return r;
    }
    return r;
}

inline std::string field(Tape& t, const Cfg& c, const std::string& d, const std::string& v, bool allow_empty_plain = true) {
    Enc order[3] = {Enc::plain, Enc::quoted, Enc::escaped};
    size_t first = t.weighted({3, 4, 3});
    std::string r;
    bool done = false;
    for (size_t k = 0; k < 3 && !done; ++k) {
        Enc e = order[(first + k) % 3];
        if (!can(c, d, v, e)) continue;
        if (v.empty() && e != Enc::quoted && !allow_empty_plain && c.has_q()) continue;
        r = encode(t, c, d, v, e);
        done = true;
    }
    if (!done) return "";
    if (!c.tl.empty() && t.chance(1, 3)) {
        int n = pad_len(t);
        std::string pad;
        if (n > 3) pad.assign(static_cast<size_t>(n), t.pickc(c.tl));
        else for (int i = 0; i < n; ++i) pad += t.pickc(c.tl);
        r = pad + r;
    }
    if (!c.tr.empty() && t.chance(1, 3)) {
        int n = pad_len(t);
        if (n > 3) r.append(static_cast<size_t>(n), t.pickc(c.tr));
        else for (int i = 0; i < n; ++i) r += t.pickc(c.tr);
    }
    return r;
}

inline bool encodable(const Cfg& c, const std::string& d, const std::string& v) {
    return can(c, d, v, Enc::plain) || can(c, d, v, Enc::quoted) || can(c, d, v, Enc::escaped);
}

// a value that can be written under the setup, by removing what cannot
inline std::string fit(const Cfg& c, const std::string& d, std::string v) {
    if (v.size() > 5000 && !encodable(c, d, v)) {
        for (char& ch : v) if (!isalnum(static_cast<unsigned char>(ch)) || d.find(ch) != std::string::npos) ch = 'y';
        if (!encodable(c, d, v)) v.resize(100);
    }
    while (!encodable(c, d, v)) {
        // cut at the first character that stands in the way
        size_t n = v.size();
        std::string w;
        for (size_t i = 0; i < n; ++i) {
            std::string cand = w + v[i];
            if (encodable(c, d, cand)) w = cand;
        }
        return w;
    }
    return v;
}

// arbitrary text over the characters that matter; no line breaks
inline std::string soup(Tape& t, const Cfg& c, const std::string& d, int max) {
    std::string r;
    int n = t.range(0, max);
    for (int i = 0; i < n; ++i) {
        switch (t.weighted({6, 4, c.quote ? 6u : 1u, c.has_e() ? 5u : 1u, c.tl.empty() ? 1u : 4u, c.tr.empty() ? 1u : 4u, 1, 1, 2})) {
        case 0: r += t.pickc("ab1x"); break;
        case 1: r += d; break;
        case 2: r += c.quote ? c.quote : '"'; break;
        case 3: r += c.has_e() ? t.pickc(c.esc) : '\\'; break;
        case 4: r += c.tl.empty() ? ' ' : t.pickc(c.tl); break;
        case 5: r += c.tr.empty() ? ' ' : t.pickc(c.tr); break;
        case 6: r += '\r'; break;
        case 7: r += d.substr(0, t.below(static_cast<uint32_t>(d.size()))); break;
        case 8: r += t.pickc("0123456789-.\"\\ '"); break;
        }
    }
    // an occasional long stretch
    if (t.chance(1, 30)) {
        size_t len = long_len(t);
        std::string part;
        switch (t.below(7)) {
        case 5: part = c.tl.empty() ? " " : std::string(1, t.pickc(c.tl)); break;
        case 6: part = c.tr.empty() ? " " : std::string(1, t.pickc(c.tr)); break;
        case 0: part = c.quote ? std::string(2, c.quote) : "a"; break;
        case 1: part = c.has_e() ? std::string(1, t.pickc(c.esc)) + "x" : "b"; break;
        case 2: part = c.quote ? "z" + std::string(2, c.quote) : "1"; break;
        default: part = t.pickc("ab1");
        }
        while (part.size() < len) part += part;
        r.insert(t.below(static_cast<uint32_t>(r.size() + 1)), part);
    }
    return r;
}

struct DocOpt {
    int max_rows = 6;
    int cols = 0;              // 0: any number per row
    bool many = true;          // rarely hundreds of rows
    bool huge = false;         // very rarely more than 65536
    bool ints = false;         // first column mostly integers
    unsigned w_good = 6, w_soup = 3, w_empty = 1, w_space = 1;
    bool newlines = true;      // in values, if the setup has multiline
    bool longs = true;
    unsigned final_nl = 3;     // of 4
};

struct Row {
    std::vector<std::string> values; // if well formed
    bool good = false;
    std::string text;
};

inline Row good_row(Tape& t, const Cfg& c, const std::string& d, int cols, const DocOpt& o, const std::string& eol) {
    Row r;
    r.good = true;
    FieldOpt fo;
    fo.newlines = o.newlines && c.ml;
    fo.longs = o.longs;
    if (cols <= 0) {
        cols = static_cast<int>(t.weighted({2, 4, 4, 2, 1})) + 1;
        if (t.chance(1, 60)) cols = t.chance(1, 8) ? t.range(250, 300) : t.range(6, 40);
    }
    if (cols > 8) fo.longs = false;
    for (int k = 0; k < cols; ++k) {
        std::string v;
        if (o.ints && k == 0 && t.chance(3, 4)) v = std::to_string(t.range(0, 30) - 10);
        else if (o.ints && t.chance(1, 6)) {
            static const std::vector<std::string> words = {"1", "0", "true", "false", "-9", "99", "100", "-10", "truth", "7"};
            v = t.pick(words);
        } else v = value(t, c, d, fo);
        if (fo.newlines && (eol == "\r\n") != t.chance(1, 8)) v = crlf(v);
        v = fit(c, d, v);
        if (k) r.text += d;
        std::string f = field(t, c, d, v, !(cols == 1 && c.ign_empty));
        r.values.push_back(v);
        r.text += f;
    }
    return r;
}

// a row repeated many times, more often than 8 or 16 bits can count
inline std::string many_rows(Tape& t, const Cfg& c, const std::string& d, const DocOpt& o, const std::string& eol, const std::string& before) {
    static const int counts[] = {250, 300, 66000};
    // joining all of them to an open quote takes quadratic time
    bool huge = o.huge && !(c.ml && c.quote && c.limit == 0 && before.find(c.quote) != std::string::npos);
    size_t n = static_cast<size_t>(counts[t.weighted({30, 30, huge ? 1u : 0u})] + t.range(0, 9));
    DocOpt s = o;
    s.longs = false;
    std::string row = good_row(t, c, d, o.cols > 0 ? o.cols : t.range(1, 2), s, eol).text, r;
    if (row.empty() && c.ign_empty && t.chance(1, 2)) row = "r";
    if (row.size() > 30) row = row.substr(0, 0) + "1" + d + "r";
    for (size_t i = 0; i < n; ++i) r += row + eol;
    return r;
}

inline std::string document(Tape& t, const Cfg& c, const std::string& d, const DocOpt& o) {
    std::string doc;
    int rows = t.range(0, o.max_rows);
    unsigned eol_style = static_cast<unsigned>(t.weighted({4, 3, 2}));
    int many_at = o.many && rows > 0 && t.chance(1, 200) ? static_cast<int>(t.below(static_cast<uint32_t>(rows))) : -1;
    for (int i = 0; i < rows; ++i) {
        std::string eol = eol_style == 0 ? "\n" : eol_style == 1 ? "\r\n" : (t.chance(1, 2) ? "\r\n" : "\n");
        if (i == many_at) doc += many_rows(t, c, d, o, eol, doc);
        switch (t.weighted({o.w_good, o.w_soup, o.w_empty, o.w_space})) {
        case 0: doc += good_row(t, c, d, o.cols, o, eol).text; break;
        case 1: doc += soup(t, c, d, 10); break;
        case 2: break;
        case 3: doc += std::string(static_cast<size_t>(t.range(1, 3)), c.tl.empty() ? ' ' : c.tl[0]); break;
        }
        if (i + 1 < rows || t.below(4) < o.final_nl) doc += eol;
    }
    // marks that other programs write to the start or take for the end of a file
    if (doc.size() < 50000 && t.chance(1, 40)) {
        static const std::vector<std::string> marks = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "#", "sep=" + std::string(","), "\x1a"};
        doc = t.pick(marks) + doc;
    }
    return doc;
}

} // namespace gen
