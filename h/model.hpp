// Reference model of the documented behaviour, independent of the library:
// works on whole strings, character by character, with no shared code.
#pragma once
#include <cstddef>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace model {

struct Cfg {
    std::string name;
    char quote = 0;
    std::string esc, tl, tr;
    bool ml = false;
    size_t limit = 0;
    bool ign_empty = false;
    bool ign_header = false;

    bool is_quote(char c) const { return quote && c == quote; }
    bool is_esc(char c) const { return esc.find(c) != std::string::npos; }
    bool is_tl(char c) const { return tl.find(c) != std::string::npos; }
    bool is_tr(char c) const { return tr.find(c) != std::string::npos; }
    bool has_q() const { return quote != 0; }
    bool has_e() const { return !esc.empty(); }
    Cfg single() const { Cfg c = *this; c.ml = false; return c; }
};

enum class Err { none, mismatched, unterminated_quote, unterminated_escape, limit, empty_delim };

struct Split {
    std::vector<std::string> f;
    Err err = Err::none;
    size_t errpos = 0;
    bool ok() const { return err == Err::none; }
};

// how far a row was split whose last quote is still open
struct Open {
    bool set = false;
    std::vector<std::string> f;
    std::string field;
    size_t i = 0;
};

inline Split split_row(const std::string& t, const Cfg& c, const std::string& d, Open* open = nullptr) {
    Split r;
    if (d.empty()) { r.err = Err::empty_delim; return r; }
    const size_t n = t.size();
    size_t i = 0;
    auto delim_at = [&](size_t p) { return p + d.size() <= n && t.compare(p, d.size(), d) == 0; };
    auto past_right = [&](size_t p) { while (p < n && c.is_tr(t[p])) ++p; return p; };
    auto bad = [&](Err e, size_t p) { r.f.clear(); r.err = e; r.errpos = p; return r; };
    bool resumed = open && open->set;
    std::string f;
    if (resumed) {
        i = open->i;
        f.swap(open->field);
        r.f.swap(open->f);
        open->set = false;
    }
    while (true) {
        if (!resumed) {
            f.clear();
            while (i < n && c.is_tl(t[i])) ++i;
        }
        bool more = false; // a delimiter ended the field
        if (resumed || (i < n && c.is_quote(t[i]))) {
            if (!resumed) ++i;
            resumed = false;
            while (true) {
                if (i >= n) {
                    if (open) {
                        open->set = true;
                        open->f.swap(r.f);
                        open->field.swap(f);
                        open->i = i;
                    }
                    return bad(Err::unterminated_quote, i);
                }
                if (c.is_esc(t[i])) {
                    if (i + 1 >= n) return bad(Err::unterminated_escape, i);
                    f += t[i + 1];
                    i += 2;
                } else if (!c.is_quote(t[i])) {
                    f += t[i++];
                } else if (i + 1 < n && c.is_quote(t[i + 1])) {
                    f += t[i];
                    i += 2;
                } else {
                    size_t p = past_right(i + 1);
                    if (p >= n) { i = n; break; }
                    if (!delim_at(p)) return bad(Err::mismatched, i);
                    i = p + d.size();
                    more = true;
                    break;
                }
            }
        } else {
            while (true) {
                size_t p = past_right(i);
                if (p >= n) { i = n; break; }
                if (delim_at(p)) { i = p + d.size(); more = true; break; }
                f.append(t, i, p - i); // spacing inside of the field
                i = p;
                if (c.is_esc(t[i])) {
                    if (i + 1 >= n) return bad(Err::unterminated_escape, i);
                    f += t[i + 1];
                    i += 2;
                } else {
                    f += t[i++];
                }
            }
        }
        r.f.push_back(f);
        if (!more) return r;
    }
}

struct Line {
    size_t off;
    std::string text, eol;
};

inline std::vector<Line> phys_lines(const std::string& doc) {
    std::vector<Line> r;
    size_t i = 0;
    while (i < doc.size()) {
        size_t e = doc.find('\n', i);
        Line l{i, "", ""};
        if (e == std::string::npos) {
            l.text = doc.substr(i);
            i = doc.size();
        } else {
            size_t t = e;
            if (t > i && doc[t - 1] == '\r') --t;
            l.text = doc.substr(i, t - i);
            l.eol = doc.substr(t, e + 1 - t);
            i = e + 1;
        }
        r.push_back(l);
    }
    return r;
}

struct Framed {
    std::string text;
    size_t first = 0, count = 1; // physical lines consumed
    Split s;
    bool single() const { return count == 1; }
};

inline bool odd_escapes(const std::string& t, const Cfg& c) {
    size_t n = 0;
    while (n < t.size() && c.is_esc(t[t.size() - 1 - n])) ++n;
    return n % 2 == 1;
}

inline Framed frame_row(const std::vector<Line>& ls, size_t i, const Cfg& c, const std::string& d) {
    Framed r;
    r.first = i;
    r.text = ls[i].text;
    size_t appended = 0;
    Open open;
    while (true) {
        Err need = Err::none;
        if (c.ml && c.has_e() && odd_escapes(r.text, c)) need = Err::unterminated_escape;
        else {
            r.s = split_row(r.text, c, d, &open);
            if (c.ml && c.has_q() && r.s.err == Err::unterminated_quote) need = Err::unterminated_quote;
        }
        if (need == Err::none) return r;
        r.s = Split{};
        if (c.limit > 0 && appended >= c.limit) { r.s.err = Err::limit; return r; }
        size_t next = i + appended + 1;
        if (next >= ls.size()) { r.s.err = need; return r; }
        r.text += ls[next - 1].eol + ls[next].text;
        ++appended;
        ++r.count;
    }
}

inline std::string err_text(const Split& s) {
    switch (s.err) {
    case Err::none: return "";
    case Err::mismatched: return "mismatched quote at position: " + std::to_string(s.errpos);
    case Err::unterminated_quote: return "unterminated quote";
    case Err::unterminated_escape: return "unterminated escape at the end of the line";
    case Err::limit: return "multiline limit reached";
    case Err::empty_delim: return "empty delimiter";
    }
    return "";
}

// column types known to the parser level model
enum class Col { str, view, integer, skip, opt_int, nonempty, var_int_str, chr, range, opt_bool, var_cbs };

inline std::optional<long> as_int(const std::string& s) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') { neg = true; ++i; }
    if (i >= s.size()) return std::nullopt;
    long v = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return std::nullopt;
        v = v * 10 + (s[i] - '0');
        if (v > 3000000000L) return std::nullopt;
    }
    if (neg) v = -v;
    if (v > 2147483647L || v < -2147483648L) return std::nullopt;
    return v;
}

struct Conv {
    bool ok = false;
    std::string val;    // canonical text of the returned values
    std::string reason; // without source and line
};

inline std::string enc_str(const std::string& s) { return std::to_string(s.size()) + ":" + s + "|"; }
inline std::string enc_int(long v) { return "i" + std::to_string(v) + "|"; }

inline std::string enc_chr(char c) { return std::string("c") + c + "|"; }
inline std::string enc_bool(const std::string& s) { return s == "1" || s == "true" ? "true|" : s == "0" || s == "false" ? "false|" : ""; }

inline std::string default_val(const std::vector<Col>& cols) {
    std::string r;
    for (auto c : cols) {
        switch (c) {
        case Col::skip: break;
        case Col::str: case Col::view: case Col::nonempty: r += enc_str(""); break;
        case Col::integer: case Col::range: case Col::var_int_str: r += enc_int(0); break;
        case Col::opt_int: case Col::opt_bool: r += "n|"; break;
        case Col::chr: case Col::var_cbs: r += enc_chr(0); break;
        }
    }
    return r;
}

inline Conv convert(const std::vector<std::string>& f, const std::vector<Col>& cols, const std::vector<size_t>& map, size_t ncols) {
    Conv r;
    r.val = default_val(cols);
    if (map.empty()) {
        if (f.size() != cols.size()) {
            r.reason = "invalid number of columns, expected: " + std::to_string(cols.size()) + ", got: " + std::to_string(f.size());
            return r;
        }
    } else {
        if (map.size() != cols.size()) {
            r.reason = "number of arguments does not match mapping, expected: " + std::to_string(map.size()) + ", got: " + std::to_string(cols.size());
            return r;
        }
        if (f.size() != ncols) {
            r.reason = "invalid number of columns, expected: " + std::to_string(ncols) + ", got: " + std::to_string(f.size());
            return r;
        }
    }
    std::string v;
    for (size_t i = 0; i < cols.size(); ++i) {
        const std::string& s = f[map.empty() ? i : map[i]];
        const std::string suffix = "at column " + std::to_string(i + 1) + ": '" + s + "'";
        switch (cols[i]) {
        case Col::skip: break;
        case Col::str: case Col::view: v += enc_str(s); break;
        case Col::nonempty:
            if (s.empty()) { r.reason = "empty field " + suffix; return r; }
            v += enc_str(s);
            break;
        case Col::integer: {
            auto x = as_int(s);
            if (!x) { r.reason = "invalid conversion for parameter " + suffix; return r; }
            v += enc_int(*x);
            break;
        }
        case Col::range: {
            auto x = as_int(s);
            if (!x) { r.reason = "invalid conversion for parameter " + suffix; return r; }
            if (*x < -9 || *x > 99) { r.reason = "validation error " + suffix; return r; }
            v += enc_int(*x);
            break;
        }
        case Col::chr:
            if (s.size() != 1) { r.reason = "invalid conversion for parameter " + suffix; return r; }
            v += enc_chr(s[0]);
            break;
        case Col::opt_bool: v += enc_bool(s).empty() ? "n|" : enc_bool(s); break;
        case Col::var_cbs: v += s.size() == 1 ? enc_chr(s[0]) : enc_bool(s).empty() ? enc_str(s) : enc_bool(s); break;
        case Col::opt_int: {
            auto x = as_int(s);
            v += x ? enc_int(*x) : "n|";
            break;
        }
        case Col::var_int_str: {
            auto x = as_int(s);
            v += x ? enc_int(*x) : enc_str(s);
            break;
        }
        }
    }
    r.ok = true;
    r.val = v;
    return r;
}

// model of a parser over a document
class Parser {
public:
    Parser(const std::string& doc, const Cfg& c, const std::string& delim, const std::string& source)
        : cfg{c}, d{delim}, src{source}, size{doc.size()}, ls{phys_lines(doc)} {
        idx = 0;
        skip_empty();
        header_idx = idx;
        if (idx < ls.size()) raw = ls[idx].text;
        if (cfg.ign_header) advance(1);
    }

    struct Step {
        bool ok = false, eof_read = false;
        std::string val, msg;
        bool msg_exact = true;
        size_t cols = 0; // columns of the row
        bool framed_multi = false;
        Err split_err = Err::none;
    };

    bool eof() const { return idx >= ls.size(); }
    bool valid() const { return ok; }
    size_t line() const { return eof() ? ls.size() : idx; }
    size_t position() const { return eof() ? size : ls[idx].off; }
    const std::string& error() const { return err; }
    bool error_exact() const { return exact; }

    Step get(const std::vector<Col>& cols) {
        Step s;
        s.val = default_val(cols);
        if (eof()) {
            last_fields.clear();
            last_err = Err::none;
            last_eof = true;
            s.eof_read = true;
            set_err(src + ": read on end of file", true);
            s.msg = err;
            return s;
        }
        last_eof = false;
        Framed f = frame_row(ls, idx, cfg, d);
        row_line = f.first + f.count;
        s.framed_multi = f.count > 1;
        s.split_err = f.s.err;
        last_fields = f.s.f;
        last_err = f.s.err;
        last_text = f;
        s.cols = f.s.f.size();
        idx = f.first + f.count;
        skip_empty();
        finish(s, cols);
        return s;
    }

    // applies another list of types to the row read last
    Step again(const std::vector<Col>& cols) {
        Step s;
        s.val = default_val(cols);
        if (last_eof) { s.eof_read = true; ok = false; exact = false; return s; }
        finish(s, cols);
        // how the failure of a joined row is put by further alternatives is left open
        if (last_err != Err::none && last_err != Err::mismatched) exact = s.msg_exact = false;
        return s;
    }

    bool ignore_next() {
        if (eof()) return false;
        Framed f = frame_row(ls, idx, cfg, d);
        advance(f.count);
        return !eof();
    }

    struct Q {
        bool ok = false;
        std::string val, msg;
        bool msg_exact = true;
    };

    Q header() {
        Q q;
        Split s = split_row(raw, cfg.single(), d);
        if (!s.ok()) { fail_header(q, s); return q; }
        clear();
        q.ok = true;
        for (auto& f : s.f) q.val += enc_str(f);
        return q;
    }

    Q field_exists(const std::string& name) {
        Q q;
        auto h = strict_header(q);
        if (!h) { q.val = "0"; return q; }
        clear();
        q.ok = true;
        q.val = "0";
        for (auto& f : *h) if (f == name) q.val = "1";
        return q;
    }

    Q use_fields(const std::vector<std::string>& names) {
        Q q;
        auto h = strict_header(q);
        if (!h) return q;
        if (names.empty()) { set_err("received invalid argument for 'use_fields'", true); q.msg = err; return q; }
        std::vector<size_t> m;
        for (auto& n : names) {
            size_t cnt = 0;
            for (auto& x : names) cnt += x == n;
            if (cnt != 1) { set_err(src + ": given field used multiple times: " + n, true); q.msg = err; return q; }
            size_t k = 0;
            while (k < h->size() && (*h)[k] != n) ++k;
            if (k == h->size()) { set_err(src + ": header does not contain given field: " + n, true); q.msg = err; return q; }
            m.push_back(k);
        }
        map = m;
        ncols = h->size();
        clear();
        q.ok = true;
        if (!eof() && idx == header_idx) advance(1);
        return q;
    }

    const std::string& raw_header() const { return raw; }
    const std::vector<Line>& lines() const { return ls; }
    const std::vector<size_t>& mapping() const { return map; }
    size_t mapped_columns() const { return ncols; }
    void failed_check() { set_err(src + ": failed check", true); }
    void force_error(bool ex) { ok = false; exact = ex; err = "?"; }
    const std::vector<std::string>& fields() const { return last_fields; }
    void clear() { ok = true; err.clear(); exact = true; }
    size_t index() const { return idx; }
    const Framed& last_row() const { return last_text; }
    bool at_eof_read() const { return last_eof; }

    Cfg cfg;
    std::string d, src;

private:
    void skip_empty() {
        if (cfg.ign_empty) while (idx < ls.size() && ls[idx].text.empty()) ++idx;
    }
    void advance(size_t n) {
        idx += n;
        if (idx > ls.size()) idx = ls.size();
        skip_empty();
    }
    void set_err(const std::string& m, bool ex) { ok = false; err = m; exact = ex; }
    void fail_header(Q& q, const Split& s) {
        set_err(src + ": failed header parsing: " + err_text(s), true);
        q.msg = err;
    }
    std::optional<std::vector<std::string>> strict_header(Q& q) {
        Split s = split_row(raw, cfg.single(), d);
        if (!s.ok()) { fail_header(q, s); return std::nullopt; }
        for (size_t i = 0; i < s.f.size(); ++i)
            for (size_t k = 0; k < i; ++k)
                if (s.f[i] == s.f[k]) {
                    set_err(src + ": header contains duplicate: " + s.f[i], true);
                    q.msg = err;
                    return std::nullopt;
                }
        return s.f;
    }
    void finish(Step& s, const std::vector<Col>& cols) {
        std::string prefix = src + " " + std::to_string(row_line) + ": ";
        if (last_err != Err::none) {
            // the offset within a joined row is not specified
            Split e;
            e.err = last_err;
            e.errpos = last_text.s.errpos;
            set_err(prefix + err_text(e), !(last_err == Err::mismatched && last_text.count > 1));
            s.msg = err;
            s.msg_exact = exact;
            return;
        }
        Conv c = convert(last_fields, cols, map, ncols);
        s.ok = c.ok;
        if (!c.ok) {
            set_err(prefix + c.reason, true);
            s.msg = err;
        } else {
            clear();
            s.val = c.val;
        }
    }

    size_t size;
    std::vector<Line> ls;
    size_t idx = 0, header_idx = 0, row_line = 0;
    bool ok = true, exact = true;
    std::string err, raw;
    std::vector<size_t> map;
    size_t ncols = 0;
    std::vector<std::string> last_fields;
    Err last_err = Err::none;
    Framed last_text;
    bool last_eof = false;
};

} // namespace model
