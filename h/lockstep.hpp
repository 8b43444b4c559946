// Applies one history to two parsers and compares everything observable.
#pragma once
#include "ops.hpp"

namespace lockstep {

inline std::string strip(std::string s, const std::string& name) {
    if (s.rfind(name, 0) == 0) return "<source>" + s.substr(name.size());
    return s;
}

struct Side {
    Target t;
    SutSource src;
    std::unique_ptr<IParser> p;
    Side(const Target& g, const std::string& doc, const std::string& fname) : t{g}, src{g.file, doc, fname}, p{open_sut(g, src)} {}
    std::string name() const { return src.name(); }
};

inline void compare(Side& a, Side& b, const Res& x, const Res& y, const std::string& what) {
    auto d = [&](const std::string& f, const std::string& u, const std::string& v) { fail(what + ": " + f + " " + show(u) + " from the first, " + show(v) + " from the second"); };
    if (x.exc != y.exc) d("exception", x.threw() ? x.what : "(none)", y.threw() ? y.what : "(none)");
    if (strip(x.what, a.name()) != strip(y.what, b.name())) d("exception text", strip(x.what, a.name()), strip(y.what, b.name()));
    if (x.val != y.val) d("value", x.val, y.val);
    if (x.flag != y.flag) d("result", std::to_string(x.flag), std::to_string(y.flag));
    Obs o = a.p->obs(), q = b.p->obs();
    if (o.valid != q.valid) d("valid()", std::to_string(o.valid), std::to_string(q.valid));
    if (o.eof != q.eof) d("eof()", std::to_string(o.eof), std::to_string(q.eof));
    if (o.line != q.line) d("line()", std::to_string(o.line), std::to_string(q.line));
    if (o.pos != q.pos) d("position()", std::to_string(o.pos), std::to_string(q.pos));
    if (strip(o.err, a.name()) != strip(q.err, b.name())) d("error_msg()", strip(o.err, a.name()), strip(q.err, b.name()));
}

struct Did {
    int rows = 0;
    std::string kinds;
};

// hint: the document is in the domain of the model, which is only used to choose requests that fit
inline Did run(Tape& t, Ctx& c, Side& a, Side& b, const std::string& doc, const std::vector<std::string>& names, bool hint, int steps = 40) {
    if (c.notes()) {
        c.note(a.t.str() + "  versus  " + b.t.str());
        c.note("document " + show(doc));
    }
    c.h(doc);
    c.h(static_cast<uint64_t>(a.t.setup * 10 + a.t.mode));
    model::Parser m{doc, a.t.cfg(), a.t.delim, "x"};
    auto shapes = ops::shapes_of(*a.p);
    compare(a, b, {}, {}, "construction");
    Did r;
    int beyond = 0;
    for (int i = 0; i < steps && beyond < 3; ++i) {
        if (a.p->obs().eof) ++beyond;
        bool hd = a.p->has_header();
        Res x, y;
        std::string what;
        size_t k = t.weighted({12, 1, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, hd ? 1u : 0u, 1, a.t.mode == m_throw ? 0u : 1u});
        switch (k) {
        case 0: {
            int s = t.pick(shapes);
            if (hint && !t.chance(1, 6)) {
                size_t n = m.mapping().empty() ? ops::next_columns(m) : m.mapping().size();
                std::vector<int> fit;
                for (int z : shapes) if (shape_cols(z).size() == n) fit.push_back(z);
                if (!fit.empty()) s = t.pick(fit);
            }
            what = std::string("get_next<") + shape_name(s) + ">";
            if (hint) m.get(shape_cols(s));
            x = a.p->get(s);
            y = b.p->get(s);
            ++r.rows;
            break;
        }
        case 1:
            what = "ignore_next";
            if (hint) m.ignore_next();
            x.flag = a.p->ignore_next();
            y.flag = b.p->ignore_next();
            ++r.rows;
            break;
        case 2:
            what = "header";
            x = a.p->header();
            y = b.p->header();
            break;
        case 3:
            what = "raw_header";
            x = a.p->raw_header();
            y = b.p->raw_header();
            break;
        case 4: {
            auto n = ops::some_name(t, names);
            what = "field_exists " + show(n);
            x = a.p->field_exists(n);
            y = b.p->field_exists(n);
            break;
        }
        case 5: {
            auto sel = ops::selection(t, names);
            what = "use_fields";
            for (auto& f : sel) what += " " + show(f);
            if (hint) m.use_fields(sel);
            int form = static_cast<int>(t.below(3));
            x = a.p->use_fields(sel, form);
            y = b.p->use_fields(sel, form);
            break;
        }
        case 6: {
            int s = t.chance(1, 2) ? sh_s2 : sh_is;
            size_t max = static_cast<size_t>(t.range(1, 4));
            what = std::string("iterate<") + shape_name(s) + "> max " + std::to_string(max);
            std::string u, v;
            auto put = [](std::string& o, const Side& z, const IterRow& row) {
                o += row.val + "#" + std::to_string(row.obs.valid) + std::to_string(row.obs.eof) + " " + std::to_string(row.obs.line) + " " + std::to_string(row.obs.pos) + strip(row.obs.err, z.name()) + "#";
            };
            int style = static_cast<int>(t.below(iterate_styles));
            x = a.p->iterate(s, max, [&](const IterRow& row) { put(u, a, row); if (hint) m.get(shape_cols(s)); ++r.rows; }, style);
            y = b.p->iterate(s, max, [&](const IterRow& row) { put(v, b, row); }, style);
            if (hint && x.threw()) m.get(shape_cols(s));
            x.val = u;
            y.val = v;
            break;
        }
        case 7: {
            int kind = static_cast<int>(t.below(chain_kinds));
            unsigned bits = t.below(32);
            what = "chain " + std::to_string(kind);
            ChainOut u, v;
            x = a.p->chain(kind, bits, u);
            y = b.p->chain(kind, bits, v);
            if (hint) m.get(shape_cols(sh_s1));
            for (auto& z : u.values) x.val += z + "#";
            for (auto& z : v.values) y.val += z + "#";
            auto cut = [](const std::string& z, const std::string& n) { auto p = z.find('('); return z.substr(0, p + 1) + strip(z.substr(p + 1), n) + "#"; };
            for (auto& z : u.calls) x.val += cut(z, a.name());
            for (auto& z : v.calls) y.val += cut(z, b.name());
            ++r.rows;
            break;
        }
        }
        if (c.notes()) c.note("  " + what + " -> " + (x.threw() ? "threw " + show(x.what) : show(x.val)));
        c.h(what);
        if (r.kinds.find(static_cast<char>('0' + k)) == std::string::npos) r.kinds += static_cast<char>('0' + k);
        compare(a, b, x, y, "step " + std::to_string(i) + " " + what);
    }
    return r;
}
} // namespace lockstep
