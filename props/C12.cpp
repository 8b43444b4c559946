#include "conv_model.hpp"
#include "lists.hpp"
const char* const prop_id = "C12";
const bool prop_check_leaks = false;
const char* const prop_rule =
    "a case is one row, requested as one of 25 lists of types (up to 17, ignored columns at every position) in every form (list, tuple, object, tied class, iteration, "
    "substitute conversion, by converter and parser) in both builds, against the specification of the single columns; non-trivial: the list has at least two "
    "columns, and the row is accepted with an ignored column or several values, or a single column makes it fail";
void prop_init(const std::string&, bool) {}

static std::vector<std::string> columns(const std::string& n) {
    std::vector<std::string> r{""};
    for (char c : n) {
        if (c == ';') r.emplace_back();
        else r.back() += c;
    }
    return r;
}

static std::string dflt(const std::string& c) {
    static const std::map<std::string, std::string> m = {{"int", "int 0"}, {"string", "string 0:"}, {"view", "view 0:"}, {"opt<int>", "none"}, {"double", "double 0000000000000000"}, {"float", "float 00000000"},
        {"bool", "bool 0"}, {"char", "char 0"}, {"var<int,char>", "alt0(int 0)"}, {"shape", "shape 0"}, {"even<int>", "int 0"}, {"gte<int,5>", "int 0"}, {"ne<string>", "string 0:"}, {"ushort", "ushort 0"},
        {"ss::int8", "ss::int8 0"}, {"ulong", "ulong 0"}};
    return m.at(c);
}

static std::string field(Tape& t, const std::string& type, size_t n) {
    auto& s = cm::specs().at(type);
    static const std::vector<std::string> pool = {"1", "7", "0", "true", "6", "12", "circle", "square", "-3", "2.5", "x", "", "abc", "8", "256", "70000", "false", "1e3", " 1", "text with spaces", "99999999999", "4", "-129"};
    bool good = !t.chance(1, static_cast<unsigned>(n < 6 ? 10 : 2 * n));
    for (int k = 0; k < 6; ++k) {
        std::string f = t.chance(1, 4) ? cm::num(t, 4) : t.pick(pool);
        if (s(f).ok == good) return f;
    }
    for (auto f : {"6", "1", "circle"}) if (s(f).ok) return f;
    return "x";
}

static void rows(Tape& t, Ctx& c) {
    auto& all = ListRegistry::get().all;
    // the same list is registered once per build
    static const std::vector<std::string> names = [&] {
        std::vector<std::string> r;
        for (auto& l : all) if (l.variant == cv_headers) r.push_back(l.name);
        return r;
    }();
    auto& name = t.pick(names);
    auto cols = columns(name);
    static const std::vector<std::string> ds = {",", ";", "::", "\t", "|", "--x"};
    std::string d = t.pick(ds), row;
    size_t n = cols.size();
    if (t.chance(1, 8)) n = static_cast<size_t>(t.range(1, static_cast<int>(cols.size()) + 2));
    std::vector<std::string> f;
    for (size_t i = 0; i < n; ++i) {
        f.push_back(field(t, i < cols.size() && cols[i] != "void" ? cols[i] : "string", n));
        row += (i ? d : "") + f.back();
    }
    c.h(name);
    c.h(row);
    if (c.notes()) c.note("row " + show(row) + " to " + name);
    size_t values = 0;
    for (auto& x : cols) values += x != "void";
    int reps = t.range(4, 8);
    for (int k = 0; k < reps; ++k) {
        int form = static_cast<int>(t.below(fm_count));
        size_t got = row.empty() && !form_is_parser(form) ? 0 : n;
        bool ok = true;
        std::string err, val, def;
        if (got != cols.size()) {
            ok = false;
            err = "invalid number of columns, expected: " + std::to_string(cols.size()) + ", got: " + std::to_string(got);
        }
        size_t bad = 0;
        for (size_t i = 0; i < cols.size(); ++i) {
            if (cols[i] == "void") continue;
            def += dflt(cols[i]) + (values > 1 ? ";" : "");
            if (got != cols.size()) continue;
            auto v = cm::specs().at(cols[i])(f[i]);
            if (!v.ok && ++bad == 1) err = (v.error.empty() ? "invalid conversion for parameter" : v.error) + " at column " + std::to_string(i + 1) + ": '" + f[i] + "'";
            if (!v.ok) ok = false;
            val += v.text + (values > 1 ? ";" : "");
        }
        if (values > 1) {
            val = "(" + val + ")";
            def = "(" + def + ")";
        }
        for (auto& l : all) {
            if (l.name != name) continue;
            ConvOut o = l.fn(row, d, form);
            if (!o.has) continue;
            std::string where = std::string(conv_variant_name(l.variant)) + ", " + form_name(form) + " of " + name + " from " + show(row);
            if (c.notes()) c.note(where + " -> " + (o.ok ? show(o.val) : "failure " + show(o.err)));
            if (o.ok != ok) fail(where + (o.ok ? " gave " + o.val + ", expected failure " + err : " failed with " + show(o.err) + ", expected " + show(val)));
            if (ok && o.val != val) fail(where + " gave " + show(o.val) + ", expected " + show(val));
            if (ok && !o.err.empty()) fail(where + ": message " + show(o.err) + " for a success");
            if (!ok && !o.val.empty() && o.val != def) fail(where + " failed, but returned " + show(o.val) + " instead of " + show(def));
            if (!ok && o.err_known && (o.err.size() < err.size() || o.err.compare(o.err.size() - err.size(), err.size(), err) != 0)) fail(where + ": message " + show(o.err) + ", expected " + show(err));
        }
        if (ok && cols.size() > 1 && (values > 1 || values < cols.size())) c.nontrivial = true;
        if (!ok && bad == 1 && cols.size() > 1) c.nontrivial = true;
        c.label(ok ? "accepted" : bad ? "failed conversion" : "wrong number of columns");
    }
}

const std::vector<Family> families = {{"rows", 1, rows}};
