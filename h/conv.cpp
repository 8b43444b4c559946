// Conversions of single fields. GROUP selects the types.
#include "sut.hpp"
#include "conv.hpp"
#include "conv_user.hpp"
#include "enc_types.hpp"

namespace {
using enct::enc;
using C = ss::converter<ss::string_error>;
using S = std::string;

// a line in memory of its exact size
struct Line {
    std::unique_ptr<char[]> p;
    size_t n;
    Line(const S& s, bool term = true) : p{new char[s.size() + (term ? 1 : 0)]}, n{s.size()} {
        memcpy(p.get(), s.data(), s.size());
        if (term) p[s.size()] = 0;
    }
    char* get() { return p.get(); }
};

template <typename T> using R = std::decay_t<decltype(std::declval<C&>().template convert<T>(std::declval<const char*>(), S{}))>;

template <typename V>
void put(ConvOut& o, bool ok, const V& v) {
    o.ok = ok;
    o.val = enc(v);
    if (!ok) o.dflt = o.val == enc(V{});
}

template <typename T>
ConvOut one(const S& f, const S& d, int route) {
    ConvOut o;
    switch (route) {
    case rt_conv: {
        C c;
        Line l{f};
        auto v = c.convert<T>(l.get(), d);
        put(o, c.valid(), v);
        o.err = c.error_msg();
        o.err_known = true;
        break;
    }
    case rt_conv3: {
        C c;
        Line l{"x" + d + f + d + "y"};
        auto v = c.convert<S, T, S>(l.get(), d);
        o.ok = c.valid();
        o.val = enc(std::get<1>(v));
        if (o.ok && (std::get<0>(v) != "x" || std::get<2>(v) != "y")) o.val += " with wrong neighbours";
        if (!o.ok) o.dflt = enc(v) == enc(decltype(v){});
        o.err = c.error_msg();
        o.err_known = true;
        break;
    }
    case rt_split: {
        C c;
        Line l{f};
        auto& e = c.split(l.get(), d);
        auto v = c.convert<T>(e);
        put(o, c.valid(), v);
        o.err = c.error_msg();
        o.err_known = true;
        break;
    }
    case rt_cached: {
        C c;
        Line l{f + d + "1"};
        c.split(l.get(), d);
        auto v = c.convert<T, void>();
        put(o, c.valid(), v);
        o.err = c.error_msg();
        o.err_known = true;
        break;
    }
    case rt_throw: {
        ss::converter<ss::throw_on_error> c;
        Line l{"0" + d + f};
        try {
            auto v = c.convert<void, T>(l.get(), d);
            put(o, true, v);
        } catch (const ss::exception& e) {
            o.err = e.what();
            o.err_known = true;
        }
        break;
    }
    case rt_plain: {
        ss::converter<> c;
        Line l{f + d};
        auto v = c.convert<T, void>(l.get(), d);
        put(o, c.valid(), v);
        break;
    }
    case rt_parser: {
        S doc = f + "\n";
        Line l{doc, false};
        ss::parser<ss::string_error> p{l.get(), l.n, d};
        auto v = p.get_next<T>();
        o.ok = p.valid();
        o.val = enc(v);
        if (!o.ok) o.dflt = enc(v) == enc(R<T>{});
        o.err = p.error_msg();
        o.err_known = true;
        break;
    }
    case rt_parser3: {
        S doc = "a" + d + "b" + d + f;
        Line l{doc, false};
        ss::parser<ss::throw_on_error> p{l.get(), l.n, d};
        try {
            auto v = p.get_next<void, S, T>();
            o.ok = true;
            o.val = enc(std::get<1>(v));
            if (std::get<0>(v) != "b") o.val += " with a wrong neighbour";
        } catch (const ss::exception& e) {
            o.err = e.what();
            o.err_known = true;
        }
        break;
    }
    case rt_try: {
        S doc = f + d + "z\n";
        Line l{doc, false};
        ss::parser<> p{l.get(), l.n, d};
        auto [a, b] = p.try_next<S, S, S>().template or_else<T, S>().values();
        o.ok = p.valid();
        if (o.ok != b.has_value() || a) {
            o.ok = true;
            o.val = "inconsistent substitute conversion";
        } else if (b) {
            o.val = enc(std::get<0>(*b));
            if (std::get<1>(*b) != "z") o.val += " with a wrong neighbour";
        }
        break;
    }
    case rt_extract:
        if constexpr (std::is_same_v<R<T>, T>) {
            // an empty range needs something to point at
            Line l{f.empty() ? d : f, false};
            T v{};
            o.ok = ss::extract(l.get(), l.get() + f.size(), v);
            o.val = enc(v);
        } else {
            o.has = false;
        }
        break;
    case rt_columns: {
        C c;
        Line l{f.empty() ? d : f, false}, m{"x", false};
        ss::split_data cols{{m.get(), m.get() + 1}, {l.get(), l.get() + f.size()}, {m.get(), m.get() + 1}};
        auto v = c.convert<char, T, void>(cols);
        o.ok = c.valid();
        o.val = enc(std::get<1>(v));
        if (o.ok && std::get<0>(v) != 'x') o.val += " with a wrong neighbour";
        if (!o.ok) o.dflt = enc(v) == enc(decltype(v){});
        o.err = c.error_msg();
        o.err_known = true;
        break;
    }
    }
    return o;
}

struct Reg {
    Reg() {
        auto& v = ConvRegistry::get().all;
        static_cast<void>(v);
#define X(name, ...) v.push_back({name, VARIANT, &one<__VA_ARGS__>});
        CONV_TYPES
    }
} reg;
} // namespace
