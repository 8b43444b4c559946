#include "sut.hpp"
#define GROUP 0
#include "lists.hpp"
#include "conv_user.hpp"
#include "enc_types.hpp"

namespace {
using S = std::string;
using V = std::string_view;

// made from the values of a row
struct Obj {
    S e = "default";
    Obj() = default;
    Obj(const Obj&) = default;
    Obj(Obj&&) = default;
    Obj& operator=(const Obj&) = default;
    Obj& operator=(Obj&&) = default;
    template <typename A, typename... As, typename = std::enable_if_t<!std::is_same_v<std::decay_t<A>, Obj>>>
    Obj(A&& a, As&&... as) : e{enct::enc(std::decay_t<A>(a))} {
        if constexpr (sizeof...(As) > 0) e = "(" + e + ";" + (std::string{} + ... + (enct::enc(std::decay_t<As>(as)) + ";")) + ")";
    }
};

template <typename... Ts>
struct Tied {
    std::tuple<Ts...> m;
    Tied() = default;
    Tied(Ts... ts) : m{std::move(ts)...} {}
    auto tied() {
        return std::apply([](auto&... x) { return std::tie(x...); }, m);
    }
};
template <typename T> S text(const T& v) { return enct::enc(v); }
S text(const Obj& o) { return o.e; }
template <typename... Ts> S text(const Tied<Ts...>& t) {
    if constexpr (sizeof...(Ts) == 1) return enct::enc(std::get<0>(t.m));
    else return enct::enc(t.m);
}

template <typename T> struct plain_type { static constexpr bool value = !std::is_void_v<T>; };
template <typename T, auto N> struct plain_type<ss::gte<T, N>> { static constexpr bool value = false; };
template <typename T> struct plain_type<ss::ne<T>> { static constexpr bool value = false; };
template <typename T> struct plain_type<conv_user::even<T>> { static constexpr bool value = false; };

struct Line {
    std::unique_ptr<char[]> p;
    size_t n;
    Line(const S& s, bool term = true) : p{new char[s.size() + (term ? 1 : 0)]}, n{s.size()} {
        memcpy(p.get(), s.data(), s.size());
        if (term) p[s.size()] = 0;
    }
    char* get() { return p.get(); }
};

template <typename P, typename F>
ConvOut with(const P& p, F&& f) {
    ConvOut o;
    auto&& v = f();
    o.ok = p.valid();
    o.val = text(v);
    o.err = p.error_msg();
    o.err_known = true;
    return o;
}
template <typename F>
ConvOut thrown(F&& f) {
    ConvOut o;
    try {
        auto v = f();
        o.ok = true;
        o.val = text(v);
    } catch (const ss::exception& e) {
        o.err = e.what();
        o.err_known = true;
        o.val = "";
    }
    return o;
}
template <typename F>
ConvOut iterated(F&& it, const ss::parser<ss::string_error>& p) {
    ConvOut o;
    int n = 0;
    for (auto&& v : it) {
        ++n;
        o.val = text(v);
        o.ok = p.valid();
        o.err = p.error_msg();
        o.err_known = true;
    }
    if (n != 1) o.val += " in " + std::to_string(n) + " rows";
    return o;
}

template <typename... Ts>
ConvOut list(const S& row, const S& d, int form) {
    using C = ss::converter<ss::string_error>;
    using T = std::tuple<Ts...>;
    constexpr bool plain = (plain_type<Ts>::value && ...);
    ConvOut o;
    o.has = true;
    if (!form_is_parser(form)) {
        Line l{row};
        C c;
        ss::converter<ss::throw_on_error> ct;
        switch (form) {
        case fm_convert: return with(c, [&] { return c.convert<Ts...>(l.get(), d); });
        case fm_convert_tuple: return with(c, [&] { return c.convert<T>(l.get(), d); });
        case fm_split: {
            auto& e = c.split(l.get(), d);
            return with(c, [&] { return c.convert<Ts...>(e); });
        }
        case fm_cached: {
            c.split(l.get(), d);
            return with(c, [&] { return c.convert<T>(); });
        }
        case fm_convert_object: return with(c, [&] { return c.convert_object<Obj, Ts...>(l.get(), d); });
        case fm_convert_object_tuple: {
            c.split(l.get(), d);
            return with(c, [&] { return c.convert_object<Obj, T>(); });
        }
        case fm_convert_throw: return thrown([&] { return ct.convert<Ts...>(l.get(), d); });
        case fm_tied_convert:
            if constexpr (plain) return with(c, [&] { return c.convert<Tied<Ts...>>(l.get(), d); });
        }
        o.has = false;
        return o;
    }
    S doc = (form == fm_second_row ? "x" + d + "y\n" : S{}) + row + (row.size() % 2 ? "\n" : "");
    if (row.empty()) doc += "\n";
    Line l{doc, false};
    if (form == fm_next_throw || form == fm_object_throw) {
        ss::parser<ss::throw_on_error> p{l.get(), l.n, d};
        if (form == fm_next_throw) return thrown([&] { return p.template get_next<Ts...>(); });
        return thrown([&] { return p.template get_object<Obj, Ts...>(); });
    }
    ss::parser<ss::string_error> p{l.get(), l.n, d};
    switch (form) {
    case fm_second_row: p.ignore_next(); [[fallthrough]];
    case fm_next: return with(p, [&] { return p.template get_next<Ts...>(); });
    case fm_next_tuple: return with(p, [&] { return p.template get_next<T>(); });
    case fm_object: return with(p, [&] { return p.template get_object<Obj, Ts...>(); });
    case fm_object_tuple: return with(p, [&] { return p.template get_object<Obj, T>(); });
    case fm_iterate: return (iterated)(p.template iterate<Ts...>(), p);
    case fm_iterate_tuple: return (iterated)(p.template iterate<T>(), p);
    case fm_iterate_object: return (iterated)(p.template iterate_object<Obj, Ts...>(), p);
    case fm_try: {
        auto [v] = p.template try_next<Ts...>().values();
        o.ok = p.valid();
        if (v) o.val = text(*v);
        if (o.ok != v.has_value()) o.val = "inconsistent", o.ok = true;
        o.err = p.error_msg();
        o.err_known = true;
        return o;
    }
    case fm_try_object: {
        auto [v] = p.template try_object<Obj, Ts...>().values();
        o.ok = p.valid();
        if (v) o.val = text(*v);
        if (o.ok != v.has_value()) o.val = "inconsistent", o.ok = true;
        o.err = p.error_msg();
        o.err_known = true;
        return o;
    }
    case fm_or_else: {
        auto [a, v] = p.template try_next<ss::ir<int, 1, 0>>().template or_else<Ts...>().values();
        o.ok = p.valid();
        if (v) o.val = text(*v);
        if (o.ok != v.has_value() || a) o.val = "inconsistent", o.ok = true;
        o.err = p.error_msg();
        o.err_known = true;
        return o;
    }
    case fm_tied:
        if constexpr (plain) return with(p, [&] { return p.template get_next<Tied<Ts...>>(); });
        break;
    case fm_tied_iterate:
        if constexpr (plain) return (iterated)(p.template iterate<Tied<Ts...>>(), p);
        break;
    }
    o.has = false;
    return o;
}

using ss::gte;
using ss::ne;
using conv_user::even;
using conv_user::shape;
using OI = std::optional<int>;
using VI = std::variant<int, char>;

struct Reg {
    Reg() {
        auto& v = ListRegistry::get().all;
#define L(name, ...) v.push_back({name, VARIANT, &list<__VA_ARGS__>});
#if PART == 0
        L("int", int)
        L("string", S)
        L("view", V)
        L("opt<int>", OI)
        L("int;string", int, S)
        L("void;int", void, int)
        L("string;void", S, void)
        L("int;void;string", int, void, S)
#elif PART == 1
        L("void;void;double", void, void, double)
        L("void;string;void", void, S, void)
        L("bool;char;float", bool, char, float)
        L("string;int;void;double", S, int, void, double)
        L("int;int;int;int", int, int, int, int)
        L("void;view;void;int;void", void, V, void, int, void)
#elif PART == 2
        L("int;opt<int>;void;string;bool", int, OI, void, S, bool)
        L("var<int,char>;view;shape", VI, V, shape)
        L("void;even<int>", void, even<int>)
        L("gte<int,5>;void;ne<string>", gte<int, 5>, void, ne<S>)
        L("string;string;string;string;string;string;string;string", S, S, S, S, S, S, S, S)
        L("ushort;void;void;ss::int8;ulong;void;opt<int>", unsigned short, void, void, ss::int8, unsigned long, void, OI)
#endif
#if PART == 3
        L("int;string;void;int;view;void;opt<int>;string;void;int;char;string", int, S, void, int, V, void, OI, S, void, int, char, S)
        L("string;string;string;string;string;string;string;string;string;string;string;string;string;string;string;int;string", S, S, S, S, S, S, S, S, S, S, S, S, S, S, S, int, S)
        L("void;void;void;void;void;void;void;void;void;int;void", void, void, void, void, void, void, void, void, void, int, void)
        L("opt<int>;opt<int>;var<int,char>;var<int,char>", OI, OI, VI, VI)
        L("char;int;void;bool;int", char, int, void, bool, int)
#endif
    }
} reg;
} // namespace
