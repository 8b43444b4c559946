// One setup (SETUP), one build variant (VARIANT), the error modes in MODES.
#include "sut.hpp"
#include "iface.hpp"
#if SETUP >= 100
#include "custom_setups.hpp"
#else
#include "setups.hpp"
#endif
#include "track.hpp"
#include <stdexcept>

#ifndef FEAT_TYPES
#define FEAT_TYPES 0
#endif
#ifndef FEAT_ITER
#define FEAT_ITER 0
#endif
#ifndef FEAT_TRY
#define FEAT_TRY 0
#endif
#ifndef FEAT_CONV
#define FEAT_CONV 0
#endif
#ifndef FEAT_THROWING
#define FEAT_THROWING 0
#endif

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OPTS CAT(OPTS_, SETUP)

namespace ss_types {
struct tied_is {
    int a{};
    std::string b;
    auto tied() { return std::tie(a, b); }
};
struct obj_is {
    int a{};
    std::string b;
};
struct obj_sv {
    std::string a, b;
};
struct obj_s {
    std::string a;
};
// its conversion throws on "boom"
struct bomb {
    std::string s;
};
struct bomb_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// its constructor throws on "boom"
struct obj_bomb {
    std::string a, b;
    obj_bomb() = default;
    obj_bomb(std::string x, std::string y) : a(std::move(x)), b(std::move(y)) {
        if (b == "boom") throw bomb_error{"boom"};
    }
};
} // namespace ss_types

template <>
inline bool ss::extract(const char* begin, const char* end, ss_types::bomb& v) {
    v.s.assign(begin, end);
    if (v.s == "boom") throw ss_types::bomb_error{"boom"};
    return v.s != "nope";
}

namespace {

using namespace ss_types;

std::string enc(const std::string& s) { return std::to_string(s.size()) + ":" + s + "|"; }
std::string enc(const std::string_view& s) { return enc(std::string{s}); }
std::string enc(int v) { return "i" + std::to_string(v) + "|"; }
std::string enc(double v) { char b[64]; snprintf(b, sizeof b, "%a|", v); return b; }
std::string enc(char v) { return std::string("c") + v + "|"; }
std::string enc(bool v) { return v ? "true|" : "false|"; }
std::string enc(const tied_is& v) { return enc(v.a) + enc(v.b); }
std::string enc(const obj_is& v) { return enc(v.a) + enc(v.b); }
std::string enc(const obj_sv& v) { return enc(v.a) + enc(v.b); }
std::string enc(const obj_s& v) { return enc(v.a); }
std::string enc(const bomb& v) { return enc(v.s); }
std::string enc(const obj_bomb& v) { return enc(v.a) + enc(v.b); }
template <typename T> std::string enc(const std::optional<T>& v);
template <typename... Ts> std::string enc(const std::variant<Ts...>& v);
template <typename... Ts> std::string enc(const std::tuple<Ts...>& v);
std::string enc(const std::vector<std::string>& v) {
    std::string r;
    for (auto& x : v) r += enc(x);
    return r;
}
template <typename T>
std::string enc(const std::optional<T>& v) { return v ? enc(*v) : "n|"; }
template <typename... Ts>
std::string enc(const std::variant<Ts...>& v) {
    return std::visit([](const auto& x) { return enc(x); }, v);
}
template <typename... Ts>
std::string enc(const std::tuple<Ts...>& v) {
    return std::apply([](const auto&... x) { return (std::string{} + ... + enc(x)); }, v);
}

template <typename F>
void guard(Res& r, F&& f) {
    try {
        f();
    } catch (const ss::exception& e) {
        r.exc = Exc::ss;
        r.what = e.what();
    } catch (const std::bad_alloc&) {
        r.exc = Exc::bad_alloc;
    } catch (const bomb_error& e) {
        r.exc = Exc::user;
        r.what = e.what();
    } catch (const std::exception& e) {
        r.exc = Exc::other;
        r.what = e.what();
    }
}

template <int M> struct mode_opts;
template <> struct mode_opts<0> {
    template <typename... O> using parser = ss::parser<O...>;
    template <typename... O> using converter = ss::converter<O...>;
};
template <> struct mode_opts<1> {
    template <typename... O> using parser = ss::parser<O..., ss::string_error>;
    template <typename... O> using converter = ss::converter<O..., ss::string_error>;
};
template <> struct mode_opts<2> {
    template <typename... O> using parser = ss::parser<ss::throw_on_error, O...>;
    template <typename... O> using converter = ss::converter<ss::throw_on_error, O...>;
};
template <int M, typename Dummy, typename... O>
struct pick_parser { using type = typename mode_opts<M>::template parser<O...>; };
template <int M, typename Dummy, typename... O>
struct pick_converter { using type = typename mode_opts<M>::template converter<O...>; };

#if SETUP >= 100
template <int M, int N> struct custom_parser;
template <int N> struct custom_parser<0, N> { using type = typename custom<N>::template parser<>; using conv = typename custom<N>::template converter<>; };
template <int N> struct custom_parser<1, N> { using type = typename custom<N>::template parser<ss::string_error>; using conv = typename custom<N>::template converter<ss::string_error>; };
template <int N> struct custom_parser<2, N> { using type = typename custom<N>::template parser<ss::throw_on_error>; using conv = typename custom<N>::template converter<ss::throw_on_error>; };
#endif

template <typename... O> struct has_ignore_header { static constexpr bool value = (std::is_same_v<O, ss::ignore_header> || ...); };

template <int M>
class PAdapter final : public IParser {
public:
#if SETUP >= 100
    using P = typename custom_parser<M, SETUP>::type;
    static constexpr bool ignore_header = custom<SETUP>::ignore_header;
#else
    using P = typename pick_parser<M, void OPTS>::type;
    template <typename Dummy, typename... O> static constexpr bool ih() { return has_ignore_header<O...>::value; }
    static constexpr bool ignore_header = ih<void OPTS>();
#endif

    explicit PAdapter(P&& p) : p_{std::move(p)} {}

    static std::unique_ptr<IParser> make(const Source& s, const std::string& d, bool dflt, Res& r) {
        std::unique_ptr<IParser> out;
        guard(r, [&] {
            std::optional<P> p;
            {
                // the arguments do not outlive the call
                auto path = std::make_unique<std::string>(s.path), delim = std::make_unique<std::string>(d);
                InSut in;
                if (!s.path.empty()) {
                    if (dflt) p.emplace(*path);
                    else p.emplace(*path, *delim);
                } else {
                    if (dflt) p.emplace(s.data, s.size);
                    else p.emplace(s.data, s.size, *delim);
                }
            }
            out = std::make_unique<PAdapter>(std::move(*p));
        });
        return out;
    }

    ~PAdapter() override = default;
    int mode() const override { return M; }

    Obs obs() const override {
        Obs o;
        o.valid = p_.valid();
        o.eof = p_.eof();
        o.line = p_.line();
        o.pos = p_.position();
        if constexpr (M == 1) o.err = p_.error_msg();
        return o;
    }

    bool can(int shape) const override {
        return FEAT_TYPES || shape == sh_s1 || shape == sh_s2 || shape == sh_s3 || shape == sh_s4 || shape == sh_v2 || shape == sh_is;
    }

    template <typename F>
    Res run(F&& f) {
        Res r;
        guard(r, [&] {
            auto v = [&] { InSut in; return f(); }();
            r.val = enc(v);
        });
        return r;
    }

    Res get(int shape) override {
        using S = std::string;
        switch (shape) {
        case sh_s1: return run([&] { return p_.template get_next<S>(); });
        case sh_s2: return run([&] { return p_.template get_next<S, S>(); });
        case sh_s3: return run([&] { return p_.template get_next<S, S, S>(); });
        case sh_s4: return run([&] { return p_.template get_next<S, S, S, S>(); });
        case sh_v2: {
            views_.clear();
            return run([&] {
                auto v = p_.template get_next<std::string_view, std::string_view>();
                views_ = {std::get<0>(v), std::get<1>(v)};
                return v;
            });
        }
        case sh_is: return run([&] { return p_.template get_next<int, S>(); });
#if FEAT_TYPES
        case sh_s5: return run([&] { return p_.template get_next<S, S, S, S, S>(); });
        case sh_cr: return run([&] { return p_.template get_next<char, ss::ir<int, -9, 99>>(); });
        case sh_bv: return run([&] { return p_.template get_next<std::optional<bool>, std::variant<char, bool, S>>(); });
        case sh_svs: return run([&] { return p_.template get_next<S, void, S>(); });
        case sh_os: return run([&] { return p_.template get_next<std::optional<int>, S>(); });
        case sh_vs: return run([&] { return p_.template get_next<std::variant<int, S>, S>(); });
        case sh_i1: return run([&] { return p_.template get_next<int>(); });
        case sh_tup_is: return run([&] { return p_.template get_next<std::tuple<int, S>>(); });
        case sh_tied_is: return run([&] { return p_.template get_next<tied_is>(); });
        case sh_obj_is: return run([&] { return p_.template get_object<obj_is, int, S>(); });
        case sh_obj_sv: return run([&] { return p_.template get_object<obj_sv, std::tuple<S, void, S>>(); });
        case sh_ne2: return run([&] { return p_.template get_next<ss::ne<S>, int>(); });
        case sh_sss_vec: return run([&] { return p_.template get_object<std::vector<S>, S, S, S>(); });
#endif
#if FEAT_THROWING
        case sh_count: return run([&] { return p_.template get_next<S, bomb>(); });
        case sh_count + 1: return run([&] { auto it = p_.template iterate<S, bomb>(); return *it.begin(); });
        case sh_count + 2: return run([&] { return p_.template get_object<obj_bomb, S, S>(); });
        case sh_count + 3: return run([&] { return p_.template get_next<S, std::optional<bomb>>(); });
        case sh_count + 4: return run([&] { auto it = p_.template iterate_object<obj_bomb, S, S>(); return *it.begin(); });
        case sh_count + 5:
            if constexpr (M != 2) return run([&] { return p_.template try_next<S, bomb>().values(); });
            else return run([&] { return p_.template get_next<S, std::variant<bomb, S>>(); });
#endif
        default: throw std::logic_error("shape not available");
        }
    }

    bool ignore_next() override {
        InSut in;
        return p_.ignore_next();
    }

    bool has_header() const override { return !ignore_header; }

    Res header() override {
        Res r;
        if constexpr (!ignore_header) {
            guard(r, [&] {
                auto v = [&] { InSut in; return p_.header(); }();
                r.val = enc(v);
            });
        }
        return r;
    }
    Res raw_header() override {
        Res r;
        if constexpr (!ignore_header) {
            guard(r, [&] {
                InSut in;
                r.val = p_.raw_header();
            });
        }
        return r;
    }
    Res field_exists(const std::string& f) override {
        Res r;
        if constexpr (!ignore_header) {
            guard(r, [&] {
                InSut in;
                r.val = p_.field_exists(f) ? "1" : "0";
            });
        }
        return r;
    }
    Res use_fields(const std::vector<std::string>& f, int form) override {
        Res r;
        if constexpr (!ignore_header) {
            guard(r, [&] {
                InSut in;
                if (form == 0 || f.empty() || f.size() > 4) p_.use_fields(f);
                else if (f.size() == 1 && form == 1) p_.use_fields(f[0]);
                else if (f.size() == 1) p_.use_fields(f[0].c_str());
                else if (f.size() == 2 && form == 1) p_.use_fields(f[0], f[1]);
                else if (f.size() == 2) p_.use_fields(f[0], f[1].c_str());
                else if (f.size() == 3) p_.use_fields(f[0], f[1], f[2]);
                else p_.use_fields(f[0], f[1], f[2], f[3]);
            });
        }
        return r;
    }

#if FEAT_ITER
    template <typename It>
    Res loop(It&& it, size_t max, const std::function<void(const IterRow&)>& f, int style) {
        Res r;
        guard(r, [&] {
            size_t n = 0;
            auto put = [&](const auto& v) {
                NoSut no;
                IterRow row;
                row.val = enc(v);
                row.obs = obs();
                f(row);
            };
            InSut in;
            if (style == 0) {
                // the test of the limit comes before the increment
                for (auto& v : it) {
                    put(v);
                    if (++n >= max) return;
                }
            } else if (style == 5) {
                // stopped and resumed with the same range
                bool ended = true;
                for (auto& v : it) {
                    put(v);
                    if (++n >= (max + 1) / 2) {
                        ended = false;
                        break;
                    }
                }
                if (n >= max) return;
                if (!ended) {
                    for (auto& v : it) {
                        put(v);
                        if (++n >= max) return;
                    }
                }
            } else {
                auto b = it.begin();
                auto e = it.end();
                while (b != e) {
                    if (b == e) throw std::logic_error("an iterator is both equal to and different from the end");
                    if (style == 1) put(*b);
                    else put(*b.operator->());
                    if (++n >= max) return;
                    if (style == 3) {
                        b++;
                    } else if (style == 4) {
                        std::string was, is;
                        { NoSut no; was = enc(*b); }
                        auto old = b++;
                        { NoSut no; is = enc(*old); }
                        if (was != is) throw std::logic_error("it++ returned another row than the current one");
                    } else {
                        ++b;
                    }
                }
                if (!(b == e)) throw std::logic_error("an iterator is neither equal to nor different from the end");
            }
            r.flag = true;
        });
        return r;
    }
#endif
    Res iterate(int shape, size_t max, const std::function<void(const IterRow&)>& f, int style) override {
        (void)shape; (void)max; (void)f; (void)style;
#if FEAT_ITER
        using S = std::string;
        switch (shape) {
        case sh_s1: return loop(p_.template iterate<S>(), max, f, style);
        case sh_s2: return loop(p_.template iterate<S, S>(), max, f, style);
        case sh_s3: return loop(p_.template iterate<S, S, S>(), max, f, style);
        case sh_is: return loop(p_.template iterate<int, S>(), max, f, style);
        case sh_tup_is: return loop(p_.template iterate<std::tuple<int, S>>(), max, f, style);
        case sh_tied_is: return loop(p_.template iterate<tied_is>(), max, f, style);
        case sh_obj_is: return loop(p_.template iterate_object<obj_is, int, S>(), max, f, style);
        default: break;
        }
#endif
        throw std::logic_error("iteration not available");
    }

    Res chain(int kind, unsigned bits, ChainOut& out) override;

    std::unique_ptr<IParser> move_construct() override {
        InSut in;
        auto r = std::make_unique<PAdapter>(std::move(p_));
        r->views_ = views_;
        return r;
    }
    bool move_assign(IParser& from) override {
        auto* o = dynamic_cast<PAdapter*>(&from);
        if (!o) return false;
        InSut in;
        p_ = std::move(o->p_);
        views_ = o->views_;
        return true;
    }
    const std::vector<std::string_view>& views() const override { return views_; }

private:
    P p_;
    std::vector<std::string_view> views_;
};

#if FEAT_TRY
template <typename T>
std::string enc_alt(const std::optional<T>& v) { return v ? enc(*v) : "none"; }

thread_local std::vector<std::string>* chain_log = nullptr;
thread_local unsigned chain_bits = 0;
// converts to bool: true
struct verdict {
    bool b;
    explicit operator bool() const { return b; }
};
inline verdict logged(int i, const std::string& s) {
    chain_log->push_back(std::to_string(i) + "(" + s + ")");
    return {((chain_bits >> i) & 1) == 0};
}
struct functor {
    verdict operator()(int a, const std::string& b) const { return logged(0, enc(a) + enc(b)); }
};
struct obj_check {
    std::string a, b;
    bool ok() const { return logged(1, enc(a) + enc(b)).b; }
};
inline std::string enc(const obj_check& o) { return enc(o.a) + enc(o.b); }
// knows which alternative is next, and counts its calls
struct counter {
    std::vector<std::string>* log;
    unsigned bits;
    int alt;
    size_t called = 0;
    counter& next() {
        ++alt;
        return *this;
    }
    template <typename... A>
    bool call(const A&... a) {
        ++called;
        log->push_back(std::to_string(alt) + "(" + (std::string{} + ... + enc(a)) + ")");
        return ((bits >> alt) & 1) == 0;
    }
    bool operator()(int a, int b) { return call(a, b); }
    bool operator()(int a, const std::string& b) { return call(a, b); }
    bool operator()(const std::string& a, const std::string& b) { return call(a, b); }
    bool operator()(const std::string& a, const std::string& b, const std::string& c) { return call(a, b, c); }
    bool operator()(const obj_s& o) { return call(o); }
};
inline const char* free_check(const std::string& s) { return logged(2, enc(s)).b ? "yes" : nullptr; }

template <int M>
Res PAdapter<M>::chain(int kind, unsigned bits, ChainOut& out) {
    Res r;
    if constexpr (M != 2) {
        using S = std::string;
        auto& calls = out.calls;
        auto bit = [bits](int i) { return ((bits >> i) & 1) == 0; };
        auto store = [&](auto&& t) {
            std::apply([&](const auto&... x) { (out.values.push_back(enc_alt(x)), ...); }, t);
        };
        // predicates that log their arguments
        auto log = [&](int i, const std::string& s) { calls.push_back(std::to_string(i) + "(" + s + ")"); };
        guard(r, [&] {
            switch (kind) {
            case 0: // no callbacks
                store(p_.template try_next<int, int>()
                          .template or_else<int, S>()
                          .template or_else<S, S, S>()
                          .values());
                break;
            case 1: // whole tuple, separate elements, void results
                store(p_.template try_next<int, int>([&](const auto& t) { log(0, enc(t)); })
                          .template or_else<int, S>([&](int a, const S& b) { log(1, enc(a) + enc(b)); })
                          .template or_else<S, S, S>([&](const S& a, const S& b, const S& c) { log(2, enc(a) + enc(b) + enc(c)); })
                          .values());
                break;
            case 2: // predicates
                store(p_.template try_next<int, int>([&](int a, int b) { log(0, enc(a) + enc(b)); return bit(0); })
                          .template or_else<int, S>([&](const std::tuple<int, S>& t) { log(1, enc(t)); return bit(1); })
                          .template or_else<S, S>([&](S a, S b) { log(2, enc(a) + enc(b)); return bit(2) ? 1 : 0; })
                          .values());
                break;
            case 3: // single elements are not wrapped
                store(p_.template try_next<int>([&](int a) { log(0, enc(a)); return bit(0); })
                          .template or_else<char>([&](char a) { log(1, enc(a)); return bit(1); })
                          .template or_else<S>([&](const S& a) { log(2, enc(a)); return bit(2); })
                          .values());
                break;
            case 4: // objects
                store(p_.template try_object<obj_is, int, S>([&](const obj_is& o) { log(0, enc(o)); return bit(0); })
                          .template or_object<obj_sv, S, S>([&](const obj_sv& o) { log(1, enc(o)); return bit(1); })
                          .template or_object<obj_s, S>([&](const auto& o) { log(2, enc(o)); })
                          .values());
                break;
            case 5: // callbacks without arguments and error callbacks
                store(p_.template try_next<int, int>([&] { log(0, ""); return bit(0); })
                          .on_error([&] { log(10, ""); })
                          .template or_else<int, S>([&] { log(1, ""); })
                          .on_error([&] { log(11, ""); })
                          .template or_else<S>([&] { log(2, ""); return bit(2); })
                          .on_error([&] { log(12, ""); })
                          .values());
                break;
            case 6: // tuples, tied classes, mixed with objects
                store(p_.template try_next<std::tuple<int, void, S>>([&](int a, const S& b) { log(0, enc(a) + enc(b)); return bit(0); })
                          .template or_else<tied_is>([&](const tied_is& t) { log(1, enc(t)); return bit(1); })
                          .template or_object<obj_sv, std::tuple<S, void, S>>([&](const obj_sv& o) { log(2, enc(o)); return bit(2); })
                          .values());
                break;
            case 7: // restrictions
                store(p_.template try_next<ss::gte<int, 5>, S>([&](int a, const S& b) { log(0, enc(a) + enc(b)); return bit(0); })
                          .template or_else<ss::lt<int, 0>, ss::ne<S>>([&](int a, const S& b) { log(1, enc(a) + enc(b)); return bit(1); })
                          .template or_else<int, S>([&](int a, const S& b) { log(2, enc(a) + enc(b)); return bit(2); })
                          .values());
                break;
            case 8: // a single alternative with an error callback given the message
                if constexpr (M == 1) {
                    store(p_.template try_next<int, S>([&](int a, const S& b) { log(0, enc(a) + enc(b)); return bit(0); })
                              .on_error([&](const std::string& e) { log(10, e); })
                              .template or_else<S, S>([&](const S& a, const S& b) { log(1, enc(a) + enc(b)); return bit(1); })
                              .on_error([&](const std::string& e) { log(11, e); })
                              .values());
                } else {
                    store(p_.template try_next<int, S>([&](int a, const S& b) { log(0, enc(a) + enc(b)); return bit(0); })
                              .on_error([&] { log(10, ""); })
                              .template or_else<S, S>([&](const S& a, const S& b) { log(1, enc(a) + enc(b)); return bit(1); })
                              .on_error([&] { log(11, ""); })
                              .values());
                }
                break;
            case 9: // views of the row must survive the other conversions
                store(p_.template try_next<std::string_view, std::string_view>([&](std::string_view a, std::string_view b) {
                            int d = sut_depth;
                            sut_depth = 0;
                            views_ = {a, b};
                            sut_depth = d;
                            log(0, enc(a) + enc(b));
                            return bit(0);
                        })
                          .template or_else<S, S>([&](const S& a, const S& b) { log(1, enc(a) + enc(b)); return bit(1); })
                          .template or_else<int, S>([&](int a, const S& b) { log(2, enc(a) + enc(b)); return bit(2); })
                          .values());
                break;
            case 10: // callbacks that take their arguments by value
                store(p_.template try_next<int, S>([&](int a, S b) { log(0, enc(a) + enc(b)); return bit(0); })
                          .template or_else<S, S>([&](std::tuple<S, S> t) { log(1, enc(t)); return bit(1); })
                          .template or_object<obj_s, S>([&](obj_s o) { log(2, enc(o)); return bit(2); })
                          .values());
                break;
            case 11: { // by value too; kept in variables, the values asked for twice
                auto c1 = p_.template try_next<S, S>([&](S a, S b) { log(0, enc(a) + enc(b)); return bit(0); });
                auto c2 = c1.template or_object<obj_is, int, S>([&](obj_is o) { log(1, enc(o)); return bit(1); });
                auto c3 = c2.template or_else<S, S, S>();
                auto c4 = c3.template or_else<S>([&](S a) { log(3, enc(a)); return bit(3); });
                store(c4.values());
                auto once = out.values;
                out.values.clear();
                store(c4.values());
                if (once != out.values) out.values.push_back("changed when asked for again");
                break;
            }
            case 12: { // other kinds of callables
                chain_log = &calls;
                chain_bits = bits;
                const functor f{};
                store(p_.template try_next<int, S>(f)
                          .template or_object<obj_check, S, S>(&obj_check::ok)
                          .template or_else<S>(&free_check)
                          .values());
                chain_log = nullptr;
                break;
            }
            case 13: { // one callback with a state of its own for all of the alternatives
                counter count{&calls, bits, 0};
                size_t errors = 0;
                auto on_err = [&calls, &errors, n = 0]() mutable { calls.push_back(std::to_string(10 + n++) + "()"); ++errors; };
                store(p_.template try_next<int, int>(count)
                          .on_error(on_err)
                          .template or_else<int, S>(count.next())
                          .on_error(on_err)
                          .template or_else<S, S, S>(count.next())
                          .template or_object<obj_s, S>(count.next())
                          .template or_else<S, S>(count.next())
                          .values());
                if (count.called != calls.size() - errors) out.values.push_back("a callback was not the one given");
                break;
            }
            case chain_thrown: { // one of the callbacks throws
                int at = static_cast<int>(bits >> 8);
                auto call = [&](int i, const std::string& a) {
                    log(i, a);
                    if (i == at) throw bomb_error{"boom"};
                    return bit(i);
                };
                store(p_.template try_next<int, S>([&](int a, const S& b) { return call(0, enc(a) + enc(b)); })
                          .on_error([&] { call(10, ""); })
                          .template or_object<obj_s, S>([&](const obj_s& o) { return call(1, enc(o)); })
                          .on_error([&] { call(11, ""); })
                          .template or_else<S, S>([&](const S& a, const S& b) { return call(2, enc(a) + enc(b)); })
                          .on_error([&] { call(12, ""); })
                          .values());
                break;
            }
            default: throw std::logic_error("chain not available");
            }
        });
    } else {
        (void)kind; (void)bits; (void)out;
    }
    return r;
}
#else
template <int M>
Res PAdapter<M>::chain(int, unsigned, ChainOut&) { throw std::logic_error("chains not available"); }
#endif

#if FEAT_CONV
template <int M>
class CAdapter final : public IConverter {
public:
#if SETUP >= 100
    using C = typename custom_parser<M, SETUP>::conv;
#else
    using C = typename pick_converter<M, void OPTS>::type;
#endif
    static std::unique_ptr<IConverter> make() { return std::make_unique<CAdapter>(); }
    int mode() const override { return M; }

    std::unique_ptr<IConverter> clone(int how) override {
        auto n = std::make_unique<CAdapter>();
        if (how == 0) n->c_ = c_;
        else if (how == 1) n->c_ = std::move(c_);
        else if (how == 2) { C x{c_}; n->c_ = std::move(x); }
        else { C x{std::move(c_)}; n->c_ = x; }
        return n;
    }

    Res split(char* line, const std::string& d, bool dflt) override {
        Res r;
        data_ = nullptr;
        guard(r, [&] {
            auto delim = std::make_unique<std::string>(d);
            InSut in;
            data_ = dflt ? &c_.split(line) : &c_.split(line, *delim);
            for (auto& [b, e] : *data_) r.val += enc(std::string{b, e});
            r.flag = true;
        });
        return r;
    }
    template <typename F>
    Res run(F&& f) {
        Res r;
        guard(r, [&] {
            auto v = [&] { InSut in; return f(); }();
            r.val = enc(v);
        });
        return r;
    }
    template <typename... A>
    Res all(int shape, const A&... a) {
        using S = std::string;
        switch (shape) {
        case sh_s1: return run([&] { return c_.template convert<S>(a...); });
        case sh_s2: return run([&] { return c_.template convert<S, S>(a...); });
        case sh_s3: return run([&] { return c_.template convert<S, S, S>(a...); });
        case sh_s4: return run([&] { return c_.template convert<S, S, S, S>(a...); });
        case sh_s5: return run([&] { return c_.template convert<S, S, S, S, S>(a...); });
#if FEAT_CONV > 1
        case sh_v2: return run([&] { return c_.template convert<std::string_view, std::string_view>(a...); });
        case sh_is: return run([&] { return c_.template convert<int, S>(a...); });
        case sh_cr: return run([&] { return c_.template convert<char, ss::ir<int, -9, 99>>(a...); });
        case sh_bv: return run([&] { return c_.template convert<std::optional<bool>, std::variant<char, bool, S>>(a...); });
        case sh_svs: return run([&] { return c_.template convert<S, void, S>(a...); });
        case sh_os: return run([&] { return c_.template convert<std::optional<int>, S>(a...); });
        case sh_vs: return run([&] { return c_.template convert<std::variant<int, S>, S>(a...); });
        case sh_i1: return run([&] { return c_.template convert<int>(a...); });
        case sh_tup_is: return run([&] { return c_.template convert<std::tuple<int, S>>(a...); });
        case sh_tied_is: return run([&] { return c_.template convert<tied_is>(a...); });
        case sh_obj_is: return run([&] { return c_.template convert_object<obj_is, int, S>(a...); });
        case sh_obj_sv: return run([&] { return c_.template convert_object<obj_sv, std::tuple<S, void, S>>(a...); });
        case sh_ne2: return run([&] { return c_.template convert<ss::ne<S>, int>(a...); });
        case sh_sss_vec: return run([&] { return c_.template convert_object<std::vector<S>, S, S, S>(a...); });
#endif
        default: throw std::logic_error("shape not available");
        }
    }
    Res convert(int shape, char* line, const std::string& d, bool dflt) override {
        if (dflt) return all(shape, line);
        auto delim = std::make_unique<std::string>(d);
        return all(shape, line, *delim);
    }
    Res convert_split(int shape, bool cached) override {
        if (cached || !data_) return all(shape);
        return all(shape, *data_);
    }
    Res convert_columns(int shape, const std::vector<std::pair<const char*, const char*>>& cols) override { return all(shape, cols); }
    bool valid() const override { return c_.valid(); }
    std::string error() const override {
        if constexpr (M == 1) return c_.error_msg();
        else return "";
    }
    std::string columns() const override {
        std::string r;
        if (data_) for (auto& [b, e] : *data_) r += enc(std::string{b, e});
        return r;
    }
    std::vector<std::pair<const char*, const char*>> ranges() const override {
        if (!data_) return {};
        return {data_->begin(), data_->end()};
    }

private:
    C c_;
    const std::remove_reference_t<decltype(std::declval<C&>().split(std::declval<char*>(), std::string{}))>* data_ = nullptr;
};
#define CONV(m) &CAdapter<m>::make
#else
#define CONV(m) nullptr
#endif

struct Reg {
    Reg() {
        auto& v = Registry::get().entries;
#if MODES & 1
        v.push_back({SETUP, 0, VARIANT, &PAdapter<0>::make, CONV(0)});
#endif
#if MODES & 2
        v.push_back({SETUP, 1, VARIANT, &PAdapter<1>::make, CONV(1)});
#endif
#if MODES & 4
        v.push_back({SETUP, 2, VARIANT, &PAdapter<2>::make, CONV(2)});
#endif
    }
} reg;

} // namespace
