// Setups written differently from those in setups.hpp but meaning the same: other
// orders, one-sided for both-sided trimming, predefined and nested setups. E is
// the error mode (string_error, throw_on_error or nothing) and stands anywhere.
#pragma once
#define Q ss::quote<'"'>
#define ESC ss::escape<'\\'>
#define ML ss::multiline
#define IE ss::ignore_empty
#define IH ss::ignore_header
template <int N> struct custom;
#define CUSTOM(n, ih, ...)                                             \
    template <> struct custom<n> {                                     \
        static constexpr bool ignore_header = ih;                      \
        template <typename... E> using parser = ss::parser<__VA_ARGS__>;       \
        template <typename... E> using converter = ss::converter<__VA_ARGS__>; \
    };
CUSTOM(100, false, ss::multiline_restricted<3>, IE, E..., ss::trim<' '>, ESC, Q)
CUSTOM(101, false, ss::setup<Q, ESC, ss::trim<' '>, IE, ss::multiline_restricted<3>, E...>)
CUSTOM(102, false, ss::setup<E..., ML, ss::trim<' '>, ESC, Q>)
CUSTOM(103, false, ss::trim_right<' '>, E..., ss::trim_left<' '>, ML, ESC, Q)
CUSTOM(104, false, ss::setup<ss::trim_left<' ', '\t'>, ss::trim_right<'\t', ' '>, E..., Q, ESC>)
CUSTOM(105, false, ss::multiline_restricted<4>, ss::escape<'^', '\\'>, E..., ss::quote<'\''>)
CUSTOM(106, true, ML, Q, E..., IE, IH)
CUSTOM(107, true, ss::setup<ML, IE, E..., Q, IH>)
CUSTOM(108, false, ss::trim_right<' '>, ESC, E..., ss::trim_left<'_'>, Q)
CUSTOM(109, false, ss::setup<ss::setup<ss::multiline_restricted<2>, E..., ss::trim<'\t', ' '>, Q, ESC>>)
CUSTOM(110, false, E..., ESC, IE, ML, ss::trim<' '>, Q)
CUSTOM(111, false, ss::setup<E...>)
CUSTOM(112, true, ss::setup<E..., IH>)
CUSTOM(113, false, ML, E..., Q)
CUSTOM(114, false, ss::setup<ss::trim_left<' '>, IE, ss::trim_right<' '>, Q, E...>)
CUSTOM(115, false, ML, ESC, E...)
CUSTOM(116, false, ss::multiline_restricted<0>, E..., ESC, Q)
CUSTOM(117, false, ss::setup<E..., ESC, Q>)
CUSTOM(118, false, ss::setup<ss::escape<'^', '\\'>, E..., ss::quote<'\''>>)
CUSTOM(119, false, ss::trim<'\t', ' '>, E..., Q)
CUSTOM(120, false, ss::escape<'%', '\xff', '^', '~', '/', '\\', '`'>, E..., ss::trim_right<'_', '*', '.', ' ', '\t', '\xa0'>, ss::trim_left<'\xa0', '.', '_', '\t', ' ', '*'>, Q)
CUSTOM(121, false, ss::setup<Q, ESC, ss::multiline_restricted<300>, E...>)
#undef Q
#undef ESC
#undef ML
#undef IE
#undef IH
// 100 + i means the same as custom_of[i]
