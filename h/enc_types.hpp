// Canonical text of a value, with its type. Include after the library.
#pragma once
#include <cstring>
namespace enct {
template <typename T> struct tag { static std::string n() { return "?"; } };
#define ENC_TAG(t, s) template <> struct tag<t> { static std::string n() { return s; } };
ENC_TAG(short, "short") ENC_TAG(unsigned short, "ushort") ENC_TAG(int, "int") ENC_TAG(unsigned, "uint")
ENC_TAG(long, "long") ENC_TAG(unsigned long, "ulong") ENC_TAG(long long, "llong") ENC_TAG(unsigned long long, "ullong")
ENC_TAG(ss::int8, "ss::int8") ENC_TAG(ss::uint8, "ss::uint8") ENC_TAG(char, "char") ENC_TAG(signed char, "schar")
ENC_TAG(unsigned char, "uchar") ENC_TAG(bool, "bool") ENC_TAG(float, "float") ENC_TAG(double, "double")
ENC_TAG(std::string, "string") ENC_TAG(std::string_view, "view")
template <typename T> std::string num(T v) {
    std::string b;
    std::snprintf(nullptr, 0, "%s", "");
    if constexpr (std::is_signed_v<T>) b = std::to_string(static_cast<long long>(v));
    else b = std::to_string(static_cast<unsigned long long>(v));
    return tag<T>::n() + " " + b;
}
template <typename T> struct E {
    static std::string e(const T& v) { return num(v); }
};
template <> struct E<ss::int8> { static std::string e(const ss::int8& v) { return "ss::int8 " + std::to_string(static_cast<int>(v.value)); } };
template <> struct E<ss::uint8> { static std::string e(const ss::uint8& v) { return "ss::uint8 " + std::to_string(static_cast<int>(v.value)); } };
template <> struct E<float> {
    static std::string e(float v) {
        uint32_t u;
        std::memcpy(&u, &v, 4);
        char b[32];
        std::snprintf(b, sizeof b, "float %08x", u);
        return b;
    }
};
template <> struct E<double> {
    static std::string e(double v) {
        uint64_t u;
        std::memcpy(&u, &v, 8);
        char b[32];
        std::snprintf(b, sizeof b, "double %016llx", static_cast<unsigned long long>(u));
        return b;
    }
};
template <> struct E<std::string> { static std::string e(const std::string& v) { return "string " + std::to_string(v.size()) + ":" + v; } };
template <> struct E<std::string_view> { static std::string e(const std::string_view& v) { return "view " + std::to_string(v.size()) + ":" + std::string{v}; } };
template <typename T> struct E<std::optional<T>> { static std::string e(const std::optional<T>& v) { return v ? "some(" + E<T>::e(*v) + ")" : "none"; } };
template <typename... Ts> struct E<std::variant<Ts...>> {
    static std::string e(const std::variant<Ts...>& v) {
        return "alt" + std::to_string(v.index()) + "(" + std::visit([](const auto& x) { return E<std::decay_t<decltype(x)>>::e(x); }, v) + ")";
    }
};
template <typename... Ts> struct E<std::tuple<Ts...>> {
    static std::string e(const std::tuple<Ts...>& v) {
        return "(" + std::apply([](const auto&... x) { return (std::string{} + ... + (E<std::decay_t<decltype(x)>>::e(x) + ";")); }, v) + ")";
    }
};
template <typename T> std::string enc(const T& v) { return E<T>::e(v); }
} // namespace enct
