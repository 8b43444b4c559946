// Types of the conversions. Include after the library.
#pragma once
namespace conv_user {
// from the documentation
enum class shape { circle, square, rectangle };
template <typename T>
struct even {
    bool ss_valid(const T& v) const { return v % 2 == 0; }
    const char* error() const { return "number not even"; }
};
template <typename T>
struct odd {
    bool ss_valid(const T& v) const { return v % 2 != 0; }
};
struct short_text {
    bool ss_valid(const std::string& s) const { return s.size() < 4; }
    std::string msg() const { return ""; }
    const char* error() const { return "text too long"; }
};
template <typename T>
struct is_set {
    bool ss_valid(const std::optional<T>& v) const { return v.has_value(); }
    const char* error() const { return "not set"; }
};
// hexadecimal digits only, keeps their number
struct hex {
    std::string s;
    size_t n = 0;
};
} // namespace conv_user

template <>
inline bool ss::extract(const char* begin, const char* end, conv_user::shape& dst) {
    std::string s{begin, end};
    if (s == "circle") dst = conv_user::shape::circle;
    else if (s == "square") dst = conv_user::shape::square;
    else if (s == "rectangle") dst = conv_user::shape::rectangle;
    else return false;
    return true;
}
template <>
inline bool ss::extract(const char* begin, const char* end, conv_user::hex& dst) {
    if (begin == end) return false;
    for (const char* p = begin; p != end; ++p)
        if (!((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f'))) return false;
    dst.s.assign(begin, end);
    dst.n = static_cast<size_t>(end - begin);
    return true;
}
namespace enct {
template <typename T> struct E;
template <> struct E<conv_user::shape> { static std::string e(const conv_user::shape& v) { return "shape " + std::to_string(static_cast<int>(v)); } };
template <> struct E<conv_user::hex> { static std::string e(const conv_user::hex& v) { return "hex " + std::to_string(v.n) + ":" + v.s; } };
} // namespace enct

#if GROUP == 0
#elif GROUP == 1
#define CONV_TYPES \
    X("short", short) X("ushort", unsigned short) X("int", int) X("uint", unsigned) X("long", long) X("ulong", unsigned long) \
    X("llong", long long) X("ullong", unsigned long long) X("ss::int8", ss::int8) X("ss::uint8", ss::uint8)
#elif GROUP == 2
#define CONV_TYPES X("float", float) X("double", double)
#elif GROUP == 3
#define CONV_TYPES \
    X("char", char) X("schar", int8_t) X("uchar", uint8_t) X("bool", bool) X("string", std::string) X("view", std::string_view) \
    X("shape", conv_user::shape) X("hex", conv_user::hex)
#elif GROUP == 4
#define CONV_TYPES \
    X("opt<int>", std::optional<int>) X("opt<char>", std::optional<char>) X("opt<bool>", std::optional<bool>) \
    X("opt<string>", std::optional<std::string>) X("opt<double>", std::optional<double>) X("opt<shape>", std::optional<conv_user::shape>) \
    X("opt<ss::uint8>", std::optional<ss::uint8>) X("opt<opt<int>>", std::optional<std::optional<int>>) \
    X("opt<var<int,char>>", std::optional<std::variant<int, char>>)
#elif GROUP == 5
#define CONV_TYPES \
    X("var<int,char>", std::variant<int, char>) X("var<char,int>", std::variant<char, int>) X("var<int,double,string>", std::variant<int, double, std::string>) \
    X("var<bool,int,shape>", std::variant<bool, int, conv_user::shape>) X("var<string,int>", std::variant<std::string, int>) \
    X("var<shape,view>", std::variant<conv_user::shape, std::string_view>) X("var<opt<int>,string>", std::variant<std::optional<int>, std::string>) \
    X("var<ss::int8,short,long>", std::variant<ss::int8, short, long>) X("var<float,bool,char>", std::variant<float, bool, char>) \
    X("var<hex,ullong>", std::variant<conv_user::hex, unsigned long long>) X("var<int>", std::variant<int>)
#elif GROUP == 6
#define CONV_TYPES \
    X("ax<int,10,20>", ss::ax<int, 10, 20>) X("ax<int,0>", ss::ax<int, 0>) X("nx<int,10,20,30>", ss::nx<int, 10, 20, 30>) X("nx<int,-1>", ss::nx<int, -1>) \
    X("gt<int,5>", ss::gt<int, 5>) X("gte<int,5>", ss::gte<int, 5>) X("lt<int,-5>", ss::lt<int, -5>) X("lte<int,-5>", ss::lte<int, -5>) \
    X("ir<int,-3,7>", ss::ir<int, -3, 7>) X("oor<int,-3,7>", ss::oor<int, -3, 7>) X("ir<int,4,4>", ss::ir<int, 4, 4>) X("oor<int,4,4>", ss::oor<int, 4, 4>)
#elif GROUP == 7
#define CONV_TYPES \
    X("double", double) X("float", float) X("ax<char,'a','b','c'>", ss::ax<char, 'a', 'b', 'c'>) X("nx<char,'A','B'>", ss::nx<char, 'A', 'B'>) X("ir<char,'a','f'>", ss::ir<char, 'a', 'f'>) \
    X("gte<double,0>", ss::gte<double, 0>) X("gt<float,1>", ss::gt<float, 1>) X("ir<double,0,10>", ss::ir<double, 0, 10>) X("oor<float,-1,1>", ss::oor<float, -1, 1>) \
    X("lte<double,2>", ss::lte<double, 2>) X("ax<double,0>", ss::ax<double, 0>) X("nx<float,3,4>", ss::nx<float, 3, 4>) \
    X("gt<uint,7u>", ss::gt<unsigned, 7u>) X("lte<long,-2147483649>", ss::lte<long, -2147483649l>) X("gt<ullong,9e18>", ss::gt<unsigned long long, 9000000000000000000ull>)
#elif GROUP == 8
#define CONV_TYPES \
    X("ne<string>", ss::ne<std::string>) X("ne<view>", ss::ne<std::string_view>) X("even<int>", conv_user::even<int>) X("odd<int>", conv_user::odd<int>) \
    X("even<long>", conv_user::even<long>) X("short_text", conv_user::short_text) X("nx<shape,circle,square>", ss::nx<conv_user::shape, conv_user::shape::circle, conv_user::shape::square>) \
    X("ax<shape,circle>", ss::ax<conv_user::shape, conv_user::shape::circle>) X("gte<opt<int>,0>", ss::gte<std::optional<int>, 0>) X("is_set<int>", conv_user::is_set<int>) \
    X("ax<bool,false>", ss::ax<bool, false>) X("gte<ss::int8,3>", ss::gte<ss::int8, 3>)
#elif GROUP == 9
#define CONV_TYPES \
    X("lt<int,5000000000>", ss::lt<int, 5000000000l>) X("gte<int,-5000000000>", ss::gte<int, -5000000000l>) X("lt<short,40000>", ss::lt<short, 40000>) \
    X("ir<short,-40000,40000>", ss::ir<short, -40000, 40000>) X("oor<ss::int8,-300,200>", ss::oor<ss::int8, -300, 200>) X("gt<ss::uint8,-1>", ss::gt<ss::uint8, -1>) \
    X("lte<ss::uint8,300>", ss::lte<ss::uint8, 300>) X("nx<ss::int8,5,200,261>", ss::nx<ss::int8, 5, 200, 261>) X("ax<ss::int8,5,200,261>", ss::ax<ss::int8, 5, 200, 261>) \
    X("ax<short,65541,-3>", ss::ax<short, 65541, -3>) X("ax<int,'a',4294967301>", ss::ax<int, 'a', 4294967301l>)
#endif
