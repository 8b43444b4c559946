// Includes the library under test in the variant asked for.
#pragma once
// everything the library may include comes first, so that renaming its
// namespace cannot reach the standard library
#include <algorithm>
#include <array>
#include <cctype>
#include <cerrno>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fast_float/fast_float.h>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <sys/types.h>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#if VARIANT == 1
#define ss ss_single
#include SSP_SINGLE_HEADER
#elif VARIANT == 3
#define ss ss_strtod
#define SSP_DISABLE_FAST_FLOAT
#include <ss/parser.hpp>
#elif VARIANT == 2
#define ss ss_portable
#undef __unix__
#include <ss/parser.hpp>
#define __unix__ 1
#else
#include <ss/parser.hpp>
#endif
