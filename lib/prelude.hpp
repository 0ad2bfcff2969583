// Everything the real sources include from outside the repository, with the machine `double`,
// then `double` becomes the symbolic real for what follows (the repository's own text).
#pragma once
#include <bits/c++config.h>
extern "C" [[noreturn]] void vf_bounds_fail(const char* file, int line, const char* cond);
#undef __glibcxx_assert
#define __glibcxx_assert(c) do { if (__builtin_expect(!bool(c), false)) vf_bounds_fail(__FILE__, __LINE__, #c); } while (0)
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <ranges>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <concepts>
#include <span>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <limits.h>
#include <float.h>
#include <ctype.h>
#include "vf.hpp"
#include <spdlog/spdlog.h>
#include <spdlog/fmt/ostr.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/sinks/rotating_file_sink.h>
#include <spdlog/sinks/basic_file_sink.h>
#include <nlohmann/json.hpp>

template<> struct fmt::formatter<sym::Real> : fmt::formatter<std::string> {
  template<class C> auto format(sym::Real r, C& c) const { return fmt::formatter<std::string>::format(sym::token(r.id), c); }
};
namespace sym {
  inline void from_json(const nlohmann::json& j, Real& r) {
    if (j.is_string()) throw nlohmann::json::type_error::create(302, "type must be number, but is string", &j);
    r = R(from_native_token(j.get<nat>()));
  }
  inline void to_json(nlohmann::json& j, const Real& r) { j = token(r.id); }
}
inline sym::Real operator""_sr(const char* s) { return sym::Real(std::strtod(s, nullptr)); }
#define double symReal
