// Declaration-only stand-in for the third-party refl-cpp header (not available offline).
// No verified function reads anything from it; it only makes opencmw.hpp parse.
#pragma once
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <iostream>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <string_view>
#include <type_traits>
#include <utility>
namespace refl {
template<std::size_t N> struct const_string {
    char data[N + 1]{}; static constexpr std::size_t size = N;
    template<std::size_t P, std::size_t C> constexpr const_string<C> substr() const { return {}; }
    constexpr bool operator==(const char *) const { return false; }
    constexpr const char* c_str() const { return data; }
    constexpr std::string str() const { return std::string(data); }
};
struct nothing_t { const_string<1> name{}; struct members_t { static constexpr std::size_t size = 0; } members{}; };
template<class T> constexpr bool is_reflectable() { return false; }
template<class T> constexpr nothing_t reflect() { return {}; }
template<class T> constexpr nothing_t reflect(const T &) { return {}; }
constexpr const_string<1> get_name(nothing_t) { return {}; }
namespace trait { template<class T> constexpr bool is_reflectable_v = false; }
namespace util {
template<class L, class F> constexpr void for_each(L, F) {}
template<class P, class L, class F> constexpr auto map_to_array(L, F) { return std::array<P, 0>{}; }
}
namespace descriptor {
template<class T> constexpr const char *get_display_name_const(T) { return ""; }
template<class T> constexpr nothing_t::members_t get_members(T) { return {}; }
template<class T> constexpr bool is_field(T) { return true; }
template<class T> constexpr bool is_writable(T) { return true; }
}
}
template<class L, class F> constexpr void for_each(L, F) {}
using refl::descriptor::get_display_name_const;
#define REFL_TYPE(...)
#define REFL_DETAIL_FOR_EACH(...)
#define REFL_END
