// Declaration-only stand-in for the third-party mp-units library (not available offline).
#pragma once
#include <concepts>
#include <cstddef>
#include <string_view>
#include <type_traits>
namespace units {
template<typename CharT, std::size_t N> struct basic_fixed_string {
    CharT data_[N + 1]{};
    constexpr basic_fixed_string() = default;
    constexpr basic_fixed_string(const CharT (&t)[N + 1]) { for (std::size_t i = 0; i < N; ++i) data_[i] = t[i]; }
    constexpr std::size_t size() const { return N; }
    constexpr const CharT *c_str() const { return data_; }
    constexpr const CharT *data() const { return data_; }
    constexpr bool empty() const { return N == 0; }
};
template<typename CharT, std::size_t N> basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<class A, class B> inline constexpr bool is_same_v = std::is_same_v<A, B>;
template<typename T, template<typename...> typename Type> inline constexpr bool is_specialization_of = false;
template<typename... P, template<typename...> typename Type> inline constexpr bool is_specialization_of<Type<P...>, Type> = true;
namespace detail {
template<template<typename...> typename Type, typename... P> void to_base(const volatile Type<P...> *);
template<class D, class U> struct utext { constexpr basic_fixed_string<char, 0> ascii() const { return {}; } };
template<class D, class U> constexpr utext<D, U> unit_text() { return {}; }
}
template<typename T, template<typename...> typename Type> concept is_derived_from_specialization_of = requires(T *t) { detail::to_base<Type>(t); };
struct one {};
struct dim_one {};
template<class D, class U, class Rep = double> struct quantity {
    using dimension = D; using unit = U; using rep = Rep;
    Rep v_{};
    constexpr quantity() = default;
    constexpr explicit(false) quantity(Rep r) : v_(r) {}
    constexpr Rep &number() & { return v_; }
    constexpr const Rep &number() const & { return v_; }
    constexpr bool operator==(const quantity &) const = default;
    constexpr auto operator<=>(const quantity &) const = default;
};
template<class T> inline constexpr bool is_quantity_impl = false;
template<class D, class U, class R> inline constexpr bool is_quantity_impl<quantity<D, U, R>> = true;
template<class T> concept Quantity = is_quantity_impl<T>;
template<class T> concept QuantityLike = false;
template<class T> inline constexpr bool wrapped_quantity_ = false;
template<class T> concept scalable_ = std::is_arithmetic_v<T>;
template<class T> concept Representation = std::is_arithmetic_v<T>;
template<class U> using dimensionless_alias = quantity<dim_one, U>;
template<class U, class R = double> using dimensionless = quantity<dim_one, U, R>;
}
