// Minimal stand-in for mp-units 0.8 (not installed in this sandbox): the subset opencmw-cpp uses.
#pragma once
#include <chrono>
#include <cmath>
#include <functional>
#include <cstring>
#include <sstream>
#include <iostream>
#include <memory>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1] = {};
    using value_type   = CharT;
    constexpr explicit(false) basic_fixed_string(CharT ch) noexcept requires(N == 1) { data_[0] = ch; }
    constexpr explicit(false) basic_fixed_string(const CharT (&txt)[N + 1]) noexcept {
        for (std::size_t i = 0; i < N; ++i) data_[i] = txt[i];
    }
    [[nodiscard]] constexpr bool         empty() const noexcept { return N == 0; }
    [[nodiscard]] constexpr std::size_t  size() const noexcept { return N; }
    [[nodiscard]] constexpr const CharT *data() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT *c_str() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT &operator[](std::size_t i) const noexcept { return data_[i]; }
    [[nodiscard]] constexpr auto         operator<=>(const basic_fixed_string &) const = default;
    template<std::size_t N2>
    [[nodiscard]] friend constexpr bool operator==(const basic_fixed_string &, const basic_fixed_string<CharT, N2> &) { return false; }
};
template<typename CharT, std::size_t N>
basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<typename CharT>
basic_fixed_string(CharT) -> basic_fixed_string<CharT, 1>;
template<std::size_t N> using fixed_string = basic_fixed_string<char, N>;

template<typename T, typename U> inline constexpr bool is_same_v = false;
template<typename T> inline constexpr bool is_same_v<T, T> = true;
template<typename T, template<typename...> typename Type> inline constexpr bool is_specialization_of = false;
template<typename... Params, template<typename...> typename Type> inline constexpr bool is_specialization_of<Type<Params...>, Type> = true;
namespace detail {
template<template<typename...> typename Type> struct derived_probe {
    template<typename... P> static std::true_type test(const volatile Type<P...> *);
    static std::false_type test(...);
};
}
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = decltype(detail::derived_probe<Type>::test(static_cast<std::remove_cvref_t<T> *>(nullptr)))::value;

struct dim_one {};
struct one { static constexpr const char *text() { return ""; } };
namespace isq { struct dim_time {}; }

template<typename D, typename U, typename R = double> class quantity;
template<typename T> inline constexpr bool is_quantity = false;
template<typename D, typename U, typename R> inline constexpr bool is_quantity<quantity<D, U, R>> = true;
template<typename T> concept Quantity = is_quantity<T>;
template<typename T> concept QuantityLike = false;
template<typename T> concept wrapped_quantity_ = requires { typename T::value_type; } && Quantity<typename T::value_type>;
template<typename T> concept scalable_ = requires(T v, std::int64_t i, double d) { requires (requires { { v * i } ; { i * v }; { v / i }; } || requires { {v * d}; {v / d}; }); };
template<typename T> concept Representation = (!Quantity<T>) && (!QuantityLike<T>) && (!wrapped_quantity_<T>) && std::regular<T> && scalable_<T>;

template<typename D, typename U, typename R>
class quantity {
    R number_{};
public:
    using dimension = D; using unit = U; using rep = R;
    constexpr quantity() = default;
    template<typename V> requires(std::is_convertible_v<V, R> && !is_quantity<std::remove_cvref_t<V>>)
    constexpr explicit(!(is_same_v<U, one>)) quantity(const V &v) : number_(static_cast<R>(v)) {}
    constexpr quantity(const quantity &) = default;
    constexpr quantity(quantity &&)      = default;
    constexpr quantity &operator=(const quantity &) = default;
    constexpr quantity &operator=(quantity &&) = default;
    constexpr R       &number() & noexcept { return number_; }
    constexpr const R &number() const & noexcept { return number_; }
    constexpr R      &&number() && noexcept { return std::move(number_); }
    constexpr const R &&number() const && noexcept { return std::move(number_); }
    [[nodiscard]] friend constexpr auto operator<=>(const quantity &l, const quantity &r) requires std::three_way_comparable<R> { return l.number_ <=> r.number_; }
    [[nodiscard]] friend constexpr bool operator==(const quantity &l, const quantity &r) { return l.number_ == r.number_; }
    constexpr quantity &operator+=(const quantity &o) { number_ += o.number_; return *this; }
    constexpr quantity &operator-=(const quantity &o) { number_ -= o.number_; return *this; }
    constexpr quantity &operator*=(const R &v) { number_ *= v; return *this; }
};
template<typename U, typename R = double> using dimensionless = quantity<dim_one, U, R>;

namespace detail {
template<typename D, typename U> struct unit_text_t {
    static constexpr std::size_t len() { std::size_t n = 0; while (U::text()[n]) ++n; return n; }
    constexpr auto ascii() const {
        char b[len() + 1]{};
        for (std::size_t i = 0; i < len(); ++i) b[i] = U::text()[i];
        return basic_fixed_string<char, len()>(b);
    }
};
template<typename D, typename U> constexpr unit_text_t<D, U> unit_text() { return {}; }
}
namespace isq {
template<typename U, typename R> std::true_type  time_probe(const quantity<dim_time, U, R> *);
std::false_type time_probe(...);
template<typename T> concept Time = decltype(time_probe(static_cast<std::remove_cvref_t<T> *>(nullptr)))::value;
namespace si {
struct second { static constexpr const char *text() { return "s"; } };
struct millisecond { static constexpr const char *text() { return "ms"; } };
struct microsecond { static constexpr const char *text() { return "us"; } };
struct nanosecond { static constexpr const char *text() { return "ns"; } };
struct metre { static constexpr const char *text() { return "m"; } };
template<typename U, typename R = double> using time = quantity<dim_time, U, R>;
struct dim_length {};
template<typename U, typename R = double> using length = quantity<dim_length, U, R>;
struct ampere { static constexpr const char *text() { return "A"; } };
struct metre_per_second { static constexpr const char *text() { return "m/s"; } };
struct dim_electric_current {};
template<typename U, typename R = double> using electric_current = quantity<dim_electric_current, U, R>;
struct gigaelectronvolt { static constexpr const char *text() { return "GeV"; } };
struct kilogram { static constexpr const char *text() { return "kg"; } };
struct ohm { static constexpr const char *text() { return "Ohm"; } };
struct kiloohm { static constexpr const char *text() { return "kOhm"; } };
struct kilovolt { static constexpr const char *text() { return "kV"; } };
struct dim_energy {};
template<typename U, typename R = double> using energy = quantity<dim_energy, U, R>;
struct dim_mass {};
template<typename U, typename R = double> using mass = quantity<dim_mass, U, R>;
struct dim_resistance {};
template<typename U, typename R = double> using resistance = quantity<dim_resistance, U, R>;
struct dim_speed {};
template<typename U, typename R = double> using speed = quantity<dim_speed, U, R>;
}
}
template<typename D, typename U, typename R>
std::ostream &operator<<(std::ostream &os, const quantity<D, U, R> &q) { return os << q.number(); }
} // namespace units
