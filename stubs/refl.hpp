// Minimal stand-in for refl-cpp (not installed in this sandbox): the subset opencmw-cpp uses.
#pragma once
#include <array>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace refl {
namespace util {
template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char                         data[N + 1]{};
    constexpr const_string()          = default;
    constexpr const_string(const const_string &) = default;
    constexpr const_string(const char (&s)[N + 1]) {
        for (std::size_t i = 0; i < N; ++i) data[i] = s[i];
    }
    constexpr const char *c_str() const noexcept { return data; }
    std::string           str() const { return std::string(data, N); }
    constexpr operator std::string_view() const noexcept { return { data, N }; }
    template<std::size_t Pos, std::size_t Count>
    constexpr auto substr() const {
        constexpr std::size_t NewSize = Pos >= N ? 0 : (Count < N - Pos ? Count : N - Pos);
        const_string<NewSize> r;
        for (std::size_t i = 0; i < NewSize; ++i) r.data[i] = data[i + Pos];
        return r;
    }
    template<std::size_t M>
    constexpr bool operator==(const const_string<M> &o) const noexcept {
        if constexpr (N != M) return false;
        else {
            for (std::size_t i = 0; i < N; ++i) if (data[i] != o.data[i]) return false;
            return true;
        }
    }
    template<std::size_t M>
    constexpr bool operator==(const char (&o)[M]) const noexcept { return std::string_view(data, N) == std::string_view(o, M - 1); }
};
template<std::size_t N>
const_string(const char (&)[N]) -> const_string<N - 1>;
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << std::string_view(s.data, N); }
template<std::size_t N>
constexpr const_string<N - 1> make_const_string(const char (&s)[N]) { return const_string<N - 1>(s); }

template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
};

template<typename F, typename... Ts>
constexpr void for_each(type_list<Ts...>, F &&f) {
    if constexpr ((std::is_invocable_v<F, Ts, std::size_t> && ...)) {
        std::size_t i = 0;
        (void) i;
        (f(Ts{}, i++), ...);
    } else {
        (f(Ts{}), ...);
    }
}
template<typename R, typename F, typename... Ts, std::size_t... I>
constexpr std::array<R, sizeof...(Ts)> map_to_array_impl(type_list<Ts...>, F &&f, std::index_sequence<I...>) {
    if constexpr ((std::is_invocable_v<F, Ts, std::size_t> && ...)) return { R(f(Ts{}, I))... };
    else return { R(f(Ts{}))... };
}
template<typename R, typename F, typename... Ts>
constexpr std::array<R, sizeof...(Ts)> map_to_array(type_list<Ts...> l, F &&f) {
    return map_to_array_impl<R>(l, std::forward<F>(f), std::make_index_sequence<sizeof...(Ts)>{});
}
namespace detail {
template<typename A, typename B> struct cat;
template<typename... A, typename... B> struct cat<type_list<A...>, type_list<B...>> { using type = type_list<A..., B...>; };
struct empty_probe {};
template<typename F> constexpr F stateless() { return std::bit_cast<F>(empty_probe{}); }
template<typename F, typename L> struct filt;
template<typename F> struct filt<F, type_list<>> { using type = type_list<>; };
template<typename F, typename T, typename... R> struct filt<F, type_list<T, R...>> {
    using rest = typename filt<F, type_list<R...>>::type;
    using type = std::conditional_t<stateless<F>()(T{}), typename cat<type_list<T>, rest>::type, rest>;
};
}
template<typename F, typename... Ts>
constexpr auto filter(type_list<Ts...>, F) { return typename detail::filt<F, type_list<Ts...>>::type{}; }
template<typename F, typename... Ts>
constexpr bool contains(type_list<Ts...>, F) { return (detail::stateless<F>()(Ts{}) || ...); }
template<typename T, typename... R>
constexpr T get_first(type_list<T, R...>) { return {}; }
template<typename F, typename... Ts>
constexpr auto find_first(type_list<Ts...> l, F f) { return get_first(filter(l, f)); }
template<typename F, typename... Ts>
constexpr auto find_one(type_list<Ts...> l, F f) {
    using R = decltype(filter(l, f));
    static_assert(R::size == 1, "find_one: not exactly one match");
    return get_first(R{});
}
template<std::size_t I, typename... Ts>
constexpr auto get_at(type_list<Ts...>) { return std::tuple_element_t<I, std::tuple<Ts...>>{}; }
} // namespace util
using util::const_string;
using util::type_list;

namespace detail {
template<typename T> struct info {};           // primary: not reflectable
template<typename T> concept has_info = requires { typename info<T>::refl_type; };
} // namespace detail

namespace descriptor {
template<typename T, std::size_t I> struct field_descriptor;
template<typename T> struct type_descriptor;

template<typename T> struct members_of;
template<typename T, typename Seq> struct members_impl;
template<typename T, std::size_t... I> struct members_impl<T, std::index_sequence<I...>> { using type = util::type_list<field_descriptor<T, I>...>; };
template<typename T> struct members_of { using type = typename members_impl<T, std::make_index_sequence<detail::info<T>::count>>::type; };

template<typename T>
struct type_descriptor {
    using type = T;
    using member_types = typename members_of<T>::type;
    static constexpr auto name    = detail::info<T>::name;
    static constexpr auto members = member_types{};
};
template<typename T, std::size_t I>
struct field_descriptor {
    using declaring_type = T;
    using M                          = typename detail::info<T>::template member<I>;
    static constexpr auto name       = M::name;
    static constexpr auto pointer    = M::pointer;
    using value_type                 = std::remove_reference_t<decltype(std::declval<T &>().*pointer)>;
    static constexpr auto declarator = type_descriptor<T>{};
    static constexpr bool is_writable = !std::is_const_v<value_type>;
    template<typename U> constexpr decltype(auto) operator()(U &&u) const { return (std::forward<U>(u).*pointer); }
};
template<typename T> constexpr auto get_members(type_descriptor<T>) { return typename members_of<T>::type{}; }
template<typename T> constexpr auto get_name(type_descriptor<T>) { return detail::info<T>::name; }
template<typename T, std::size_t I> constexpr auto get_name(field_descriptor<T, I>) { return field_descriptor<T, I>::name; }
template<typename T, std::size_t I> constexpr auto get_display_name(field_descriptor<T, I>) { return field_descriptor<T, I>::name.c_str(); }
template<typename T, std::size_t I> constexpr bool is_field(field_descriptor<T, I>) { return true; }
template<typename T, std::size_t I> constexpr bool is_static(field_descriptor<T, I>) { return false; }
template<typename T, std::size_t I> constexpr bool is_function(field_descriptor<T, I>) { return false; }
template<typename T, std::size_t I> constexpr bool is_writable(field_descriptor<T, I>) { return field_descriptor<T, I>::is_writable; }
template<typename T, std::size_t I> constexpr bool is_readable(field_descriptor<T, I>) { return true; }
using util::for_each;
using util::filter;
using util::contains;
using util::find_first;
using util::find_one;
} // namespace descriptor

namespace trait {
template<typename T> struct is_reflectable : std::bool_constant<detail::has_info<std::remove_cv_t<T>>> {};
template<typename T> inline constexpr bool is_reflectable_v = is_reflectable<T>::value;
}
template<typename T> constexpr bool is_reflectable() noexcept { return trait::is_reflectable_v<T>; }
template<typename T> constexpr bool is_reflectable(const T &) noexcept { return trait::is_reflectable_v<T>; }
template<typename T> constexpr descriptor::type_descriptor<std::remove_cv_t<T>> reflect() noexcept { return {}; }
template<typename T> constexpr descriptor::type_descriptor<std::remove_cv_t<T>> reflect(const T &) noexcept { return {}; }
} // namespace refl

// refl-cpp reflects a number of standard types out of the box
#include <memory>
namespace refl::detail {
template<typename C, typename Tr, typename A> struct info<std::basic_string<C, Tr, A>> { using refl_type = std::basic_string<C, Tr, A>; static constexpr auto name = refl::util::make_const_string("std::basic_string"); static constexpr std::size_t count = 0; };
template<typename C, typename Tr> struct info<std::basic_string_view<C, Tr>> { using refl_type = std::basic_string_view<C, Tr>; static constexpr auto name = refl::util::make_const_string("std::basic_string_view"); static constexpr std::size_t count = 0; };
template<typename T, typename D> struct info<std::unique_ptr<T, D>> { using refl_type = std::unique_ptr<T, D>; static constexpr auto name = refl::util::make_const_string("std::unique_ptr"); static constexpr std::size_t count = 0; };
template<typename T> struct info<std::shared_ptr<T>> { using refl_type = std::shared_ptr<T>; static constexpr auto name = refl::util::make_const_string("std::shared_ptr"); static constexpr std::size_t count = 0; };
}

#define REFL_STUB_EXPAND_TYPE(...) __VA_ARGS__
#define REFL_STUB_FIRST(X, ...) X
#define REFL_STUB_STR(X) #X
#define REFL_STUB_STR2(X) REFL_STUB_STR(X)
// REFL_TYPE(T) opens the specialisation, REFL_FIELD / REFL_DETAIL_EX_1_field add one member each, REFL_END closes it
#define REFL_TYPE(TypeName, ...) \
    namespace refl::detail { \
    template<> struct info<TypeName> { \
        using refl_type = TypeName; \
        static constexpr auto name = ::refl::util::make_const_string(REFL_STUB_STR(TypeName)); \
        static constexpr std::size_t start = __COUNTER__; \
        template<std::size_t I, typename = void> struct member_at; \
        template<std::size_t I> using member = member_at<I>;
#define REFL_FIELD(F, ...) REFL_STUB_FIELD(F, __COUNTER__)
#define REFL_STUB_FIELD(F, C) \
        template<typename D> struct member_at<C - start - 1, D> { \
            static constexpr auto name = ::refl::util::make_const_string(REFL_STUB_STR(F)); \
            static constexpr auto pointer = &refl_type::F; \
        };
#define REFL_DETAIL_EX_1_field(F, ...) REFL_FIELD(F)
#define REFL_END \
        static constexpr std::size_t count = __COUNTER__ - start - 1; \
    }; \
    }
#define REFL_AUTO(...)
#define REFL_STUB_PARENS ()
#define REFL_STUB_E(...) REFL_STUB_E3(REFL_STUB_E3(REFL_STUB_E3(REFL_STUB_E3(__VA_ARGS__))))
#define REFL_STUB_E3(...) REFL_STUB_E2(REFL_STUB_E2(REFL_STUB_E2(REFL_STUB_E2(__VA_ARGS__))))
#define REFL_STUB_E2(...) REFL_STUB_E1(REFL_STUB_E1(REFL_STUB_E1(REFL_STUB_E1(__VA_ARGS__))))
#define REFL_STUB_E1(...) __VA_ARGS__
#define REFL_DETAIL_FOR_EACH(M, ...) __VA_OPT__(REFL_STUB_E(REFL_STUB_FE(M, __VA_ARGS__)))
#define REFL_STUB_FE(M, A, ...) M(A) __VA_OPT__(REFL_STUB_FEA REFL_STUB_PARENS (M, __VA_ARGS__))
#define REFL_STUB_FEA() REFL_STUB_FE
