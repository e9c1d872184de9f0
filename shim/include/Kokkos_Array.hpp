#pragma once
#include <cstddef>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include "Kokkos_Macros.hpp"
namespace Kokkos {
namespace Impl {
inline void array_oob(std::size_t i, std::size_t n)
{
    ::vshim::violation("array-out-of-bounds", "Kokkos::Array index " + std::to_string(static_cast<long>(i)) + " size " + std::to_string(n));
}
} // namespace Impl
template <class T, std::size_t N>
struct Array
{
    T m_elem[N];
    using value_type = T;
    using reference = T&;
    using const_reference = T const&;
    using size_type = std::size_t;
    using pointer = T*;
    using const_pointer = T const*;
    static constexpr std::size_t size() { return N; }
    static constexpr bool empty() { return false; }
    constexpr std::size_t max_size() const { return N; }
    template <class I>
    constexpr T& operator[](I const& i)
    {
        if (static_cast<std::size_t>(i) >= N) { Impl::array_oob(static_cast<std::size_t>(i), N); }
        return m_elem[i];
    }
    template <class I>
    constexpr T const& operator[](I const& i) const
    {
        if (static_cast<std::size_t>(i) >= N) { Impl::array_oob(static_cast<std::size_t>(i), N); }
        return m_elem[i];
    }
    constexpr T* data() { return &m_elem[0]; }
    constexpr T const* data() const { return &m_elem[0]; }
    friend constexpr bool operator==(Array const& a, Array const& b)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!(a.m_elem[i] == b.m_elem[i])) { return false; }
        }
        return true;
    }
};
template <class T>
struct Array<T, 0>
{
    using value_type = T;
    static constexpr std::size_t size() { return 0; }
    static constexpr bool empty() { return true; }
    template <class I>
    T& operator[](I const& i) const
    {
        Impl::array_oob(static_cast<std::size_t>(i), 0);
        std::abort();
    }
    T* data() const { return nullptr; }
};
template <class T, class... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template <class T, std::size_t N> constexpr T* begin(Array<T, N>& a) noexcept { return a.data(); }
template <class T, std::size_t N> constexpr T const* begin(Array<T, N> const& a) noexcept { return a.data(); }
template <class T, std::size_t N> constexpr T* end(Array<T, N>& a) noexcept { return a.data() + N; }
template <class T, std::size_t N> constexpr T const* end(Array<T, N> const& a) noexcept { return a.data() + N; }
template <std::size_t I, class T, std::size_t N> constexpr T& get(Array<T, N>& a) noexcept { return a.m_elem[I]; }
template <std::size_t I, class T, std::size_t N> constexpr T const& get(Array<T, N> const& a) noexcept { return a.m_elem[I]; }
template <std::size_t I, class T, std::size_t N> constexpr T&& get(Array<T, N>&& a) noexcept { return std::move(a.m_elem[I]); }
template <std::size_t I, class T, std::size_t N> constexpr T const&& get(Array<T, N> const&& a) noexcept { return std::move(a.m_elem[I]); }
template <class T, std::size_t N>
constexpr void kokkos_swap(Array<T, N>& a, Array<T, N>& b) { for (std::size_t i = 0; i < N; ++i) { std::swap(a.m_elem[i], b.m_elem[i]); } }
template <class T, std::size_t N>
constexpr Array<std::remove_cv_t<T>, N> to_array(T (&a)[N])
{
    Array<std::remove_cv_t<T>, N> r {};
    for (std::size_t i = 0; i < N; ++i) { r.m_elem[i] = a[i]; }
    return r;
}
} // namespace Kokkos
template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N> {};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>> { using type = T; };
