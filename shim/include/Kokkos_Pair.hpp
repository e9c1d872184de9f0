#pragma once
#include <utility>
#include "Kokkos_Macros.hpp"
namespace Kokkos {
template <class T1, class T2>
struct pair
{
    using first_type = T1;
    using second_type = T2;
    T1 first {};
    T2 second {};
    constexpr pair() = default;
    constexpr pair(T1 const& a, T2 const& b) : first(a), second(b) {}
    template <class U, class V>
    constexpr pair(pair<U, V> const& p) : first(p.first), second(p.second) {}
    template <class U, class V>
    constexpr pair(std::pair<U, V> const& p) : first(p.first), second(p.second) {}
    friend constexpr bool operator==(pair const& a, pair const& b) { return a.first == b.first && a.second == b.second; }
};
template <class T1, class T2>
constexpr pair<T1, T2> make_pair(T1 a, T2 b) { return pair<T1, T2>(a, b); }
} // namespace Kokkos
