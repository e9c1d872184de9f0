#pragma once
#include <initializer_list>
#include <algorithm>
#include <utility>
namespace Kokkos {
template <class T>
constexpr T const& max(T const& a, T const& b) { return (a < b) ? b : a; }
template <class T>
constexpr T const& min(T const& a, T const& b) { return (b < a) ? b : a; }
template <class T, class C>
constexpr T const& max(T const& a, T const& b, C comp) { return comp(a, b) ? b : a; }
template <class T, class C>
constexpr T const& min(T const& a, T const& b, C comp) { return comp(b, a) ? b : a; }
template <class T>
constexpr T max(std::initializer_list<T> l) { return *std::max_element(l.begin(), l.end()); }
template <class T>
constexpr T min(std::initializer_list<T> l) { return *std::min_element(l.begin(), l.end()); }
template <class T>
constexpr std::pair<T const&, T const&> minmax(T const& a, T const& b) { return b < a ? std::pair<T const&, T const&>(b, a) : std::pair<T const&, T const&>(a, b); }
template <class T, class C>
constexpr T const& clamp(T const& v, T const& lo, T const& hi, C comp) { return comp(v, lo) ? lo : comp(hi, v) ? hi : v; }
template <class T>
constexpr T const& clamp(T const& v, T const& lo, T const& hi) { return (v < lo) ? lo : (hi < v) ? hi : v; }
} // namespace Kokkos
