#pragma once
#include <cmath>
#include <cstdlib>
#include <limits>
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
#include "Kokkos_MinMaxClampImpl.hpp"
namespace Kokkos {
using std::abs;
using std::fabs;
using std::fmod;
using std::remainder;
using std::fma;
using std::fmax;
using std::fmin;
using std::fdim;
using std::nan;
using std::exp;
using std::exp2;
using std::expm1;
using std::log;
using std::log10;
using std::log2;
using std::log1p;
using std::pow;
using std::sqrt;
using std::cbrt;
using std::hypot;
using std::sin;
using std::cos;
using std::tan;
using std::asin;
using std::acos;
using std::atan;
using std::atan2;
using std::sinh;
using std::cosh;
using std::tanh;
using std::asinh;
using std::acosh;
using std::atanh;
using std::erf;
using std::erfc;
using std::tgamma;
using std::lgamma;
using std::ceil;
using std::floor;
using std::trunc;
using std::round;
using std::nearbyint;
using std::logb;
using std::nextafter;
using std::copysign;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::isnormal;
using std::signbit;
template <class T>
inline T rsqrt(T x)
{
    return T(1) / std::sqrt(x);
}
namespace Experimental {
template <class T> struct finite_min { static constexpr T value = std::numeric_limits<T>::lowest(); };
template <class T> struct finite_max { static constexpr T value = std::numeric_limits<T>::max(); };
template <class T> struct epsilon { static constexpr T value = std::numeric_limits<T>::epsilon(); };
template <class T> struct norm_min { static constexpr T value = std::numeric_limits<T>::min(); };
template <class T> struct denorm_min { static constexpr T value = std::numeric_limits<T>::denorm_min(); };
template <class T> struct quiet_NaN { static constexpr T value = std::numeric_limits<T>::quiet_NaN(); };
template <class T> struct digits { static constexpr int value = std::numeric_limits<T>::digits; };
template <class T> struct digits10 { static constexpr int value = std::numeric_limits<T>::digits10; };
template <class T> inline constexpr int digits10_v = std::numeric_limits<T>::digits10;
template <class T> inline constexpr T denorm_min_v = std::numeric_limits<T>::denorm_min();
template <class T> struct infinity { static constexpr T value = std::numeric_limits<T>::infinity(); };
template <class T> inline constexpr T infinity_v = infinity<T>::value;
template <class T> inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template <class T> inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template <class T> inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template <class T> inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template <class T> inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
} // namespace Experimental
} // namespace Kokkos
