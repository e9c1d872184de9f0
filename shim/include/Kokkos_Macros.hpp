#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include "vshim.hpp"
#define KOKKOS_VERSION 40700
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_RELOCATABLE_FUNCTION
#define KOKKOS_IF_ON_HOST(CODE) { KOKKOS_SHIM_STRIP CODE }
#define KOKKOS_IF_ON_DEVICE(CODE)
#define KOKKOS_SHIM_STRIP(...) __VA_ARGS__
#define KOKKOS_IMPL_DO_NOT_USE_PRINTF(...) ::std::printf(__VA_ARGS__)
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_ASSERT(EXPR)                                                                   \
    {                                                                                         \
        bool const vshim_assert_ok = static_cast<bool>((EXPR));                               \
        if (!vshim_assert_ok) {                                                               \
            ::vshim::violation("kokkos-assert", std::string(#EXPR) + " at " + __FILE__);      \
        }                                                                                     \
    }
#define KOKKOS_EXPECTS(EXPR) KOKKOS_ASSERT(EXPR)
#define KOKKOS_ENSURES(EXPR) KOKKOS_ASSERT(EXPR)
