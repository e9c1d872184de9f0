#pragma once
#include "Kokkos_Macros.hpp"
namespace Kokkos {
template <class... Args>
inline void printf(char const* fmt, Args... args)
{
    ::vshim::stats().printf_calls++;
    if constexpr (sizeof...(Args) == 0) {
        std::fputs(fmt, stderr);
    } else {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
        std::fprintf(stderr, fmt, args...);
#pragma GCC diagnostic pop
    }
}
} // namespace Kokkos
