#pragma once
#include <numbers>
#include "Kokkos_Macros.hpp"
namespace Kokkos::numbers {
using namespace std::numbers;
}
