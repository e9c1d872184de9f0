#pragma once
#include "Kokkos_Macros.hpp"
