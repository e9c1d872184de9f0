// Interface between the "verif" user setup, linked into the real program, and the drivers.
#pragma once
#include <cstdint>
#include <functional>

namespace hclpp {
class Grid;
class Range;
class Param;
} // namespace hclpp

namespace vcase {

struct CellIn
{
    int g[3]; // global cell index
    double x[3]; // cell centre
};

struct CellState
{
    double rho;
    double u[3];
    double P;
    double fx[10];
};

// all hooks are optional; they are process wide, the code under test sees them as an ordinary user setup
struct Hooks
{
    std::function<CellState(CellIn const&)> init;
    // user step: called with the arrays through their data pointers
    std::function<void(hclpp::Range const&, double t, double dt, double* rho, double* E, double* fx, int const* ext, int nfx)> user_step;
    // shift criterion: sees the full conserved state with ghosts after the boundary conditions
    std::function<bool(hclpp::Grid const&, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx)>
            shift;
    // user boundary
    std::function<void(int idim, int iface, hclpp::Grid const&, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx)>
            boundary;
    // user grid: fill nodes for dimension d, n nodes, ng ghosts
    std::function<void(int d, int ng, int n, double* x)> grid;
};

inline Hooks& hooks()
{
    static Hooks h;
    return h;
}

} // namespace vcase
