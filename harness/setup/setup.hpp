// An ordinary user setup (as src/setups/*/setup.hpp) whose parts are provided by the driver.
#pragma once
#include <array>
#include <stdexcept>
#include <string>

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <shift_criterion_interface.hpp>
#include <user_step.hpp>
#include <vcase.hpp>
#include <vshim.hpp>

#include "boundary.hpp"
#include "initialization_interface.hpp"

namespace hclpp {

class ParamSetup
{
public:
    explicit ParamSetup(INIReader const& /*reader*/) {}
};

template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const& /*eos*/, ParamSetup const& /*p*/, Gravity const& /*gravity*/) {}

    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx)
            const final
    {
        auto const x0 = grid.x0_center;
        auto const x1 = grid.x1_center;
        auto const x2 = grid.x2_center;
        auto const ng = grid.Nghost;
        auto const cmin = grid.range.Corner_min;
        int const nfx = fx.extent_int(3);
        Kokkos::parallel_for("verif_init", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) {
            vcase::CellIn const in {
                    {i - ng[0] + cmin[0], j - ng[1] + cmin[1], k - ng[2] + cmin[2]},
                    {x0(i), x1(j), x2(k)}};
            vcase::CellState const s = vcase::hooks().init(in);
            rho(i, j, k) = s.rho;
            P(i, j, k) = s.P;
            for (int d = 0; d < ndim; ++d) {
                u(i, j, k, d) = s.u[d];
            }
            for (int f = 0; f < nfx; ++f) {
                fx(i, j, k, f) = s.fx[f];
            }
        });
    }
};

template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
public:
    BoundarySetup(int idim, int iface, EOS const& /*eos*/, ParamSetup const& /*p*/) : IBoundaryCondition<Gravity>(idim, iface) {}

    void execute(Grid const& grid, Gravity const& /*g*/, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx)
            const final
    {
        int const ext[3] = {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        if (vcase::hooks().boundary) {
            vcase::hooks().boundary(this->bc_idim(), this->bc_iface(), grid, rho.data(), rhou.data(), E.data(), fx.data(), ext, fx.extent_int(3));
        } else {
            throw std::runtime_error("no user boundary");
        }
    }
};

class GridSetup : public IGridType
{
public:
    explicit GridSetup(Param const& /*param*/) {}

    void execute(
            std::array<int, 3> nghost,
            std::array<int, 3> /*n*/,
            KVH_double_1d const& x0,
            KVH_double_1d const& x1,
            KVH_double_1d const& x2) const final
    {
        vcase::hooks().grid(0, nghost[0], x0.extent_int(0), x0.data());
        vcase::hooks().grid(1, nghost[1], x1.extent_int(0), x1.data());
        vcase::hooks().grid(2, nghost[2], x2.extent_int(0), x2.data());
    }
};

class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double const t, double const dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        int const ext[3] = {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        if (vcase::hooks().user_step) {
            vcase::hooks().user_step(range, t, dt, rho.data(), E.data(), fx.data(), ext, fx.extent_int(3));
        }
    }
};

class UserShiftCriterion : public IShiftCriterion
{
public:
    explicit UserShiftCriterion(ParamSetup const& /*param_setup*/) {}

    [[nodiscard]] auto execute(
            Range const& /*range*/,
            Grid const& grid,
            KV_cdouble_3d const& rho,
            KV_cdouble_4d const& rhou,
            KV_cdouble_3d const& E,
            KV_cdouble_4d const& fx) const -> bool final
    {
        int const ext[3] = {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        return vcase::hooks().shift ? vcase::hooks().shift(grid, rho.data(), rhou.data(), E.data(), fx.data(), ext, fx.extent_int(3)) : false;
    }
};

} // namespace hclpp
