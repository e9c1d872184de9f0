// Random complete configurations of the program and its initial states.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include <vghost.hpp>
#include <vphys.hpp>
#include <vsys.hpp>

namespace vfeat {

using namespace vsys;
using vck::fmt;
using vck::Rng;

inline vphys::Gas gas(double gamma = 5.0 / 3, double mu = 1) { return vphys::Gas {gamma, mu, radgas()}; }

#if defined(HERACLESPP_GRAVITY_Uniform)
inline constexpr int gravity_kind = 0;
#elif defined(HERACLESPP_GRAVITY_Point_mass)
inline constexpr int gravity_kind = 1;
#else
inline constexpr int gravity_kind = 2;
#endif

struct Opt
{
    int nmin = 0, nmax = 0; // cells per direction, 0: default
    int maxp = 8;
    bool walls = true; // conditions other than periodic
    bool open = true; // zero gradient allowed
    bool user_bc = false;
    bool gravity = true;
    bool irregular = true; // user grid allowed
    bool gas_constants = true;
    double amp = 0.3; // logarithmic amplitude of the random state
    double mach = 0.3;
    int nfx_max = 3;
    int steps = 3;
    bool pf = true;
    bool heat = false; // nickel heating allowed
    bool full_circle = true; // spherical phi may be periodic only when set
};

struct Feat
{
    Box b;
    std::array<int, 3> lay {1, 1, 1};
    int ng = 2, nfx = 0, steps = 3;
    vghost::Bcs bc;
    std::string recon, solver;
    double gamma = 5.0 / 3, mu = 1, cfl = 0.3;
    double g[3] = {0, 0, 0};
    double amp = 0, mach = 0;
    bool user_grid = false;
    std::array<std::vector<double>, 3> nodes; // with ghosts, when user_grid
    vphys::Scale sc;
    std::uint64_t seed = 1;
    Ini c;
    std::string text; // one-line description
    vphys::Gas gas() const { return vphys::Gas {gamma, mu, radgas()}; }
    int ranks() const { return prod(lay); }
    std::array<int, 3> N() const { return {b.n[0], b.n[1], b.n[2]}; }
    vcase::CellState state(int i, int j, int k) const
    {
        vcase::CellState s {};
        s.rho = sc.rho * std::exp(2 * amp * (h01(seed, 0, i, j, k) - 0.5));
        s.P = sc.P * std::exp(2 * amp * (h01(seed, 1, i, j, k) - 0.5));
        for (int d = 0; d < 3; ++d) {
            s.u[d] = 2 * mach * sc.u * (h01(seed, 2 + d, i, j, k) - 0.5);
        }
        for (int f = 0; f < 10; ++f) {
            s.fx[f] = h01(seed, 10 + f, i, j, k);
        }
        return s;
    }
    Mesh mesh() const
    {
        if (!user_grid) {
            return regular_mesh(b);
        }
        Mesh m;
        for (int d = 0; d < 3; ++d) {
            int const q = d < nd ? ng : 0;
            auto const& x = nodes[static_cast<std::size_t>(d)];
            m.x[d].assign(x.begin() + q, x.end() - q);
        }
        return m;
    }
    void install() const
    {
        auto self = std::make_shared<Feat>(*this);
        vcase::hooks().init = [self](vcase::CellIn const& q) { return self->state(q.g[0], q.g[1], q.g[2]); };
        install_grid();
    }
    void install_grid() const
    {
        if (user_grid) {
            auto x = nodes;
            vcase::hooks().grid = [x](int d, int, int n, double* p) {
                for (int i = 0; i < n; ++i) {
                    p[i] = x[static_cast<std::size_t>(d)].at(static_cast<std::size_t>(i));
                }
            };
        }
    }
    void describe()
    {
        text = fmt("n=%dx%dx%d layout=%dx%dx%d ng=%d nfx=%d %s %s gamma=%.6g cfl=%.3g %s%s [%s]", b.n[0], b.n[1], b.n[2], lay[0], lay[1], lay[2], ng, nfx, solver.c_str(), recon.c_str(), gamma, cfl,
                   user_grid ? "irregular mesh" : "regular mesh", g[0] != 0 || g[1] != 0 || g[2] != 0 ? " gravity" : "", bc.show(nd).c_str());
    }
};

inline std::vector<std::string> const& solvers()
{
    static std::vector<std::string> const v {"HLL", "HLLC", "Low Mach"};
    return v;
}
inline std::vector<std::string> const& recons()
{
    static std::vector<std::string> const v {"Constant", "VanLeer", "Minmod", "VanAlbada"};
    return v;
}

// nodes with ghosts; ghost cells are as wide as the cells that the boundary conditions give them the state of
inline std::array<std::vector<double>, 3> irregular_nodes(Rng& r, Box const& b, int ng, double irr, vghost::Bcs const& bc)
{
    std::array<std::vector<double>, 3> x;
    for (int d = 0; d < 3; ++d) {
        int const g = d < nd ? ng : 0;
        std::vector<double> w(static_cast<std::size_t>(b.n[d] + 2 * g), 1);
        double s = 0;
        for (int i = 0; i < b.n[d]; ++i) {
            w[static_cast<std::size_t>(i + g)] = d < nd ? std::exp(r.uni(-irr, irr)) : 1;
            s += w[static_cast<std::size_t>(i + g)];
        }
        for (int i = 0; i < g; ++i) {
            auto const source = [&](int side) { // distance from the left end, then from the right end
                int const k = bc.kind[static_cast<std::size_t>(2 * d + side)];
                return k == vghost::periodic ? (b.n[d] - 1 - i % b.n[d]) : (k == vghost::reflexive ? std::min(i, b.n[d] - 1) : 0);
            };
            w[static_cast<std::size_t>(g - 1 - i)] = w[static_cast<std::size_t>(g + source(0))];
            w[static_cast<std::size_t>(b.n[d] + g + i)] = w[static_cast<std::size_t>(g + b.n[d] - 1 - source(1))];
        }
        double const h = (b.hi[d] - b.lo[d]) / s;
        auto& v = x[static_cast<std::size_t>(d)];
        v.assign(w.size() + 1, 0);
        v[static_cast<std::size_t>(g)] = b.lo[d];
        for (std::size_t i = static_cast<std::size_t>(g); i + 1 < v.size(); ++i) {
            v[i + 1] = v[i] + h * w[i];
        }
        for (int i = g - 1; i >= 0; --i) {
            v[static_cast<std::size_t>(i)] = v[static_cast<std::size_t>(i) + 1] - h * w[static_cast<std::size_t>(i)];
        }
    }
    return x;
}

inline void put_bcs(Ini& c, vghost::Bcs const& bc)
{
    c.s["Boundary Condition"].clear();
    for (int f = 0; f < 2 * nd; ++f) {
        c.set("Boundary Condition", fmt("BC_X%d_%s", f / 2, f % 2 ? "right" : "left"), vghost::kind_name[bc.kind[static_cast<std::size_t>(f)]]);
    }
    if (!bc.priority.empty()) {
        c.set("Boundary Condition", "Priority", bc.priority);
    }
}

inline void rebuild(Feat& f)
{
    Ini c = base_ini(f.b);
    set_dims(c, f.lay);
    c.set("Grid", "Nghost", f.ng);
    if (f.user_grid) {
        c.set("Grid", "type", "UserDefined");
    }
    if (f.nfx) {
        c.set("Passive Scalar", "nfx", f.nfx);
    }
    put_bcs(c, f.bc);
    c.set("Hydro", "reconstruction", f.recon);
    c.set("Hydro", "riemann_solver", f.solver);
    c.set("Perfect Gas", "gamma", f.gamma);
    c.set("Perfect Gas", "mu", f.mu);
    c.set("Run", "cfl", f.cfl);
    c.set("Output", "max_iter", f.steps);
    for (int d = 0; d < 3; ++d) {
        if (f.g[d] != 0) {
            c.set("Gravity", fmt("gx%d", d), f.g[d]);
        }
    }
    f.c = c;
    f.describe();
}

inline Feat random_feat(Rng& r, Opt const& o)
{
    Feat f;
    f.ng = r.pick(std::vector<int> {2, 2, 2, 3, 4});
    int const nmin = std::max(f.ng, o.nmin ? o.nmin : 4), nmax = std::max(nmin, o.nmax ? o.nmax : (nd == 1 ? 24 : (nd == 2 ? 12 : 8)));
    for (int d = 0; d < 3; ++d) {
        f.b.n[d] = d < nd ? r.range(nmin, nmax) : 1;
        if (spherical()) {
            f.b.lo[d] = d == 0 ? r.uni(0.5, 2) : (d == 1 ? r.uni(0.4, 1.2) : r.uni(0, 1));
            f.b.hi[d] = f.b.lo[d] + r.uni(0.4, 1.2);
        } else {
            f.b.lo[d] = r.uni(-2, 1);
            f.b.hi[d] = f.b.lo[d] + (d < nd ? r.loguni(0.5, 2) : (r.coin() ? 1 : r.loguni(0.5, 2)));
        }
    }
    if (gravity_kind == 2) { // self-gravity needs whole radii on a rank
        for (int t = 0; t < 50; ++t) {
            f.lay = pick_layout(r, f.b, o.maxp, f.ng);
            if (f.lay[0] == 1) {
                break;
            }
            f.lay = {1, 1, 1};
        }
    } else {
        f.lay = pick_layout(r, f.b, o.maxp, f.ng);
    }
    f.nfx = r.coin(0.4) ? 0 : r.range(0, o.nfx_max);
    if (o.nfx_max > 0 && r.coin(0.12)) {
        f.nfx = r.range(4, 10);
    }
    f.bc = vghost::Bcs {};
    if (o.walls) {
        f.bc = vghost::random_bcs(r, nd, o.user_bc);
        for (int q = 0; q < 2 * nd; ++q) {
            auto& k = f.bc.kind[static_cast<std::size_t>(q)];
            // a periodic condition on one side only means that the other side sets its own
            bool const other = f.bc.kind[static_cast<std::size_t>(q ^ 1)] == vghost::periodic;
            if (k == vghost::periodic && !other) {
                k = vghost::reflexive;
            }
            if (k == vghost::null_gradient && !o.open) {
                k = vghost::reflexive;
            }
            if (spherical() && q < 2 && k == vghost::periodic) {
                k = vghost::reflexive; // r is never periodic
            }
            if (spherical() && nd > 1 && q >= 2 && q < 4 && k == vghost::periodic) {
                k = vghost::reflexive;
            }
        }
    } else {
        for (int q = 0; q < 2 * nd; ++q) {
            f.bc.order.push_back(q);
            if (spherical() && q < 4 && q < 2 * nd) {
                f.bc.kind[static_cast<std::size_t>(q)] = vghost::reflexive; // r and theta are never periodic
            }
        }
    }
    f.recon = r.pick(recons());
    f.solver = r.pick(solvers());
    if (o.gas_constants && r.coin(0.6)) {
        f.gamma = r.pick(std::vector<double> {1.4, 5.0 / 3, 4.0 / 3, 1.1, 2.0, 3.0});
        f.mu = r.coin() ? 1 : r.uni(0.5, 20);
    }
    f.cfl = r.uni(0.1, 0.4);
    f.sc = vphys::scale(f.gas(), r);
    if (gravity_kind == 2 && r.coin(0.7)) { // domains large enough for the weight of the gas to matter
        double const R = f.b.hi[0];
        double const l = std::sqrt(r.loguni(1e-3, 1) * f.sc.u * f.sc.u / (4 * M_PI * static_cast<double>(vphys::G) * f.sc.rho)) / R;
        f.b.lo[0] *= l;
        f.b.hi[0] *= l;
    }
    f.amp = o.amp * r.u01();
    f.mach = o.mach * r.u01();
    f.steps = r.range(1, o.steps);
    f.seed = r.next();
    if (o.irregular && r.coin(0.35)) {
        f.user_grid = true;
        f.nodes = irregular_nodes(r, f.b, f.ng, 0.3, f.bc);
    }
    if (o.gravity && gravity_kind == 0 && !spherical() && r.coin(0.3)) {
        for (int d = 0; d < nd; ++d) {
            f.g[d] = r.coin(0.7) ? r.uni(-1, 1) * f.sc.u * f.sc.u : 0;
        }
    }
    rebuild(f);
    if (o.pf && r.coin(0.2)) {
        f.c.set("Pressure fix", "pressure_fix", "On");
        f.c.set("Pressure fix", "eps_pf", r.loguni(1e-6, 10));
        f.text += " pressure fix";
    }
    if (gravity_kind != 0 && o.gravity) {
        double const M = r.uni(0, 1) * f.sc.u * f.sc.u * f.b.lo[0] / static_cast<double>(vphys::G);
        f.c.set("Gravity", "M", gravity_kind == 1 ? M : M);
    }
    if (o.heat && f.nfx > 0 && r.coin(0.4)) {
        f.c.set("User step", "user_step", "Heat_nickel");
        f.text += " heating";
    }
    return f;
}

inline RunOpt run_opt(Rng& r, Feat const& f)
{
    RunOpt o;
    o.ranks = f.ranks();
    o.seed = r.next();
    o.order = r.pick(std::vector<vshim::Order> {vshim::Order::sequential, vshim::Order::random, vshim::Order::reverse});
    return o;
}

} // namespace vfeat
