// C12: partition of the domain and meshes of the ranks.  C25: volumes and areas.  C40: sums, minima, profiles over ranges.
#include <broadcast.hpp>
#include <grid_factory.hpp>
#include <integration.hpp>
#include <internal_energy.hpp>
#include <temperature.hpp>
#include <param.hpp>
#include <vsys.hpp>
#include <vunit.hpp>

using namespace vsys;
using vck::fmt;
using vck::Rng;
using vphys::ld;
using vunit::snap;

static constexpr double EPS = 2.220446049250313e-16;

struct Boxed
{
    std::array<int, 3> cmin, cmax, nl, nwg, ngh, cart, dims, glob;
    std::array<std::array<bool, 2>, 3> border;
    std::vector<double> x[3], xc[3], dx[3];
    int rank = -1, size = 0;
};

static Boxed describe(hclpp::Grid const& g)
{
    Boxed b;
    b.cmin = g.range.Corner_min;
    b.cmax = g.range.Corner_max;
    b.nl = g.Nx_local_ng;
    b.nwg = g.Nx_local_wg;
    b.ngh = g.Nghost;
    b.cart = g.mpi_rank_cart;
    b.dims = g.mpi_dims_cart;
    b.glob = g.Nx_glob_ng;
    b.border = g.is_border;
    b.rank = g.mpi_rank;
    b.size = g.mpi_size;
    b.x[0] = snap(g.x0);
    b.x[1] = snap(g.x1);
    b.x[2] = snap(g.x2);
    b.xc[0] = snap(g.x0_center);
    b.xc[1] = snap(g.x1_center);
    b.xc[2] = snap(g.x2_center);
    b.dx[0] = snap(g.dx0);
    b.dx[1] = snap(g.dx1);
    b.dx[2] = snap(g.dx2);
    return b;
}

static void check_partition(std::string const& cfg, std::vector<Boxed> const& bs, std::array<int, 3> const& N, std::array<int, 3> const& want, int ng,
                            std::array<std::vector<double>, 3> const& nodes, bool with_nodes)
{
    int const P = static_cast<int>(bs.size());
    std::array<int, 3> const dims = bs[0].dims;
    if (dims[0] * dims[1] * dims[2] != P) {
        vck::fail("mesh.dims", cfg + fmt(" process grid %dx%dx%d for %d ranks", dims[0], dims[1], dims[2], P));
    }
    for (int d = 0; d < 3; ++d) {
        auto const D = static_cast<std::size_t>(d);
        if (d < nd && want[D] > 0 && dims[D] != want[D]) {
            vck::fail("mesh.honour", cfg + fmt(" %d processes along direction %d instead of %d", dims[D], d, want[D]));
        }
        if (d >= nd && dims[D] != 1) {
            vck::fail("mesh.dims", cfg + fmt(" direction %d split", d));
        }
    }
    long const tot = static_cast<long>(N[0]) * N[1] * N[2];
    std::vector<int> owner(static_cast<std::size_t>(tot), -1);
    std::set<int> ranks;
    for (int r = 0; r < P; ++r) {
        Boxed const& b = bs[static_cast<std::size_t>(r)];
        std::string const who = cfg + fmt(" rank %d box [%d,%d)x[%d,%d)x[%d,%d)", r, b.cmin[0], b.cmax[0], b.cmin[1], b.cmax[1], b.cmin[2], b.cmax[2]);
        ranks.insert(b.rank);
        if (b.size != P || b.dims != dims) {
            vck::fail("mesh.agree", who + " disagrees on the process grid");
        }
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            int const n = b.cmax[D] - b.cmin[D];
            int const g = d < nd ? ng : 0;
            if (n != b.nl[D] || b.nwg[D] != n + 2 * g || b.ngh[D] != g || b.glob[D] != N[D]) {
                vck::fail("mesh.sizes", who + fmt(" direction %d: sizes %d %d ghosts %d", d, b.nl[D], b.nwg[D], b.ngh[D]));
            }
            int const q = N[D] / dims[D];
            if (n < q || n > q + 1) {
                vck::fail("mesh.balance", who + fmt(" direction %d has %d cells, %d cells on %d ranks", d, n, N[D], dims[D]));
            }
            // touching a face of the domain
            bool const L = b.cart[D] == 0, R = b.cart[D] == dims[D] - 1;
            if (N[D] >= dims[D]) {
                if (b.border[D][0] != (b.cmin[D] == 0) || b.border[D][1] != (b.cmax[D] == N[D])) {
                    vck::fail("mesh.border", who + fmt(" direction %d border flags %d %d", d, b.border[D][0], b.border[D][1]));
                }
            } else if (b.border[D][0] != L || b.border[D][1] != R) {
                vck::fail("mesh.border", who + fmt(" direction %d border flags %d %d", d, b.border[D][0], b.border[D][1]));
            }
            if (!with_nodes) {
                continue;
            }
            bool ok = static_cast<int>(b.x[d].size()) == b.nwg[D] + 1 && static_cast<int>(b.xc[d].size()) == b.nwg[D] && static_cast<int>(b.dx[d].size()) == b.nwg[D];
            for (std::size_t i = 0; ok && i < b.x[d].size(); ++i) {
                ok = b.x[d][i] == nodes[D].at(i + static_cast<std::size_t>(b.cmin[D]));
            }
            if (!ok) {
                vck::fail("mesh.nodes", who + fmt(" direction %d: node coordinates differ from the global mesh", d));
                continue;
            }
            for (std::size_t i = 0; i < b.dx[d].size(); ++i) {
                double const m = std::fmax(std::fabs(b.x[d][i]), std::fabs(b.x[d][i + 1]));
                if (!(std::fabs(b.dx[d][i] - (b.x[d][i + 1] - b.x[d][i])) <= 4 * EPS * m)) {
                    vck::fail("mesh.width", who + fmt(" direction %d cell %zu: width %.17g between nodes %.17g %.17g", d, i, b.dx[d][i], b.x[d][i], b.x[d][i + 1]));
                }
                if (!(std::fabs(b.xc[d][i] - (b.x[d][i + 1] / 2 + b.x[d][i] / 2)) <= 4 * EPS * m)) {
                    vck::fail("mesh.centre", who + fmt(" direction %d cell %zu: centre %.17g between nodes %.17g %.17g", d, i, b.xc[d][i], b.x[d][i], b.x[d][i + 1]));
                }
            }
        }
        for (int k = b.cmin[2]; k < b.cmax[2]; ++k) {
            for (int j = b.cmin[1]; j < b.cmax[1]; ++j) {
                for (int i = b.cmin[0]; i < b.cmax[0]; ++i) {
                    if (i < 0 || j < 0 || k < 0 || i >= N[0] || j >= N[1] || k >= N[2]) {
                        vck::fail("mesh.bounds", who + " leaves the domain");
                        continue;
                    }
                    int& o = owner[static_cast<std::size_t>((static_cast<long>(k) * N[1] + j) * N[0] + i)];
                    if (o >= 0) {
                        vck::fail("mesh.disjoint", who + fmt(" overlaps rank %d", o));
                    }
                    o = r;
                }
            }
        }
    }
    for (long q = 0; q < tot; ++q) {
        if (owner[static_cast<std::size_t>(q)] < 0) {
            vck::fail("mesh.cover", cfg + fmt(" cell %ld belongs to no rank", q));
            break;
        }
    }
    if (static_cast<int>(ranks.size()) != P) {
        vck::fail("mesh.ranks", cfg + " ranks are not distinct");
    }
}

static void partition_case(long, Rng& r)
{
    int const P = r.pick(std::vector<int> {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24});
    std::array<int, 3> N {1, 1, 1}, want {0, 0, 0};
    int const ng = r.range(2, 4);
    for (int d = 0; d < nd; ++d) {
        N[static_cast<std::size_t>(d)] = r.coin(0.2) ? r.range(1, 8) : r.range(4, nd == 3 ? 14 : 40);
    }
    // a request: none, complete or partial, always feasible
    int const mode = r.range(0, 2);
    if (mode > 0) {
        int rest = P;
        for (int d = 0; d < nd; ++d) {
            std::vector<int> div;
            for (int q = 1; q <= rest; ++q) {
                if (rest % q == 0) {
                    div.push_back(q);
                }
            }
            int const q = d == nd - 1 ? rest : r.pick(div);
            want[static_cast<std::size_t>(d)] = q;
            rest /= q;
        }
        if (mode == 2 && nd > 1) {
            want[static_cast<std::size_t>(r.range(0, nd - 1))] = 0;
        }
    }
    std::array<int, 3> req = want;
    for (int d = nd; d < 3; ++d) {
        req[static_cast<std::size_t>(d)] = r.range(0, 1);
    }
    auto nodes = vunit::random_mesh(r, N, ng, r.coin() ? 0 : 0.5);
    bool const regular = r.coin();
    std::array<double, 3> lo {0, 0, 0}, hi {1, 1, 1};
    for (std::size_t d = 0; d < 3; ++d) {
        lo[d] = r.coin(0.3) ? 0 : r.uni(-5, 5);
        hi[d] = lo[d] + r.loguni(1e-3, 1e3);
    }
    std::string const cfg = fmt("n=%dx%dx%d ng=%d ranks=%d request=%dx%dx%d", N[0], N[1], N[2], ng, P, req[0], req[1], req[2]);
    std::vector<Boxed> bs(static_cast<std::size_t>(P));
    vshim::allow_reorder() = r.coin();
    std::vector<std::array<std::vector<double>, 3>> made(static_cast<std::size_t>(P));
    auto const w = vunit::world(P, r.next(), [&](int rank) {
        hclpp::Grid g(N, req, ng);
        std::array<std::vector<double>, 3> mine = nodes;
        if (regular) {
            hclpp::Regular const reg(lo, hi);
            std::array<hclpp::KVH_double_1d, 3> h;
            for (std::size_t d = 0; d < 3; ++d) {
                h[d] = hclpp::KVH_double_1d("x", static_cast<std::size_t>(N[d] + 2 * g.Nghost[d] + 1));
            }
            reg.execute(g.Nghost, g.Nx_glob_ng, h[0], h[1], h[2]);
            for (std::size_t d = 0; d < 3; ++d) {
                mine[d] = snap(h[d]);
            }
        }
        made[static_cast<std::size_t>(rank)] = mine;
        vunit::set_nodes(g, mine);
        bs[static_cast<std::size_t>(rank)] = describe(g);
    });
    vshim::allow_reorder() = true;
    if (!w.ok) {
        return;
    }
    check_partition(cfg, bs, N, want, ng, made[0], true);
    for (auto const& m : made) {
        if (m != made[0]) {
            vck::fail("mesh.agree", cfg + " ranks made different meshes");
        }
    }
    if (regular) {
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            int const g = d < nd ? ng : 0;
            ld const h = ((ld)hi[D] - lo[D]) / N[D];
            double const m = std::fabs(lo[D]) + std::fabs(hi[D]) + 2 * (double)h * g;
            for (int i = 0; i < static_cast<int>(made[0][D].size()); ++i) {
                double const ref = (double)(lo[D] + (i - g) * h);
                if (!(std::fabs(made[0][D][static_cast<std::size_t>(i)] - ref) <= 8 * EPS * m)) {
                    vck::fail("mesh.regular", cfg + fmt(" [%.17g,%.17g] direction %d node %d is %.17g instead of %.17g", lo[D], hi[D], d, i, made[0][D][static_cast<std::size_t>(i)], ref));
                    break;
                }
            }
            if (made[0][D][static_cast<std::size_t>(g)] != lo[D]) {
                vck::fail("mesh.regular", cfg + fmt(" direction %d does not start at %.17g", d, lo[D]));
            }
        }
        vck::stat("regular_meshes");
    }
    vck::eval(vck::hash_str(cfg), P > 1);
    vck::sample(cfg);
    vck::stat("ranks_described", P);
}

// the meshes that the ranks of the program really use
static void run_case(long, Rng& r)
{
    Box b;
    int const ng = r.range(2, 3);
    for (int d = 0; d < 3; ++d) {
        b.n[d] = d < nd ? r.range(ng, nd == 3 ? 6 : 14) : 1;
        if (spherical()) {
            b.lo[d] = d == 0 ? r.uni(2, 4) : r.uni(0.8, 1.2);
            b.hi[d] = b.lo[d] + r.uni(0.3, 0.8);
        } else {
            b.lo[d] = r.uni(-2, 1);
            b.hi[d] = b.lo[d] + r.loguni(0.1, 10);
        }
    }
    auto const lay = pick_layout(r, b, 8, ng);
    int const P = prod(lay);
    bool const user = r.coin();
    Ini c = base_ini(b);
    std::array<int, 3> want {0, 0, 0};
    if (r.coin()) {
        set_dims(c, lay);
        for (std::size_t d = 0; d < static_cast<std::size_t>(nd); ++d) {
            want[d] = lay[d];
        }
    } else {
        // the library chooses; keep every rank at least as wide as the ghosts
        for (int d = 0; d < nd; ++d) {
            b.n[d] = std::max(b.n[d], ng * P);
            c.set("Grid", fmt("Nx%d_glob", d), b.n[d]);
        }
        if (b.cells() > 4000) {
            return;
        }
    }
    c.set("Grid", "Nghost", ng);
    c.set("Output", "max_iter", 2);
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    auto nodes = vunit::random_mesh(r, N, ng, 0.4);
    if (user && !vunit::physical_nodes(nodes)) {
        return;
    }
    std::vector<Boxed> bs(static_cast<std::size_t>(P));
    std::vector<int> calls(static_cast<std::size_t>(P), 0);
    double const pr = radgas() ? 1e9 : 1;
    vcase::hooks().init = [pr](vcase::CellIn const&) {
        vcase::CellState s {};
        s.rho = pr == 1 ? 1 : 1e-3;
        s.P = pr;
        return s;
    };
    c.set("Grid", "shift_grid", "UserDefined");
    if (user) {
        c.set("Grid", "type", "UserDefined");
        vcase::hooks().grid = [&](int d, int, int n, double* x) {
            for (int i = 0; i < n; ++i) {
                x[i] = nodes[static_cast<std::size_t>(d)].at(static_cast<std::size_t>(i));
            }
        };
    }
    vcase::hooks().shift = [&](hclpp::Grid const& g, double const*, double const*, double const*, double const*, int const*, int) {
        bs[static_cast<std::size_t>(vshim::tl_rank)] = describe(g);
        ++calls[static_cast<std::size_t>(vshim::tl_rank)];
        return false;
    };
    RunOpt o;
    o.ranks = P;
    o.seed = r.next();
    Run const x = run(c, o);
    clear_hooks();
    std::string const cfg = fmt("program n=%dx%dx%d ng=%d ranks=%d", b.n[0], b.n[1], b.n[2], ng, P);
    if (!x.ok()) {
        vck::fail("mesh.run", cfg + " run failed: " + x.why());
        drop(x);
        return;
    }
    std::array<std::vector<double>, 3> glob = nodes;
    if (!user) {
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            int const g = d < nd ? ng : 0;
            glob[D].assign(static_cast<std::size_t>(b.n[d] + 2 * g + 1), 0);
            // the meshes of the ranks must be parts of one mesh, and that mesh the regular one
            for (auto const& q : bs) {
                for (std::size_t i = 0; i < q.x[d].size(); ++i) {
                    glob[D][i + static_cast<std::size_t>(q.cmin[D])] = q.x[d][i];
                }
            }
            ld const h = ((ld)b.hi[d] - b.lo[d]) / b.n[d];
            double const m = std::fabs(b.lo[d]) + std::fabs(b.hi[d]) + 2 * (double)h * g;
            for (std::size_t i = 0; i < glob[D].size(); ++i) {
                double const ref = (double)(b.lo[d] + (static_cast<int>(i) - g) * h);
                if (!(std::fabs(glob[D][i] - ref) <= 8 * EPS * m)) {
                    vck::fail("mesh.regular", cfg + fmt(" direction %d node %zu is %.17g instead of %.17g", d, i, glob[D][i], ref));
                    break;
                }
            }
        }
    }
    check_partition(cfg, bs, N, want, ng, glob, true);
    vck::eval(vck::mix(vck::hash_str(cfg), 5), P > 1);
    vck::stat("programs_inspected");
    drop(x);
}

// ---------------------------------------------------------------------------------------------------------------------
static void geometry_case(long n, Rng& r)
{
    std::array<int, 3> N {1, 1, 1};
    int const ng = r.range(2, 3);
    for (int d = 0; d < nd; ++d) {
        N[static_cast<std::size_t>(d)] = r.range(1, nd == 3 ? 6 : 12);
    }
    std::array<std::vector<double>, 3> xs;
    double const irr = r.pick(std::vector<double> {0, 0.3, 1.5});
    if (!spherical()) {
        xs = vunit::random_mesh(r, N, ng, irr);
        if (r.coin()) { // the ignored directions need not have unit width
            for (int d = nd; d < 3; ++d) {
                double const a = r.uni(-1, 1);
                xs[static_cast<std::size_t>(d)] = {a, a + r.loguni(0.1, 10)};
            }
        }
    } else {
        double const R = r.loguni(1e-3, 1e9);
        double const lo = r.coin(0.3) ? 0 : R * r.uni(0.01, 0.99);
        double const tl = r.coin(0.3) ? 0 : r.uni(0, 1.5), th = r.coin(0.3) ? 3.14159265358979323846 : r.uni(tl + 0.1, 3.1);
        double const pl = r.uni(0, 3), ph = r.coin(0.3) ? pl + 2 * 3.14159265358979323846 : pl + r.uni(0.01, 3);
        xs[0] = vunit::random_nodes(r, N[0], ng, lo, R, irr);
        xs[1] = vunit::random_nodes(r, N[1], nd > 1 ? ng : 0, tl, th, nd > 1 ? irr : 0);
        xs[2] = vunit::random_nodes(r, N[2], nd > 2 ? ng : 0, pl, ph, nd > 2 ? irr : 0);
        if (nd == 1 && r.coin()) {
            xs[1] = {0, 1};
            xs[2] = {0, 1};
        }
        // rounding must not push the last node beyond the pole
        if (nd > 1 && xs[1][static_cast<std::size_t>(N[1] + ng)] > 3.14159265358979312) {
            xs[1][static_cast<std::size_t>(N[1] + ng)] = 3.14159265358979312;
        }
    }
    int const P = r.coin(0.7) ? 1 : 2;
    struct Out
    {
        std::vector<double> ds, dv;
        std::array<int, 3> cmin, nl, nwg;
    };
    std::vector<Out> out(static_cast<std::size_t>(P));
    auto const w = vunit::world(P, r.next(), [&](int rank) {
        hclpp::Grid g(N, {0, 0, 0}, ng);
        vunit::set_nodes(g, xs);
        out[static_cast<std::size_t>(rank)] = {snap(g.ds), snap(g.dv), g.range.Corner_min, g.Nx_local_ng, g.Nx_local_wg};
    });
    if (!w.ok) {
        return;
    }
    auto X = [&](int d, int i) -> ld { return xs[static_cast<std::size_t>(d)][static_cast<std::size_t>(i + (d < nd ? ng : 0))]; }; // interior index
    ld const pi = vphys::pi;
    auto dcos = [&](int j) -> ld { return 2 * sinl((X(1, j) + X(1, j + 1)) / 2) * sinl((X(1, j + 1) - X(1, j)) / 2); };
    auto vol = [&](int i, int j, int k) -> ld {
        if (!spherical()) {
            return (X(0, i + 1) - X(0, i)) * (X(1, j + 1) - X(1, j)) * (X(2, k + 1) - X(2, k));
        }
        ld const a = X(0, i), b = X(0, i + 1), r3 = (b - a) * (a * a + a * b + b * b) / 3;
        return nd == 1 ? 4 * pi * r3 : (nd == 2 ? 2 * pi * r3 * dcos(j) : r3 * dcos(j) * (X(2, k + 1) - X(2, k)));
    };
    auto area = [&](int d, int i, int j, int k) -> ld {
        if (!spherical()) {
            ld a = 1;
            int const ix[3] = {i, j, k};
            for (int q = 0; q < 3; ++q) {
                a *= q == d ? 1 : X(q, ix[q] + 1) - X(q, ix[q]);
            }
            return a;
        }
        ld const a = X(0, i);
        if (d == 0) {
            return nd == 1 ? 4 * pi * a * a : (nd == 2 ? 2 * pi * a * a * dcos(j) : a * a * dcos(j) * (X(2, k + 1) - X(2, k)));
        }
        ld const b = X(0, i + 1), ring = (b - a) * (b + a) / 2;
        if (d == 1) {
            return ring * sinl(X(1, j)) * (nd == 2 ? 2 * pi : X(2, k + 1) - X(2, k));
        }
        return ring * (X(1, j + 1) - X(1, j));
    };
    // rounding: differences of nodes and of their functions
    auto cond = [&](int i, int j, int k) -> double {
        double t = 1;
        int const ix[3] = {i, j, k};
        for (int d = 0; d < 3; ++d) {
            double const a = (double)X(d, ix[d]), b = (double)X(d, ix[d] + 1);
            t += 3 * std::fmax(std::fabs(a), std::fabs(b)) / (b - a);
            if (spherical() && d == 1 && nd > 1) {
                t += 2 / std::fabs((double)dcos(j));
            }
        }
        return t;
    };
    ld total = 0;
    std::string const cfg = fmt("n=%dx%dx%d ng=%d ranks=%d", N[0], N[1], N[2], ng, P);
    for (auto const& o : out) {
        auto at = [&](int i, int j, int k) {
            int const g0 = ng, g1 = nd > 1 ? ng : 0, g2 = nd > 2 ? ng : 0;
            return static_cast<std::size_t>((i + g0) + static_cast<long>(o.nwg[0]) * ((j + g1) + static_cast<long>(o.nwg[1]) * (k + g2)));
        };
        long const tot = static_cast<long>(o.nwg[0]) * o.nwg[1] * o.nwg[2];
        for (int k = 0; k < o.nl[2]; ++k) {
            for (int j = 0; j < o.nl[1]; ++j) {
                for (int i = 0; i < o.nl[0]; ++i) {
                    int const I = i + o.cmin[0], J = j + o.cmin[1], K = k + o.cmin[2];
                    double const v = o.dv[at(i, j, k)];
                    ld const ref = vol(I, J, K);
                    double const tol = 32 * EPS * cond(I, J, K);
                    total += v;
                    if (!(v > 0) || !(std::fabs(v - (double)ref) <= tol * (double)ref)) {
                        vck::fail("geometry.volume", cfg + fmt(" cell (%d,%d,%d): volume %.17g instead of %.17g", I, J, K, v, (double)ref));
                    }
                    for (int d = 0; d < nd; ++d) {
                        for (int side = 0; side < 2; ++side) {
                            int const ii = i + (d == 0 ? side : 0), jj = j + (d == 1 ? side : 0), kk = k + (d == 2 ? side : 0);
                            double const a = o.ds[at(ii, jj, kk) + static_cast<std::size_t>(tot * d)];
                            ld const ra = area(d, I + (d == 0 ? side : 0), J + (d == 1 ? side : 0), K + (d == 2 ? side : 0));
                            // sine of a node next to a pole is exact to rounding of the node only
                            double const extra = spherical() && d == 1 ? 8 * EPS * (double)((X(0, I + 1) * X(0, I + 1)) * (nd == 2 ? 2 * pi : X(2, K + 1) - X(2, K))) : 0;
                            if (!(a >= 0) || !(std::fabs(a - (double)ra) <= tol * (double)ra + extra)) {
                                vck::fail("geometry.area", cfg + fmt(" cell (%d,%d,%d) direction %d side %d: area %.17g instead of %.17g", I, J, K, d, side, a, (double)ra));
                            }
                        }
                    }
                }
            }
        }
    }
    // the cells fill the domain
    ld whole = 1;
    if (!spherical()) {
        for (int d = 0; d < 3; ++d) {
            whole *= X(d, N[static_cast<std::size_t>(d)]) - X(d, 0);
        }
    } else {
        ld const a = X(0, 0), b = X(0, N[0]);
        whole = (b * b * b - a * a * a) / 3;
        whole *= nd == 1 ? 4 * pi : (cosl(X(1, 0)) - cosl(X(1, N[1]))) * (nd == 2 ? 2 * pi : X(2, N[2]) - X(2, 0));
    }
    if (!(fabsl(total - whole) <= 1e-11L * whole)) {
        vck::fail("geometry.sum", cfg + fmt(" volumes sum to %.17g instead of %.17g", (double)total, (double)whole));
    }
    vck::eval(vck::mix(static_cast<std::uint64_t>(n), vck::hash_str(cfg)));
    vck::sample(cfg + fmt(" irregularity %g", irr));
}

// sums, minima, profiles and fills over ranges of the meshes of 1-8 ranks (C40)
static void domain_case(long n, Rng& r)
{
    std::array<int, 3> N {1, 1, 1};
    int const ng = r.range(2, 4);
    int const P = r.pick(std::vector<int> {1, 1, 2, 3, 4, 6, 8});
    std::array<int, 3> want {1, 1, 1};
    int rest = P;
    for (int d = 0; d < nd; ++d) {
        auto const D = static_cast<std::size_t>(d);
        std::vector<int> div;
        for (int q = 1; q <= rest; ++q) {
            if (rest % q == 0) {
                div.push_back(q);
            }
        }
        want[D] = d == nd - 1 ? rest : r.pick(div);
        rest /= want[D];
        N[D] = std::max(want[D], r.range(1, nd == 3 ? 7 : 14)) + (r.coin() ? want[D] : 0);
    }
    auto const nodes = vunit::random_mesh(r, N, ng, 0.5);
    if (!vunit::physical_nodes(nodes)) {
        return;
    }
    int const ncomp = r.range(0, 3), eff = r.range(0, ng);
    std::uint64_t const seed = r.next();
    int const bad = r.range(0, 7); // 0: a NaN, 1: a negative energy somewhere
    std::string const cfg = fmt("n=%dx%dx%d ng=%d layout=%dx%dx%d components=%d ghosts used=%d", N[0], N[1], N[2], ng, want[0], want[1], want[2], ncomp, eff);
    std::array<int, 3> const badcell {r.range(0, N[0] - 1), r.range(0, N[1] - 1), r.range(0, N[2] - 1)};
    vphys::Gas const gas {r.pick(std::vector<ld> {1.4L, 5.0L / 3}), r.uni(0.5, 2), radgas()};
    auto const sc = vphys::scale(gas, r);
    auto draw = [&](int f, int i, int j, int k) { // a number of the global cell
        Rng q(vck::mix(seed, static_cast<std::uint64_t>(f + 10 * (i + 1000L * (j + 1000L * k)))));
        return q.uni(0, 1);
    };
    auto state = [&](int i, int j, int k, double* o) { // rho, E, rhou
        double const rho = sc.rho * std::exp(4 * draw(0, i, j, k) - 2);
        double ek = 0;
        for (int d = 0; d < nd; ++d) {
            o[2 + d] = rho * sc.u * (2 * draw(2 + d, i, j, k) - 1);
            ek += o[2 + d] * o[2 + d] / rho / 2;
        }
        o[0] = rho;
        o[1] = ek + sc.rho * sc.u * sc.u * (0.01 + draw(1, i, j, k));
        if (bad < 2 && i == badcell[0] && j == badcell[1] && k == badcell[2]) {
            o[1] = bad == 0 ? std::nan("") : ek * 0.3 - sc.rho * sc.u * sc.u * 0.01;
        }
    };
    auto const P_ = static_cast<std::size_t>(P);
    std::vector<double> sums(P_), mins(P_);
    std::vector<ld> part(P_), mag(P_);
    std::vector<double> low(P_, INFINITY), esc(P_, 0);
    std::vector<std::string> why(P_);
    std::vector<long> seen(P_);
    std::vector<double> line(static_cast<std::size_t>(N[0]));
    for (auto& v : line) {
        v = r.uni(-9, 9);
    }
    double const value = r.uni(-9, 9);
    auto const w = vunit::world(P, r.next(), [&](int rank) {
        auto const R = static_cast<std::size_t>(rank);
        auto bad_at = [&](std::string const& t) {
            if (why[R].empty()) {
                why[R] = t;
            }
        };
        hclpp::Grid g(N, want, ng);
        vunit::set_nodes(g, nodes);
        auto const nw = g.Nx_local_wg;
        auto const gh = g.Nghost;
        auto const cm = g.range.Corner_min;
        auto const tot = static_cast<std::size_t>(nw[0]) * static_cast<std::size_t>(nw[1]) * static_cast<std::size_t>(nw[2]);
        auto idx = [&](int i, int j, int k) { return static_cast<std::size_t>(i) + static_cast<std::size_t>(nw[0]) * (static_cast<std::size_t>(j) + static_cast<std::size_t>(nw[1]) * static_cast<std::size_t>(k)); };
        auto in = [&](int e, int i, int j, int k) {
            int const ix[3] = {i, j, k};
            for (std::size_t d = 0; d < 3; ++d) {
                int const q = d < static_cast<std::size_t>(nd) ? e : 0;
                if (ix[d] < gh[d] - q || ix[d] >= nw[d] - gh[d] + q) {
                    return false;
                }
            }
            return true;
        };
        auto each = [&](auto const& f) {
            for (int k = 0; k < nw[2]; ++k) {
                for (int j = 0; j < nw[1]; ++j) {
                    for (int i = 0; i < nw[0]; ++i) {
                        f(i, j, k);
                    }
                }
            }
        };
        auto make3 = [&](char const* nm, std::vector<double> const& v) {
            hclpp::KV_double_3d const a(nm, static_cast<std::size_t>(nw[0]), static_cast<std::size_t>(nw[1]), static_cast<std::size_t>(nw[2]));
            vunit::put(a, v);
            return a;
        };
        // what a range visits
        for (int e = 0; e <= ng; ++e) {
            auto const rg = e == 0 ? g.range.no_ghosts() : (e == ng && seed % 2 ? g.range.all_ghosts() : g.range.with_ghosts(e));
            auto const cnt = make3("count", std::vector<double>(tot, 0.0));
            Kokkos::parallel_for("count", hclpp::cell_mdrange(rg), KOKKOS_LAMBDA(int i, int j, int k) { cnt(i, j, k) += 1; });
            auto const c = snap(cnt);
            each([&](int i, int j, int k) {
                if (c[idx(i, j, k)] != (in(e, i, j, k) ? 1.0 : 0.0)) {
                    bad_at(fmt("range: local cell (%d,%d,%d) is visited %g times by the range with %d ghosts", i, j, k, c[idx(i, j, k)], e));
                }
            });
        }
        // whole-domain sum and minimum: ghosts are poison
        std::vector<double> rho(tot, NAN), E(tot, NAN), rhou(tot * static_cast<std::size_t>(nd), NAN), dv = snap(g.dv);
        each([&](int i, int j, int k) {
            if (!in(0, i, j, k)) {
                return;
            }
            double o[5];
            state(i - gh[0] + cm[0], j - gh[1] + cm[1], k - gh[2] + cm[2], o);
            rho[idx(i, j, k)] = o[0];
            E[idx(i, j, k)] = o[1];
            double ek = 0;
            for (int d = 0; d < nd; ++d) {
                rhou[idx(i, j, k) + tot * static_cast<std::size_t>(d)] = o[2 + d];
                ek += o[2 + d] * o[2 + d] / o[0] / 2;
            }
            part[R] += static_cast<ld>(o[0]) * dv[idx(i, j, k)];
            ++seen[R];
            if (std::isnan(o[1])) {
                low[R] = -INFINITY;
            }
            low[R] = std::fmin(low[R], o[1] - ek);
            esc[R] = std::fmax(esc[R], std::isnan(o[1]) ? 0 : std::fabs(o[1]) + ek);
        });
        auto const vr = make3("rho", rho), vE = make3("E", E);
        hclpp::KV_double_4d const vu("rhou", static_cast<std::size_t>(nw[0]), static_cast<std::size_t>(nw[1]), static_cast<std::size_t>(nw[2]), static_cast<std::size_t>(nd));
        vunit::put(vu, rhou);
        sums[R] = hclpp::integrate(g.range.no_ghosts(), g, vr);
        mins[R] = hclpp::minimum_internal_energy(g.range.no_ghosts(), g, vr, vu, vE);
        if (std::memcmp(snap(vr).data(), rho.data(), tot * sizeof(double)) != 0 || std::memcmp(snap(vE).data(), E.data(), tot * sizeof(double)) != 0) {
            bad_at("sum: an input was changed");
        }
        // temperatures on a range
        {
            std::vector<double> a(tot), b(tot);
            Rng q(vck::mix(seed, 99 + static_cast<std::uint64_t>(rank)));
            for (std::size_t z = 0; z < tot; ++z) {
                a[z] = sc.rho * std::exp(q.uni(-2, 2));
                b[z] = sc.P * std::exp(q.uni(-2, 2));
            }
            hclpp::EOS const eos(static_cast<double>(gas.gamma), static_cast<double>(gas.mu));
            auto const va = make3("rho", a), vb = make3("P", b), vT = make3("T", std::vector<double>(tot, vunit::poison));
            hclpp::temperature(g.range.with_ghosts(eff), eos, va, vb, vT);
            auto const T = snap(vT);
            each([&](int i, int j, int k) {
                std::size_t const z = idx(i, j, k);
                double const e = in(eff, i, j, k) ? eos.compute_temp_from_pres(a[z], b[z]) : vunit::poison;
                if (!(std::fabs(T[z] - e) <= 1e-12 * std::fabs(e))) {
                    bad_at(fmt("temperature: local cell (%d,%d,%d) holds %.17g instead of %.17g (range with %d ghosts)", i, j, k, T[z], e, eff));
                }
            });
        }
        // profiles and constants
        std::vector<double> mine(static_cast<std::size_t>(nw[0] - 2 * gh[0]));
        for (std::size_t i = 0; i < mine.size(); ++i) {
            mine[i] = line[i + static_cast<std::size_t>(cm[0])];
        }
        auto const vl = vunit::upload("line", mine);
        for (int kind = 0; kind < 4; ++kind) {
            auto const nc = static_cast<std::size_t>(kind % 2 ? ncomp : 1);
            std::vector<double> got;
            if (kind % 2 == 0) {
                auto const o = make3("out", std::vector<double>(tot, vunit::poison));
                kind == 0 ? hclpp::broadcast(g.range.no_ghosts(), value, o) : hclpp::broadcast(g.range.no_ghosts(), vl, o);
                got = snap(o);
            } else {
                hclpp::KV_double_4d const o("out", static_cast<std::size_t>(nw[0]), static_cast<std::size_t>(nw[1]), static_cast<std::size_t>(nw[2]), nc);
                vunit::put(o, std::vector<double>(tot * nc, vunit::poison));
                kind == 1 ? hclpp::broadcast(g.range.no_ghosts(), value, o) : hclpp::broadcast(g.range.no_ghosts(), vl, o);
                got = snap(o);
            }
            for (std::size_t c = 0; c < nc; ++c) {
                each([&](int i, int j, int k) {
                    double const e = !in(0, i, j, k) ? vunit::poison : (kind < 2 ? value : mine[static_cast<std::size_t>(i - gh[0])]);
                    double const v = got[idx(i, j, k) + tot * c];
                    if (!vunit::same_bits(v, e)) {
                        bad_at(fmt("profile: %s: local cell (%d,%d,%d) component %zu holds %.17g instead of %.17g", kind < 2 ? "constant" : "line", i, j, k, c, v, e));
                    }
                });
            }
        }
        // impossible ranges are refused
        auto refused = [&](char const* what, auto const& f) {
            bool thrown = false;
            try {
                f();
            } catch (std::exception const&) {
                thrown = true;
            }
            if (!thrown) {
                bad_at(std::string("range: ") + what + " is accepted");
            }
        };
        refused("a range wider than the ghosts of the mesh", [&] { (void)g.range.with_ghosts(ng + 1 + static_cast<int>(seed % 3)); });
        refused("a negative corner", [&] { hclpp::Range const q({0, 0, -1}, {2, 2, 2}, ng); });
        refused("a corner after the other", [&] { hclpp::Range const q({3, 0, 0}, {2, 2, 2}, ng); });
    });
    if (!w.ok) {
        return;
    }
    ld total = 0;
    double lowest = INFINITY, scale = 0;
    long cells = 0;
    for (std::size_t q = 0; q < P_; ++q) {
        total += part[q];
        lowest = std::fmin(lowest, low[q]);
        scale = std::fmax(scale, esc[q]);
        cells += seen[q];
        if (!why[q].empty()) {
            vck::fail("domain." + why[q].substr(0, why[q].find(':')), cfg + fmt(" rank %zu: ", q) + why[q]);
        }
    }
    if (cells != static_cast<long>(N[0]) * N[1] * N[2]) {
        vck::fail("domain.range", cfg + fmt(" the ranks hold %ld cells", cells));
    }
    for (std::size_t q = 0; q < P_; ++q) {
        if (!(std::fabs(sums[q] - static_cast<double>(total)) <= 1e-13 * (10 + static_cast<double>(cells)) * static_cast<double>(total))) {
            vck::fail("domain.sum", cfg + fmt(" rank %zu: the sum over the domain is %.17g instead of %.17g", q, sums[q], static_cast<double>(total)));
        }
        if (bad == 0 ? !(std::isnan(mins[q]) || mins[q] < 0) : !(std::fabs(mins[q] - lowest) <= 1e-13 * scale)) {
            vck::fail("domain.minimum", cfg + fmt(" rank %zu: the minimum internal energy is %.17g instead of %.17g", q, mins[q], bad == 0 ? NAN : lowest));
        }
        if (!vunit::same_bits(sums[q], sums[0]) || !vunit::same_bits(mins[q], mins[0])) {
            vck::fail("domain.agree", cfg + fmt(" rank %zu holds another sum or minimum than rank 0", q));
        }
    }
    vck::eval(vck::mix(static_cast<std::uint64_t>(n), vck::hash_str(cfg)), P > 1);
    vck::sample(cfg);
    vck::stat("cells", cells);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    bool const th = vck::st().thorough;
    if (what == "partition") {
        vck::cases("partition", th ? 8000 : 250, partition_case);
        vck::cases("run", th ? 1500 : 40, run_case);
    } else if (what == "domain") {
        vck::cases("domain", th ? 20000 : 800, domain_case);
    } else {
        vck::cases("geometry", th ? 20000 : 600, geometry_case);
    }
    return vck::finish();
}
