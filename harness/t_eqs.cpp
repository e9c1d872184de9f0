// One step of the program against the Euler equations: for smooth flows the rate of change of every conserved variable
// approaches minus the divergence of the fluxes plus the gravity terms, in every geometry.
#include <extrapolation_reconstruction.hpp>
#include <gravity.hpp>
#include <vfeat.hpp>
#include <vunit.hpp>

using namespace vfeat;
using vphys::ld;

namespace {

ld const PI = vphys::pi;

struct Wave
{
    ld base = 1, a = 0, ph = 0, k[3] = {0, 0, 0};
    ld at(ld const* q) const { return base + a * sinl(k[0] * q[0] + k[1] * q[1] + k[2] * q[2] + ph); }
};

// a smooth flow given in Cartesian space with the symmetry of the configuration
struct Flow
{
    Wave rho, P, V[3], f[2];
    int nfx = 0;
    double gamma = 5.0 / 3, mu = 1;
    ld g[3] = {0, 0, 0}; // Cartesian gravity
    ld gm = 0; // point mass times G

    // symmetric coordinates of a point
    static void sym(ld const* X, ld* q)
    {
        q[0] = X[0];
        q[1] = X[1];
        q[2] = X[2];
        if (spherical() && nd == 1) {
            q[0] = sqrtl(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]);
            q[1] = q[2] = 0;
        } else if (spherical() && nd == 2) {
            q[0] = sqrtl(X[0] * X[0] + X[1] * X[1]);
            q[1] = X[2];
            q[2] = 0;
        }
    }
    void vel(ld const* X, ld* v) const
    {
        ld q[3];
        sym(X, q);
        v[0] = v[1] = v[2] = 0;
        if (spherical() && nd == 1) {
            for (int d = 0; d < 3; ++d) {
                v[d] = V[0].at(q) * X[d] / q[0];
            }
        } else if (spherical() && nd == 2) {
            v[0] = V[0].at(q) * X[0] / q[0];
            v[1] = V[0].at(q) * X[1] / q[0];
            v[2] = V[1].at(q);
        } else {
            for (int d = 0; d < nd; ++d) {
                v[d] = V[d].at(q);
            }
        }
    }
    struct U
    {
        ld u[7]; // rho, rhou (Cartesian), E, rho f
        ld P, v[3];
    };
    U state(ld const* X) const
    {
        ld q[3];
        sym(X, q);
        U s {};
        vphys::Gas const gs {gamma, mu, radgas()};
        ld const r = rho.at(q);
        s.P = P.at(q);
        vel(X, s.v);
        s.u[0] = r;
        for (int d = 0; d < 3; ++d) {
            s.u[1 + d] = r * s.v[d];
        }
        s.u[4] = gs.e_P(r, s.P) + r * (s.v[0] * s.v[0] + s.v[1] * s.v[1] + s.v[2] * s.v[2]) / 2;
        for (int i = 0; i < nfx; ++i) {
            s.u[5 + i] = r * f[i].at(q);
        }
        return s;
    }
    // flux of every conserved variable along direction j
    void flux(ld const* X, int j, ld* F) const
    {
        U const s = state(X);
        for (int c = 0; c < 7; ++c) {
            F[c] = s.u[c] * s.v[j];
        }
        F[1 + j] += s.P;
        F[4] += s.P * s.v[j];
    }
    void rate(ld const* X, ld* R) const
    {
        ld const h = 2e-3L;
        static ld const w[3] = {45.0L / 60, -9.0L / 60, 1.0L / 60};
        for (int c = 0; c < 7; ++c) {
            R[c] = 0;
        }
        for (int j = 0; j < 3; ++j) {
            if (!spherical() && j >= nd) {
                continue;
            }
            for (int m = 1; m <= 3; ++m) {
                for (int sg = -1; sg <= 1; sg += 2) {
                    ld Y[3] = {X[0], X[1], X[2]}, F[7];
                    Y[j] += sg * m * h;
                    flux(Y, j, F);
                    for (int c = 0; c < 7; ++c) {
                        R[c] -= sg * w[m - 1] * F[c] / h;
                    }
                }
            }
        }
        U const s = state(X);
        ld a[3] = {g[0], g[1], g[2]};
        if (gm != 0) {
            ld const r2 = X[0] * X[0] + X[1] * X[1] + X[2] * X[2];
            for (int d = 0; d < 3; ++d) {
                a[d] -= gm * X[d] / (r2 * sqrtl(r2));
            }
        }
        for (int d = 0; d < 3; ++d) {
            R[1 + d] += s.u[0] * a[d];
            R[4] += s.u[1 + d] * a[d];
        }
    }
};

// Cartesian position of a cell centre, and the local frame
void place(double const* x, ld* X, ld e[3][3])
{
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            e[i][j] = i == j;
        }
    }
    if (!spherical()) {
        for (int d = 0; d < 3; ++d) {
            X[d] = x[d];
        }
        return;
    }
    ld const r = x[0], th = nd > 1 ? static_cast<ld>(x[1]) : PI / 2, ph = nd > 2 ? static_cast<ld>(x[2]) : 0;
    ld const er[3] = {sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)};
    ld const et[3] = {cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th)};
    ld const ep[3] = {-sinl(ph), cosl(ph), 0};
    for (int d = 0; d < 3; ++d) {
        X[d] = r * er[d];
        e[0][d] = er[d];
        e[1][d] = et[d];
        e[2][d] = ep[d];
    }
}

char const* const cname[7] = {"density", "momentum 0", "momentum 1", "momentum 2", "energy", "scalar 0", "scalar 1"};

void residual(long, Rng& r)
{
    Flow fl;
    Box b;
    for (int d = 0; d < 3; ++d) {
        if (spherical()) {
            b.lo[d] = d == 0 ? r.uni(0.8, 2) : (d == 1 ? r.uni(0.4, 1.6) : r.uni(0, 5));
            b.hi[d] = b.lo[d] + (d == 0 ? r.uni(0.6, 1) : r.uni(0.6, 1));
        } else {
            b.lo[d] = r.uni(-2, 1);
            b.hi[d] = b.lo[d] + (d < nd ? r.uni(0.7, 1.4) : 1);
        }
    }
    fl.gamma = r.pick(std::vector<double> {1.4, 5.0 / 3, 4.0 / 3, 2.0});
    fl.mu = r.coin() ? 1 : r.uni(0.5, 4);
    fl.nfx = r.range(0, 2);
    vphys::Gas const gs {fl.gamma, fl.mu, radgas()};
    auto const sc = vphys::scale(gs, r);
    double const mach = r.pick(std::vector<double> {0, 0.3, 1, 2});
    bool const straight = r.coin(0.3); // straight uniform motion of a uniform gas
    auto wave = [&](double base, double a) {
        Wave w;
        w.base = base;
        w.a = straight ? 0 : a;
        w.ph = r.uni(0, 2 * M_PI);
        for (int d = 0; d < 3; ++d) {
            w.k[d] = r.uni(-2, 2);
        }
        return w;
    };
    fl.rho = wave(sc.rho, 0.3 * sc.rho);
    fl.P = wave(sc.P, 0.3 * sc.P);
    for (int d = 0; d < 3; ++d) {
        fl.V[d] = wave(mach * sc.u * r.uni(-1, 1), mach * sc.u * 0.3);
    }
    if (straight && spherical() && nd < 3) {
        fl.V[0].base = 0; // no straight motion across the axis of symmetry
    }
    for (int i = 0; i < 2; ++i) {
        fl.f[i] = wave(0.5, 0.3);
    }
    std::string const recon = r.pick(recons()), solver = r.pick(solvers());
    bool const mapped = r.coin(0.4);
    double const st[3] = {r.uni(-0.25, 0.25), r.uni(-0.25, 0.25), r.uni(-0.25, 0.25)};
    double gv[3] = {0, 0, 0};
    double M = 0;
    if (r.coin()) {
        if (gravity_kind == 0 && !spherical()) {
            for (int d = 0; d < nd; ++d) {
                gv[d] = r.uni(-2, 2) * sc.u * sc.u;
                fl.g[d] = gv[d];
            }
        } else if (gravity_kind == 1 && spherical()) {
            M = r.uni(0.2, 2) * sc.u * sc.u / static_cast<double>(vphys::G);
            fl.gm = vphys::G * static_cast<ld>(M);
        }
    }
    double err[2][7];
    std::string cfg;
    int const n0 = nd == 3 ? 12 : 24;
    for (int lev = 0; lev < 2; ++lev) {
        int const n = n0 << lev;
        for (int d = 0; d < nd; ++d) {
            b.n[d] = n;
        }
        Ini c = base_ini(b);
        auto const lay = nd == 3 && lev == 1 ? std::array<int, 3> {1, 2, 1} : std::array<int, 3> {1, 1, 1};
        set_dims(c, lay);
        c.set("Boundary Condition", "BC", "NullGradient");
        c.set("Hydro", "reconstruction", recon);
        c.set("Hydro", "riemann_solver", solver);
        c.set("Perfect Gas", "gamma", fl.gamma);
        c.set("Perfect Gas", "mu", fl.mu);
        c.set("Run", "cfl", 0.05);
        c.set("Output", "max_iter", 1);
        if (fl.nfx) {
            c.set("Passive Scalar", "nfx", fl.nfx);
        }
        for (int d = 0; d < 3; ++d) {
            if (gv[d] != 0) {
                c.set("Gravity", fmt("gx%d", d), gv[d]);
            }
        }
        c.set("Gravity", "M", M);
        // smoothly stretched nodes
        std::array<std::vector<double>, 3> nodes;
        for (int d = 0; d < 3; ++d) {
            int const g = d < nd ? 2 : 0;
            for (int i = -g; i <= b.n[d] + g; ++i) {
                double const s = static_cast<double>(i) / b.n[d];
                double const t = mapped && d < nd ? s + st[d] * s * (1 - s) : s;
                nodes[static_cast<std::size_t>(d)].push_back(b.lo[d] + (b.hi[d] - b.lo[d]) * t);
            }
        }
        if (mapped) {
            c.set("Grid", "type", "UserDefined");
            vcase::hooks().grid = [nodes](int d, int, int m, double* x) {
                for (int i = 0; i < m; ++i) {
                    x[i] = nodes[static_cast<std::size_t>(d)].at(static_cast<std::size_t>(i));
                }
            };
        }
        auto centre = [&](int const* ix, double* x) {
            for (int d = 0; d < 3; ++d) {
                auto const q = static_cast<std::size_t>(ix[d] + (d < nd ? 2 : 0));
                x[d] = (nodes[static_cast<std::size_t>(d)][q] + nodes[static_cast<std::size_t>(d)][q + 1]) / 2;
            }
        };
        auto exact = [&](int const* ix, ld* u, ld* R) {
            double x[3];
            ld X[3], e[3][3];
            centre(ix, x);
            place(x, X, e);
            auto const s = fl.state(X);
            ld rc[7];
            fl.rate(X, rc);
            for (int cc = 0; cc < 7; ++cc) {
                u[cc] = s.u[cc];
                R[cc] = rc[cc];
            }
            for (int d = 0; d < 3; ++d) {
                u[1 + d] = R[1 + d] = 0;
                for (int q = 0; q < 3; ++q) {
                    u[1 + d] += e[d][q] * s.u[1 + q];
                    R[1 + d] += e[d][q] * rc[1 + q];
                }
            }
        };
        vcase::hooks().init = [&](vcase::CellIn const& q) {
            vcase::CellState s {};
            ld X[3], e[3][3], qq[3], v[3];
            double x[3];
            centre(q.g, x);
            place(x, X, e);
            Flow::sym(X, qq);
            s.rho = static_cast<double>(fl.rho.at(qq));
            s.P = static_cast<double>(fl.P.at(qq));
            fl.vel(X, v);
            for (int d = 0; d < nd; ++d) {
                s.u[d] = static_cast<double>(e[d][0] * v[0] + e[d][1] * v[1] + e[d][2] * v[2]);
            }
            for (int i = 0; i < fl.nfx; ++i) {
                s.fx[i] = static_cast<double>(fl.f[i].at(qq));
            }
            return s;
        };
        Observer ob;
        observe(ob, b, prod(lay), c);
        RunOpt o;
        o.ranks = prod(lay);
        o.seed = r.next();
        Run const x = run(c, o);
        drop(x);
        clear_hooks();
        if (lev == 0) {
            cfg = fmt("n=%d %s %s gamma=%.4g mach=%g nfx=%d%s%s%s domain [%.3g,%.3g]x[%.3g,%.3g]x[%.3g,%.3g]", n0, solver.c_str(), recon.c_str(), fl.gamma, mach, fl.nfx,
                      straight ? " uniform straight flow" : "", mapped ? " stretched mesh" : "", fl.g[0] != 0 || fl.gm != 0 ? " gravity" : "", b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]);
        }
        if (!x.ok() || ob.steps.empty() || ob.steps[0].cells_seen != b.cells()) {
            vck::fail("equations.run", cfg + " run failed: " + x.why());
            return;
        }
        double const dt = ob.ranks[0].tdt.at(0).second;
        ld sum[7] = {0};
        long cnt = 0;
        int const cut = n / 6;
        int ix[3];
        for (ix[2] = nd > 2 ? cut : 0; ix[2] < (nd > 2 ? n - cut : 1); ++ix[2]) {
            for (ix[1] = nd > 1 ? cut : 0; ix[1] < (nd > 1 ? n - cut : 1); ++ix[1]) {
                for (ix[0] = cut; ix[0] < n - cut; ++ix[0]) {
                    if (nd > 1 && (static_cast<unsigned>(ix[0] * 7 + ix[1] * 11 + ix[2] * 13) % ((nd == 3 ? 4U : 2U) << (2 * lev))) != 0) {
                        continue; // a sample of the cells
                    }
                    ld u[7], R[7];
                    exact(ix, u, R);
                    auto const q = static_cast<std::size_t>(b.at(ix[0], ix[1], ix[2]));
                    auto const& s = ob.steps[0];
                    for (int cc = 0; cc < 7; ++cc) {
                        if ((cc >= 1 + nd && cc < 4) || cc - 5 >= fl.nfx) {
                            continue;
                        }
                        double const w = cc == 0 ? s.rho[q] : (cc < 4 ? s.m[cc - 1][q] : (cc == 4 ? s.E[q] : s.fx[static_cast<std::size_t>(cc - 5)][q] * (s.rho[q])));
                        ld const d = fabsl((w - u[cc]) / dt - R[cc]);
                        sum[cc] += std::isfinite(w) ? d : 1e300L;
                    }
                    ++cnt;
                }
            }
        }
        ld const rs = sc.rho, us = sc.u * (1 + mach), L = 1;
        ld const ref[7] = {rs * us / L, rs * us * us / L, rs * us * us / L, rs * us * us / L, (sc.P * 3 + rs * us * us) * us / L, rs * us / L, rs * us / L};
        for (int cc = 0; cc < 7; ++cc) {
            err[lev][cc] = static_cast<double>(sum[cc] / cnt / ref[cc]);
        }
    }
    std::string line;
    bool const dbg = vck::st().opt["show"] == "1";
    for (int cc = 0; cc < 7; ++cc) {
        if ((cc >= 1 + nd && cc < 4) || cc - 5 >= fl.nfx) {
            continue;
        }
        line += fmt(" %s %.2e %.2e", cname[cc], err[0][cc], err[1][cc]);
        double const e0 = err[0][cc], e1 = err[1][cc];
        // a limiter that clips on a few cells leaves an error of this size that may not fall between two given meshes
        if (!(e1 <= 0.8 * e0 || e1 <= 1e-3)) {
            vck::fail("equations.converge", cfg + fmt(" the rate of change of %s differs from the Euler equations by %.3g (in units of its scale) with %d cells and by %.3g with %d", cname[cc], e0, n0, e1, 2 * n0));
        }
    }
    if (dbg) {
        std::printf("%s:%s\n", cfg.c_str(), line.c_str());
    }
    vck::eval(vck::hash_str(cfg));
}

// the change of the face states over the first half of a step, given the exact states of a smooth flow on the faces
void predictor(long, Rng& r)
{
    Flow fl;
    double lo[3], hi[3];
    for (int d = 0; d < 3; ++d) {
        lo[d] = spherical() ? (d == 0 ? r.uni(0.8, 2) : (d == 1 ? r.uni(0.4, 1.6) : r.uni(0, 5))) : r.uni(-2, 1);
        hi[d] = lo[d] + r.uni(0.6, 1);
    }
    fl.gamma = r.pick(std::vector<double> {1.4, 5.0 / 3, 4.0 / 3, 2.0});
    fl.mu = r.coin() ? 1 : r.uni(0.5, 4);
    fl.nfx = r.range(0, 2);
    vphys::Gas const gs {fl.gamma, fl.mu, radgas()};
    auto const sc = vphys::scale(gs, r);
    double const mach = r.pick(std::vector<double> {0.3, 1, 3});
    auto wave = [&](double base, double a) {
        Wave w;
        w.base = base;
        w.a = a;
        w.ph = r.uni(0, 2 * M_PI);
        for (int d = 0; d < 3; ++d) {
            w.k[d] = r.uni(-2, 2);
        }
        return w;
    };
    fl.rho = wave(sc.rho, 0.3 * sc.rho);
    fl.P = wave(sc.P, 0.3 * sc.P);
    for (int d = 0; d < 3; ++d) {
        fl.V[d] = wave(mach * sc.u * r.uni(-1, 1), mach * sc.u * 0.3);
    }
    for (int i = 0; i < 2; ++i) {
        fl.f[i] = wave(0.5, 0.3);
    }
    bool const mapped = r.coin(0.4);
    double const st[3] = {r.uni(-0.25, 0.25), r.uni(-0.25, 0.25), r.uni(-0.25, 0.25)};
    double gv[3] = {0, 0, 0}, M = 0;
    if (gravity_kind == 0 && !spherical()) {
        for (int d = 0; d < nd; ++d) {
            gv[d] = r.uni(-2, 2) * sc.u * sc.u;
            fl.g[d] = gv[d];
        }
    } else if (gravity_kind == 1 && spherical()) {
        M = r.uni(0.2, 2) * sc.u * sc.u / static_cast<double>(vphys::G);
        fl.gm = vphys::G * static_cast<ld>(M);
    }
    double const dt = 1e-5 / (sc.u * (1 + mach));
    int const n0 = 6;
    double err[2][2][7]; // [mesh][one face, mean of both faces]
    for (int lev = 0; lev < 2; ++lev) {
        int const n = n0 << lev;
        std::array<int, 3> N {1, 1, 1};
        std::array<std::vector<double>, 3> nodes;
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            N[D] = d < nd ? n : 1;
            int const g = d < nd ? 2 : 0;
            for (int i = -g; i <= N[D] + g; ++i) {
                double const s = static_cast<double>(i) / N[D];
                nodes[D].push_back(lo[d] + (hi[d] - lo[d]) * (mapped && d < nd ? s + st[d] * s * (1 - s) : s));
            }
        }
        ld worst[2][7] = {};
        auto const w = vunit::world(1, 1, [&](int) {
            hclpp::Grid g(N, {1, 1, 1}, 2);
            vunit::set_nodes(g, nodes);
            std::size_t const e[3] = {static_cast<std::size_t>(g.Nx_local_wg[0]), static_cast<std::size_t>(g.Nx_local_wg[1]), static_cast<std::size_t>(g.Nx_local_wg[2])};
            std::size_t const cells = e[0] * e[1] * e[2], ND = static_cast<std::size_t>(nd), NF = static_cast<std::size_t>(fl.nfx);
            auto cell = [&](int const* ix) { return static_cast<std::size_t>(ix[0]) + e[0] * (static_cast<std::size_t>(ix[1]) + e[1] * static_cast<std::size_t>(ix[2])); };
            auto at = [&](std::size_t c, int side, int pos, int comp = 0) { return c + cells * (static_cast<std::size_t>(side) + 2 * (static_cast<std::size_t>(pos) + ND * static_cast<std::size_t>(comp))); };
            hclpp::KV_double_5d const rho("rho_rec", e[0], e[1], e[2], 2, ND), E("E_rec", e[0], e[1], e[2], 2, ND), P("P_rec", e[0], e[1], e[2], 2, ND);
            hclpp::KV_double_6d const m("rhou_rec", e[0], e[1], e[2], 2, ND, ND), u("u_rec", e[0], e[1], e[2], 2, ND, ND), fx("fx_rec", e[0], e[1], e[2], 2, ND, NF);
            std::vector<double> vr(rho.size()), vE(rho.size()), vP(rho.size()), vm(m.size()), vu(m.size()), vf(fx.size());
            auto each = [&](int margin, auto const& f) {
                int ix[3];
                int const a[3] = {margin, nd > 1 ? margin : 0, nd > 2 ? margin : 0};
                for (ix[2] = a[2]; ix[2] < static_cast<int>(e[2]) - a[2]; ++ix[2]) {
                    for (ix[1] = a[1]; ix[1] < static_cast<int>(e[1]) - a[1]; ++ix[1]) {
                        for (ix[0] = a[0]; ix[0] < static_cast<int>(e[0]) - a[0]; ++ix[0]) {
                            f(ix);
                        }
                    }
                }
            };
            auto centre = [&](int const* ix, double* x) {
                for (int d = 0; d < 3; ++d) {
                    auto const& X = nodes[static_cast<std::size_t>(d)];
                    x[d] = (X[static_cast<std::size_t>(ix[d])] + X[static_cast<std::size_t>(ix[d]) + 1]) / 2;
                }
            };
            each(0, [&](int const* ix) {
                std::size_t const c = cell(ix);
                for (int pos = 0; pos < nd; ++pos) {
                    for (int side = 0; side < 2; ++side) {
                        double x[3];
                        ld X[3], fr[3][3], q[3];
                        centre(ix, x);
                        x[pos] = nodes[static_cast<std::size_t>(pos)][static_cast<std::size_t>(ix[pos] + side)];
                        place(x, X, fr);
                        Flow::sym(X, q);
                        auto const s = fl.state(X);
                        vr[at(c, side, pos)] = static_cast<double>(s.u[0]);
                        vE[at(c, side, pos)] = static_cast<double>(s.u[4]);
                        vP[at(c, side, pos)] = static_cast<double>(s.P);
                        for (int d = 0; d < nd; ++d) {
                            ld const v = fr[d][0] * s.v[0] + fr[d][1] * s.v[1] + fr[d][2] * s.v[2];
                            vu[at(c, side, pos, d)] = static_cast<double>(v);
                            vm[at(c, side, pos, d)] = static_cast<double>(v * s.u[0]);
                        }
                        for (int i = 0; i < fl.nfx; ++i) {
                            vf[at(c, side, pos, i)] = static_cast<double>(fl.f[i].at(q));
                        }
                    }
                }
            });
            vunit::put(rho, vr);
            vunit::put(E, vE);
            vunit::put(P, vP);
            vunit::put(m, vm);
            vunit::put(u, vu);
            vunit::put(fx, vf);
            hclpp::EOS const eos(fl.gamma, fl.mu);
            if constexpr (gravity_kind == 1) {
                auto const gr = hclpp::make_point_mass_gravity(M, g);
                hclpp::HancockExtrapolationReconstruction<hclpp::EOS, std::decay_t<decltype(gr)>>(eos).execute(g.range.with_ghosts(1), g, gr, dt, u, P, rho, m, E, fx);
            } else {
                auto const gr = hclpp::make_uniform_gravity(gv[0], gv[1], gv[2]);
                hclpp::HancockExtrapolationReconstruction<hclpp::EOS, std::decay_t<decltype(gr)>>(eos).execute(g.range.with_ghosts(1), g, gr, dt, u, P, rho, m, E, fx);
            }
            auto const nr = vunit::snap(rho), nE = vunit::snap(E), nm = vunit::snap(m), nf = vunit::snap(fx);
            each(1, [&](int const* ix) {
                std::size_t const c = cell(ix);
                double x[3];
                ld X[3], fr[3][3], rc[7], R[7];
                centre(ix, x);
                place(x, X, fr);
                fl.rate(X, rc);
                for (int cc = 0; cc < 7; ++cc) {
                    R[cc] = rc[cc];
                }
                for (int d = 0; d < 3; ++d) {
                    R[1 + d] = fr[d][0] * rc[1] + fr[d][1] * rc[2] + fr[d][2] * rc[3];
                }
                for (int pos = 0; pos < nd; ++pos) {
                    for (int cc = 0; cc < 7; ++cc) {
                        if ((cc >= 1 + nd && cc < 4) || cc - 5 >= fl.nfx) {
                            continue;
                        }
                        ld both = 0;
                        for (int side = 0; side < 2; ++side) {
                            std::size_t const a = at(c, side, pos);
                            ld rate;
                            if (cc == 0) {
                                rate = (static_cast<ld>(nr[a]) - vr[a]) / dt;
                            } else if (cc < 4) {
                                rate = (static_cast<ld>(nm[at(c, side, pos, cc - 1)]) - vm[at(c, side, pos, cc - 1)]) / dt;
                            } else if (cc == 4) {
                                rate = (static_cast<ld>(nE[a]) - vE[a]) / dt;
                            } else {
                                std::size_t const z = at(c, side, pos, cc - 5);
                                rate = (static_cast<ld>(nf[z]) * nr[a] - static_cast<ld>(vf[z]) * vr[a]) / dt;
                            }
                            ld const er = std::isfinite(static_cast<double>(rate)) ? fabsl(rate - R[cc]) : 1e300L;
                            worst[0][cc] = fmaxl(worst[0][cc], er);
                            both += (rate - R[cc]) / 2;
                        }
                        worst[1][cc] = fmaxl(worst[1][cc], std::isfinite(static_cast<double>(both)) ? fabsl(both) : 1e300L);
                    }
                }
            });
        });
        if (!w.ok) {
            return;
        }
        ld const rs = sc.rho, us = sc.u * (1 + mach);
        ld const ref[7] = {rs * us, rs * us * us, rs * us * us, rs * us * us, (sc.P * 3 + rs * us * us) * us, rs * us, rs * us};
        for (int z = 0; z < 2; ++z) {
            for (int cc = 0; cc < 7; ++cc) {
                err[lev][z][cc] = static_cast<double>(worst[z][cc] / ref[cc]);
            }
        }
    }
    std::string const cfg = fmt("face states gamma=%.4g mach=%g nfx=%d%s%s domain [%.3g,%.3g]x[%.3g,%.3g]x[%.3g,%.3g]", fl.gamma, mach, fl.nfx, mapped ? " stretched mesh" : "",
                                gv[0] != 0 || M != 0 ? " gravity" : "", lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    std::string line;
    for (int cc = 0; cc < 7; ++cc) {
        if ((cc >= 1 + nd && cc < 4) || cc - 5 >= fl.nfx) {
            continue;
        }
        for (int z = 0; z < 2; ++z) {
            double const e0 = err[0][z][cc], e1 = err[1][z][cc];
            line += fmt(" %s %.2e %.2e", cname[cc], e0, e1);
            vck::stat_max(z ? "predictor.mean_ratio" : "predictor.face_ratio", e1 > 1e-4 ? e1 / e0 : 0);
            if (!(e1 <= (z ? 0.6 : 0.75) * e0 || e1 <= 1e-4)) {
                vck::fail("equations.predictor", cfg + fmt(" the half step changes %s at a rate that differs from the Euler equations by %.3g (in units of its scale) with %d cells and by %.3g with %d", cname[cc], e0, n0, e1, 2 * n0));
            }
        }
    }
    if (vck::st().opt["show"] == "1") {
        std::printf("%s:%s\n", cfg.c_str(), line.c_str());
    }
    vck::eval(vck::hash_str(cfg));
    vck::stat("predictor_flows");
}

} // namespace

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    long const k = vck::st().thorough ? 15 : 1;
    vck::cases("residual", (nd == 3 ? 10 : 40) * k, residual);
    vck::cases("predictor", (nd == 3 ? 30 : 100) * k, predictor);
    return vck::finish();
}
