// Whole runs against exact solutions of the Euler equations (C35).
//   group riemann: Riemann problems along a random axis and direction, built outwards from their star states
//   group smooth: oblique entropy waves and simple acoustic waves in periodic boxes
#include <vfeat.hpp>

using namespace vfeat;
using vphys::Gas;
using vphys::ld;

namespace {

struct Prim
{
    ld rho = 1, u = 0, P = 1;
};

// values along the isentrope through (rho, P), tabulated from r0 to r1: pressure, sound speed and the integral of c/rho
struct Isentrope
{
    std::vector<ld> r, P, c, J;
    Isentrope(Gas const& g, ld r0, ld P0, ld r1, int n = 400)
    {
        ld p = P0, j = 0, x = r0;
        ld const h = (r1 - r0) / n;
        auto cc = [&](ld rr, ld pp) { return g.c_P(rr, pp); };
        for (int i = 0;; ++i) {
            ld const c0 = cc(x, p);
            r.push_back(x);
            P.push_back(p);
            c.push_back(c0);
            J.push_back(j);
            if (i == n) {
                break;
            }
            ld const k1 = c0 * c0;
            ld const c2 = cc(x + h / 2, p + h / 2 * k1), c3 = cc(x + h / 2, p + h / 2 * c2 * c2), c4 = cc(x + h, p + h * c3 * c3);
            ld const pn = p + h / 6 * (k1 + 2 * c2 * c2 + 2 * c3 * c3 + c4 * c4);
            j += h / 6 * (c0 / x + 2 * c2 / (x + h / 2) + 2 * c3 / (x + h / 2) + c4 / (x + h));
            p = pn;
            x = r0 + h * (i + 1);
        }
    }
    // linear interpolation at density q
    void at(ld q, ld& p, ld& cs, ld& j) const
    {
        ld const s = (q - r.front()) / (r.back() - r.front()) * static_cast<ld>(r.size() - 1);
        auto i = static_cast<std::size_t>(fmaxl(0, fminl(s, static_cast<ld>(r.size() - 2))));
        ld const w = s - static_cast<ld>(i);
        p = P[i] + w * (P[i + 1] - P[i]);
        cs = c[i] + w * (c[i + 1] - c[i]);
        j = J[i] + w * (J[i + 1] - J[i]);
    }
};

// one wave facing right: from the star state to the undisturbed state on its right
struct Outer
{
    bool shock = false, none = false;
    Prim far;
    ld head = 0, tail = 0; // speeds: outer edge, inner edge
    std::shared_ptr<Isentrope> iso;
    Prim star;
    Outer(Gas const& g, Prim s, ld ratio) : star(s) // ratio: density of the far state over that of the star
    {
        far.rho = s.rho * ratio;
        if (ratio == 1) {
            none = true;
            far = s;
            head = tail = s.u + g.c_P(s.rho, s.P);
        } else if (ratio < 1) {
            shock = true;
            ld const es = g.e_P(s.rho, s.P) / s.rho, dv = 1 / far.rho - 1 / s.rho;
            ld lo = 0, hi = s.P;
            for (int i = 0; i < 200; ++i) {
                ld const m = (lo + hi) / 2, f = es - g.e_P(far.rho, m) / far.rho - (s.P + m) / 2 * dv;
                (f > 0 ? lo : hi) = m;
            }
            far.P = (lo + hi) / 2;
            far.u = s.u - sqrtl((s.P - far.P) * dv);
            head = tail = far.u + sqrtl((s.P - far.P) / dv) / far.rho;
        } else {
            iso = std::make_shared<Isentrope>(g, s.rho, s.P, far.rho);
            far.P = iso->P.back();
            far.u = s.u + iso->J.back();
            tail = s.u + iso->c.front();
            head = far.u + iso->c.back();
        }
    }
    Prim at(ld xi) const
    {
        if (xi >= head) {
            return far;
        }
        if (xi <= tail || none || shock) {
            return star;
        }
        std::size_t a = 0, b = iso->r.size() - 1; // u + c grows outwards
        while (b - a > 1) {
            std::size_t const m = (a + b) / 2;
            (star.u + iso->J[m] + iso->c[m] < xi ? a : b) = m;
        }
        ld const va = star.u + iso->J[a] + iso->c[a], vb = star.u + iso->J[b] + iso->c[b], w = (xi - va) / (vb - va);
        Prim q;
        q.rho = iso->r[a] + w * (iso->r[b] - iso->r[a]);
        q.P = iso->P[a] + w * (iso->P[b] - iso->P[a]);
        q.u = star.u + iso->J[a] + w * (iso->J[b] - iso->J[a]);
        return q;
    }
};

struct Problem
{
    std::unique_ptr<Outer> left, right; // left is kept mirrored
    Prim at(ld xi) const
    {
        if (xi >= right->star.u) {
            return right->at(xi);
        }
        Prim q = left->at(-xi);
        q.u = -q.u;
        return q;
    }
    ld contact() const { return right->star.u; }
    ld fastest_left() const { return -left->head; }
    ld fastest_right() const { return right->head; }
};

std::vector<double> column(Box const& b, std::vector<double> const& v, int a)
{
    std::vector<double> r(static_cast<std::size_t>(b.n[a]), 0);
    for (int k = 0; k < b.n[2]; ++k) {
        for (int j = 0; j < b.n[1]; ++j) {
            for (int i = 0; i < b.n[0]; ++i) {
                int const ix[3] = {i, j, k};
                r[static_cast<std::size_t>(ix[a])] += v[static_cast<std::size_t>(b.at(i, j, k))];
            }
        }
    }
    for (double& q : r) {
        q *= static_cast<double>(b.n[a]) / static_cast<double>(b.cells());
    }
    return r;
}

Feat plain(Rng& r)
{
    Opt o;
    o.walls = false;
    o.gravity = false;
    o.irregular = false;
    o.pf = false;
    o.maxp = 1;
    Feat f = random_feat(r, o);
    f.ng = nd == 3 ? 2 : r.pick(std::vector<int> {2, 2, 3});
    f.amp = f.mach = 0;
    return f;
}

// the low Mach solver, which damps slow waves little, needs short steps
double cfl(Rng& r, Feat const& f) { return f.solver == "Low Mach" ? r.uni(0.15, 0.4) : r.uni(0.2, 0.8); }

void riemann(long, Rng& r)
{
    Feat f = plain(r);
    Gas const gs = f.gas();
    int const a = r.range(0, nd - 1);
    bool const flip = r.coin();
    f.cfl = cfl(r, f);
    f.nfx = r.range(0, 1);
    // the star states
    ld const c0 = gs.c_P(f.sc.rho, f.sc.P);
    Prim sl, sr;
    sl.rho = f.sc.rho;
    sr.rho = f.sc.rho * r.loguni(0.3, 3);
    sl.P = sr.P = f.sc.P;
    sl.u = sr.u = (f.solver == "Low Mach" ? r.uni(-0.6, 0.6) : r.uni(-1.5, 1.5)) * c0;
    ld const geff = sl.rho * c0 * c0 / sl.P; // effective index
    auto ratio = [&]() -> ld {
        int const k = r.range(0, 4);
        if (k == 0) {
            return 1;
        }
        return k < 3 ? 1 / (1 + r.u01() * fminl(f.solver == "Low Mach" ? 0.5L : 1.2L, 0.5L * (2 / (geff - 1)))) : r.uni(1, 2.2);
    };
    Prim ml = sl;
    ml.u = -ml.u;
    Problem p;
    p.left = std::make_unique<Outer>(gs, ml, ratio());
    p.right = std::make_unique<Outer>(gs, sr, ratio());
    double const L = f.b.hi[a] - f.b.lo[a];
    ld const wl = fminl(p.fastest_left(), 0), wr = fmaxl(p.fastest_right(), 0);
    double const T = static_cast<double>(0.7L * L / (wr - wl)) * r.uni(0.7, 1);
    double const x0 = flip ? f.b.hi[a] - static_cast<double>(0.12L * L - wl * T) : f.b.lo[a] + static_cast<double>(0.12L * L - wl * T);
    ld ut[2][3] = {{0, 0, 0}, {0, 0, 0}};
    for (int s = 0; s < 2; ++s) {
        for (int d = 0; d < nd; ++d) {
            if (d != a && r.coin()) {
                ut[s][d] = r.uni(-1, 1) * c0;
            }
        }
    }
    auto exact = [&](ld x, ld t, ld* u) {
        ld const y = (flip ? -1 : 1) * (x - x0);
        ld const xi = t > 0 ? y / t : (y >= 0 ? 1e30L : -1e30L);
        Prim q = p.at(xi);
        int const side = xi >= p.contact();
        for (int d = 0; d < 3; ++d) {
            u[d] = d == a ? (flip ? -q.u : q.u) : ut[side][d];
        }
        return q;
    };
    bool const stretched = r.coin(0.25);
    std::uint64_t const mseed = r.next();
    
    double err[2][6] = {{0}}, smear[2] = {0, 0};
    std::string cfg;
    int const n0 = nd == 1 ? 50 : (nd == 2 ? 40 : 25), factor = nd == 1 ? 4 : 2;
    for (int v = 0; v < 2; ++v) {
        int const n = v ? n0 * factor : n0;
        double const h = L / n;
        for (int d = 0; d < nd; ++d) {
            f.b.n[d] = d == a ? n : f.ng;
            f.lay[static_cast<std::size_t>(d)] = d == a ? r.range(1, 2) : 1;
            if (d != a) {
                f.b.lo[d] = 0;
                f.b.hi[d] = f.ng * h * 2;
            } else {
                f.bc.kind[static_cast<std::size_t>(2 * d)] = f.bc.kind[static_cast<std::size_t>(2 * d + 1)] = vghost::null_gradient;
            }
        }
        f.user_grid = stretched;
        if (stretched) {
            Rng m(mseed);
            f.nodes = irregular_nodes(m, f.b, f.ng, 0.15, f.bc);
        }
        rebuild(f);
        f.c.set("Output", "max_iter", 100000);
        f.c.set("Output", "iter_frequency", 100000);
        f.c.set("Run", "t_end", T);
        auto const wave = [](Outer const& o) { return o.none ? "none" : (o.shock ? "shock" : "rarefaction"); };
        cfg = "program " + f.text + fmt(" Riemann problem along direction %d%s: %s, contact, %s; densities %.5Lg %.5Lg %.5Lg %.5Lg star pressure %.5Lg velocity %.5Lg, until %.6g", a, flip ? " reversed" : "", wave(*p.left), wave(*p.right), p.left->far.rho, sl.rho, sr.rho, p.right->far.rho,
                                        sl.P, sl.u, T);
        Mesh const mesh = f.mesh();
        auto const& nodes = mesh.x[a];
        f.install_grid();
        vcase::hooks().init = [&](vcase::CellIn const& q) {
            auto const i = static_cast<std::size_t>(q.g[a]);
            ld const xl = nodes[i], xr = nodes[i + 1];
            ld w = fmaxl(0, fminl(1, (x0 - xl) / (xr - xl))); // part of the cell on the left
            ld ul[3], ur[3];
            Prim const pl = exact(xl - L, 0, ul), pr = exact(xr + L, 0, ur);
            vcase::CellState s {};
            ld const rho = w * pl.rho + (1 - w) * pr.rho;
            s.rho = static_cast<double>(rho);
            ld e = w * gs.e_P(pl.rho, pl.P) + (1 - w) * gs.e_P(pr.rho, pr.P);
            for (int d = 0; d < 3; ++d) {
                ld const m = w * pl.rho * ul[d] + (1 - w) * pr.rho * ur[d];
                s.u[d] = static_cast<double>(m / rho);
                e += (w * pl.rho * ul[d] * ul[d] + (1 - w) * pr.rho * ur[d] * ur[d] - m * m / rho) / 2;
            }
            s.P = static_cast<double>(gs.P_e(rho, e));
            ld const fl = flip ? 0.9L : 0.1L;
            s.fx[0] = static_cast<double>((w * pl.rho * fl + (1 - w) * pr.rho * (1 - fl)) / rho);
            return s;
        };
        Run const x = run(f.c, run_opt(r, f));
        clear_hooks();
        H5 const out = x.last();
        drop(x);
        if (!x.ok() || !out.ok) {
            vck::fail("conv.run", cfg + " run failed: " + x.why());
            return;
        }
        if (!(out.scalar("current_time") == T)) {
            vck::fail("conv.time", cfg + fmt(" ended at %.17g", out.scalar("current_time")));
        }
        std::vector<std::vector<double>> fld {column(f.b, out.f("rho"), a), column(f.b, out.f("P"), a)};
        for (int d = 0; d < nd; ++d) {
            fld.push_back(column(f.b, out.f(vel_name[d]), a));
        }
        if (f.nfx) {
            fld.push_back(column(f.b, out.f("fx0"), a));
        }
        // errors against averages of the exact solution, relative to the typical magnitudes
        ld sum[6] = {0}, tv[6] = {0}, prev[6] = {0};
        for (int i = 0; i < n; ++i) {
            ld m[6] = {0};
            int const sub = 8;
            ld const xl = nodes[static_cast<std::size_t>(i)], w = nodes[static_cast<std::size_t>(i) + 1] - xl;
            for (int q = 0; q < sub; ++q) {
                ld u[3];
                ld const xx = xl + w * (q + 0.5L) / sub;
                Prim const e = exact(xx, T, u);
                m[0] += e.rho / sub;
                m[1] += e.P / sub;
                for (int d = 0; d < nd; ++d) {
                    m[2 + d] += u[d] / sub;
                }
                ld const xi = (flip ? -1 : 1) * (xx - x0) / T;
                m[2 + nd] += (xi < p.contact() ? 0.1L : 0.9L) / sub;
            }
            for (std::size_t q = 0; q < fld.size(); ++q) {
                sum[q] += fabsl(fld[q].at(static_cast<std::size_t>(i)) - m[q]) * w / L;
                tv[q] += i ? fabsl(m[q] - prev[q]) : 0;
                prev[q] = m[q];
            }
        }
        ld tvs = 0;
        for (std::size_t q = 0; q < fld.size(); ++q) {
            ld const sc = q == 0 ? f.sc.rho : (q == 1 ? f.sc.P : (q < static_cast<std::size_t>(2 + nd) ? c0 : 1));
            err[v][q] = static_cast<double>(sum[q] / sc);
            tvs += tv[q] / sc;
        }
        smear[v] = 0;
        for (double const q : err[v]) {
            smear[v] += q * n / static_cast<double>(tvs);
        }
    }
    std::string const tag = (f.recon == "Constant" ? "constant" : "limited") + (f.solver == "Low Mach" ? std::string("_lowmach") : "");
    double tot[2] = {0, 0};
    for (int v = 0; v < 2; ++v) {
        for (double const q : err[v]) {
            tot[v] += q;
        }
        tot[v] /= 4;
    }
    vck::stat_max(("max.smear_" + tag).c_str(), smear[1]);
    vck::stat_max(("max.ratio_" + tag).c_str(), tot[1] / tot[0]);
    // the total error in units of (jump of the solution) x (width of a cell); observed up to 2 with a limited reconstruction, 5 without
    double const lim = f.recon == "Constant" ? 9 : 5.5, rlim = nd == 1 ? 0.75 : 0.97;
    if (!(smear[1] <= lim)) {
        vck::fail("conv.riemann", cfg + fmt(" mean errors: density %.4g pressure %.4g velocity %.4g: the solution is spread or displaced by %.3g cells", err[1][0], err[1][1], err[1][2 + a], smear[1]));
    } else if (!(tot[1] <= rlim * tot[0]) && smear[1] > 1.5) {
        vck::fail("conv.riemann", cfg + fmt(" the error falls only by %.3g with %d times as many cells (%.3g cells)", tot[1] / tot[0], factor, smear[1]));
    }
    if (getenv("VCONV")) {
        printf("%s %s smear %.3f %.3f err %.4f ratio %.3f  rho %.4f P %.4f u %.4f %s\n", tag.c_str(), f.solver.c_str(), smear[0], smear[1], tot[1], tot[1] / tot[0], err[1][0], err[1][1], err[1][2 + a], cfg.c_str());
    }
    vck::eval(vck::hash_str(cfg));
}

void smooth(long, Rng& r)
{
    Feat f = plain(r);
    Gas const gs = f.gas();
    f.cfl = cfl(r, f);
    f.nfx = r.range(0, 1);
    bool const acoustic = r.coin();
    int kn[3] = {0, 0, 0};
    for (int t = 0; t < 100 && kn[0] == 0 && kn[1] == 0 && kn[2] == 0; ++t) {
        for (int d = 0; d < nd; ++d) {
            kn[d] = r.range(-1, 1);
        }
    }
    if (kn[0] == 0 && kn[1] == 0 && kn[2] == 0) {
        kn[0] = 1;
    }
    for (int d = 0; d < nd; ++d) { // nearly cubic boxes
        f.b.lo[d] = r.uni(-2, 1);
        f.b.hi[d] = f.b.lo[d] + r.uni(0.8, 1.25);
    }
    ld k[3] = {0, 0, 0}, kk = 0;
    for (int d = 0; d < nd; ++d) {
        k[d] = 2 * vphys::pi * kn[d] / (static_cast<ld>(f.b.hi[d]) - f.b.lo[d]);
        kk += k[d] * k[d];
    }
    kk = sqrtl(kk);
    ld const c0 = gs.c_P(f.sc.rho, f.sc.P), rho0 = f.sc.rho, P0 = f.sc.P;
    ld const amp = acoustic ? r.uni(0.02, 0.08) : r.uni(0.1, 0.5), phase = r.u01() * 2 * vphys::pi;
    ld U[3] = {0, 0, 0};
    for (int d = 0; d < nd; ++d) {
        U[d] = (f.solver == "Low Mach" ? r.uni(-0.5, 0.5) : r.uni(-1.2, 1.2)) * c0;
    }
    ld const lambda = 2 * vphys::pi / kk;
    if (!acoustic) { // make it move
        ld un = 0;
        for (int d = 0; d < nd; ++d) {
            un += U[d] * k[d] / kk;
        }
        if (fabsl(un) < 0.3L * c0) {
            for (int d = 0; d < nd; ++d) {
                U[d] += 0.5L * c0 * k[d] / kk;
            }
        }
    }
    Isentrope const lo(gs, rho0, P0, rho0 * 0.85L), hi(gs, rho0, P0, rho0 * 1.15L);
    auto onto = [&](ld rho, ld& P, ld& c, ld& j) { (rho < rho0 ? lo : hi).at(rho, P, c, j); };
    double const T = static_cast<double>(0.25L * lambda / (acoustic ? c0 : c0)) * (nd == 3 ? 0.6 : 1) * r.uni(0.7, 1);
    // state at a point: the phase of the profile is found by following the characteristic back
    auto exact = [&](ld const* X, ld t, ld* u, ld& rho, ld& P) {
        ld ph = phase;
        for (int d = 0; d < nd; ++d) {
            ph += k[d] * (X[d] - U[d] * t);
        }
        for (int d = 0; d < 3; ++d) {
            u[d] = U[d];
        }
        if (!acoustic) {
            rho = rho0 * (1 + amp * sinl(ph));
            P = P0;
            return ph;
        }
        ld a = ph - kk * t * c0 * 2, b = ph;
        ld c = 0, j = 0;
        for (int i = 0; i < 60; ++i) { // phase a at the start with a + k (j + c) t = ph
            ld const m = (a + b) / 2;
            onto(rho0 * (1 + amp * sinl(m)), P, c, j);
            (m + kk * (j + c) * t < ph ? a : b) = m;
        }
        rho = rho0 * (1 + amp * sinl((a + b) / 2));
        onto(rho, P, c, j);
        for (int d = 0; d < nd; ++d) {
            u[d] += j * k[d] / kk;
        }
        return ph;
    };
    auto scalar = [&](ld ph) { return 0.5L + 0.3L * cosl(ph); };
    double tot[2] = {0, 0}, e1[2][6] = {{0}};
    int const n0 = nd == 1 ? 32 : (nd == 2 ? 20 : 12);
    std::string cfg;
    for (int v = 0; v < 2; ++v) {
        for (int d = 0; d < nd; ++d) {
            f.b.n[d] = kn[d] == 0 ? f.ng : n0 << v;
        }
        f.lay = pick_layout(r, f.b, 3, f.ng);
        rebuild(f);
        f.c.set("Output", "max_iter", 100000);
        f.c.set("Output", "iter_frequency", 100000);
        f.c.set("Run", "t_end", T);
        cfg = "program " + f.text + fmt(" %s wave of amplitude %.4Lg with wave numbers (%d %d %d) in a flow (%.5Lg %.5Lg %.5Lg), sound speed %.5Lg, until %.6g", acoustic ? "simple acoustic" : "entropy", amp, kn[0], kn[1], kn[2], U[0], U[1], U[2], c0, T);
        Mesh const mesh = f.mesh();
        auto centre = [&](int d, int i) { return (static_cast<ld>(mesh.x[d][static_cast<std::size_t>(i)]) + mesh.x[d][static_cast<std::size_t>(i) + 1]) / 2; };
        vcase::hooks().init = [&](vcase::CellIn const& q) {
            ld X[3] = {centre(0, q.g[0]), centre(1, q.g[1]), centre(2, q.g[2])}, u[3], rho = 0, P = 0;
            ld const ph = exact(X, 0, u, rho, P);
            vcase::CellState s {};
            s.rho = static_cast<double>(rho);
            s.P = static_cast<double>(P);
            for (int d = 0; d < 3; ++d) {
                s.u[d] = static_cast<double>(u[d]);
            }
            s.fx[0] = static_cast<double>(scalar(ph));
            return s;
        };
        Run const x = run(f.c, run_opt(r, f));
        clear_hooks();
        H5 const out = x.last();
        drop(x);
        if (!x.ok() || !out.ok) {
            vck::fail("conv.run", cfg + " run failed: " + x.why());
            return;
        }
        if (!(out.scalar("current_time") == T)) {
            vck::fail("conv.time", cfg + fmt(" ended at %.17g", out.scalar("current_time")));
        }
        ld sum[6] = {0};
        for (int kz = 0; kz < f.b.n[2]; ++kz) {
            for (int j = 0; j < f.b.n[1]; ++j) {
                for (int i = 0; i < f.b.n[0]; ++i) {
                    ld X[3] = {centre(0, i), centre(1, j), centre(2, kz)}, u[3], rho = 0, P = 0;
                    ld const ph = exact(X, T, u, rho, P);
                    auto const q = static_cast<std::size_t>(f.b.at(i, j, kz));
                    sum[0] += fabsl(out.f("rho").at(q) - rho) / rho0;
                    sum[1] += fabsl(out.f("P").at(q) - P) / P0;
                    for (int d = 0; d < nd; ++d) {
                        sum[2 + d] += fabsl(out.f(vel_name[d]).at(q) - u[d]) / c0;
                    }
                    if (f.nfx && !acoustic) {
                        sum[5] += fabsl(out.f("fx0").at(q) - scalar(ph));
                    }
                }
            }
        }
        for (int q = 0; q < 6; ++q) {
            e1[v][q] = static_cast<double>(sum[q] / f.b.cells() / amp);
            tot[v] += e1[v][q];
        }
    }
    std::string const tag = std::string(acoustic ? "acoustic_" : "entropy_") + (f.recon == "Constant" ? "constant" : "limited") + (f.solver == "Low Mach" ? std::string("_lowmach") : "");
    vck::stat_max(("max.error_" + tag).c_str(), tot[1]);
    vck::stat_max(("max.ratio_" + tag).c_str(), tot[1] / tot[0]);
    // observed: 0.3 with a limited reconstruction, 0.52 without
    if (!(tot[1] <= (f.recon == "Constant" ? 0.65 : (nd == 3 ? 0.52 : (f.solver == "Low Mach" ? 0.46 : 0.42))) * tot[0] && tot[1] < (f.recon == "Constant" ? 1 : 0.5))) {
        vck::fail("conv.smooth", cfg + fmt(" errors %.4g with %d cells per wave and %.4g with %d", tot[0], n0, tot[1], 2 * n0));
    }
    if (getenv("VCONV")) {
        printf("%s %s err %.4f ratio %.3f  rho %.4f P %.4f u %.4f %s\n", tag.c_str(), f.solver.c_str(), tot[1], tot[1] / tot[0], e1[1][0], e1[1][1], e1[1][2], cfg.c_str());
    }
    vck::eval(vck::hash_str(cfg));
}

} // namespace

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    long const k = vck::st().thorough ? 20 : 1;
    vck::cases("riemann", (nd == 1 ? 40 : (nd == 2 ? 15 : 6)) * k, riemann);
    vck::cases("smooth", (nd == 1 ? 40 : (nd == 2 ? 15 : 6)) * k, smooth);
    return vck::finish();
}
