// Kernels called directly.  C31: radioactive heating.  C24: gravity.  C32: pressure fix.  C21: time step.
#include <gravity.hpp>
#include <pressure_fix.hpp>
#include <time_step.hpp>
#include <user_step.hpp>
#include <user_step_factory.hpp>
#include <vfeat.hpp>
#include <vunit.hpp>

using namespace vfeat;
using namespace hclpp;
using vphys::Gas;
using vphys::ld;
using vunit::put;
using vunit::same_bits;
using vunit::snap;

static constexpr double EPS = 2.220446049250313e-16;

static ld heating_rate(ld t)
{
    ld const a = 8.8L * vphys::day, b = 111.3L * vphys::day, m = 55.9421278L * vphys::amu, Qn = 1.75L * vphys::MeV, Qc = 3.73L * vphys::MeV;
    return ((Qn * (b / a - 1) - Qc) * expl(-t / a) + Qc * expl(-t / b)) / (m * (b - a));
}

// ---- C31 ----
static void heat_case(long, Rng& r)
{
    Box b;
    int const ng = r.range(2, 3);
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(ng, 8);
    }
    auto const lay = pick_layout(r, b, 4, ng);
    int const nfx = r.coin(0.2) ? r.range(5, 10) : r.range(1, 4);
    double const t = r.coin(0.2) ? 0 : r.loguni(1, 3e9), dt = r.loguni(1e-6, 1e7);
    bool const heat = r.coin(0.75);
    std::uint64_t const seed = r.next();
    std::string const cfg = fmt("%s t=%.17g dt=%.17g nfx=%d n=%dx%dx%d ranks=%d", heat ? "Heat_nickel" : "Off", t, dt, nfx, b.n[0], b.n[1], b.n[2], prod(lay));
    double const rs = r.loguni(1e-12, 1e6), es = r.loguni(1e-3, 1) * rs * (double)heating_rate(t) * dt * r.loguni(1e-3, 1e3);
    ld const rate = heating_rate(t);
    vunit::world(prod(lay), r.next(), [&](int) {
        Grid g({b.n[0], b.n[1], b.n[2]}, lay, ng);
        auto const& e = g.Nx_local_wg;
        KV_double_3d const rho("rho", e[0], e[1], e[2]), E("E", e[0], e[1], e[2]);
        KV_double_4d const fx("fx", e[0], e[1], e[2], nfx);
        auto random = [&](std::size_t n, int ch, double s) {
            std::vector<double> v(n);
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = s * h01(seed + static_cast<std::uint64_t>(g.mpi_rank), ch, static_cast<int>(i % 1000), static_cast<int>(i / 1000), 0);
            }
            return v;
        };
        auto const r0 = random(rho.size(), 0, rs), E0 = random(E.size(), 1, es), f0 = random(fx.size(), 2, 1);
        put(rho, r0);
        put(E, E0);
        put(fx, f0);
        auto const step = factory_user_step(heat ? "Heat_nickel" : "Off");
        step->execute(g.range.no_ghosts(), t, dt, rho, E, fx);
        auto const r1 = snap(rho), E1 = snap(E), f1 = snap(fx);
        for (std::size_t i = 0; i < r0.size(); ++i) {
            int const q[3] = {static_cast<int>(i % static_cast<std::size_t>(e[0])), static_cast<int>(i / static_cast<std::size_t>(e[0]) % static_cast<std::size_t>(e[1])),
                              static_cast<int>(i / static_cast<std::size_t>(e[0]) / static_cast<std::size_t>(e[1]))};
            bool in = true;
            for (int d = 0; d < 3; ++d) {
                auto const D = static_cast<std::size_t>(d);
                in = in && q[d] >= g.Nghost[D] && q[d] < e[D] - g.Nghost[D];
            }
            ld const inc = heat && in ? (ld)r0[i] * f0[i] * rate * dt : 0;
            double const tol = 2 * EPS * std::fabs(E0[i] + (double)inc) + (double)inc * (32 * EPS + 4 * EPS * t / (8.8 * 86400));
            if (inc == 0 ? !same_bits(E1[i], E0[i]) : !(std::fabs((double)((ld)E1[i] - E0[i] - inc)) <= tol)) {
                vck::fail(in ? "heat.energy" : "heat.ghost", cfg + fmt(" cell %zu: energy %.17g becomes %.17g, expected increase %.17g", i, E0[i], E1[i], (double)inc));
            }
            if (!same_bits(r1[i], r0[i])) {
                vck::fail("heat.other", cfg + " changes the density");
            }
        }
        for (std::size_t i = 0; i < f0.size(); ++i) {
            if (!same_bits(f1[i], f0[i])) {
                vck::fail("heat.other", cfg + " changes a scalar");
            }
        }
    });
    vck::eval(vck::hash_str(cfg), heat);
    vck::sample(cfg);
}

// one step of the program with and without heating
static void heat_program(long, Rng& r)
{
    Opt o;
    o.gravity = false;
    o.pf = false;
    Feat f = random_feat(r, o);
    if (f.nfx == 0) {
        f.nfx = r.coin(0.2) ? r.range(4, 10) : r.range(1, 3);
        rebuild(f);
    }
    double const t0 = r.coin(0.3) ? 0 : r.loguni(1, 1e7);
    // units of the box in metres so that steps are a sizable part of the decay time
    f.c.set("Run", "t_ini", t0);
    f.c.set("Output", "max_iter", 1);
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    std::array<Observer, 2> ob;
    std::array<double, 2> dt;
    auto const opt = run_opt(r, f);
    for (int k = 0; k < 2; ++k) {
        auto const K = static_cast<std::size_t>(k);
        Ini c = f.c;
        observe(ob[K], f.b, f.ranks(), c);
        c.set("User step", "user_step", k == 0 ? "Off" : "Heat_nickel");
        Run const x = run(c, opt);
        if (!x.ok() || ob[K].steps.size() != 1 || x.files.size() != 2) {
            vck::fail("heat.run", f.text + " run failed: " + x.why());
            clear_hooks();
            drop(x);
            return;
        }
        // the step from the gain of time of a run that starts at zero is exact, otherwise rounded
        dt[K] = x.last().scalar("current_time") - t0;
        drop(x);
    }
    clear_hooks();
    Step const &a = ob[0].steps[0], &h = ob[1].steps[0];
    std::string const cfg = "program " + f.text + fmt(" t=%.17g", t0);
    if (dt[0] != dt[1]) {
        vck::fail("heat.step", cfg + " heating changes the first step");
    }
    ld const rate = heating_rate(t0);
    double const ddt = EPS * 2 * t0 / dt[0] + 1e-13;
    for (std::size_t q = 0; q < a.rho.size(); ++q) {
        bool same = same_bits(a.rho[q], h.rho[q]);
        for (int d = 0; d < nd; ++d) {
            same = same && same_bits(a.m[d][q], h.m[d][q]);
        }
        for (std::size_t i = 0; i < a.fx.size(); ++i) {
            same = same && same_bits(a.fx[i][q], h.fx[i][q]);
        }
        if (!same) {
            vck::fail("heat.other", cfg + fmt(" cell %zu: heating changes more than the energy", q));
        }
        ld const inc = (ld)a.rho[q] * a.fx[0][q] * rate * dt[0];
        if (!(fabsl((ld)h.E[q] - a.E[q] - inc) <= inc * ddt + 4 * EPS * fabsl(h.E[q]))) {
            vck::fail("heat.energy", cfg + fmt(" cell %zu: energy %.17g with heating, %.17g without, expected difference %.17g", q, h.E[q], a.E[q], (double)inc));
        }
    }
    vck::eval(vck::hash_str(cfg));
    vck::stat("heated_programs");
}

// ---- C24 ----
static void gravity_case(long, Rng& r)
{
    Box b;
    int const ng = r.range(2, 3);
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(ng, nd == 3 ? 7 : 12);
    }
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    int const kind = r.range(0, 2);
    if (kind > 0 && !spherical()) {
        // still defined by the first coordinate; keep it positive
    }
    auto lay = pick_layout(r, b, 8, ng);
    if (kind == 2) {
        for (int t = 0; t < 100 && lay[0] != 1; ++t) {
            lay = pick_layout(r, b, 8, ng);
        }
        if (lay[0] != 1) {
            lay = {1, 1, 1};
        }
    }
    std::array<std::vector<double>, 3> nodes;
    for (int t = 0; t < 100; ++t) {
        nodes = vunit::random_mesh(r, N, ng, r.coin() ? 0 : 0.3);
        if (!spherical() && kind > 0) {
            double const s = 1 - nodes[0][0] + r.loguni(0.01, 10);
            for (auto& x : nodes[0]) {
                x += s;
            }
        }
        if (vunit::physical_nodes(nodes)) {
            break;
        }
    }
    if (!vunit::physical_nodes(nodes)) {
        return;
    }
    double const M = r.coin(0.2) ? 0 : r.loguni(1, 1e32), G0 = r.uni(-10, 10), G1 = r.uni(-10, 10), G2 = r.uni(-10, 10);
    std::uint64_t const seed = r.next();
    // density per radial cell with ghosts, of the magnitude that makes its mass comparable with the central one
    double const R = nodes[0].back();
    double const rs = (M > 0 ? M : 1e20) / (4 * R * R * R) * r.loguni(1e-2, 1e2);
    bool const varying = r.coin(0.4);
    auto density = [&](int i, int j, int k) { // interior indices
        return rs * (0.1 + h01(seed, 0, i, 0, 0)) * (varying ? 0.5 + h01(seed, 1, i, j, k) : 1);
    };
    std::string const cfg = fmt("kind=%d n=%dx%dx%d layout=%dx%dx%d ng=%d M=%.17g", kind, N[0], N[1], N[2], lay[0], lay[1], lay[2], ng, M);
    // mass inside the centres
    auto X = [&](int i) -> ld { return nodes[0][static_cast<std::size_t>(i + ng)]; };
    auto XC = [&](int i) -> ld { return (X(i) + X(i + 1)) / 2; };
    std::vector<ld> inside(static_cast<std::size_t>(N[0] + ng));
    if (kind == 2) {
        ld m = M;
        for (int i = 0; i < N[0] + ng; ++i) {
            // volume weighted mean of the shell
            ld s = 0, v = 0;
            for (int k = 0; k < N[2]; ++k) {
                for (int j = 0; j < N[1]; ++j) {
                    auto const xi = static_cast<std::size_t>(i + ng);
                    ld const w = vsys::cell_volume(nodes[0].data() + (xi - static_cast<std::size_t>(i)), nodes[1].data() + (nd > 1 ? ng : 0), nodes[2].data() + (nd > 2 ? ng : 0), i, j, k);
                    s += w * density(i, j, k);
                    v += w;
                }
            }
            ld const mean = s / v, a = X(i), c = XC(i), e = X(i + 1);
            inside[static_cast<std::size_t>(i)] = m + 4 * vphys::pi / 3 * (c * c * c - a * a * a) * mean;
            m += 4 * vphys::pi / 3 * (e * e * e - a * a * a) * mean;
        }
    }
    bool refused = false;
    vunit::world(prod(lay), r.next(), [&](int) {
        Grid g(N, lay, ng);
        vunit::set_nodes(g, nodes);
        auto const& e = g.Nx_local_wg;
        auto judge = [&](auto const& grav, std::function<ld(int, int)> const& want, double rel, int from, int to) {
            KV_double_4d const out("gravity", e[0], e[1], e[2], nd);
            Kokkos::parallel_for("probe", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {e[0], e[1], e[2]}), KOKKOS_LAMBDA(int i, int j, int k) {
                for (int d = 0; d < nd; ++d) {
                    out(i, j, k, d) = grav(i, j, k, d);
                }
            });
            auto const o = snap(out);
            for (int d = 0; d < nd; ++d) {
                for (int k = 0; k < e[2]; ++k) {
                    for (int j = 0; j < e[1]; ++j) {
                        for (int i = 0; i < e[0]; ++i) {
                            int const gi = i - g.Nghost[0] + g.range.Corner_min[0];
                            if (gi < from || gi >= to) {
                                continue;
                            }
                            ld const w = want(gi, d);
                            double const v = o[static_cast<std::size_t>(i + static_cast<long>(e[0]) * (j + static_cast<long>(e[1]) * (k + static_cast<long>(e[2]) * d)))];
                            if (!(fabsl(v - w) <= rel * fabsl(w))) {
                                vck::fail("gravity.field", cfg + fmt(" radial index %d local (%d,%d,%d) direction %d: %.17g instead of %.17g", gi, i, j, k, d, v, (double)w));
                            }
                        }
                    }
                }
            }
        };
        if (kind == 0) {
            judge(make_uniform_gravity(G0, G1, G2), [&](int, int d) -> ld { return d == 0 ? G0 : (d == 1 ? G1 : G2); }, 0, -ng, N[0] + ng);
        } else if (kind == 1) {
            judge(make_point_mass_gravity(M, g), [&](int i, int d) -> ld { return d == 0 ? -vphys::G * M / (XC(i) * XC(i)) : 0; }, 16 * EPS, -ng, N[0] + ng);
        } else {
            KV_double_3d const rho("rho", e[0], e[1], e[2]);
            std::vector<double> v(rho.size(), vunit::poison);
            for (int k = 0; k < g.Nx_local_ng[2]; ++k) {
                for (int j = 0; j < g.Nx_local_ng[1]; ++j) {
                    for (int i = 0; i < e[0]; ++i) { // also the radial ghosts
                        v[static_cast<std::size_t>(i + static_cast<long>(e[0]) * (j + g.Nghost[1] + static_cast<long>(e[1]) * (k + g.Nghost[2])))]
                                = density(i - g.Nghost[0] + g.range.Corner_min[0], j + g.range.Corner_min[1], k + g.range.Corner_min[2]);
                    }
                }
            }
            put(rho, v);
            // cancellation in differences of cubes
            double cond = 1;
            for (int i = 0; i < N[0] + ng; ++i) {
                cond = std::fmax(cond, (double)(X(i + 1) / (X(i + 1) - X(i))));
            }
            judge(make_internal_mass_gravity(M, g, rho), [&](int i, int d) -> ld { return d != 0 ? 0 : -vphys::G * inside[static_cast<std::size_t>(i)] / (XC(i) * XC(i)); },
                  1e-13 * cond + 64 * EPS * N[0] * N[1] * N[2], 0, N[0]);
            judge(make_internal_mass_gravity(M, g, rho), [&](int i, int d) -> ld { return d != 0 ? 0 : -vphys::G * M / (XC(i) * XC(i)); }, 16 * EPS, -ng, 0);
        }
    });
    (void)refused;
    vck::eval(vck::hash_str(cfg));
    vck::sample(cfg);
}

// a request that self-gravity cannot serve must be refused
static void gravity_refuse(long, Rng& r)
{
    int const P = r.range(2, 3);
    int threw = 0;
    vunit::world(P, r.next(), [&](int) {
        Grid g({12, nd > 1 ? 4 : 1, nd > 2 ? 4 : 1}, {P, 1, 1}, 2);
        vunit::set_nodes(g, vunit::random_mesh(r, {12, nd > 1 ? 4 : 1, nd > 2 ? 4 : 1}, 2, 0));
        auto const& e = g.Nx_local_wg;
        KV_double_3d const rho("rho", e[0], e[1], e[2]);
        try {
            auto const x = make_internal_mass_gravity(1, g, rho);
        } catch (std::exception const&) {
            ++threw;
        }
    });
    if (threw != P) {
        vck::fail("gravity.refuse", fmt("self-gravity with %d ranks along the radius was accepted by %d of them", P, P - threw));
    }
    vck::eval(vck::mix(static_cast<std::uint64_t>(P), 9), false);
}

// heating needs a scalar to act on
static void heat_refuse(long, Rng& r)
{
    Opt o;
    o.nfx_max = 0;
    Feat f = random_feat(r, o);
    f.nfx = 0;
    rebuild(f);
    f.c.set("User step", "user_step", "Heat_nickel");
    f.install();
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    drop(x);
    if (x.ok()) {
        vck::fail("heat.refuse", "program " + f.text + " nickel heating without any scalar was accepted");
    }
    vck::eval(vck::hash_str(f.text));
}

// ---- C32 ----
static void pf_case(long, Rng& r)
{
    Gas const gs {5.0L / 3, 1, radgas()};
    EOS const eos(5.0 / 3, 1);
    std::array<int, 3> N {1, 1, 1};
    int const ng = 2;
    for (int d = 0; d < nd; ++d) {
        N[static_cast<std::size_t>(d)] = r.range(1, nd == 3 ? 4 : 6);
    }
    std::array<std::vector<double>, 3> nodes;
    do {
        nodes = vunit::random_mesh(r, N, ng, r.coin() ? 0 : 0.3);
    } while (!vunit::physical_nodes(nodes));
    auto const sc = vphys::scale(gs, r);
    double const eps = r.pick(std::vector<double> {1e-6, 1e-3, 0.1, 1, 10});
    double const dt = r.loguni(1e-4, 1) * (nodes[0][1] - nodes[0][0]) / sc.u;
    std::string const cfg = fmt("n=%dx%dx%d eps=%g dt=%.17g", N[0], N[1], N[2], eps, dt);
    long corrected = 0, kept = 0, blended = 0;
    vunit::world(1, r.next(), [&](int) {
        Grid g(N, {1, 1, 1}, ng);
        vunit::set_nodes(g, nodes);
        auto const& e = g.Nx_local_wg;
        long const tot = static_cast<long>(e[0]) * e[1] * e[2];
        auto const T = static_cast<std::size_t>(tot);
        auto rnd = [&](std::size_t n, double lo, double hi) {
            std::vector<double> v(n);
            for (auto& x : v) {
                x = r.uni(lo, hi);
            }
            return v;
        };
        std::vector<double> rho = rnd(T, 0.5 * sc.rho, 1.5 * sc.rho), E(T), m(T * nd);
        std::vector<double> rn = rnd(T, 0.5 * sc.rho, 1.5 * sc.rho), mn(T * nd), En(T);
        // internal energies around the thresholds eps and eps/10 of the kinetic one
        auto kin = [&](std::vector<double> const& d, std::vector<double> const& mm, std::size_t q) {
            ld s = 0;
            for (int i = 0; i < nd; ++i) {
                ld const x = mm[q + T * static_cast<std::size_t>(i)];
                s += x * x;
            }
            return s / d[q] / 2;
        };
        double const v = r.coin() ? 1 : 30;
        for (auto& x : m) {
            x = sc.rho * sc.u * v * r.uni(-1, 1);
        }
        for (auto& x : mn) {
            x = sc.rho * sc.u * v * r.uni(-1, 1);
        }
        if (r.coin(0.1)) {
            std::fill(m.begin(), m.end(), 0.0);
        }
        for (std::size_t q = 0; q < T; ++q) {
            ld const k = kin(rho, m, q);
            ld const w = r.coin(0.25) ? r.loguni(1.01, 100) : (r.coin() ? r.uni(0.11, 0.99) : r.loguni(1e-4, 0.099));
            E[q] = (double)(k > 0 ? k + w * eps * k : (ld)sc.P);
            if (!((ld)E[q] - k > 0)) {
                E[q] = (double)(k * (1 + 1e-12L));
            }
            ld const kn = kin(rn, mn, q);
            En[q] = (double)(kn + r.uni(0.1, 2) * eps * (kn > 0 ? kn : (ld)sc.P));
        }
        // reconstructed states
        std::size_t const R5 = T * 2 * nd, R6 = R5 * nd;
        std::vector<double> rr = rnd(R5, 0.5 * sc.rho, 1.5 * sc.rho), Er(R5), mr(R6);
        for (auto& x : mr) {
            x = sc.rho * sc.u * v * r.uni(-1, 1);
        }
        for (std::size_t q = 0; q < R5; ++q) {
            ld s = 0;
            for (std::size_t i = 0; i < nd; ++i) {
                ld const x = mr[q + R5 * i];
                s += x * x;
            }
            Er[q] = (double)(s / rr[q] / 2 + sc.P * r.uni(0.1, 2));
        }
        KV_double_3d const krho("rho", e[0], e[1], e[2]), kE("E", e[0], e[1], e[2]), krn("rn", e[0], e[1], e[2]), kEn("En", e[0], e[1], e[2]);
        KV_double_4d const km("m", e[0], e[1], e[2], nd), kmn("mn", e[0], e[1], e[2], nd);
        KV_double_5d const krr("rr", e[0], e[1], e[2], 2, nd), kEr("Er", e[0], e[1], e[2], 2, nd);
        KV_double_6d const kmr("mr", e[0], e[1], e[2], 2, nd, nd);
        put(krho, rho);
        put(kE, E);
        put(krn, rn);
        put(kEn, En);
        put(km, m);
        put(kmn, mn);
        put(krr, rr);
        put(kEr, Er);
        put(kmr, mr);
        pressure_fix(g.range.no_ghosts(), eos, g, dt, eps, krho, km, kE, krr, kmr, kEr, krn, kmn, kEn);
        auto const out = snap(kEn), ds = snap(g.ds), dv = snap(g.dv);
        if (snap(krn) != rn || snap(kmn) != mn || snap(krho) != rho || snap(kE) != E || snap(km) != m) {
            vck::fail("pf.other", cfg + " changes another field than the new energy");
        }
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    int const ix[3] = {i, j, k};
                    auto const q = static_cast<std::size_t>(i + static_cast<long>(e[0]) * (j + static_cast<long>(e[1]) * k));
                    bool in = true;
                    for (int d = 0; d < 3; ++d) {
                        auto const D = static_cast<std::size_t>(d);
                        in = in && ix[d] >= g.Nghost[D] && ix[d] < e[D] - g.Nghost[D];
                    }
                    ld const ek = kin(rho, m, q), ev = (ld)E[q] - ek;
                    if (!in || ev >= eps * ek * (1 + 1e-12L / eps)) {
                        kept += in;
                        if (!same_bits(out[q], En[q])) {
                            vck::fail(in ? "pf.warm" : "pf.ghost", cfg + fmt(" cell (%d,%d,%d): energy changed from %.17g to %.17g although e/ek=%.6g", i, j, k, En[q], out[q], (double)(ev / ek)));
                        }
                        continue;
                    }
                    ld const ratio = ev / (eps * ek);
                    if (fabsl(ratio - 1) < 1e-9L / eps || fabsl(ratio - 0.1L) < 1e-9L / eps) {
                        continue; // rounding decides the side of the threshold
                    }
                    ld const alpha = ratio < 0.1L ? 0 : ratio * ratio;
                    ld divU = 0, divUE = 0, mag = 0;
                    for (int d = 0; d < nd; ++d) {
                        long const s = d == 0 ? 1 : (d == 1 ? e[0] : static_cast<long>(e[0]) * e[1]);
                        auto const p = static_cast<std::size_t>(static_cast<long>(q) + s), w = static_cast<std::size_t>(static_cast<long>(q) - s);
                        auto U = [&](std::size_t c, int side) -> ld {
                            auto const f = c + T * static_cast<std::size_t>(side + 2 * d);
                            return (ld)mr[f + R5 * static_cast<std::size_t>(d)] / rr[f];
                        };
                        ld const us = (U(w, 1) + U(q, 0)) / 2, up = (U(q, 1) + U(p, 0)) / 2;
                        ld const a = ds[q + T * static_cast<std::size_t>(d)], bb = ds[p + T * static_cast<std::size_t>(d)], vol = dv[q];
                        ld const eq = ev, ep = (ld)E[p] - kin(rho, m, p), ew = (ld)E[w] - kin(rho, m, w);
                        ld const eR = up > 0 ? eq : ep, eL = us < 0 ? eq : ew;
                        divU += (up * bb - us * a) / vol;
                        divUE += (up * eR * bb - us * eL * a) / vol;
                        mag += (fabsl(up) * bb * ((ld)E[q] + E[p]) + fabsl(us) * a * ((ld)E[q] + E[w])) / vol;
                    }
                    ld const P = gs.P_e(rho[q], ev);
                    ld const god = ((ld)En[q] - kin(rn, mn, q)) - ev;
                    ld const pf = dt * (-P * divU - divUE);
                    ld const want = ev + alpha * god + (1 - alpha) * pf + kin(rn, mn, q);
                    // energies are differences of total and kinetic ones
                    ld const tol = 64 * EPS * (fabsl(E[q]) * (2 + 2 / ratio) + fabsl(En[q]) + dt * mag) + (radgas() ? 1e-9L * fabsl(dt * P * divU) : 0)
                                   + 8 * EPS * (fabsl(alpha) * (1 + ek / ev)) * (fabsl(god) + fabsl(pf));
                    ++corrected;
                    blended += alpha > 0;
                    if (!(fabsl(out[q] - want) <= tol)) {
                        vck::fail("pf.blend", cfg + fmt(" cell (%d,%d,%d): e/(eps ek)=%.6Lg energy %.17g instead of %.17Lg (conservative %.17g)", i, j, k, ratio, out[q], want, En[q]));
                    }
                }
            }
        }
    });
    vck::stat("cells_corrected", static_cast<double>(corrected));
    vck::stat("cells_blended", static_cast<double>(blended));
    vck::stat("cells_kept", static_cast<double>(kept));
    vck::eval(vck::hash_str(cfg));
    vck::sample(cfg);
}

// in the program: off is off, warm cells keep the conservative energy, cold uniform flow keeps its internal energy
static void pf_program(long n, Rng& r)
{
    Opt o;
    o.gravity = false;
    o.pf = false;
    o.mach = 3;
    o.amp = 0.2;
    Feat f = random_feat(r, o);
    f.cfl = 0.1;
    rebuild(f);
    bool const uniform = n % 3 == 2 && !spherical();
    if (uniform) {
        // bulk flow, hypersonic
        for (auto& k : f.bc.kind) {
            k = vghost::periodic;
        }
        f.user_grid = f.user_grid && r.coin();
        rebuild(f);
    }
    double const mach = uniform ? r.loguni(5, 3e4) : 0;
    double const ms = uniform ? r.loguni(1, mach) : 0;
    (void)ms;
    std::uint64_t const us = r.next();
    auto self = f;
    if (uniform) {
        vcase::hooks().init = [self, mach, us](vcase::CellIn const&) {
            vcase::CellState s = self.state(0, 0, 0);
            for (int d = 0; d < nd; ++d) {
                s.u[d] = mach * self.sc.u * (h01(us, d, 0, 0, 0) - 0.3);
            }
            return s;
        };
        f.install_grid();
    } else {
        f.install();
    }
    double const eps = uniform ? r.loguni(1e-6, 1) : r.loguni(1e-3, 3);
    int const steps = uniform ? r.range(1, 4) : 1;
    std::array<Observer, 2> ob;
    auto const opt = run_opt(r, f);
    std::string const cfg = "program " + f.text + fmt(" eps=%g%s", eps, uniform ? fmt(" uniform flow at mach %g", mach).c_str() : "");
    for (int k = 0; k < 2; ++k) {
        auto const K = static_cast<std::size_t>(k);
        Ini c = f.c;
        c.set("Output", "max_iter", steps);
        observe(ob[K], f.b, f.ranks(), c);
        if (k == 1) {
            c.set("Pressure fix", "pressure_fix", "On");
            c.set("Pressure fix", "eps_pf", eps);
        } else if (r.coin()) {
            c.set("Pressure fix", "pressure_fix", "Off");
            c.set("Pressure fix", "eps_pf", 1e3);
        }
        Run const x = run(c, opt);
        drop(x);
        if (!x.ok() || static_cast<int>(ob[K].steps.size()) != steps) {
            bool const cold = x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos;
            if (!cold || (k == 1 && uniform)) {
                vck::fail("pf.run", cfg + " run failed: " + x.why());
            }
            clear_hooks();
            return;
        }
    }
    clear_hooks();
    Gas const gs = f.gas();
    vck::eval(vck::hash_str(cfg));
    vck::stat("programs_compared");
    if (uniform) {
        vcase::CellState s = f.state(0, 0, 0);
        ld const e0 = gs.e_P(s.rho, s.P);
        ld u2 = 0;
        for (int d = 0; d < nd; ++d) {
            ld const u = mach * f.sc.u * (h01(us, d, 0, 0, 0) - 0.3);
            u2 += u * u;
        }
        ld const ek = s.rho * u2 / 2;
        Step const& st = ob[1].steps.back();
        if (!(e0 < eps * ek)) {
            return;
        }
        for (std::size_t q = 0; q < st.rho.size(); ++q) {
            ld k = 0;
            for (int d = 0; d < nd; ++d) {
                k += (ld)st.m[d][q] * st.m[d][q] / st.rho[q] / 2;
            }
            // rounding of the total energy only
            if (!(fabsl((ld)st.E[q] - k - e0) <= 200 * EPS * steps * (ek + e0) + 1e-10L * e0)) {
                vck::fail("pf.uniform", cfg + fmt(" cell %zu: internal energy %.17Lg instead of %.17Lg (kinetic %.6Lg)", q, (ld)st.E[q] - k, e0, ek));
            }
        }
        return;
    }
    Step const &a = ob[0].steps[0], &b = ob[1].steps[0];
    long changed = 0;
    for (std::size_t q = 0; q < a.rho.size(); ++q) {
        bool same = same_bits(a.rho[q], b.rho[q]);
        for (int d = 0; d < nd; ++d) {
            same = same && same_bits(a.m[d][q], b.m[d][q]);
        }
        for (std::size_t i = 0; i < a.fx.size(); ++i) {
            same = same && same_bits(a.fx[i][q], b.fx[i][q]);
        }
        if (!same) {
            vck::fail("pf.other", cfg + fmt(" cell %zu: the fix changes density, momentum or a scalar", q));
        }
        int const i = static_cast<int>(q) % f.b.n[0], j = static_cast<int>(q) / f.b.n[0] % f.b.n[1], k = static_cast<int>(q) / f.b.n[0] / f.b.n[1];
        vcase::CellState const s = f.state(i, j, k);
        ld u2 = 0;
        for (int d = 0; d < nd; ++d) {
            u2 += (ld)s.u[d] * s.u[d];
        }
        ld const ek = s.rho * u2 / 2, ev = gs.e_P(s.rho, s.P);
        if (ev >= eps * ek * (1 + 1e-6L) && !same_bits(a.E[q], b.E[q])) {
            vck::fail("pf.warm", cfg + fmt(" cell %zu with e/(eps ek)=%.6Lg: energy %.17g with the fix, %.17g without", q, ev / (eps * ek), b.E[q], a.E[q]));
        }
        changed += !same_bits(a.E[q], b.E[q]);
    }
    vck::stat("program_cells_changed", static_cast<double>(changed));
}

// ---- C21 ----
static ld inverse_dt(Gas const& gs, double rho, double P, double const* u, double const* dx, double xc0, double xc1)
{
    ld const c = gs.c_P(rho, P);
    ld s = 0;
    for (int d = 0; d < nd; ++d) {
        ld w = dx[d];
        if (spherical() && d > 0) {
            w *= xc0 * (d == 2 ? sinl(xc1) : 1);
        }
        s += (fabsl(u[d]) + c) / w;
    }
    return s;
}

static void dt_case(long, Rng& r)
{
    double const gamma = r.pick(std::vector<double> {1.4, 5.0 / 3, 1.1, 3});
    Gas const gs {gamma, 1, radgas()};
    EOS const eos(gamma, 1);
    Box b;
    int const ng = 2;
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(2, nd == 3 ? 6 : 12);
    }
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    auto const lay = pick_layout(r, b, 8, ng);
    int const P = prod(lay);
    std::array<std::vector<double>, 3> nodes;
    do {
        nodes = vunit::random_mesh(r, N, ng, r.coin() ? 0 : 0.5);
    } while (!vunit::physical_nodes(nodes));
    auto const sc = vphys::scale(gs, r);
    std::uint64_t const seed = r.next();
    // one cell dominates
    int const hot[3] = {r.range(0, N[0] - 1), r.range(0, N[1] - 1), r.range(0, N[2] - 1)};
    int const hd = r.range(0, nd);
    double const boost = r.loguni(1, 1e4);
    bool const ghosts = r.coin();
    auto st = [&](int i, int j, int k) {
        vcase::CellState s {};
        s.rho = sc.rho * r.uni(1, 1) * (0.5 + h01(seed, 0, i, j, k));
        s.P = sc.P * (0.5 + h01(seed, 1, i, j, k));
        for (int d = 0; d < nd; ++d) {
            s.u[d] = sc.u * 2 * (h01(seed, 2 + d, i, j, k) - 0.5);
        }
        if (i == hot[0] && j == hot[1] && k == hot[2]) {
            if (hd < nd) {
                s.u[hd] *= boost;
            } else {
                s.P *= radgas() ? 1 : boost;
            }
        }
        return s;
    };
    std::string const cfg = fmt("n=%dx%dx%d layout=%dx%dx%d gamma=%g fastest cell (%d,%d,%d) kind %d%s", N[0], N[1], N[2], lay[0], lay[1], lay[2], gamma, hot[0], hot[1], hot[2], hd, ghosts ? " with ghosts" : "");
    ld best = 0;
    for (int k = ghosts && nd > 2 ? -ng : 0; k < N[2] + (ghosts && nd > 2 ? ng : 0); ++k) {
        for (int j = ghosts && nd > 1 ? -ng : 0; j < N[1] + (ghosts && nd > 1 ? ng : 0); ++j) {
            for (int i = ghosts ? -ng : 0; i < N[0] + (ghosts ? ng : 0); ++i) {
                auto const s = st(i, j, k);
                double dx[3], xc[3];
                int const q[3] = {i, j, k};
                for (int d = 0; d < 3; ++d) {
                    auto const& x = nodes[static_cast<std::size_t>(d)];
                    auto const w = static_cast<std::size_t>(q[d] + (d < nd ? ng : 0));
                    dx[d] = x[w + 1] - x[w];
                    xc[d] = (x[w + 1] + x[w]) / 2;
                }
                ld const v = inverse_dt(gs, s.rho, s.P, s.u, dx, xc[0], xc[1]);
                best = v > best ? v : best;
            }
        }
    }
    std::vector<double> got(static_cast<std::size_t>(P));
    vunit::world(P, r.next(), [&](int rank) {
        Grid g(N, lay, ng);
        vunit::set_nodes(g, nodes);
        auto const& e = g.Nx_local_wg;
        KV_double_3d const rho("rho", e[0], e[1], e[2]), p("P", e[0], e[1], e[2]);
        KV_double_4d const u("u", e[0], e[1], e[2], nd);
        std::vector<double> vr(rho.size(), sc.rho), vp(rho.size(), sc.P), vu(u.size(), 0.0);
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    auto const q = static_cast<std::size_t>(i + static_cast<long>(e[0]) * (j + static_cast<long>(e[1]) * k));
                    auto const s = st(i - g.Nghost[0] + g.range.Corner_min[0], j - g.Nghost[1] + g.range.Corner_min[1], k - g.Nghost[2] + g.range.Corner_min[2]);
                    vr[q] = s.rho;
                    vp[q] = s.P;
                    for (int d = 0; d < nd; ++d) {
                        vu[q + rho.size() * static_cast<std::size_t>(d)] = s.u[d];
                    }
                }
            }
        }
        put(rho, vr);
        put(p, vp);
        put(u, vu);
        got[static_cast<std::size_t>(rank)] = time_step(ghosts ? g.range.all_ghosts() : g.range.no_ghosts(), eos, g, rho, u, p);
    });
    for (double const v : got) {
        if (!(std::fabs(v - (double)(1 / best)) <= (radgas() ? 1e-9 : 1e-13) * v)) {
            vck::fail("dt.bound", cfg + fmt(" time step %.17g instead of %.17g", v, (double)(1 / best)));
        }
        if (!same_bits(v, got[0])) {
            vck::fail("dt.agree", cfg + fmt(" ranks hold %.17g and %.17g", v, got[0]));
        }
    }
    vck::eval(vck::hash_str(cfg), P > 1);
    vck::sample(cfg);
}

// the steps that a whole run takes
static void dt_program(long, Rng& r)
{
    Opt o;
    o.walls = r.coin();
    o.mach = 2;
    Feat f = random_feat(r, o);
    f.cfl = r.uni(0.02, 0.3);
    rebuild(f);
    int const steps = r.range(2, 4);
    f.c.set("Output", "max_iter", steps);
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    std::array<Observer, 2> ob;
    double const k2 = r.pick(std::vector<double> {0.5, 2, 0.25});
    auto const opt = run_opt(r, f);
    std::string const cfg = "program " + f.text;
    std::vector<H5> files;
    for (int k = 0; k < 2; ++k) {
        auto const K = static_cast<std::size_t>(k);
        Ini c = f.c;
        observe(ob[K], f.b, f.ranks(), c);
        if (k == 1) {
            c.set("Run", "cfl", f.cfl * k2);
            c.set("Output", "max_iter", 1);
        }
        Run const x = run(c, opt);
        bool const cold = x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos;
        if (!x.ok() && !cold) {
            vck::fail("dt.run", cfg + " run failed: " + x.why());
        }
        if (k == 0) {
            for (std::size_t i = 0; i < x.files.size(); ++i) {
                files.push_back(x.load(static_cast<int>(i)));
            }
        }
        drop(x);
        if (!x.ok() && k == 1) {
            clear_hooks();
            return;
        }
    }
    clear_hooks();
    Gas const gs = f.gas();
    Mesh const m = f.mesh();
    bool regular = !f.user_grid && !spherical();
    auto const& rk = ob[0].ranks;
    for (auto const& q : rk) {
        if (q.tdt != rk[0].tdt) {
            vck::fail("dt.agree", cfg + " ranks take different steps");
        }
    }
    for (std::size_t s = 0; s < rk[0].tdt.size() && s < files.size(); ++s) {
        double const dt = rk[0].tdt[s].second;
        if (!(dt > 0) || !std::isfinite(dt)) {
            vck::fail("dt.positive", cfg + fmt(" step %zu is %.17g", s, dt));
            continue;
        }
        ld in = 0, all = 0;
        H5 const& h = files[s];
        if (h.f("rho").size() != static_cast<std::size_t>(f.b.cells())) {
            break;
        }
        for (int k = 0; k < f.b.n[2]; ++k) {
            for (int j = 0; j < f.b.n[1]; ++j) {
                for (int i = 0; i < f.b.n[0]; ++i) {
                    auto const q = static_cast<std::size_t>(f.b.at(i, j, k));
                    double u[3] = {0, 0, 0}, dx[3], xc[3];
                    int const ix[3] = {i, j, k};
                    for (int d = 0; d < 3; ++d) {
                        auto const w = static_cast<std::size_t>(ix[d]);
                        dx[d] = m.x[d][w + 1] - m.x[d][w];
                        xc[d] = (m.x[d][w + 1] + m.x[d][w]) / 2;
                        if (d < nd) {
                            u[d] = h.f(vel_name[d])[q];
                        }
                    }
                    ld const v = inverse_dt(gs, h.f("rho")[q], h.f("P")[q], u, dx, xc[0], xc[1]);
                    in = v > in ? v : in;
                }
            }
        }
        // ghost cells may be narrower than any interior cell; with the widths of the edge cells they can add the
        // fastest state to the smallest width of every direction
        if (regular) {
            all = in;
        } else {
            ld sp[3] = {0, 0, 0};
            double dmin[3];
            for (int d = 0; d < nd; ++d) {
                auto const& x = f.user_grid ? f.nodes[static_cast<std::size_t>(d)] : m.x[d];
                dmin[d] = 1e300;
                for (std::size_t w = 0; w + 1 < x.size(); ++w) {
                    dmin[d] = std::fmin(dmin[d], x[w + 1] - x[w]);
                }
            }
            for (std::size_t q = 0; q < h.f("rho").size(); ++q) {
                ld const c = gs.c_P(h.f("rho")[q], h.f("P")[q]);
                for (int d = 0; d < nd; ++d) {
                    sp[d] = fmaxl(sp[d], fabsl(h.f(vel_name[d])[q]) + c);
                }
            }
            // the smallest radius and sine over the cell centres, ghost cells included
            double rmin = 1e300, smin = 1;
            for (int d = 0; d < nd && d < 2 && spherical(); ++d) {
                auto x = f.user_grid ? f.nodes[static_cast<std::size_t>(d)] : m.x[d];
                if (!f.user_grid) {
                    double const h0 = x[1] - x[0];
                    for (int q = 0; q < f.ng; ++q) {
                        x.insert(x.begin(), x.front() - h0);
                        x.push_back(x.back() + h0);
                    }
                }
                for (std::size_t w = 0; w + 1 < x.size(); ++w) {
                    double const ctr = (x[w] + x[w + 1]) / 2;
                    if (d == 0) {
                        rmin = std::fmin(rmin, std::fabs(ctr));
                    } else {
                        smin = std::fmin(smin, std::fabs(std::sin(ctr)));
                    }
                }
            }
            for (int d = 0; d < nd; ++d) {
                ld w = dmin[d];
                if (spherical() && d > 0) {
                    w *= rmin * (d == 2 ? smin : 1);
                }
                all += sp[d] / w;
            }
        }
        ld const hi = f.cfl / in, lo = f.cfl / all;
        double const tol = radgas() ? 1e-6 : 1e-9;
        if (!(dt <= hi * (1 + tol)) || (std::isfinite((double)lo) && !(dt >= lo * (1 - tol)))) {
            vck::fail("dt.program", cfg + fmt(" step %zu is %.17g, the bound is %.17Lg (at least %.17Lg)", s, dt, hi, lo));
        }
        vck::stat("steps_checked");
        if (regular) {
            vck::stat("steps_checked_exactly");
        }
    }
    if (!ob[1].ranks[0].tdt.empty() && !rk[0].tdt.empty()) {
        double const a = rk[0].tdt[0].second, b = ob[1].ranks[0].tdt[0].second;
        if (!(std::fabs(b - k2 * a) <= 1e-12 * b)) {
            vck::fail("dt.linear", cfg + fmt(" the first step is %.17g, and %.17g with the CFL number times %g", a, b, k2));
        }
    }
    vck::eval(vck::hash_str(cfg));
}

// the steps of a whole run against the states and nodes that every rank holds at their beginning, ghost cells included; user
// conditions put gas that is faster than the rest into one layer of the ghost cells
static void dt_ghosts(long n, Rng& r)
{
    Opt o;
    o.user_bc = true;
    o.mach = 1;
    Feat f = random_feat(r, o);
    f.cfl = r.uni(0.02, 0.3);
    f.steps = r.range(2, 4);
    rebuild(f);
    int const layer = r.range(1, f.ng);
    double const boost = n % 3 == 0 ? 1 : r.loguni(2, 30);
    Gas const gs = f.gas();
    f.install();
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    vcase::hooks().boundary = [=](int idim, int iface, Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx) {
        int const ng = g.Nghost[static_cast<std::size_t>(idim)];
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        for (int k = 0; k < ext[2]; ++k) {
            for (int j = 0; j < ext[1]; ++j) {
                for (int i = 0; i < ext[0]; ++i) {
                    int q[3] = {i, j, k};
                    int const depth = iface == 0 ? ng - q[idim] : q[idim] - (ext[idim] - ng) + 1;
                    if (depth < 1) {
                        continue;
                    }
                    long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                    q[idim] = iface == 0 ? ng : ext[idim] - ng - 1;
                    long const m = q[0] + static_cast<long>(ext[0]) * (q[1] + static_cast<long>(ext[1]) * q[2]);
                    double const v = depth == layer ? boost : 1;
                    double kin = 0, kout = 0;
                    for (int d = 0; d < nd; ++d) {
                        double const z = rhou[m + d * tot];
                        kin += z * z / rho[m] / 2;
                        rhou[l + d * tot] = v * z;
                        kout += v * z * v * z / rho[m] / 2;
                    }
                    rho[l] = rho[m];
                    E[l] = E[m] - kin + kout;
                    for (int z = 0; z < nfx; ++z) {
                        fx[l + z * tot] = fx[m + z * tot];
                    }
                }
            }
        }
    };
    std::vector<std::vector<ld>> bound(static_cast<std::size_t>(f.ranks())); // of the state after each step, per rank
    auto const seen = vcase::hooks().shift;
    vcase::hooks().shift = [&](Grid const& g, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx) {
        seen(g, rho, rhou, E, fx, ext, nfx);
        std::vector<double> x[3];
        {
            vshim::Peek const peek;
            for (int d = 0; d < 3; ++d) {
                auto const v = d == 0 ? g.x0 : (d == 1 ? g.x1 : g.x2);
                for (int i = 0; i < v.extent_int(0); ++i) {
                    x[d].push_back(v(i));
                }
            }
        }
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        ld best = 0;
        for (int k = 0; k < ext[2]; ++k) {
            for (int j = 0; j < ext[1]; ++j) {
                for (int i = 0; i < ext[0]; ++i) {
                    long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                    int const q[3] = {i, j, k};
                    double u[3] = {0, 0, 0}, dx[3], xc[3];
                    ld e = E[l];
                    for (int d = 0; d < 3; ++d) {
                        auto const w = static_cast<std::size_t>(q[d]);
                        dx[d] = x[d][w + 1] - x[d][w];
                        xc[d] = (x[d][w + 1] + x[d][w]) / 2;
                        if (d < nd) {
                            u[d] = rhou[l + d * tot] / rho[l];
                            e -= (ld)rhou[l + d * tot] * rhou[l + d * tot] / rho[l] / 2;
                        }
                    }
                    ld const v = inverse_dt(gs, rho[l], static_cast<double>(gs.P_e(rho[l], e)), u, dx, xc[0], xc[1]);
                    best = v > best ? v : best;
                }
            }
        }
        bound[static_cast<std::size_t>(vshim::tl_rank)].push_back(best);
        return false;
    };
    std::string const cfg = "program " + f.text + fmt(" ghost layer %d %g times faster", layer, boost);
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    bool const cold = x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos;
    if (!x.ok() && !cold) {
        vck::fail("dt.run", cfg + " run failed: " + x.why());
    }
    auto const& td = ob.ranks[0].tdt;
    for (std::size_t s = 1; s < td.size(); ++s) {
        ld m = 0;
        bool all = true;
        for (auto const& b : bound) {
            all = all && s - 1 < b.size();
            m = all ? fmaxl(m, b[s - 1]) : m;
        }
        ld const want = f.cfl / m;
        if (!all || !std::isfinite(static_cast<double>(want))) {
            continue;
        }
        if (!(fabsl(td[s].second - want) <= (radgas() ? 1e-6L : 1e-9L) * want)) {
            vck::fail("dt.program_ghosts", cfg + fmt(" step %zu is %.17g instead of %.17Lg", s, td[s].second, want));
        }
        vck::stat("steps_checked_with_ghosts");
    }
    drop(x);
    vck::eval(vck::hash_str(cfg), boost > 1);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    long const k = vck::st().thorough ? 30 : 1;
    if (what == "heat") {
        vck::cases("heat", 150 * k, heat_case);
        vck::cases("program", 20 * k, heat_program);
        vck::cases("refuse", 2 * k, heat_refuse);
    } else if (what == "gravity") {
        vck::cases("gravity", 250 * k, gravity_case);
        vck::cases("refuse", 3, gravity_refuse);
    } else if (what == "pf") {
        vck::cases("pf", 200 * k, pf_case);
        vck::cases("program", 40 * k, pf_program);
    } else {
        vck::cases("dt", 250 * k, dt_case);
        vck::cases("program", 30 * k, dt_program);
        vck::cases("ghosts", 30 * k, dt_ghosts);
    }
    return vck::finish();
}
