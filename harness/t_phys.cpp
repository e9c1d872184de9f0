// C17: gas models.  C18: conversions.  C19: numerical fluxes.  C20: reconstruction.
#include <array_conversion.hpp>
#include <euler_equations.hpp>
#include <extrapolation_reconstruction.hpp>
#include <face_reconstruction.hpp>
#include <gravity.hpp>
#include <riemann_solver.hpp>
#include <slope_limiters.hpp>
#include <vunit.hpp>

using namespace vunit;
using vck::fmt;
using vck::Rng;
using vphys::Gas;
using vphys::ld;

static constexpr double EPS = 2.220446049250313e-16;
static constexpr double INF = std::numeric_limits<double>::infinity();

// ---------------------------------------------------------------------------------------------------------------------
// C17
static double relerr(double a, ld b) { return b == 0 ? std::fabs(a) : static_cast<double>(fabsl((a - b) / b)); }

static void eos_state(Gas const& g, EOS const& eos, double rho, double T)
{
    std::string const in = fmt("gamma=%.17g mu=%.17g rho=%.17g T=%.17g", (double)g.gamma, (double)g.mu, rho, T);
    ld const Pt = g.P_T(rho, T), et = g.e_T(rho, T);
    if (!(Pt > 1e-290L && Pt < 1e290L && et > 1e-290L && et < 1e290L)) {
        return;
    }
    double const P = static_cast<double>(Pt), e = static_cast<double>(et);
    double const base = 16 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 16 * EPS;
    // what an error of the temperature does to the pressure and to the energy
    double const dP = (double)((rho * g.R() * T + (g.rad ? 4 * vphys::ar * powl(T, 4) / 3 : 0)) / Pt);
    double const tT = (double)g.relT(T);
    auto chk = [&](char const* key, double got, ld ref, double tol) {
        double const er = relerr(got, ref);
        vck::stat_max(std::string("max.err_over_tol.") + key, er / tol);
        if (!(er <= tol)) {
            vck::fail(std::string("eos.") + key, fmt("%s: got %.17g instead of %.17g (relative error %g, admitted %g)", in.c_str(), got, (double)ref, er, tol));
        }
    };
    chk("pressure_of_T", eos.compute_pres_from_temp(rho, T), Pt, base);
    chk("energy_of_T", eos.compute_evol_from_temp(rho, T), et, base);
    chk("T_of_pressure", eos.compute_temp_from_pres(rho, P), g.T_P(rho, P), base + tT);
    chk("T_of_energy", eos.compute_temp_from_evol(rho, e), g.T_e(rho, e), base + tT);
    chk("energy_of_pressure", eos.compute_evol_from_pres(rho, P), g.e_P(rho, P), 2 * base + 4 * tT);
    chk("pressure_of_energy", eos.compute_pres_from_evol(rho, e), g.P_e(rho, e), 2 * base + 4 * tT * std::fmax(1.0, dP));
    chk("pressure_round_trip", eos.compute_pres_from_evol(rho, eos.compute_evol_from_pres(rho, P)), P, 4 * base + 20 * tT);
    chk("energy_round_trip", eos.compute_evol_from_pres(rho, eos.compute_pres_from_evol(rho, e)), e, 4 * base + 20 * tT);
    double const c = eos.compute_speed_of_sound(rho, P);
    if (!(c > 0) || !std::isfinite(c)) {
        vck::fail("eos.sound_positive", in + fmt(": sound speed %g", c));
    } else {
        chk("sound", c, g.c_P(rho, P), 4 * base + 10 * tT);
        // the same from the code's own pressure: c^2 = dP/drho at constant entropy, with T ds = de - (e+P)/rho drho = 0
        double const h = 1e-5;
        double const e0 = eos.compute_evol_from_pres(rho, P);
        ld const up = e0 * (1 + h * (1 + P / e0) + h * h / 2 * (P / e0)), um = e0 * (1 - h * (1 + P / e0) + h * h / 2 * (P / e0));
        double const num = eos.compute_pres_from_evol(rho * (1 + h), (double)up) - eos.compute_pres_from_evol(rho * (1 - h), (double)um);
        double const c2 = num / (2 * h * rho);
        if (tT < 1e-11 && base < 1e-11 && !(std::fabs(c2 / (c * c) - 1) < 1e-4)) {
            vck::fail("eos.isentropic", in + fmt(": sound speed squared %.9g but the isentropic derivative of the pressure is %.9g", c * c, c2));
        }
    }
    if (!eos.is_valid(rho, P)) {
        vck::fail("eos.valid", in + ": declared invalid");
    }
}

static void eos_case(long, Rng& r)
{
    Gas g;
    g.rad = radgas();
    g.gamma = r.coin(0.3) ? r.pick(std::vector<double> {5.0 / 3, 1.4, 4.0 / 3, 2, 1.0001, 1.1, 3}) : 1 + r.loguni(1e-4, 5);
    g.mu = r.coin(0.3) ? 1 : r.loguni(0.05, 300);
    EOS const eos((double)g.gamma, (double)g.mu);
    if (!same_bits(eos.adiabatic_index(), (double)g.gamma) || !same_bits(eos.mean_molecular_weight(), (double)g.mu)) {
        vck::fail("eos.parameters", fmt("constructed with %g %g, reports %g %g", (double)g.gamma, (double)g.mu, eos.adiabatic_index(), eos.mean_molecular_weight()));
    }
    for (int q = 0; q < 40; ++q) {
        double rho, T;
        if (!g.rad) {
            rho = r.loguni(1e-40, 1e40);
            T = r.loguni(1e-30, 1e30);
        } else {
            T = r.loguni(1e-3, 1e10);
            // from purely gaseous to purely radiative
            double const ratio = r.loguni(1e-15, 1e15);
            rho = (double)(vphys::ar * powl(T, 3) / 3 / (g.R() * ratio));
        }
        eos_state(g, eos, rho, T);
        vck::eval(vck::mix(vck::hash_bytes(&rho, 8), vck::hash_bytes(&T, 8)));
    }
    vck::sample(fmt("gamma=%.6g mu=%.6g", (double)g.gamma, (double)g.mu));
}

static void eos_bad(long, Rng& r)
{
    auto bad = [&](double ga, double mu) {
        bool threw = false;
        try {
            EOS const e(ga, mu);
        } catch (std::exception const&) {
            threw = true;
        }
        if (!threw) {
            vck::fail("eos.bad_parameters", fmt("gamma=%.17g mu=%.17g accepted", ga, mu));
        }
        vck::eval(vck::mix(vck::hash_bytes(&ga, 8), vck::hash_bytes(&mu, 8)));
    };
    std::vector<double> const bg {1, 1 - 1e-12, 0.5, 0, -0.0, -1, -5.0 / 3, INF, -INF, NAN, r.uni(-10, 1)};
    std::vector<double> const bm {0, -0.0, -1, -1e-300, INF, -INF, NAN, -r.loguni(1e-10, 10)};
    for (double x : bg) {
        bad(x, 1);
        bad(x, r.loguni(0.1, 10));
        for (double y : bm) {
            bad(x, y);
        }
    }
    for (double y : bm) {
        bad(5.0 / 3, y);
        bad(1 + r.loguni(0.01, 2), y);
    }
    EOS const eos(1 + r.loguni(0.1, 2), r.loguni(0.1, 10));
    std::vector<double> const bs {0, -0.0, -1, -1e-300, INF, -INF, NAN, -r.loguni(1e-30, 1e30)};
    for (double x : bs) {
        double const good = r.loguni(1e-20, 1e20);
        for (auto const& [a, b] : {std::pair<double, double> {x, good}, {good, x}, {x, x}, {x, r.pick(bs)}}) {
            if (eos.is_valid(a, b)) {
                vck::fail("eos.invalid", fmt("rho=%g P=%g declared valid", a, b));
            }
            vck::eval(vck::mix(vck::hash_bytes(&a, 8), vck::hash_bytes(&b, 8)));
        }
        if (!eos.is_valid(good, r.loguni(1e-20, 1e20))) {
            vck::fail("eos.valid", fmt("rho=%g declared invalid", good));
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
struct St
{
    double rho, u[3], P;
};

static St random_state(Gas const& g, Rng& r, double mach)
{
    St s {};
    if (g.rad) {
        double const T = r.loguni(1e3, 1e8);
        double const ratio = r.loguni(1e-6, 1e4);
        s.rho = (double)(vphys::ar * powl(T, 3) / 3 / (g.R() * ratio));
        s.P = (double)g.P_T(s.rho, T);
    } else {
        s.rho = r.loguni(1e-6, 1e6);
        s.P = r.loguni(1e-6, 1e6);
    }
    double const c = (double)g.c_P(s.rho, s.P);
    for (int d = 0; d < nd; ++d) {
        s.u[d] = r.coin(0.1) ? 0 : r.uni(-1, 1) * mach * c;
    }
    return s;
}
static EulerPrim prim_of(St const& s)
{
    EulerPrim p;
    p.rho = s.rho;
    for (int d = 0; d < nd; ++d) {
        p.u[d] = s.u[d];
    }
    p.P = s.P;
    return p;
}
static std::string show(St const& s) { return fmt("[rho=%.17g u=(%.17g,%.17g,%.17g) P=%.17g]", s.rho, s.u[0], s.u[1], s.u[2], s.P); }
static Gas random_gas(Rng& r)
{
    Gas g;
    g.rad = radgas();
    g.gamma = r.coin(0.5) ? (ld)(5.0 / 3) : (ld)(1 + r.loguni(0.05, 2));
    g.mu = r.coin(0.5) ? 1 : r.loguni(0.5, 60);
    return g;
}

// exact flux of the Euler equations: rho, momentum, energy
struct Fl
{
    double rho, m[3], E;
};
static Fl exact_flux(Gas const& g, St const& s, int dir)
{
    ld ek = 0;
    for (int d = 0; d < nd; ++d) {
        ek += (ld)s.u[d] * s.u[d];
    }
    ek *= s.rho / 2.0L;
    ld const e = g.e_P(s.rho, s.P);
    Fl f {};
    f.rho = (double)((ld)s.rho * s.u[dir]);
    for (int d = 0; d < nd; ++d) {
        f.m[d] = (double)((ld)s.rho * s.u[dir] * s.u[d] + (d == dir ? (ld)s.P : 0.0L));
    }
    f.E = (double)(s.u[dir] * (ek + e + s.P));
    return f;
}
static Fl of(EulerFlux const& f)
{
    Fl o {};
    o.rho = f.rho;
    for (int d = 0; d < nd; ++d) {
        o.m[d] = f.rhou[d];
    }
    o.E = f.E;
    return o;
}
static bool finite(Fl const& f)
{
    return std::isfinite(f.rho) && std::isfinite(f.m[0]) && std::isfinite(f.m[1]) && std::isfinite(f.m[2]) && std::isfinite(f.E);
}
static std::string show(Fl const& f) { return fmt("{%.17g (%.17g,%.17g,%.17g) %.17g}", f.rho, f.m[0], f.m[1], f.m[2], f.E); }
// largest deviation of two fluxes in units of their natural magnitudes
struct Mag
{
    double rho = 0, m = 0, E = 0, machsq = 1;
};
static Mag mag(Gas const& g, St const& a, St const& b)
{
    Mag k;
    double c0 = INF, v = 0, vt = 0;
    for (St const* s : {&a, &b}) {
        double const c = (double)g.c_P(s->rho, s->P);
        double u2 = 0;
        for (int d = 0; d < nd; ++d) {
            u2 += s->u[d] * s->u[d];
        }
        double const w = std::sqrt(u2) + c;
        v = std::fmax(v, w);
        vt = std::fmax(vt, std::sqrt(u2));
        c0 = std::fmin(c0, c);
        double const E = (double)g.e_P(s->rho, s->P) + s->rho * u2 / 2 + s->P;
        k.rho = std::fmax(k.rho, s->rho * w);
        k.m = std::fmax(k.m, s->rho * w * w);
        k.E = std::fmax(k.E, E * w);
        // rounding of the pressure recovered from the conserved variables
        k.machsq = std::fmax(k.machsq, E / (double)g.e_P(s->rho, s->P));
    }
    k.rho = std::fmax(k.rho, std::fmax(a.rho, b.rho) * v);
    k.m = std::fmax(k.m, std::fmax(a.rho, b.rho) * v * v);
    k.E = std::fmax(k.E, std::fmax(a.rho, b.rho) * v * v * v);
    k.machsq *= v / c0;
    return k;
}
static double dist(Fl const& a, Fl const& b, Mag const& k)
{
    double d = std::fabs(a.rho - b.rho) / k.rho;
    for (int i = 0; i < nd; ++i) {
        d = std::fmax(d, std::fabs(a.m[i] - b.m[i]) / k.m);
    }
    d = std::fmax(d, std::fabs(a.E - b.E) / k.E);
    return std::isfinite(d) ? d : INF;
}

// ---------------------------------------------------------------------------------------------------------------------
// C18
static void conv_point(Gas const& g, EOS const& eos, St const& s)
{
    EulerPrim const p = prim_of(s);
    EulerCons const c = to_cons(p, eos);
    ld ek = 0;
    for (int d = 0; d < nd; ++d) {
        ek += (ld)s.u[d] * s.u[d];
    }
    ek *= s.rho / 2.0L;
    ld const e = g.e_P(s.rho, s.P);
    double const tT = (double)g.relT(g.T_P(s.rho, s.P));
    double const base = 40 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 8 * tT;
    if (c.rho != s.rho) {
        vck::fail("conv.rho", show(s) + fmt(" density became %.17g", c.rho));
    }
    for (int d = 0; d < nd; ++d) {
        if (!vphys::near(c.rhou[d], s.rho * s.u[d], 4 * EPS)) {
            vck::fail("conv.momentum", show(s) + fmt(" momentum %d is %.17g", d, c.rhou[d]));
        }
    }
    if (!vphys::near(c.E, (double)(e + ek), base)) {
        vck::fail("conv.energy", show(s) + fmt(" energy is %.17g instead of %.17g", c.E, (double)(e + ek)));
    }
    EulerPrim const b = to_prim(c, eos);
    double const amp = (double)((e + ek) / e);
    bool ok = b.rho == s.rho;
    for (int d = 0; d < nd; ++d) {
        ok = ok && vphys::near(b.u[d], s.u[d], 8 * EPS);
    }
    ok = ok && vphys::near(b.P, s.P, base * 4 + 16 * EPS * amp);
    if (!ok) {
        vck::fail("conv.roundtrip", show(s) + fmt(" came back as rho=%.17g u0=%.17g P=%.17g", b.rho, b.u[0], b.P));
    }
    if (!vphys::near(compute_ek(p), (double)ek, 8 * EPS) || !vphys::near(compute_ek(c), (double)ek, 16 * EPS)) {
        vck::fail("conv.kinetic", show(s) + fmt(" kinetic energy %.17g / %.17g instead of %.17g", compute_ek(p), compute_ek(c), (double)ek));
    }
    if (!vphys::near(compute_evol(c), (double)e, base * 4 + 16 * EPS * amp)) {
        vck::fail("conv.internal", show(s) + fmt(" internal energy %.17g instead of %.17g", compute_evol(c), (double)e));
    }
    Mag const k = mag(g, s, s);
    for (int d = 0; d < nd; ++d) {
        Fl const x = exact_flux(g, s, d);
        double const d1 = dist(of(compute_flux(p, d, eos)), x, k), d2 = dist(of(compute_flux(c, d, eos)), x, k);
        if (!(d1 < 4 * base) || !(d2 < 4 * base)) {
            vck::fail("conv.flux", show(s) + fmt(" direction %d: fluxes %s / %s instead of %s", d, show(of(compute_flux(p, d, eos))).c_str(), show(of(compute_flux(c, d, eos))).c_str(), show(x).c_str()));
        }
    }
    vck::eval(vck::mix(vck::hash_bytes(&s, sizeof s), 1));
}
static void conv_case(long, Rng& r)
{
    Gas const g = random_gas(r);
    EOS const eos((double)g.gamma, (double)g.mu);
    for (int q = 0; q < 40; ++q) {
        conv_point(g, eos, random_state(g, r, r.pick(std::vector<double> {0, 0.001, 0.5, 3, 100, r.loguni(10, 1e6)})));
    }
    vck::sample(fmt("gamma=%.4g %s", (double)g.gamma, show(random_state(g, r, 1)).c_str()));
}

static void conv_arrays(long n, Rng& r)
{
    Gas const g = random_gas(r);
    EOS const eos((double)g.gamma, (double)g.mu);
    int const ng = r.range(0, 4);
    std::array<int, 3> lo {0, 0, 0}, hi {1, 1, 1}, ext {1, 1, 1};
    for (int d = 0; d < 3; ++d) {
        auto const D = static_cast<std::size_t>(d);
        if (d < nd) {
            lo[D] = r.coin() ? 0 : r.range(0, 20);
            hi[D] = lo[D] + r.range(1, 6);
        }
        ext[D] = hi[D] - lo[D] + (d < nd ? 2 * ng : 0);
    }
    Range const base(lo, hi, ng);
    int const eff = r.range(0, ng);
    Range const range = eff == 0 ? base.no_ghosts() : (eff == ng ? base.all_ghosts() : base.with_ghosts(eff));
    vshim::config().order = r.pick(std::vector<vshim::Order> {vshim::Order::sequential, vshim::Order::random, vshim::Order::reverse});
    vshim::config().seed = r.next();
    auto const E3 = [&](char const* nm) { return KV_double_3d(nm, ext[0], ext[1], ext[2]); };
    auto const E4 = [&](char const* nm) { return KV_double_4d(nm, ext[0], ext[1], ext[2], nd); };
    KV_double_3d const rho = E3("rho"), P = E3("P"), E = E3("E"), P2 = E3("P2");
    KV_double_4d const u = E4("u"), m = E4("rhou"), u2 = E4("u2");
    long const N = static_cast<long>(ext[0]) * ext[1] * ext[2];
    std::vector<St> st(static_cast<std::size_t>(N));
    std::vector<double> vr(st.size()), vp(st.size()), vu(st.size() * nd);
    for (std::size_t q = 0; q < st.size(); ++q) {
        st[q] = random_state(g, r, 2);
        vr[q] = st[q].rho;
        vp[q] = st[q].P;
        for (int d = 0; d < nd; ++d) {
            vu[q + static_cast<std::size_t>(N * d)] = st[q].u[d];
        }
    }
    std::vector<double> const no3(st.size(), poison), no4(st.size() * nd, poison);
    put(rho, vr);
    put(P, vp);
    put(u, vu);
    put(E, no3);
    put(m, no4);
    put(P2, no3);
    put(u2, no4);
    bool const by_array = r.coin();
    auto split = [&](auto const& v) {
        Kokkos::Array<KV_double_3d, nd> a;
        for (int d = 0; d < nd; ++d) {
            a[d] = Kokkos::subview(v, ALL, ALL, ALL, d);
        }
        return a;
    };
    auto csplit = [&](auto const& v) {
        Kokkos::Array<KV_cdouble_3d, nd> a;
        for (int d = 0; d < nd; ++d) {
            a[d] = Kokkos::subview(v, ALL, ALL, ALL, d);
        }
        return a;
    };
    if (by_array) {
        conv_prim_to_cons(range, eos, rho, csplit(u), P, split(m), E);
    } else {
        conv_prim_to_cons(range, eos, rho, u, P, m, E);
    }
    auto sE = snap(E), sm = snap(m);
    if (snap(rho) != vr || snap(P) != vp || snap(u) != vu) {
        vck::fail("conv.inputs", "conversion to conserved variables changed its inputs");
    }
    if (by_array) {
        conv_cons_to_prim(range, eos, rho, csplit(m), E, split(u2), P2);
    } else {
        conv_cons_to_prim(range, eos, rho, m, E, u2, P2);
    }
    if (snap(rho) != vr || snap(E) != sE || snap(m) != sm) {
        vck::fail("conv.inputs", "conversion to primitive variables changed its inputs");
    }
    vshim::config().order = vshim::Order::sequential;
    auto su = snap(u2), sp = snap(P2);
    for (int k = 0; k < ext[2]; ++k) {
        for (int j = 0; j < ext[1]; ++j) {
            for (int i = 0; i < ext[0]; ++i) {
                int const ix[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < nd; ++d) {
                    in = in && ix[d] >= ng - eff && ix[d] < ext[static_cast<std::size_t>(d)] - (ng - eff);
                }
                auto const q = static_cast<std::size_t>(i + ext[0] * (j + static_cast<long>(ext[1]) * k));
                bool untouched = sE[q] == poison && sp[q] == poison, partly = sE[q] == poison || sp[q] == poison;
                for (int d = 0; d < nd; ++d) {
                    auto const qd = q + static_cast<std::size_t>(N * d);
                    untouched = untouched && sm[qd] == poison && su[qd] == poison;
                    partly = partly || sm[qd] == poison || su[qd] == poison;
                }
                std::string const at = fmt("cell (%d,%d,%d) of %dx%dx%d, ghosts %d, range with %d ghosts", i, j, k, ext[0], ext[1], ext[2], ng, eff);
                if (!in) {
                    if (!untouched) {
                        vck::fail("conv.range", at + " lies outside of the range and was written");
                    }
                    continue;
                }
                if (partly) {
                    vck::fail("conv.range", at + " was not converted");
                    continue;
                }
                EulerCons const c = to_cons(prim_of(st[q]), eos);
                bool ok = vphys::near(sE[q], c.E, 4 * EPS);
                double const tT = (double)g.relT(g.T_P(st[q].rho, st[q].P));
                double const amp = c.E / (double)g.e_P(st[q].rho, st[q].P);
                ok = ok && vphys::near(sp[q], st[q].P, 160 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 32 * tT + 16 * EPS * amp);
                for (int d = 0; d < nd; ++d) {
                    auto const qd = q + static_cast<std::size_t>(N * d);
                    ok = ok && vphys::near(sm[qd], c.rhou[d], 4 * EPS) && vphys::near(su[qd], st[q].u[d], 8 * EPS);
                }
                if (!ok) {
                    vck::fail("conv.array_value", at + ": wrong values for " + show(st[q]));
                }
            }
        }
    }
    vck::eval(vck::mix(static_cast<std::uint64_t>(n), 77));
    vck::stat("arrays");
}

// ---------------------------------------------------------------------------------------------------------------------
// C19
template <class Solver>
static void flux_pair(char const* name, Solver const& solver, Gas const& g, EOS const& eos, Rng& r)
{
    bool const hll = std::string(name) == "HLL", low = std::string(name) == "Low Mach";
    double const mach = r.pick(std::vector<double> {0, 0.01, 0.5, 1, 3, 30});
    St a = random_state(g, r, mach), b = random_state(g, r, mach);
    int const mode = r.range(0, 5);
    if (mode == 0) {
        b = a;
    } else if (mode <= 2) { // moderate jump
        double const c = (double)g.c_P(a.rho, a.P);
        b.rho = a.rho * std::exp(r.uni(-0.5, 0.5));
        b.P = a.P * std::exp(r.uni(-0.5, 0.5));
        for (int d = 0; d < nd; ++d) {
            b.u[d] = a.u[d] + r.uni(-0.3, 0.3) * c;
        }
    } else if (mode == 3) { // contact
        b = a;
        b.rho = a.rho * r.loguni(1e-3, 1e3);
    }
    int const dir = r.range(0, nd - 1);
    EulerCons const ca = to_cons(prim_of(a), eos), cb = to_cons(prim_of(b), eos);
    Fl const f = of(solver(ca, cb, dir, eos));
    Mag const k = mag(g, a, b);
    double const tT = (double)std::fmax(g.relT(g.T_P(a.rho, a.P)), g.relT(g.T_P(b.rho, b.P)));
    double const tol = (500 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 30 * tT) * k.machsq;
    std::string const in = fmt("%s direction %d gamma=%.6g L=%s R=%s flux=%s", name, dir, (double)g.gamma, show(a).c_str(), show(b).c_str(), show(f).c_str());
    if (!finite(f)) {
        vck::fail("flux.finite", in);
        return;
    }
    if (tol > 1e-5) {
        vck::eval(0, false);
        return;
    }
    // equal states
    {
        Fl const x = of(solver(ca, ca, dir, eos));
        Fl const ex = exact_flux(g, a, dir);
        double const d = dist(x, ex, mag(g, a, a));
        vck::stat_max("max.consistency", d / tol);
        if (!(d <= tol)) {
            vck::fail("flux.consistent", in + " equal left states give " + show(x) + " instead of " + show(ex));
        }
    }
    // mirror
    {
        St am = a, bm = b;
        am.u[dir] = -a.u[dir];
        bm.u[dir] = -b.u[dir];
        Fl x = of(solver(to_cons(prim_of(bm), eos), to_cons(prim_of(am), eos), dir, eos));
        x.rho = -x.rho;
        x.E = -x.E;
        for (int d = 0; d < nd; ++d) {
            if (d != dir) {
                x.m[d] = -x.m[d];
            }
        }
        double const d = dist(x, f, k);
        // at a zero crossing of the contact speed the upwind side of the transverse momentum may flip by rounding
        bool const tie = std::fabs(f.rho) <= tol * k.rho;
        bool bad = !(d <= tol);
        if (bad && tie) {
            Fl y = x;
            for (int q = 0; q < nd; ++q) {
                if (q != dir) {
                    y.m[q] = f.m[q];
                }
            }
            bad = !(dist(y, f, k) <= 4 * tol);
        }
        if (bad) {
            vck::fail("flux.mirror", in + " the mirrored states give " + show(x));
        }
    }
    // relabelling of directions
    if (nd > 1) {
        int perm[3] = {0, 1, 2};
        int const sh = r.range(1, nd - 1);
        for (int d = 0; d < nd; ++d) {
            perm[d] = r.coin() || nd == 2 ? (d + sh) % nd : (nd - d + sh) % nd;
        }
        bool seen[3] = {false, false, false};
        bool good = true;
        for (int d = 0; d < nd; ++d) {
            good = good && !seen[perm[d]];
            seen[perm[d]] = true;
        }
        if (!good) {
            for (int d = 0; d < nd; ++d) {
                perm[d] = (d + sh) % nd;
            }
        }
        St ap = a, bp = b;
        for (int d = 0; d < nd; ++d) {
            ap.u[perm[d]] = a.u[d];
            bp.u[perm[d]] = b.u[d];
        }
        Fl const y = of(solver(to_cons(prim_of(ap), eos), to_cons(prim_of(bp), eos), perm[dir], eos));
        Fl z {};
        z.rho = y.rho;
        z.E = y.E;
        for (int d = 0; d < nd; ++d) {
            z.m[d] = y.m[perm[d]];
        }
        if (!(dist(z, f, k) <= tol)) {
            vck::fail("flux.relabel", in + fmt(" relabelling to direction %d gives ", perm[dir]) + show(z));
        }
    }
    // supersonic
    double const cL = (double)g.c_P(a.rho, a.P), cR = (double)g.c_P(b.rho, b.P);
    {
        St as = a, bs = b;
        double const c = std::fmax(cL, cR);
        double const s = r.coin() ? 1 : -1;
        as.u[dir] = s * c * r.uni(1.05, 4);
        bs.u[dir] = s * c * r.uni(1.05, 4);
        if (!low) {
            Fl const x = of(solver(to_cons(prim_of(as), eos), to_cons(prim_of(bs), eos), dir, eos));
            Fl const ex = exact_flux(g, s > 0 ? as : bs, dir);
            Mag const ks = mag(g, as, bs);
            double const t = (500 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 30 * tT) * ks.machsq;
            if (t < 1e-5 && !(dist(x, ex, ks) <= t)) {
                vck::fail("flux.supersonic", fmt("%s direction %d L=%s R=%s gives %s instead of the upwind flux %s", name, dir, show(as).c_str(), show(bs).c_str(), show(x).c_str(), show(ex).c_str()));
            }
        }
    }
    // isolated contact: equal pressure and normal velocity
    if (!hll) {
        St as = a, bs = b;
        bs.P = as.P;
        double const c = std::fmin((double)g.c_P(as.rho, as.P), (double)g.c_P(bs.rho, bs.P));
        double const v = r.coin(0.4) ? 0 : r.uni(-0.9, 0.9) * c;
        as.u[dir] = v;
        bs.u[dir] = v;
        Mag const ks = mag(g, as, bs);
        double const t = (500 * EPS / std::fmin(1.0, (double)(g.gamma - 1)) + 30 * tT) * ks.machsq;
        Fl const x = of(solver(to_cons(prim_of(as), eos), to_cons(prim_of(bs), eos), dir, eos));
        Fl const eL = exact_flux(g, as, dir), eR = exact_flux(g, bs, dir);
        // the pressure recovered on both sides may differ by rounding, which moves a contact at rest by that much
        bool const slow = std::fabs(v) <= 100 * t * c;
        bool ok = v > 0 ? dist(x, eL, ks) <= t : dist(x, eR, ks) <= t;
        if (!ok && slow) {
            ok = dist(x, eL, ks) <= t || dist(x, eR, ks) <= t;
        }
        if (t < 1e-5 && !ok) {
            vck::fail("flux.contact", fmt("%s direction %d: contact L=%s R=%s gives %s instead of %s", name, dir, show(as).c_str(), show(bs).c_str(), show(x).c_str(), show(v > 0 ? eL : eR).c_str()));
        }
    }
    vck::eval(vck::mix(vck::hash_bytes(&a, sizeof a), vck::hash_bytes(&b, sizeof b)), mode != 0);
    vck::sample(in);
}
static void flux_case(long, Rng& r)
{
    Gas const g = random_gas(r);
    EOS const eos((double)g.gamma, (double)g.mu);
    for (int q = 0; q < 30; ++q) {
        flux_pair("HLL", HLL(), g, eos, r);
        flux_pair("HLLC", HLLC(), g, eos, r);
        flux_pair("Low Mach", Splitting(), g, eos, r);
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// C20
static ld lim_ref(std::string const& n, ld a, ld b)
{
    if (n == "Constant" || !(a * b > 0)) {
        return 0;
    }
    if (n == "VanLeer") {
        return 2 * a * b / (a + b);
    }
    if (n == "Minmod") {
        return fabsl(a) < fabsl(b) ? a : b;
    }
    return a * b * (a + b) / (a * a + b * b);
}
static double limiter(std::string const& n, double a, double b)
{
    if (n == "Constant") {
        return Constant()(a, b);
    }
    if (n == "VanLeer") {
        return VanLeer()(a, b);
    }
    if (n == "Minmod") {
        return Minmod()(a, b);
    }
    return VanAlbada()(a, b);
}
static std::vector<std::string> const recs {"Constant", "VanLeer", "Minmod", "VanAlbada"};

static void limiter_case(long, Rng& r)
{
    for (int q = 0; q < 60; ++q) {
        std::string const n = r.pick(recs);
        double a = r.loguni(1e-30, 1e30), b = r.coin() ? a * r.loguni(1e-6, 1e6) : a * r.loguni(0.1, 10);
        if (r.coin(0.1)) {
            b = a;
        }
        if (r.coin(0.1)) {
            b = 0;
        }
        if (r.coin(0.05)) {
            a = 0;
        }
        if (r.coin()) {
            a = -a;
        }
        if (r.coin(0.3) ? r.coin() : a < 0) {
            b = -b;
        }
        double const s = limiter(n, a, b);
        std::string const in = fmt("%s(%.17g, %.17g) = %.17g", n.c_str(), a, b, s);
        double const mx = std::fmax(std::fabs(a), std::fabs(b)), mn = std::fmin(std::fabs(a), std::fabs(b));
        if (!(std::fabs(s - (double)lim_ref(n, a, b)) <= 64 * EPS * std::fabs((double)lim_ref(n, a, b)) + 1e-300)) {
            vck::fail("limiter.value", in + fmt(" instead of %.17g", (double)lim_ref(n, a, b)));
        }
        if (!vphys::near(limiter(n, b, a), s, 64 * EPS)) {
            vck::fail("limiter.symmetric", in + fmt(", swapped %.17g", limiter(n, b, a)));
        }
        if (!vphys::near(-limiter(n, -a, -b), s, 16 * EPS)) {
            vck::fail("limiter.odd", in);
        }
        double const k = std::ldexp(1.0, r.range(-20, 20)) * (r.coin() ? 1 : 3);
        if (!vphys::near(limiter(n, a * k, b * k), s * k, 64 * EPS)) {
            vck::fail("limiter.scale", in + fmt(", times %g gives %.17g", k, limiter(n, a * k, b * k)));
        }
        if (!(std::fabs(s) <= 2 * mn * (1 + 64 * EPS)) || std::fabs(s) > mx * (1 + 64 * EPS) || (a * b <= 0 && s != 0) || s * a < 0) {
            vck::fail("limiter.bound", in);
        }
        vck::eval(vck::mix(vck::hash_bytes(&a, 8), vck::hash_bytes(&b, 8)), a * b > 0);
    }
}

static void recon_case(long n, Rng& r)
{
    std::string const name = r.pick(recs);
    int const ng = r.pick(std::vector<int> {2, 2, 3, 4});
    std::array<int, 3> N {1, 1, 1};
    for (int d = 0; d < nd; ++d) {
        N[static_cast<std::size_t>(d)] = r.range(1, 7);
    }
    bool const uniform = r.coin();
    int const kind = r.range(0, 3); // 0 random, 1 linear, 2 constant, 3 smooth with extrema and plateaus
    auto const xs = random_mesh(r, N, ng, uniform ? 0 : 0.4);
    if (!physical_nodes(xs)) {
        return;
    }
    vshim::config().order = r.pick(std::vector<vshim::Order> {vshim::Order::sequential, vshim::Order::random});
    world(1, r.next(), [&](int) {
        Grid grid(N, {1, 1, 1}, ng);
        set_nodes(grid, xs);
        int const* e = grid.Nx_local_wg.data();
        KV_double_3d const var("var", e[0], e[1], e[2]);
        KV_double_5d const rec("var_rec", e[0], e[1], e[2], 2, nd);
        std::vector<double> v(var.size());
        double const g0 = r.uni(-2, 2), a0 = r.uni(-3, 3), a1 = r.uni(-3, 3), a2 = r.uni(-3, 3);
        double const mag = r.coin(0.2) ? r.loguni(1e-12, 1e12) : 1;
        auto xc = [&](int d, int i) { return (xs[static_cast<std::size_t>(d)][static_cast<std::size_t>(i)] + xs[static_cast<std::size_t>(d)][static_cast<std::size_t>(i) + 1]) / 2; };
        double big = 0;
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    double x = g0;
                    if (kind == 0) {
                        x = r.coin(0.2) ? std::floor(r.uni(-2, 2)) : r.uni(-2, 2);
                    } else if (kind == 1) {
                        x = g0 + a0 * xc(0, i) + (nd > 1 ? a1 * xc(1, j) : 0) + (nd > 2 ? a2 * xc(2, k) : 0);
                    } else if (kind == 3) {
                        x = std::floor(4 * std::sin(i * 0.9 + 0.3 * j + a0)) / 4 + 0.1 * std::cos(1.7 * j + k * a1);
                    }
                    x *= mag;
                    v[static_cast<std::size_t>(i + e[0] * (j + static_cast<long>(e[1]) * k))] = x;
                    big = std::fmax(big, std::fabs(x));
                }
            }
        }
        put(var, v);
        put(rec, std::vector<double>(rec.size(), poison));
        auto const f = factory_face_reconstruction(name);
        f->execute(grid.range.with_ghosts(1), grid, var, rec);
        if (snap(var) != v) {
            vck::fail("recon.input", "reconstruction changed its input");
        }
        auto const s = snap(rec);
        long const tot = static_cast<long>(e[0]) * e[1] * e[2];
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    int const ix[3] = {i, j, k};
                    bool in = true;
                    for (int d = 0; d < nd; ++d) {
                        in = in && ix[d] >= ng - 1 && ix[d] < e[d] - (ng - 1);
                    }
                    long const q = i + e[0] * (j + static_cast<long>(e[1]) * k);
                    long const st[3] = {1, e[0], static_cast<long>(e[0]) * e[1]};
                    for (int d = 0; d < nd; ++d) {
                        double const L = s[static_cast<std::size_t>(q + tot * (0 + 2L * d))], R = s[static_cast<std::size_t>(q + tot * (1 + 2L * d))];
                        std::string const at = fmt("%s cell (%d,%d,%d) direction %d of %dx%dx%d ng=%d kind=%d %s", name.c_str(), i, j, k, d, N[0], N[1], N[2], ng, kind, uniform ? "uniform" : "irregular");
                        if (!in) {
                            if (L != poison || R != poison) {
                                vck::fail("recon.range", at + " outside of the range was written");
                            }
                            continue;
                        }
                        double const c = v[static_cast<std::size_t>(q)], m = v[static_cast<std::size_t>(q - st[d])], p = v[static_cast<std::size_t>(q + st[d])];
                        std::string const val = at + fmt(": faces %.17g %.17g of cell %.17g with neighbours %.17g %.17g", L, R, c, m, p);
                        double const tol = 32 * EPS * std::fmax(std::fabs(c), std::fmax(std::fabs(m), std::fabs(p)));
                        if (!(std::fabs((L + R) / 2 - c) <= tol)) {
                            vck::fail("recon.average", val);
                        }
                        if (name == "Constant" || (p - c) * (c - m) <= 0) {
                            if (L != c || R != c) {
                                vck::fail("recon.extremum", val);
                            }
                            continue;
                        }
                        if (uniform) {
                            auto between = [&](double x, double a, double b) { return x >= std::fmin(a, b) - tol && x <= std::fmax(a, b) + tol; };
                            if (!between(L, m, c) || !between(R, p, c)) {
                                vck::fail("recon.monotone", val);
                            }
                        }
                        // the slope of the limiter that was asked for
                        auto const& X = xs[static_cast<std::size_t>(d)];
                        auto dx = [&](int a) { return (ld)X[static_cast<std::size_t>(a) + 1] - X[static_cast<std::size_t>(a)]; };
                        int const a = ix[d];
                        ld const sr = ((ld)p - c) / ((dx(a) + dx(a + 1)) / 2), sl = ((ld)c - m) / ((dx(a - 1) + dx(a)) / 2);
                        ld const sl2 = lim_ref(name, sr, sl);
                        double const xm = std::fmax(std::fabs(X.front()), std::fabs(X.back()));
                        double const geo = 1 + xm / (double)std::fmin(dx(a), std::fmin(dx(a - 1), dx(a + 1))); // rounding of node differences
                        double const t2 = tol + 64 * EPS * geo * std::fabs((double)(sl2 * dx(a)));
                        if (!(std::fabs(R - (double)(c + sl2 * dx(a) / 2)) <= t2) || !(std::fabs(L - (double)(c - sl2 * dx(a) / 2)) <= t2)) {
                            vck::fail("recon.limiter", val + fmt(" expected %.17g %.17g", (double)(c - sl2 * dx(a) / 2), (double)(c + sl2 * dx(a) / 2)));
                        }
                        if (kind == 1) {
                            double const sx = mag * (d == 0 ? a0 : (d == 1 ? a1 : a2));
                            double const t3 = 64 * EPS * (big + std::fabs(sx) * xm) * geo;
                            if (!(std::fabs(R - c - sx * (double)dx(a) / 2) <= t3)) {
                                vck::fail("recon.linear", val + fmt(" exact slope %.17g", sx));
                            }
                        }
                    }
                }
            }
        }
    });
    vshim::config().order = vshim::Order::sequential;
    vck::eval(vck::mix(static_cast<std::uint64_t>(n), vck::hash_str(name)), kind != 2);
    vck::stat("recon." + name);
    vck::sample(fmt("%s on %dx%dx%d, kind %d", name.c_str(), N[0], N[1], N[2], kind));
}

// a uniform state keeps its face values during the time extrapolation (moving on Cartesian meshes, at rest on any)
static void hancock_case(long n, Rng& r)
{
    Gas const g = random_gas(r);
    EOS const eos((double)g.gamma, (double)g.mu);
    int const ng = r.range(2, 3), nfx = r.coin(0.2) ? r.range(4, 10) : r.range(0, 3);
    std::array<int, 3> N {1, 1, 1};
    for (int d = 0; d < nd; ++d) {
        N[static_cast<std::size_t>(d)] = r.range(1, 5);
    }
    auto const xs = random_mesh(r, N, ng, r.coin() ? 0 : 0.4);
    if (!physical_nodes(xs)) {
        return;
    }
    St s = random_state(g, r, spherical() ? 0 : 1);
    if (spherical()) {
        s.u[0] = s.u[1] = s.u[2] = 0;
    }
    world(1, r.next(), [&](int) {
        Grid grid(N, {1, 1, 1}, ng);
        set_nodes(grid, xs);
        int const* e = grid.Nx_local_wg.data();
        KV_double_5d const rho("rho_rec", e[0], e[1], e[2], 2, nd), E("E_rec", e[0], e[1], e[2], 2, nd), P("P_rec", e[0], e[1], e[2], 2, nd);
        KV_double_6d const m("rhou_rec", e[0], e[1], e[2], 2, nd, nd), u("u_rec", e[0], e[1], e[2], 2, nd, nd), fx("fx_rec", e[0], e[1], e[2], 2, nd, nfx);
        EulerCons const c = to_cons(prim_of(s), eos);
        put(rho, std::vector<double>(rho.size(), s.rho));
        put(E, std::vector<double>(E.size(), c.E));
        put(P, std::vector<double>(P.size(), s.P));
        std::vector<double> vm(m.size()), vu(u.size()), vf(fx.size());
        std::size_t const cell = rho.size();
        for (std::size_t q = 0; q < vm.size(); ++q) {
            vu[q] = s.u[q / cell];
            vm[q] = c.rhou[static_cast<int>(q / cell)];
        }
        for (std::size_t q = 0; q < vf.size(); ++q) {
            vf[q] = 0.125 * static_cast<double>(1 + q / cell);
        }
        put(m, vm);
        put(u, vu);
        put(fx, vf);
        double v = (double)g.c_P(s.rho, s.P), hmin = INF;
        for (int d = 0; d < nd; ++d) {
            v += std::fabs(s.u[d]);
            auto const& X = xs[static_cast<std::size_t>(d)];
            for (std::size_t i = 0; i + 1 < X.size(); ++i) {
                hmin = std::fmin(hmin, (X[i + 1] - X[i]) * (spherical() && d > 0 ? xs[0][0] * (d == 2 ? std::fmin(std::sin(xs[1].front()), std::sin(xs[1].back())) : 1.0) : 1.0));
            }
        }
        double const dt = r.uni(0, 1) * hmin / v / nd;
        HancockExtrapolationReconstruction<EOS, UniformGravity> const h(eos);
        h.execute(grid.range.with_ghosts(1), grid, make_uniform_gravity(0, 0, 0), dt, u, P, rho, m, E, fx);
        double const amp = 1 + hmin * 0; // the CFL bound makes every increment of order one
        double const xr = [&] {
            double w = 1;
            for (int d = 0; d < nd; ++d) {
                auto const& X = xs[static_cast<std::size_t>(d)];
                w = std::fmax(w, std::fmax(std::fabs(X.front()), std::fabs(X.back())) / (X[1] - X[0]));
            }
            return w;
        }();
        double const tol = 2000 * EPS * amp * (spherical() ? xr * xr : xr);
        auto near = [&](std::vector<double> const& x, std::function<double(std::size_t)> const& ref, double scale, char const* what) {
            for (std::size_t q = 0; q < x.size(); ++q) {
                if (!(std::fabs(x[q] - ref(q)) <= tol * scale)) {
                    vck::fail("recon.uniform", fmt("time extrapolation of the uniform state %s changed %s from %.17g to %.17g (%dx%dx%d ng=%d)", show(s).c_str(), what, ref(q), x[q], N[0], N[1], N[2], ng));
                    return;
                }
            }
        };
        double const c0 = (double)g.c_P(s.rho, s.P);
        double u0 = c0;
        for (int d = 0; d < nd; ++d) {
            u0 += std::fabs(s.u[d]);
        }
        near(snap(rho), [&](std::size_t) { return s.rho; }, s.rho, "density");
        near(snap(E), [&](std::size_t) { return c.E; }, c.E + s.P, "energy");
        near(snap(m), [&](std::size_t q) { return vm[q]; }, s.rho * u0, "momentum");
        if (nfx) {
            near(snap(fx), [&](std::size_t q) { return vf[q]; }, 1, "a scalar");
        }
    });
    vck::eval(vck::mix(static_cast<std::uint64_t>(n), 4242));
    vck::stat("hancock_uniform");
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    long const k = vck::st().thorough ? 40 : 1;
    if (what == "eos") {
        vck::cases("eos", 400 * k, eos_case);
        vck::cases("eos_bad", 10 * k, eos_bad);
    } else if (what == "conv") {
        vck::cases("conv", 200 * k, conv_case);
        vck::cases("conv_arrays", 250 * k, conv_arrays);
    } else if (what == "flux") {
        vck::cases("flux", 300 * k, flux_case);
    } else {
        vck::cases("limiter", 200 * k, limiter_case);
        vck::cases("recon", 400 * k, recon_case);
        vck::cases("hancock", 80 * k, hancock_case);
    }
    return vck::finish();
}
