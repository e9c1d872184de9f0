// C33: what the shipped problem setups put into the mesh.  The initial output of whole runs is compared cell by cell with the
// profile of the setup, evaluated here from the global position of the cell, and between rank layouts bit by bit.
#include <algorithm>
#include <random>

#include <vphys.hpp>
#include <vsys.hpp>

using namespace vsys;

namespace {

std::string const setup_name = MY_SETUP;
#ifdef HERACLESPP_GRAVITY_Internal_mass
constexpr bool internal_mass = true;
#else
constexpr bool internal_mass = false;
#endif

// a reproducible source for the one setup that draws random numbers, which also counts the ranks that draw
std::uint64_t g_draws = 0;
std::uint64_t g_draw_seed = 1;
std::set<int> g_drawers;

} // namespace

// replaces the entropy source of the C++ library in this program
namespace std {
void random_device::_M_init(std::string const&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval()
{
    g_drawers.insert(vshim::tl_rank);
    return static_cast<result_type>(vck::mix(g_draw_seed, ++g_draws));
}
double random_device::_M_getentropy() const noexcept { return 0; }
} // namespace std

namespace {

struct Expect
{
    double rho = NAN, P = NAN, u[3] = {0, 0, 0};
    std::vector<double> fx;
    double amp = 1; // how much rounding the profile amplifies
};

struct Case
{
    Box b;
    Ini c;
    double gamma = 5. / 3, mu = 1;
    int nfx = 0;
    // v1d: the profile in the file
    std::vector<double> x0, rho1, u1, P1;
    std::vector<std::vector<double>> fx1;
    double val(char const* sec, char const* key, double dflt) const
    {
        std::string const s = c.get(sec, key);
        return s.empty() ? dflt : std::atof(s.c_str());
    }
    double ini(char const* key, double dflt = 1) const { return val("Initialisation", key, dflt); }
};

double mid(std::vector<double> const& x, int ng, int i) { return (x[static_cast<std::size_t>(i + ng)] + x[static_cast<std::size_t>(i + ng + 1)]) / 2; }

// the states the setup may give to cell (i,j,k): more than one when the cell sits on a threshold to rounding
std::vector<Expect> expect(Case const& q, std::vector<double> const (&X)[3], int const (&ng)[3], int i, int j, int k)
{
    double const x = mid(X[0], ng[0], i), y = mid(X[1], ng[1], j);
    double const xl = X[0][static_cast<std::size_t>(i + ng[0])], yl = X[1][static_cast<std::size_t>(j + ng[1])], zl = X[2][static_cast<std::size_t>(k + ng[2])];
    vphys::Gas const gas {q.gamma, q.mu, radgas()};
    Expect e;
    e.rho = q.ini("rho0"), e.P = q.ini("P0");
    for (int d = 0; d < nd; ++d) {
        e.u[d] = q.ini("u0");
    }
    auto two = [&](double pos, double at, bool tie_low, Expect const& lo, Expect const& hi) -> std::vector<Expect> {
        double const tol = 1e-13 * (std::fabs(pos) + std::fabs(at));
        if (std::fabs(pos - at) <= tol && pos != at) {
            return {lo, hi};
        }
        return pos < at || (pos == at && tie_low) ? std::vector<Expect> {lo} : std::vector<Expect> {hi};
    };
    double const pi = static_cast<double>(vphys::pi);
    if (setup_name == "advection_gap") {
        Expect in = e;
        in.rho = q.ini("rho1");
        if (x < 0.5) {
            return two(x, 0.3, true, e, in);
        }
        return two(x, 0.7, false, in, e);
    }
    if (setup_name == "advection_sinus") {
        e.rho = 1 + 0.1 * std::sin(2 * pi * x);
        e.amp = 1 + std::fabs(x);
        return {e};
    }
    if (setup_name == "eq_hydro_sphe") {
        double const a = q.mu * double(vphys::mp) * double(vphys::G) * q.val("Gravity", "M", 1) / (double(vphys::kb) * q.ini("T0", 100)) / x;
        e.rho *= std::exp(a);
        e.P = double(gas.P_T(e.rho, q.ini("T0", 100)));
        e.amp = 1 + std::fabs(a);
        return {e};
    }
    if (setup_name == "stratified_atm") {
        double const a = -x * q.mu * double(vphys::mp) * std::fabs(q.val("Gravity", "gx0", 0)) / (double(vphys::kb) * q.ini("T0"));
        e.rho *= std::exp(a);
        e.P = double(gas.P_T(e.rho, q.ini("T0")));
        e.amp = 1 + std::fabs(a);
        return {e};
    }
    if (setup_name == "gresho_vortex") {
        double const r = std::hypot(x, y), ma = q.ini("Ma"), P0 = 1 / (q.gamma * ma * ma);
        double const s = r > 0 ? y / r : 0, c = r > 0 ? x / r : 1;
        if (r >= 0.4) {
            e.P = P0 - 2 + 4 * std::log(2.);
            if (r > 0.4 * (1 + 1e-13)) {
                return {e};
            }
        }
        Expect v = e;
        double const ut = r < 0.2 ? 5 * r : 2 - 5 * r;
        v.u[0] = -ut * s, v.u[1] = ut * c;
        v.P = r < 0.2 ? P0 + 12.5 * r * r : P0 + 12.5 * r * r + 4 - 20 * r + 4 * std::log(5 * r);
        v.amp = 10;
        if (r > 0.4 * (1 - 1e-13)) {
            e.P = P0 - 2 + 4 * std::log(2.);
            return {v, e};
        }
        return {v};
    }
    if (setup_name == "heat_nickel") {
        e.P = double(gas.P_T(e.rho, q.ini("T0")));
        e.fx = {q.ini("fx0")};
        return {e};
    }
    if (setup_name == "implosion_test") {
        Expect in = e;
        in.rho = q.ini("rho1"), in.P = q.ini("P1");
        return two(x + y, 0.15, true, in, e);
    }
    if (setup_name == "kelvin_helmholtz") {
        double const s = std::tanh((y - 0.5) / 0.05) - std::tanh((y - 1.5) / 0.05);
        e.rho = 1 + s;
        e.u[0] = s;
        e.u[1] = 0.01 * std::sin(pi * x) * (std::exp(-(y - 0.5) * (y - 0.5) / 0.04) + std::exp(-(y - 1.5) * (y - 1.5) / 0.04));
        e.amp = 10 * (1 + std::fabs(x));
        return {e};
    }
    if (setup_name == "rayleigh_taylor") {
        double const w = (1 + std::tanh((y - 0.01 * std::cos(4 * pi * x)) / 0.005)) / 2;
        e.rho = q.ini("rho1") + (q.ini("rho0") - q.ini("rho1")) * w;
        e.fx = {q.ini("fx1") + (q.ini("fx0") - q.ini("fx1")) * w};
        e.u[0] = e.u[1] = q.ini("u");
        e.P = 10. / 7 + 1. / 4 - q.ini("rho0") * std::fabs(q.val("Gravity", "gx1", 0)) * y;
        e.amp = 1000;
        return {e};
    }
    if (setup_name == "rayleigh_taylor3d") {
        double const L = 10, g = 5. / 3, gz = std::fabs(q.val("Gravity", "gx2", 0));
        double const P0 = 2 * pi * (q.ini("rho0") + q.ini("rho1")) * gz * L;
        std::vector<Expect> r;
        for (int up = 0; up < 2; ++up) {
            Expect s = e;
            double const r0 = q.ini(up ? "rho0" : "rho1");
            s.rho = r0 * std::pow(1 - (g - 1) / g * r0 * gz * zl / P0, 1 / (g - 1));
            s.P = P0 * std::pow(s.rho / r0, g);
            s.fx = {double(up)};
            s.amp = 10;
            r.push_back(s);
        }
        return r;
    }
    double const dv = cell_volume(X[0].data() + ng[0], X[1].data() + ng[1], X[2].data() + ng[2], i, j, k);
    if (setup_name == "sedov1d") {
        double const dv0 = cell_volume(X[0].data() + ng[0], X[1].data() + ng[1], X[2].data() + ng[2], 0, 0, 0);
        double const en = i == 0 ? (spherical() ? 1 : 0.5) * q.ini("E1") : q.ini("E0");
        e.P = double(gas.P_e(e.rho, en / dv0));
        e.amp = 1 + std::fabs(X[0][static_cast<std::size_t>(ng[0] + 1)]) / std::max(1e-300, X[0][static_cast<std::size_t>(ng[0] + 1)] - X[0][static_cast<std::size_t>(ng[0])]);
        return {e};
    }
    if (setup_name == "sedov2d") {
        Expect in = e;
        in.P = double(gas.P_e(e.rho, q.ini("E1") / dv));
        e.P = double(gas.P_e(e.rho, q.ini("E0") / dv));
        e.amp = in.amp = 1000;
        double const r = std::hypot(xl, yl);
        if (std::fabs(r - 0.025) <= 1e-12) {
            return {in, e};
        }
        return {r < 0.025 ? in : e};
    }
    if (setup_name == "sedov3d") {
        for (int d = 0; d < nd; ++d) {
            e.u[d] = 0;
        }
        Expect in = e;
        in.P = double(gas.P_e(e.rho, q.ini("E1") / dv));
        in.amp = 1000;
        if (j == q.b.n[1] / 2 && k == q.b.n[2] / 2 && std::fabs(xl - 1) < 1e-9) {
            return xl == 1 ? std::vector<Expect> {in} : std::vector<Expect> {in, e};
        }
        return {e};
    }
    if (setup_name == "shock_tube") {
        Expect r = e;
        r.rho = q.ini("rho1"), r.P = q.ini("P1");
        for (int d = 0; d < nd; ++d) {
            r.u[d] = q.ini("u1");
        }
        return two(x, q.ini("inter"), true, e, r);
    }
    if (setup_name == "shock_wall") {
        return {e};
    }
    if (setup_name == "v1d") {
        auto const s = static_cast<std::size_t>(i);
        e.rho = q.rho1[s], e.P = q.P1[s], e.u[0] = q.u1[s];
        for (int d = 1; d < nd; ++d) {
            e.u[d] = 0;
        }
        for (auto const& f : q.fx1) {
            e.fx.push_back(f[s]);
        }
        return {e};
    }
    return {};
}

bool matches(Case const& q, Expect const& e, H5 const& h, std::size_t c, std::string& why)
{
    double const rel = 2e-15 * e.amp + 4e-15;
    auto cmp = [&](std::string const& n, double got, double want, double tol) {
        if (std::fabs(got - want) <= tol) {
            return true;
        }
        why += vck::fmt(" %s=%.17g (profile %.17g)", n.c_str(), got, want);
        return false;
    };
    double ek = 0;
    bool ok = cmp("rho", h.f("rho")[c], e.rho, rel * std::fabs(e.rho) + (setup_name == "kelvin_helmholtz" ? 2e-14 : 0));
    double us = 0;
    for (int d = 0; d < nd; ++d) {
        us += std::fabs(e.u[d]);
        ek += e.rho * e.u[d] * e.u[d] / 2;
    }
    for (int d = 0; d < nd; ++d) {
        ok = cmp(vel_name[d], h.f(vel_name[d])[c], e.u[d], rel * us + (setup_name == "kelvin_helmholtz" || setup_name == "gresho_vortex" ? 2e-14 : 0)) && ok;
    }
    double const scale = std::fabs(e.P) + ek * (q.gamma - 1) + (setup_name == "rayleigh_taylor" ? 2 : 0);
    ok = cmp("P", h.f("P")[c], e.P, (radgas() ? 1e-9 : rel + 1e-14) * scale) && ok;
    for (std::size_t f = 0; f < e.fx.size(); ++f) {
        ok = cmp(vck::fmt("fx%zu", f), h.f(vck::fmt("fx%zu", f))[c], e.fx[f], rel * std::fabs(e.fx[f]) + (setup_name == "rayleigh_taylor" ? 1e-12 : 0)) && ok;
    }
    return ok;
}

// the interface of the 3D Rayleigh-Taylor setup is a sum of four patterns: some amplitudes must reproduce the two gases
void rt3d_interface(Case const& q, H5 const& h, std::vector<double> const (&X)[3], int const (&ng)[3], std::string const& what)
{
    double w[4] = {0, 0, 0, 0};
    struct Row
    {
        double p[4], z;
        bool up;
    };
    std::vector<Row> rows;
    for (int k = 0; k < q.b.n[2]; ++k) {
        for (int j = 0; j < q.b.n[1]; ++j) {
            for (int i = 0; i < q.b.n[0]; ++i) {
                double const a = 2 * M_PI * X[0][static_cast<std::size_t>(i + ng[0])] / 10, b = 2 * M_PI * X[1][static_cast<std::size_t>(j + ng[1])] / 10;
                Row r {{0, 0, 0, 0}, X[2][static_cast<std::size_t>(k + ng[2])], h.f("fx0")[static_cast<std::size_t>(q.b.at(i, j, k))] > 0.5};
                for (int kx = 0; kx < 5; ++kx) {
                    for (int ky = 0; ky < 5; ++ky) {
                        if (kx * kx + ky * ky >= 8 && kx * kx + ky * ky <= 16) {
                            r.p[0] += std::cos(kx * a) * std::cos(ky * b), r.p[1] += std::cos(kx * a) * std::sin(ky * b);
                            r.p[2] += std::sin(kx * a) * std::cos(ky * b), r.p[3] += std::sin(kx * a) * std::sin(ky * b);
                        }
                    }
                }
                rows.push_back(r);
            }
        }
    }
    int bad = 0;
    for (int it = 0; it < 20000; ++it) {
        bad = 0;
        for (auto const& r : rows) {
            double const hh = w[0] * r.p[0] + w[1] * r.p[1] + w[2] * r.p[2] + w[3] * r.p[3];
            double const n2 = r.p[0] * r.p[0] + r.p[1] * r.p[1] + r.p[2] * r.p[2] + r.p[3] * r.p[3];
            bool const up = r.z >= hh;
            if (up != r.up) {
                if (std::fabs(r.z - hh) < 1e-9) {
                    continue;
                }
                ++bad;
                if (n2 > 0) {
                    double const step = (r.z - hh) / n2 * 1.0000001;
                    for (int c = 0; c < 4; ++c) {
                        w[c] += step * r.p[c];
                    }
                }
            }
        }
        if (bad == 0) {
            break;
        }
    }
    if (bad) {
        vck::fail("setup.interface", what + vck::fmt(": no amplitudes of the four patterns separate the two gases as in the output (%d cells)", bad));
    }
    for (double const v : w) {
        vck::stat_max("largest_amplitude", std::fabs(v));
    }
}

// every cell of the initial output
void check_output(Case const& q, Run const& r, std::string const& what)
{
    H5 const h = r.load(0);
    auto const n = static_cast<std::size_t>(q.b.cells());
    std::vector<double> X[3];
    int ng[3];
    for (int d = 0; d < 3; ++d) {
        X[d] = h.f(vck::fmt("x%d", d));
        ng[d] = (static_cast<int>(X[d].size()) - q.b.n[d] - 1) / 2;
        if (X[d].empty() || static_cast<int>(X[d].size()) != q.b.n[d] + 1 + 2 * ng[d]) {
            vck::fail("setup.mesh", what + ": unexpected mesh in the initial output");
            return;
        }
    }
    for (auto const& name : {"rho", "P", "E", "T"}) {
        if (h.f(name).size() != n) {
            vck::fail("setup.missing", what + ": no " + name + " in the initial output");
            return;
        }
    }
    if (setup_name == "v1d" && !q.x0.empty()) {
        for (std::size_t c = 0; c < X[0].size(); ++c) {
            if (X[0][c] != q.x0[c]) {
                vck::fail("setup.mesh", what + vck::fmt(": node %zu at %.17g, the file says %.17g", c, X[0][c], q.x0[c]));
                return;
            }
        }
    }
    int bad = 0;
    for (int k = 0; k < q.b.n[2] && bad < 3; ++k) {
        for (int j = 0; j < q.b.n[1] && bad < 3; ++j) {
            for (int i = 0; i < q.b.n[0] && bad < 3; ++i) {
                auto const c = static_cast<std::size_t>(q.b.at(i, j, k));
                bool fin = h.f("rho")[c] > 0 && h.f("P")[c] > 0 && std::isfinite(h.f("rho")[c]) && std::isfinite(h.f("P")[c]) && h.f("T")[c] > 0;
                for (int d = 0; d < nd; ++d) {
                    fin = fin && std::isfinite(h.f(vel_name[d])[c]);
                }
                for (int f = 0; f < q.nfx; ++f) {
                    fin = fin && std::isfinite(h.f(vck::fmt("fx%d", f))[c]);
                }
                if (!fin) {
                    ++bad;
                    vck::fail("setup.unphysical", what + vck::fmt(": cell (%d,%d,%d) rho %g P %g", i, j, k, h.f("rho")[c], h.f("P")[c]));
                    continue;
                }
                auto const alts = expect(q, X, ng, i, j, k);
                std::string why;
                bool ok = false;
                for (auto const& e : alts) {
                    ok = ok || matches(q, e, h, c, why);
                }
                if (!ok) {
                    ++bad;
                    vck::fail("setup.profile", what + vck::fmt(": cell (%d,%d,%d):", i, j, k) + why);
                }
            }
        }
    }
    vck::stat("cells_checked", static_cast<double>(n));
    if (setup_name == "rayleigh_taylor3d") {
        rt3d_interface(q, h, X, ng, what);
    }
    // total energy of the blasts above the background
    if (setup_name == "sedov3d" && !radgas()) {
        double tot = 0, in = 0;
        int cells = 0;
        for (int k = 0; k < q.b.n[2]; ++k) {
            for (int j = 0; j < q.b.n[1]; ++j) {
                for (int i = 0; i < q.b.n[0]; ++i) {
                    auto const c = static_cast<std::size_t>(q.b.at(i, j, k));
                    double const dv = cell_volume(X[0].data() + ng[0], X[1].data() + ng[1], X[2].data() + ng[2], i, j, k);
                    tot += h.f("E")[c] * dv;
                    if (h.f("P")[c] != h.f("P")[0] || h.f("E")[c] * dv > 0.9 * q.ini("E1")) {
                        in += h.f("E")[c] * dv;
                        ++cells;
                    }
                }
            }
        }
        if (cells != 1 || std::fabs(in - q.ini("E1")) > 1e-11 * q.ini("E1")) {
            vck::fail("setup.blast", what + vck::fmt(": %d blast cells hold %.15g, requested %.15g", cells, in, q.ini("E1")));
        }
        vck::stat_max("total_energy", tot);
    }
}

void compare(Run const& a, Run const& b, std::string const& what)
{
    H5 const x = a.load(0), y = b.load(0);
    for (auto const& [n, v] : x.d) {
        if (n == "x0" || n == "x1" || n == "x2" || n == "rho" || n == "P" || n == "E" || n == "T" || n.rfind("ux", 0) == 0 || n.rfind("fx", 0) == 0) {
            auto const& w = y.f(n);
            for (std::size_t c = 0; c < v.size(); ++c) {
                if (w.size() != v.size() || !(w[c] == v[c])) {
                    vck::fail("setup.layout", what + vck::fmt(": %s of cell %zu differs between rank layouts: %.17g and %.17g", n.c_str(), c, v[c], w.size() == v.size() ? w[c] : NAN));
                    break;
                }
            }
        }
    }
}

// a layout of several ranks; the mass inside a radius needs whole columns along the first direction
std::array<int, 3> pick_setup_layout(vck::Rng& R, Box const& b, int maxp, int mincells)
{
    for (int t = 0; t < 200; ++t) {
        auto const d = pick_layout(R, b, maxp, mincells, 2);
        if (!internal_mass || d[0] == 1) {
            return d;
        }
    }
    return {1, 1, 1};
}

void set_box(Case& q)
{
    for (int d = 0; d < 3; ++d) {
        q.c.set("Grid", vck::fmt("Nx%d_glob", d), q.b.n[d]);
        q.c.set("Grid", vck::fmt("x%dmin", d), q.b.lo[d]);
        q.c.set("Grid", vck::fmt("x%dmax", d), q.b.hi[d]);
    }
}

void write_1d(std::string const& path, Case const& q, int extra)
{
    hid_t const f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    auto put = [&](char const* n, std::vector<double> const& v, std::vector<hsize_t> const& dim) {
        hid_t const s = H5Screate_simple(static_cast<int>(dim.size()), dim.data(), nullptr);
        hid_t const d = H5Dcreate2(f, n, H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if (!v.empty()) {
            H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        }
        H5Dclose(d);
        H5Sclose(s);
    };
    auto padded = [&](std::vector<double> v) {
        v.resize(v.size() + static_cast<std::size_t>(extra), v.back());
        return v;
    };
    put("x0", q.x0, {q.x0.size()});
    auto const r = padded(q.rho1), u = padded(q.u1), p = padded(q.P1);
    put("rho_1d", r, {r.size()});
    put("u_1d", u, {u.size()});
    put("P_1d", p, {p.size()});
    std::vector<double> a;
    for (auto const& v : q.fx1) {
        auto const w = padded(v);
        a.insert(a.end(), w.begin(), w.end());
    }
    put("fx_1d", a, {q.fx1.size(), r.size()});
    H5Fclose(f);
}

void read_1d(std::string const& path, Case& q)
{
    H5 const h = load_h5(path);
    q.x0 = h.f("x0"), q.rho1 = h.f("rho_1d"), q.u1 = h.f("u_1d"), q.P1 = h.f("P_1d");
    auto const& v = h.f("fx_1d");
    std::size_t const n = q.rho1.size();
    q.fx1.clear();
    for (std::size_t f = 0; n && f < v.size() / n; ++f) {
        q.fx1.emplace_back(v.begin() + static_cast<long>(f * n), v.begin() + static_cast<long>((f + 1) * n));
    }
}

Case random_case(vck::Rng& R)
{
    Case q;
    q.gamma = R.pick(std::vector<double> {1.4, 5. / 3, R.uni(1.1, 2.5)});
    q.mu = R.pick(std::vector<double> {1., 0.62, R.uni(0.5, 60)});
    q.c.set("Perfect Gas", "gamma", q.gamma).set("Perfect Gas", "mu", q.mu);
    int const maxn[4] = {0, 60, 24, 10};
    for (int d = 0; d < nd; ++d) {
        q.b.n[d] = R.range(4, maxn[nd]);
        q.b.lo[d] = R.uni(-2, 1), q.b.hi[d] = q.b.lo[d] + R.loguni(0.1, 5);
    }
    if (spherical()) {
        q.b.lo[0] = R.coin(0.2) && nd == 1 ? 0 : R.loguni(0.1, 3), q.b.hi[0] = q.b.lo[0] + R.loguni(0.1, 5);
        q.b.lo[1] = R.uni(0.3, 1.2), q.b.hi[1] = q.b.lo[1] + R.uni(0.3, 1.6);
        q.b.lo[2] = R.uni(0, 3), q.b.hi[2] = q.b.lo[2] + R.uni(0.3, 3);
    }
    q.c.set("Boundary Condition", "BC", "NullGradient").set("Run", "t_end", 1e300).set("Run", "cfl", 1e-3).set("Output", "max_iter", 1).set("Output", "iter_frequency", 1);
    q.c.set("Grid", "Nghost", R.pick(std::vector<int> {2, 2, 3}));
    auto I = [&](char const* k, double v) { q.c.set("Initialisation", k, v); };
    double const cs = R.loguni(0.01, 10);
    I("rho0", R.loguni(1e-3, 1e3)), I("rho1", R.loguni(1e-3, 1e3));
    I("P0", R.loguni(1e-3, 1e3)), I("P1", R.loguni(1e-3, 1e3));
    I("u0", R.coin(0.3) ? 0 : R.uni(-2, 2) * cs), I("u1", R.uni(-2, 2) * cs);
    std::string const& s = setup_name;
    if (s == "advection_gap") {
        q.b.lo[0] = 0, q.b.hi[0] = 1;
        if (R.coin(0.3)) {
            q.b.lo[0] = R.uni(-1, 0.2), q.b.hi[0] = R.uni(0.8, 2);
        } else if (R.coin()) {
            q.b.n[0] = R.range(2, 6) * 5 * (nd == 3 ? 1 : 2); // interfaces that fall on or near cell centres
        }
    } else if (s == "eq_hydro_sphe" || s == "stratified_atm") {
        double const T = R.loguni(10, 1e5), a = R.uni(0.1, 4);
        I("T0", T);
        I("u0", R.coin() ? 0 : R.uni(-1, 1));
        if (s == "eq_hydro_sphe") {
            q.b.lo[0] = R.loguni(1, 1e6), q.b.hi[0] = q.b.lo[0] * R.uni(1.5, 50);
            q.c.set("Gravity", "M", a * q.b.lo[0] * double(vphys::kb) * T / (q.mu * double(vphys::mp) * double(vphys::G)));
        } else {
            q.b.lo[0] = R.coin() ? 0 : R.uni(-1e5, 1e5), q.b.hi[0] = q.b.lo[0] + R.loguni(1e3, 1e6);
            q.c.set("Gravity", "gx0", -a * double(vphys::kb) * T / (q.mu * double(vphys::mp) * std::max(std::fabs(q.b.lo[0]), std::fabs(q.b.hi[0]))));
        }
        if (R.coin()) {
            q.c.set("Boundary Condition", "BC_X0", "UserDefined");
        }
    } else if (s == "gresho_vortex") {
        for (int d = 0; d < 2; ++d) {
            q.b.lo[d] = -R.uni(0.3, 1), q.b.hi[d] = R.coin() ? -q.b.lo[d] : R.uni(0.3, 1);
            q.b.n[d] = R.range(6, 40);
        }
        I("rho0", 1), I("Ma", R.pick(std::vector<double> {1e-5, 0.1, 0.5, 0.9})), I("u0", R.coin() ? 0 : R.uni(-1, 1));
    } else if (s == "heat_nickel") {
        I("T0", R.loguni(10, 1e7)), I("fx0", R.u01());
        q.nfx = 1;
        q.b.hi[0] = q.b.lo[0] + R.loguni(1, 1e9);
        I("rho0", R.loguni(1e-9, 1));
    } else if (s == "implosion_test") {
        q.b.lo[0] = q.b.lo[1] = 0, q.b.hi[0] = R.uni(0.1, 0.5), q.b.hi[1] = R.coin() ? q.b.hi[0] : R.uni(0.1, 0.5);
        if (R.coin(0.4)) {
            q.b.hi[0] = q.b.hi[1] = 0.3, q.b.n[0] = q.b.n[1] = R.range(4, 30);
        }
    } else if (s == "kelvin_helmholtz") {
        q.b.lo[0] = R.coin() ? 0 : R.uni(-2, 2), q.b.hi[0] = q.b.lo[0] + R.uni(0.5, 4);
        q.b.lo[1] = 0, q.b.hi[1] = R.coin() ? 2 : R.uni(0.8, 2.5);
        q.b.n[1] = R.range(8, 60);
        I("P0", R.loguni(1, 100));
    } else if (s == "rayleigh_taylor") {
        q.b.lo[0] = R.uni(-1, 0), q.b.hi[0] = q.b.lo[0] + R.uni(0.2, 1), q.b.lo[1] = -R.uni(0.01, 1), q.b.hi[1] = R.uni(0.01, 1);
        q.b.n[1] = R.range(8, 60);
        double const r0 = R.uni(0.5, 3);
        I("rho0", r0), I("rho1", R.uni(0.2, 2)), I("u", R.coin() ? 0 : R.uni(-1, 1)), I("fx0", R.u01()), I("fx1", R.u01());
        q.c.set("Gravity", "gx1", -R.uni(0.1, 0.9) * 1.6 / r0);
        q.nfx = 1;
    } else if (s == "rayleigh_taylor3d") {
        q.b.lo[0] = q.b.lo[1] = -5, q.b.hi[0] = q.b.hi[1] = 5, q.b.lo[2] = -10, q.b.hi[2] = 10;
        for (int d = 0; d < 3; ++d) {
            q.b.n[d] = R.range(5, 14);
        }
        I("rho0", R.uni(1, 4)), I("rho1", R.uni(0.5, 1)), I("u0", R.coin() ? 0 : R.uni(-1, 1));
        q.c.set("Gravity", "gx2", -R.uni(0.5, 4));
        q.nfx = 1;
    } else if (s == "sedov1d" || s == "sedov2d" || s == "sedov3d") {
        I("E0", R.loguni(1e-6, 1e-2)), I("E1", R.loguni(1, 1e5)), I("u0", R.coin() ? 0 : R.uni(-1e-2, 1e-2)), I("rho0", R.loguni(0.1, 10));
        if (s == "sedov1d" && !spherical()) {
            if (R.coin()) {
                q.b.hi[0] -= q.b.lo[0], q.b.lo[0] = 0;
            }
        }
        if (s == "sedov2d") {
            for (int d = 0; d < 2; ++d) {
                q.b.n[d] = 2 * R.range(2, 15);
                q.b.hi[d] = R.pick(std::vector<double> {0.0125 * q.b.n[d], 0.004 * q.b.n[d], R.uni(0.02, 1)}), q.b.lo[d] = -q.b.hi[d];
            }
        }
        if (s == "sedov3d") {
            int const half = R.range(2, 5);
            q.b.n[0] = 2 * half;
            double const h = 1. / R.pick(std::vector<int> {16, 32, 64});
            q.b.lo[0] = 1 - half * h, q.b.hi[0] = 1 + half * h;
            I("P0", R.loguni(1e-4, 1e-2));
        }
    } else if (s == "shock_tube") {
        I("inter", R.coin(0.3) ? (q.b.lo[0] + q.b.hi[0]) / 2 : R.uni(q.b.lo[0] - 0.1, q.b.hi[0] + 0.1));
    } else if (s == "v1d") {
        int const ng = std::atoi(q.c.get("Grid", "Nghost").c_str());
        q.nfx = R.range(1, 5);
        q.b.n[0] = R.range(6, nd == 1 ? 60 : 16);
        double x = R.loguni(0.1, 1e6);
        double const h = x / (ng + R.uni(1, 5)) / 3;
        for (int i = 0; i < q.b.n[0] + 2 * ng + 1; ++i) {
            q.x0.push_back(x);
            x += h * R.uni(0.9, 1.1);
        }
        for (int i = 0; i < q.b.n[0]; ++i) {
            q.rho1.push_back(R.loguni(0.5, 2)), q.P1.push_back(R.loguni(0.5, 2)), q.u1.push_back(R.uni(-0.1, 0.1));
        }
        for (int f = 0; f < q.nfx; ++f) {
            q.fx1.emplace_back();
            for (int i = 0; i < q.b.n[0]; ++i) {
                q.fx1.back().push_back(R.u01());
            }
        }
        q.c.set("Grid", "type", "UserDefined");
        q.c.set("Gravity", "M", 1.);
    }
    if (q.nfx) {
        q.c.set("Passive Scalar", "nfx", q.nfx);
    }
    set_box(q);
    return q;
}

Ini parse_ini(std::string const& path)
{
    Ini c;
    std::ifstream f(path);
    std::string l, sec;
    auto trim = [](std::string s) {
        auto const a = s.find_first_not_of(" \t\r");
        auto const b = s.find_last_not_of(" \t\r");
        return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
    };
    while (std::getline(f, l)) {
        l = trim(l);
        if (l.empty() || l[0] == ';' || l[0] == '#') {
            continue;
        }
        if (l[0] == '[') {
            sec = l.substr(1, l.find(']') - 1);
            continue;
        }
        auto const eq = l.find('=');
        std::string v = l.substr(eq + 1);
        for (std::size_t i = 0; i + 1 < v.size(); ++i) {
            if ((v[i] == ' ' || v[i] == '\t') && v[i + 1] == ';') {
                v.resize(i);
            }
        }
        c.set(sec, trim(l.substr(0, eq)), trim(v));
    }
    return c;
}

struct Shipped
{
    char const* file;
    char const* setup;
    int dim;
    bool sph, rad;
};
Shipped const shipped[] = {
        {"advection_gap", "advection_gap", 1, false, false},
        {"advection_sinus", "advection_sinus", 1, false, false},
        {"eq_hydro_sphe", "eq_hydro_sphe", 1, true, false},
        {"gresho_vortex", "gresho_vortex", 2, false, false},
        {"heat_nickel", "heat_nickel", 1, false, false},
        {"implosion_test", "implosion_test", 2, false, false},
        {"kelvin_helmholtz", "kelvin_helmholtz", 2, false, false},
        {"rayleigh_taylor", "rayleigh_taylor", 2, false, false},
        {"rayleigh_taylor3d", "rayleigh_taylor3d", 3, false, false},
        {"sedov1d", "sedov1d", 1, false, false},
        {"sedov1d", "sedov1d", 1, true, false},
        {"sedov2d", "sedov2d", 2, false, false},
        {"sedov3d_sph", "sedov3d", 3, true, false},
        {"shock_tube", "shock_tube", 1, false, false},
        {"shock_tube1d_sph", "shock_tube", 1, true, false},
        {"shock_tube3d_sph", "shock_tube", 3, true, false},
        {"shock_wall_pg", "shock_wall", 1, false, false},
        {"shock_wall_rad", "shock_wall", 1, false, true},
        {"stratified_atm", "stratified_atm", 1, false, false},
        {"v1d_1d", "v1d", 1, true, false},
        {"v1d_3d", "v1d", 3, true, false},
};

} // namespace

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const repo = vck::st().opt["repo"];
    long const n = vck::st().thorough ? 300 : 24;

    bool const only_criterion = vck::st().opt["what"] == "criterion";
    vck::cases("random", only_criterion ? 0 : n, [&](long, vck::Rng& R) {
        Case q = random_case(R);
        std::string file;
        if (setup_name == "v1d") {
            file = vck::st().dir + "/profile.h5";
            write_1d(file, q, 0);
            q.c.set("Problem", "init_file", file);
        }
        std::vector<Run> runs;
        std::string what;
        for (int l = 0; l < 2; ++l) {
            auto const dims = l == 0 ? std::array<int, 3> {1, 1, 1} : pick_setup_layout(R, q.b, 8, 3);
            Ini c = q.c;
            set_dims(c, dims);
            what = vck::fmt("%s %dx%dx%d cells, layout %dx%dx%d", setup_name.c_str(), q.b.n[0], q.b.n[1], q.b.n[2], dims[0], dims[1], dims[2]);
            g_draws = 0, g_draw_seed = R.s, g_drawers.clear();
            RunOpt o;
            o.ranks = prod(dims), o.seed = R.s & 0xffff;
            g_draw_seed = 12345;
            Run const r = run(c, o);
            if (r.files.empty() || !r.ok()) {
                vck::fail("setup.run", what + ": " + (r.files.empty() ? "no initial output: " : "") + r.why() + " with " + c.text());
                drop(r);
                break;
            }
            check_output(q, r, what);
            runs.push_back(r);
            vck::eval(vck::hash_str(c.text()), prod(dims) > 1 || l == 0);
        }
        if (runs.size() == 2) {
            compare(runs[0], runs[1], what);
            vck::stat("layout_pairs");
        }
        vck::sample(what);
        for (auto const& r : runs) {
            drop(r);
        }
        if (!file.empty()) {
            std::filesystem::remove(file);
        }
    });

    if (setup_name == "v1d" && !only_criterion) {
        vck::cases("wrong_profile", vck::st().thorough ? 20 : 4, [&](long, vck::Rng& R) {
            Case q = random_case(R);
            std::string const file = vck::st().dir + "/profile.h5";
            bool const cells = R.coin();
            int const extra = cells ? R.range(1, 3) : 0;
            if (!cells) {
                q.x0.push_back(q.x0.back() * 1.1);
            }
            write_1d(file, q, extra);
            q.c.set("Problem", "init_file", file);
            Run const r = run(q.c, {});
            vck::eval(vck::hash_str(q.c.text()));
            if (r.ok()) {
                vck::fail("setup.profile_size", vck::fmt("a profile with %d %s too many was accepted", cells ? extra : 1, cells ? "cells" : "nodes"));
            }
            vck::stat("refused_profiles");
            drop(r);
            std::filesystem::remove(file);
        });
    }

    if (only_criterion) {
        vck::cases("criterion", vck::st().thorough ? 300 : 40, [&](long, vck::Rng& R) {
            Case q = random_case(R);
            int const ng = std::atoi(q.c.get("Grid", "Nghost").c_str()), n0 = q.b.n[0];
            for (int i = 0; i < n0; ++i) {
                auto const s = static_cast<std::size_t>(i);
                q.rho1[s] = 1, q.P1[s] = 1, q.u1[s] = 0;
            }
            auto const dims = pick_setup_layout(R, q.b, 6, 3);
            int const last = n0 / dims[0] + (dims[0] - 1 < n0 % dims[0] ? 1 : 0);
            int const cells = R.range(1, std::min(last + 2, n0 - ng - 3));
            bool const in = R.coin();
            int const at = in ? R.range(n0 - cells, n0 - 1) : R.range(0, n0 - cells - ng - 2);
            double const v = R.uni(0.2, 2);
            bool const back = in && R.coin(0.2);
            q.u1[static_cast<std::size_t>(at)] = back ? -v : v;
            std::string const file = vck::st().dir + "/profile.h5";
            write_1d(file, q, 0);
            double const limit = v * R.uni(0.3, 0.9);
            q.c.set("Problem", "init_file", file).set("Problem", "vmax_shift", limit).set("Problem", "cell_shift", cells).set("Grid", "shift_grid", "UserDefined").set("Gravity", "M", 0.);
            set_dims(q.c, dims);
            RunOpt o;
            o.ranks = prod(dims), o.seed = R.s & 0xffff;
            Run const r = run(q.c, o);
            std::string const what = vck::fmt("%d cells, layout %dx%dx%d, velocity %g in cell %d, criterion %g in the last %d", n0, dims[0], dims[1], dims[2], back ? -v : v, at, limit, cells);
            vck::eval(vck::hash_str(q.c.text()));
            vck::sample(what);
            if (cells > last) {
                if (r.ok()) {
                    vck::fail("setup.criterion_size", what + ": accepted although the last rank holds fewer cells");
                }
                for (auto const rc : r.w.rc) {
                    if (!r.ok() && rc == 0) {
                        vck::fail("setup.criterion_size", what + ": a rank ended without an error");
                    }
                }
                vck::stat("criterion_refused");
            } else if (!r.ok()) {
                vck::fail("setup.criterion_run", what + ": " + r.why());
            } else {
                bool const want = in && !back;
                auto const x = r.last().f("x0");
                bool same = true, moved = true;
                for (std::size_t c = 0; c < x.size() && c < q.x0.size(); ++c) {
                    same = same && x[c] == q.x0[c];
                    moved = moved && (c + 1 >= q.x0.size() || x[c] == q.x0[c + 1]);
                }
                if (want ? !moved : !same) {
                    vck::fail("setup.criterion", what + vck::fmt(": the mesh %s", same ? "stayed" : moved ? "moved by one cell" : "changed"));
                }
                vck::stat(want ? "criterion_true" : "criterion_false");
            }
            drop(r);
            std::filesystem::remove(file);
        });
    }

    // the two atmospheres with their own boundary conditions are at rest up to the truncation error, next to the boundaries as well
    if ((setup_name == "eq_hydro_sphe" || setup_name == "stratified_atm") && !only_criterion) {
        vck::cases("equilibrium", vck::st().thorough ? 200 : 30, [&](long, vck::Rng& R) {
            Case q = random_case(R);
            double const T = R.loguni(10, 1e5), a = R.uni(0.3, 2);
            double const kTm = double(vphys::kb) * T / (q.mu * double(vphys::mp));
            q.b.n[0] = nd == 1 ? R.range(40, 120) : R.range(16, 30);
            double const L = R.loguni(1, 1e6);
            bool const strat = setup_name == "stratified_atm";
            if (strat) {
                q.b.lo[0] = R.uni(-1, 1) * L, q.b.hi[0] = q.b.lo[0] + L;
                q.c.set("Gravity", "gx0", -a * kTm / L);
            } else {
                q.b.lo[0] = L, q.b.hi[0] = L * R.uni(1.5, 3);
                q.c.set("Gravity", "M", a * L * kTm / double(vphys::G));
            }
            q.c.set("Initialisation", "T0", T).set("Initialisation", "u0", 0.);
            q.c.set("Boundary Condition", "BC_X0", "UserDefined").set("Boundary Condition", "BC", "NullGradient");
            q.c.set("Run", "cfl", 0.01).set("Hydro", "reconstruction", R.pick(std::vector<std::string> {"VanLeer", "Minmod", "VanAlbada"}));
            q.c.set("Hydro", "riemann_solver", "HLLC");
            set_box(q);
            auto const dims = pick_setup_layout(R, q.b, 4, 3);
            set_dims(q.c, dims);
            RunOpt o;
            o.ranks = prod(dims), o.seed = R.s & 0xffff;
            Run const r = run(q.c, o);
            std::string const what = vck::fmt("%s %dx%dx%d cells, layout %dx%dx%d, scale height %g of %g", setup_name.c_str(), q.b.n[0], q.b.n[1], q.b.n[2], dims[0], dims[1], dims[2], L / a, q.b.hi[0] - q.b.lo[0]);
            vck::eval(vck::hash_str(q.c.text()));
            vck::sample(what);
            if (!r.ok()) {
                vck::fail("setup.run", what + ": " + r.why());
                drop(r);
                return;
            }
            H5 const h = r.last();
            double const dt = h.scalar("current_time"), dx = (q.b.hi[0] - q.b.lo[0]) / q.b.n[0];
            for (int i = 0; i < q.b.n[0]; ++i) {
                double const x = q.b.lo[0] + (i + 0.5) * dx;
                double const g = strat ? a * kTm / L : a * L * kTm / x / x;
                double const eps = std::fabs(h.f("ux0")[static_cast<std::size_t>(q.b.at(i, q.b.n[1] / 2, q.b.n[2] / 2))]) / dt / g;
                double const order = dx * g / kTm + (strat ? 0 : 2 * dx / x);
                bool const edge = i < 2 || i >= q.b.n[0] - 2;
                vck::stat_max(edge ? "edge_residual_over_dx" : "inner_residual_over_dx", eps / order);
                if (eps > 0.15 * order) {
                    vck::fail("setup.equilibrium", what + vck::fmt(": cell %d is accelerated by %g of gravity after one step, cells are %g scale heights", i, eps, order));
                    break;
                }
            }
            drop(r);
        });
    }

    long const nship = sizeof shipped / sizeof *shipped;
    std::vector<Shipped> mine;
    for (long i = 0; i < nship; ++i) {
        if (setup_name == shipped[i].setup && nd == shipped[i].dim && spherical() == shipped[i].sph && radgas() == shipped[i].rad) {
            mine.push_back(shipped[i]);
        }
    }
    double const scale = vck::st().scale;
    vck::st().scale = 1;
    vck::cases("shipped", repo.empty() || only_criterion ? 0 : static_cast<long>(mine.size()) * 2, [&](long idx, vck::Rng& R) {
        Shipped const& s = mine[static_cast<std::size_t>(idx / 2)];
        Case q;
        q.c = parse_ini(repo + "/inputs/" + s.file + ".ini");
        q.gamma = q.val("Perfect Gas", "gamma", 5. / 3), q.mu = q.val("Perfect Gas", "mu", 1);
        q.nfx = static_cast<int>(q.val("Passive Scalar", "nfx", 0));
        if (setup_name == "sedov1d" && spherical()) {
            q.c.set("Grid", "x0min", 0);
        }
        long const budget = nd == 3 ? 20000 : 40000;
        for (int d = 0; d < 3; ++d) {
            q.b.n[d] = static_cast<int>(q.val("Grid", vck::fmt("Nx%d_glob", d).c_str(), 1));
            q.b.lo[d] = q.val("Grid", vck::fmt("x%dmin", d).c_str(), 0), q.b.hi[d] = q.val("Grid", vck::fmt("x%dmax", d).c_str(), 1);
        }
        if (setup_name == "v1d") {
            std::string const f = repo + "/src/setups/v1d/" + fs::path(q.c.get("Problem", "init_file")).filename().string();
            q.c.set("Problem", "init_file", f);
            read_1d(f, q);
            if (nd == 3) {
                q.b.n[1] = q.b.n[2] = 4;
            }
        }
        while (q.b.cells() > budget && setup_name != "sedov3d") {
            for (int d = 0; d < nd; ++d) {
                q.b.n[d] = std::max(4, q.b.n[d] / 2);
            }
        }
        set_box(q);
        q.c.set("Output", "max_iter", 3).set("Output", "iter_frequency", 1);
        auto const dims = idx % 2 == 0 ? std::array<int, 3> {1, 1, 1} : pick_setup_layout(R, q.b, 6, 5);
        set_dims(q.c, dims);
        std::string const what = vck::fmt("%s.ini, layout %dx%dx%d", s.file, dims[0], dims[1], dims[2]);
        g_draws = 0, g_draw_seed = 777;
        RunOpt o;
        o.ranks = prod(dims), o.seed = R.s & 0xffff;
        Run const r = run(q.c, o);
        vck::eval(vck::hash_str(q.c.text()));
        vck::stat("shipped_inputs_run");
        vck::sample(what);
        if (!r.ok() || r.files.empty()) {
            vck::fail(std::string("setup.shipped.") + s.file, what + ": the run fails: " + r.why());
        } else {
            check_output(q, r, what);
            H5 const h = r.last();
            for (std::size_t c = 0; c < h.f("rho").size(); ++c) {
                if (!(h.f("rho")[c] > 0 && h.f("P")[c] > 0 && std::isfinite(h.f("E")[c]))) {
                    vck::fail("setup.evolved", what + vck::fmt(": after 3 steps cell %zu has rho %g P %g", c, h.f("rho")[c], h.f("P")[c]));
                    break;
                }
            }
        }
        drop(r);
    });
    vck::st().scale = scale;
    return vck::finish();
}
