// C39: the parts a user writes (initial state, mesh, boundary conditions, step, shift criterion) are called once each, in order, with the
// state they are meant for; parts a setup does not provide end the run.
#include <atomic>
#include <cstring>

#include <vphys.hpp>
#include <vsys.hpp>

using namespace vsys;
using vck::Rng;
using vphys::Gas;

static Gas gas() { return Gas {5.0L / 3, 1, radgas()}; }

enum class What { grid, init, face, step, crit };

struct Ev
{
    What w;
    int a = 0, b = 0; // direction, face; for the criterion: its answer
    double t = 0, dt = 0;
    std::uint64_t sum = 0; // interior of rho, E, fx
    std::uint64_t mom = 0; // interior of the momentum
    std::uint64_t part = 0; // interior of rho, fx
};

// the state a rank holds after a step, as the outputs must show it
struct Held
{
    std::vector<double> rho, E;
    std::vector<std::vector<double>> fx;
};

struct RankLog
{
    std::vector<Ev> ev;
    int lo[3] = {0, 0, 0}, n[3] = {0, 0, 0};
    std::vector<Held> held; // after each step
    std::vector<std::uint64_t> shifted; // per criterion call: sums of the interior moved by one cell
    std::vector<std::string> wrong;
};

struct Case
{
    Box b;
    Ini c;
    std::array<int, 3> lay {1, 1, 1};
    int ng = 2, nfx = 0, steps = 1;
    bool user_grid = false, fix = false;
    std::array<std::array<bool, 2>, 3> user {};
    std::array<bool, 3> periodic {};
    std::vector<double> nodes[3]; // with ghosts, user mesh
    std::vector<int> shifts;
    int limit = -1; // moves before the limit is met
    std::uint64_t seed = 0;
    vphys::Scale sc {};
    double amp = 0.1;
    std::string text() const
    {
        std::string f;
        for (int d = 0; d < nd; ++d) {
            f += periodic[static_cast<std::size_t>(d)] ? "P" : vck::fmt("%c%c", user[static_cast<std::size_t>(d)][0] ? 'U' : 'N', user[static_cast<std::size_t>(d)][1] ? 'U' : 'N');
            f += ' ';
        }
        return vck::fmt("n=%dx%dx%d layout=%dx%dx%d ng=%d nfx=%d steps=%d faces %s%s%s%s", b.n[0], b.n[1], b.n[2], lay[0], lay[1], lay[2], ng, nfx, steps, f.c_str(), user_grid ? "own mesh" : "",
                        fix ? " pressure fix" : "", shifts.empty() ? "" : (limit >= 0 ? vck::fmt(" moving, %d allowed", limit).c_str() : " moving"));
    }
};

static std::uint64_t add(std::uint64_t h, double v)
{
    std::uint64_t u = 0;
    std::memcpy(&u, &v, sizeof u);
    return vck::mix(h, u);
}

struct Sums
{
    std::uint64_t sum = 1, mom = 2, part = 3;
};

// interior of the arrays of one rank, moved by s cells along the first direction
static Sums sums(RankLog const& l, int const* gh, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx, int s = 0)
{
    Sums h;
    long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
    for (int k = 0; k < l.n[2]; ++k) {
        for (int j = 0; j < l.n[1]; ++j) {
            for (int i = 0; i < l.n[0]; ++i) {
                long const q = (i + gh[0] + s) + static_cast<long>(ext[0]) * ((j + gh[1]) + static_cast<long>(ext[1]) * (k + gh[2]));
                h.sum = add(add(h.sum, rho[q]), E[q]);
                h.part = add(h.part, rho[q]);
                for (int f = 0; f < nfx; ++f) {
                    h.sum = add(h.sum, fx[q + tot * f]);
                    h.part = add(h.part, fx[q + tot * f]);
                }
                if (rhou != nullptr) {
                    for (int d = 0; d < nd; ++d) {
                        h.mom = add(h.mom, rhou[q + tot * d]);
                    }
                }
            }
        }
    }
    return h;
}

struct World
{
    std::vector<RankLog> r;
    std::vector<std::atomic<int>> made; // initial state of every global cell
    std::atomic<int> outside {0}, displaced {0};
    explicit World(int ranks, long cells) : r(static_cast<std::size_t>(ranks)), made(static_cast<std::size_t>(cells)) {}
};

static RankLog& me(World& w) { return w.r[static_cast<std::size_t>(std::max(0, vshim::tl_rank))]; }

static void at_grid(RankLog& l, hclpp::Grid const& g)
{
    for (int d = 0; d < 3; ++d) {
        l.lo[d] = g.range.Corner_min[static_cast<std::size_t>(d)];
        l.n[d] = g.Nx_local_ng[static_cast<std::size_t>(d)];
    }
}

static Case make(Rng& r)
{
    Case k;
    for (int d = 0; d < 3; ++d) {
        k.b.n[d] = d < nd ? r.range(5, nd == 3 ? 7 : 12) : 1;
        if (spherical()) {
            k.b.lo[d] = d == 0 ? r.uni(0.5, 2) : (d == 1 ? r.uni(0.3, 1) : r.uni(0, 1));
            k.b.hi[d] = k.b.lo[d] + r.uni(0.5, 1.5);
        } else {
            k.b.lo[d] = r.uni(-2, 1);
            k.b.hi[d] = k.b.lo[d] + r.loguni(0.3, 3);
        }
    }
    k.ng = r.pick(std::vector<int> {2, 2, 3});
    k.nfx = r.pick(std::vector<int> {0, 1, 2, 4});
    k.lay = pick_layout(r, k.b, 8, k.ng);
#if defined(HERACLESPP_GRAVITY_Internal_mass)
    k.lay[0] = 1;
#endif
    k.c = base_ini(k.b);
    set_dims(k.c, k.lay);
    k.c.set("Grid", "Nghost", k.ng);
    k.c.set("Passive Scalar", "nfx", k.nfx);
    k.steps = r.range(2, 6);
    k.c.set("Output", "max_iter", k.steps);
    k.c.set("Output", "iter_frequency", 1);
    k.c.set("Run", "cfl", r.uni(0.05, 0.3));
    if (r.coin(0.3)) {
        k.c.set("Run", "t_ini", r.uni(-2, 2));
    }
    k.c.set("Hydro", "riemann_solver", r.pick(std::vector<std::string> {"HLL", "HLLC", "Low Mach"}));
    k.fix = r.coin();
    if (k.fix) {
        k.c.set("Pressure fix", "pressure_fix", "On");
        k.c.set("Pressure fix", "eps_pf", r.pick(std::vector<double> {1e-6, 1e6}));
    }
    k.c.set("User step", "user_step", "UserDefined");
    k.c.set("Grid", "shift_grid", "UserDefined");
    // faces
    bool const all = r.coin(0.4);
    static char const* const dir[3] = {"_X0", "_X1", "_X2"};
    static char const* const face[2] = {"_left", "_right"};
    for (int d = 0; d < nd; ++d) {
        auto const q = static_cast<std::size_t>(d);
        if (all) {
            k.user[q] = {true, true};
            continue;
        }
        if (d > 0 && !spherical() && r.coin(0.3)) {
            k.periodic[q] = true;
            k.c.set("Boundary Condition", std::string("BC") + dir[d], "Periodic");
            continue;
        }
        for (int f = 0; f < 2; ++f) {
            k.user[q][static_cast<std::size_t>(f)] = r.coin(0.6);
            k.c.set("Boundary Condition", std::string("BC") + dir[d] + face[f], k.user[q][static_cast<std::size_t>(f)] ? "UserDefined" : "NullGradient");
        }
    }
    k.c.set("Boundary Condition", "BC", all ? "UserDefined" : "NullGradient");
    k.sc = vphys::scale(gas(), r);
    k.amp = r.uni(0.05, 0.3);
    k.seed = r.next();
    k.user_grid = r.coin(0.5);
    if (k.user_grid) {
        k.c.set("Grid", "type", "UserDefined");
        for (int d = 0; d < 3; ++d) {
            int const gh = d < nd ? k.ng : 0, n = k.b.n[d] + 2 * gh + 1;
            double const w = (k.b.hi[d] - k.b.lo[d]) / k.b.n[d];
            auto& x = k.nodes[d];
            x.resize(static_cast<std::size_t>(n));
            for (int i = 0; i < n; ++i) {
                bool const wall = i <= gh || i >= gh + k.b.n[d];
                x[static_cast<std::size_t>(i)] = k.b.lo[d] + w * (i - gh + (wall || k.periodic[static_cast<std::size_t>(d)] ? 0. : r.uni(-0.2, 0.2)));
            }
        }
    }
    if (r.coin(0.4)) {
        for (int s = 1; s <= k.steps; ++s) {
            if (r.coin(0.6)) {
                k.shifts.push_back(s);
            }
        }
        if (!k.shifts.empty() && !k.user_grid && r.coin(0.5)) {
            k.limit = r.range(0, static_cast<int>(k.shifts.size()));
            double const dx = (k.b.hi[0] - k.b.lo[0]) / k.b.n[0];
            k.c.set("Problem", "rmax_shift", k.b.hi[0] + (k.limit + 0.5) * dx);
        }
    }
    return k;
}

static vcase::CellState initial(Case const& k, int const* g)
{
    vcase::CellState w {};
    w.rho = k.sc.rho * std::exp(k.amp * (h01(k.seed, 0, g[0], g[1], g[2]) - 0.5));
    w.P = k.sc.P * std::exp(k.amp * (h01(k.seed, 1, g[0], g[1], g[2]) - 0.5));
    for (int d = 0; d < 3; ++d) {
        w.u[d] = k.sc.u * k.amp * (h01(k.seed, 2 + d, g[0], g[1], g[2]) - 0.5);
    }
    for (int f = 0; f < 10; ++f) {
        w.fx[f] = h01(k.seed, 10 + f, g[0], g[1], g[2]);
    }
    return w;
}

static Run go(Case const& k, Ini const& c, int ranks, std::uint64_t seed, World& w, std::vector<int> const& shifts, std::string const& dir = "")
{
    vcase::hooks().init = [&](vcase::CellIn const& q) {
        auto& l = me(w);
        if (l.ev.empty() || l.ev.back().w != What::init) {
            l.ev.push_back({What::init});
        }
        bool inside = true;
        for (int d = 0; d < 3; ++d) {
            inside = inside && q.g[d] >= 0 && q.g[d] < k.b.n[d];
        }
        if (!inside) {
            ++w.outside;
        } else {
            ++w.made[static_cast<std::size_t>(k.b.at(q.g[0], q.g[1], q.g[2]))];
            for (int d = 0; d < nd; ++d) {
                double const dx = (k.b.hi[d] - k.b.lo[d]) / k.b.n[d];
                int const gh = k.ng;
                auto const i = static_cast<std::size_t>(q.g[d] + gh);
                double const a = k.user_grid ? k.nodes[d][i] : k.b.lo[d] + q.g[d] * dx, b = k.user_grid ? k.nodes[d][i + 1] : k.b.lo[d] + (q.g[d] + 1) * dx;
                if (!(q.x[d] > a && q.x[d] < b)) {
                    ++w.displaced;
                }
            }
        }
        return initial(k, q.g);
    };
    vcase::hooks().grid = [&](int d, int ng, int n, double* x) {
        auto& l = me(w);
        l.ev.push_back({What::grid, d});
        int const gh = d < nd ? k.ng : 0;
        if (ng != gh || n != k.b.n[d] + 2 * gh + 1 || !k.user_grid) {
            l.wrong.push_back(vck::fmt("the mesh of direction %d is asked for with %d ghosts and %d nodes", d, ng, n));
            for (int i = 0; i < n; ++i) {
                x[i] = i;
            }
            return;
        }
        for (int i = 0; i < n; ++i) {
            x[i] = k.nodes[d][static_cast<std::size_t>(i)];
        }
    };
    vcase::hooks().boundary = [&](int idim, int iface, hclpp::Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx) {
        auto& l = me(w);
        at_grid(l, g);
        Sums const h = sums(l, g.Nghost.data(), rho, rhou, E, fx, ext, nfx);
        Ev e {What::face, idim, iface};
        e.sum = h.sum;
        e.mom = h.mom;
        e.part = h.part;
        l.ev.push_back(e);
        for (int d = 0; d < 3; ++d) {
            if (ext[d] != l.n[d] + 2 * g.Nghost[static_cast<std::size_t>(d)]) {
                l.wrong.push_back(vck::fmt("a boundary condition gets %d cells along direction %d of a block of %d", ext[d], d, l.n[d]));
                return;
            }
        }
        // no gradient
        int const gh = g.Nghost[static_cast<std::size_t>(idim)], from = iface == 0 ? gh : gh + l.n[idim] - 1;
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        for (int z = 0; z < ext[2]; ++z) {
            for (int y = 0; y < ext[1]; ++y) {
                for (int x = 0; x < ext[0]; ++x) {
                    int const p[3] = {x, y, z};
                    if (iface == 0 ? p[idim] >= gh : p[idim] < gh + l.n[idim]) {
                        continue;
                    }
                    int q[3] = {x, y, z};
                    q[idim] = from;
                    long const a = x + static_cast<long>(ext[0]) * (y + static_cast<long>(ext[1]) * z), b = q[0] + static_cast<long>(ext[0]) * (q[1] + static_cast<long>(ext[1]) * q[2]);
                    rho[a] = rho[b];
                    E[a] = E[b];
                    for (int d = 0; d < nd; ++d) {
                        rhou[a + tot * d] = rhou[b + tot * d];
                    }
                    for (int f = 0; f < nfx; ++f) {
                        fx[a + tot * f] = fx[b + tot * f];
                    }
                }
            }
        }
    };
    vcase::hooks().user_step = [&](hclpp::Range const& range, double t, double dt, double* rho, double* E, double* fx, int const* ext, int nfx) {
        auto& l = me(w);
        auto const [a, b] = hclpp::cell_range(range);
        for (int d = 0; d < 3; ++d) {
            int const gh = d < nd ? k.ng : 0;
            l.lo[d] = range.Corner_min[static_cast<std::size_t>(d)];
            l.n[d] = range.Corner_max[static_cast<std::size_t>(d)] - l.lo[d];
            if (a[static_cast<std::size_t>(d)] != gh || b[static_cast<std::size_t>(d)] != gh + l.n[d] || ext[d] != l.n[d] + 2 * gh) {
                l.wrong.push_back(vck::fmt("the user step gets cells %d to %d along direction %d of an array of %d with %d ghosts", a[static_cast<std::size_t>(d)], b[static_cast<std::size_t>(d)], d,
                                           ext[d], gh));
                return;
            }
        }
        // changes of its own, known cell by cell
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        int const gh[3] = {a[0], a[1], a[2]};
        int const n = static_cast<int>(l.held.size());
        for (int z = a[2]; z < b[2]; ++z) {
            for (int y = a[1]; y < b[1]; ++y) {
                for (int x = a[0]; x < b[0]; ++x) {
                    long const q = x + static_cast<long>(ext[0]) * (y + static_cast<long>(ext[1]) * z);
                    if (!(rho[q] > 0 && E[q] > 0)) {
                        l.wrong.push_back(vck::fmt("the user step gets density %g energy %g", rho[q], E[q]));
                        return;
                    }
                    double const h = h01(k.seed, 50 + n, x - gh[0] + l.lo[0], y - gh[1] + l.lo[1], z - gh[2] + l.lo[2]);
                    E[q] *= 1 + 0.01 * h;
                    rho[q] *= 1 - 0.003 * h;
                    for (int f = 0; f < nfx; ++f) {
                        fx[q + tot * f] += 0.1 * (f + 1) * h;
                    }
                }
            }
        }
        Ev e {What::step};
        e.t = t;
        e.dt = dt;
        Sums const s = sums(l, gh, rho, nullptr, E, fx, ext, nfx);
        e.sum = s.sum;
        e.part = s.part;
        l.ev.push_back(e);
    };
    vcase::hooks().shift = [&](hclpp::Grid const& g, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx) {
        auto& l = me(w);
        at_grid(l, g);
        int const n = static_cast<int>(std::count_if(l.ev.begin(), l.ev.end(), [](Ev const& v) { return v.w == What::step; }));
        bool const yes = std::find(shifts.begin(), shifts.end(), n) != shifts.end();
        Ev e {What::crit, yes ? 1 : 0};
        Sums const h = sums(l, g.Nghost.data(), rho, rhou, E, fx, ext, nfx);
        e.sum = h.sum;
        e.mom = h.mom;
        e.part = h.part;
        l.ev.push_back(e);
        l.shifted.push_back(sums(l, g.Nghost.data(), rho, rhou, E, fx, ext, nfx, 1).sum);
        bool const moved = yes && (k.limit < 0 || static_cast<int>(std::count_if(l.ev.begin(), l.ev.end(), [](Ev const& v) { return v.w == What::crit && v.a == 1; })) <= k.limit);
        Held hd;
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        hd.fx.resize(static_cast<std::size_t>(nfx));
        for (int z = 0; z < l.n[2]; ++z) {
            for (int y = 0; y < l.n[1]; ++y) {
                for (int x = 0; x < l.n[0]; ++x) {
                    long const q = (x + g.Nghost[0] + (moved ? 1 : 0)) + static_cast<long>(ext[0]) * ((y + g.Nghost[1]) + static_cast<long>(ext[1]) * (z + g.Nghost[2]));
                    hd.rho.push_back(rho[q]);
                    hd.E.push_back(E[q]);
                    for (int f = 0; f < nfx; ++f) {
                        hd.fx[static_cast<std::size_t>(f)].push_back(fx[q + tot * f]);
                    }
                }
            }
        }
        l.held.push_back(std::move(hd));
        return yes;
    };
    RunOpt o;
    o.ranks = ranks;
    o.seed = seed;
    o.dir = dir;
    o.order = seed % 2 ? vshim::Order::random : vshim::Order::sequential;
    Run x = run(c, o);
    clear_hooks();
    return x;
}

struct Reader
{
    RankLog const& l;
    std::size_t p = 0;
    bool at(What w) const { return p < l.ev.size() && l.ev[p].w == w; }
    std::string show() const
    {
        if (p >= l.ev.size()) {
            return "the end";
        }
        auto const& e = l.ev[p];
        static char const* const name[5] = {"the mesh", "the initial state", "a boundary condition", "the user step", "the criterion"};
        return vck::fmt("%s (%d,%d)", name[static_cast<int>(e.w)], e.a, e.b);
    }
};

// one rank's sequence of calls
static bool grammar(Case const& k, Ini const& c, RankLog const& l, std::array<int, 3> const& /*lay*/, bool restart, double t0, int steps, std::string const& cfg, int rank)
{
    auto bad = [&](char const* what, std::string const& m) {
        vck::fail(std::string("parts.") + what, cfg + vck::fmt(" rank %d: ", rank) + m);
        return false;
    };
    if (!l.wrong.empty()) {
        return bad("arrays", l.wrong[0]);
    }
    Reader r {l};
    if (!restart) {
        if (k.user_grid) {
            for (int d = 0; d < 3; ++d, ++r.p) {
                if (!r.at(What::grid) || l.ev[r.p].a != d) {
                    return bad("mesh", "not the mesh but " + r.show());
                }
            }
        }
        if (!r.at(What::init)) {
            return bad("init", "not the initial state but " + r.show());
        }
        ++r.p;
    }
    // one call for each face of this rank which the user treats
    bool outer_off = false;
    std::vector<int> mine;
    for (int d = 0; d < nd; ++d) {
        auto const q = static_cast<std::size_t>(d);
        if (k.user[q][0] && l.lo[d] == 0) {
            mine.push_back(2 * d);
        }
        if (k.user[q][1] && l.lo[d] + l.n[d] == k.b.n[d]) {
            mine.push_back(2 * d + 1);
        }
    }
    auto faces = [&](std::uint64_t const* sum, std::uint64_t const* mom, std::uint64_t const* part, char const* when) {
        std::vector<int> seen;
        for (; r.at(What::face); ++r.p) {
            auto const& e = l.ev[r.p];
            if ((sum != nullptr && e.sum != *sum) || (mom != nullptr && e.mom != *mom) || (part != nullptr && e.part != *part)) {
                return bad("state", vck::fmt("the boundary condition (%d,%d) %s gets another interior state", e.a, e.b, when));
            }
            seen.push_back(2 * e.a + e.b);
            vck::stat("faces_called");
        }
        std::sort(seen.begin(), seen.end());
        auto want = mine;
        if (outer_off) {
            want.erase(std::remove(want.begin(), want.end(), 1), want.end());
        }
        if (seen != want) {
            std::string a, b;
            for (int const s : seen) {
                a += vck::fmt(" %d", s);
            }
            for (int const s : want) {
                b += vck::fmt(" %d", s);
            }
            return bad("faces", vck::fmt("%s the boundary conditions called are%s, the user's faces of this rank are%s", when, a.c_str(), b.c_str()));
        }
        return true;
    };
    std::uint64_t first = 0;
    if (!restart) {
        Sums h;
        for (int z = 0; z < l.n[2]; ++z) {
            for (int y = 0; y < l.n[1]; ++y) {
                for (int x = 0; x < l.n[0]; ++x) {
                    int const g[3] = {x + l.lo[0], y + l.lo[1], z + l.lo[2]};
                    auto const s = initial(k, g);
                    h.part = add(h.part, s.rho);
                    for (int f = 0; f < k.nfx; ++f) {
                        h.part = add(h.part, s.fx[f]);
                    }
                }
            }
        }
        first = h.part;
    }
    if (!faces(nullptr, nullptr, restart ? nullptr : &first, "before the first step")) {
        return false;
    }
    double t = t0;
    int moves = 0;
    for (int s = 0; s < steps; ++s) {
        if (!r.at(What::step)) {
            return bad("step", vck::fmt("step %d: not the user step but ", s) + r.show());
        }
        Ev const u = l.ev[r.p++];
        if (u.t != t || !(u.dt > 0)) {
            return bad("time", vck::fmt("step %d: the user step gets time %.17g and step %.17g, the run is at %.17g", s, u.t, u.dt, t));
        }
        t += u.dt;
        if (!faces(&u.sum, nullptr, nullptr, vck::fmt("after step %d", s).c_str())) {
            return false;
        }
        if (outer_off) {
            continue;
        }
        if (!r.at(What::crit)) {
            return bad("criterion", vck::fmt("step %d: not the criterion but ", s) + r.show());
        }
        Ev const& q = l.ev[r.p];
        if (q.sum != u.sum) {
            return bad("state", vck::fmt("step %d: the criterion gets another state than the user step left", s));
        }
        if (r.p > 0 && l.ev[r.p - 1].w == What::face && l.ev[r.p - 1].mom != q.mom) {
            return bad("state", vck::fmt("step %d: the criterion gets another momentum than the boundary conditions", s));
        }
        auto const ncrit = static_cast<std::size_t>(std::count_if(l.ev.begin(), l.ev.begin() + static_cast<long>(r.p), [](Ev const& v) { return v.w == What::crit; }));
        ++r.p;
        if (q.a == 1) {
            bool const moved = k.limit < 0 || moves < k.limit;
            std::uint64_t const want = moved ? l.shifted[ncrit] : q.sum;
            outer_off = !moved;
            if (!faces(&want, moved ? nullptr : &q.mom, nullptr, vck::fmt("after the move of step %d", s).c_str())) {
                return false;
            }
            moves += moved ? 1 : 0;
            vck::stat(moved ? "moves" : "limits");
        }
        vck::stat("steps_followed");
    }
    if (r.p != l.ev.size()) {
        return bad("end", "after the last step: " + r.show());
    }
    (void)c;
    return true;
}

static void outputs(Case const& k, Run const& x, World const& w, int it0, std::size_t first_file, std::string const& cfg)
{
    for (std::size_t i = first_file; i < x.files.size(); ++i) {
        H5 const h = x.load(static_cast<int>(i));
        int const s = static_cast<int>(h.scalar("iter")) - it0 - 1;
        if (s < 0) {
            continue;
        }
        for (std::size_t p = 0; p < w.r.size(); ++p) {
            auto const& l = w.r[p];
            if (s >= static_cast<int>(l.held.size())) {
                continue; // the criterion is not asked any more
            }
            auto const& hd = l.held[static_cast<std::size_t>(s)];
            std::size_t q = 0;
            for (int z = 0; z < l.n[2]; ++z) {
                for (int y = 0; y < l.n[1]; ++y) {
                    for (int c = 0; c < l.n[0]; ++c, ++q) {
                        auto const g = static_cast<std::size_t>(k.b.at(c + l.lo[0], y + l.lo[1], z + l.lo[2]));
                        bool same = g < h.f("rho").size() && g < h.f("E").size() && h.f("rho")[g] == hd.rho[q] && h.f("E")[g] == hd.E[q];
                        for (int f = 0; f < k.nfx && same; ++f) {
                            auto const& v = h.f(vck::fmt("fx%d", f));
                            same = g < v.size() && v[g] == hd.fx[static_cast<std::size_t>(f)][q];
                        }
                        if (!same) {
                            vck::fail("parts.output", cfg + vck::fmt(": the output of step %d differs from what the user's parts left in cell %d,%d,%d", s, c + l.lo[0], y + l.lo[1], z + l.lo[2]));
                            return;
                        }
                    }
                }
            }
            vck::stat("outputs_compared");
        }
    }
}

static void parts_case(long, Rng& r)
{
    Case const k = make(r);
    int const ranks = prod(k.lay);
    World w(ranks, k.b.cells());
    Run const x = go(k, k.c, ranks, r.next(), w, k.shifts);
    std::string const cfg = k.text();
    vck::sample(cfg);
    vck::eval(vck::hash_str(cfg));
    bool ok = x.ok();
    if (!ok) {
        vck::fail("parts.run", cfg + " failed: " + x.why());
    } else {
        long wrong = 0;
        for (auto const& m : w.made) {
            wrong += m.load() == 1 ? 0 : 1;
        }
        if (wrong != 0 || w.outside != 0 || w.displaced != 0) {
            vck::fail("parts.init", cfg + vck::fmt(": %ld cells are not initialised exactly once, %d calls for cells outside, %d with a position outside the cell", wrong, w.outside.load(), w.displaced.load()));
            ok = false;
        }
        std::string const ti = k.c.get("Run", "t_ini");
        for (int p = 0; p < ranks; ++p) {
            ok = grammar(k, k.c, w.r[static_cast<std::size_t>(p)], k.lay, false, ti.empty() ? 0. : std::atof(ti.c_str()), k.steps, cfg, p) && ok;
        }
        outputs(k, x, w, 0, 0, cfg);
        H5 const h = x.load(0);
        for (int d = 0; d < nd && k.user_grid; ++d) {
            auto const& v = h.f(vck::fmt("x%d", d));
            // the nodes of the file, with or without ghosts
            auto const& n = k.nodes[d];
            std::size_t const off = (n.size() - std::min(n.size(), v.size())) / 2;
            bool same = v.size() >= static_cast<std::size_t>(k.b.n[d] + 1);
            for (std::size_t i = 0; i < v.size() && same; ++i) {
                same = i + off < n.size() && v[i] == n[i + off];
            }
            if (!same) {
                vck::fail("parts.mesh", cfg + vck::fmt(": the mesh of direction %d is not the user's", d));
            }
        }
        vck::stat("runs_followed");
        if (k.user_grid) {
            vck::stat("own_meshes");
        }
    }
    if (ok && x.files.size() >= 2 && k.limit < 0 && r.coin(0.5)) {
        std::size_t const f = r.below(x.files.size() - 1);
        H5 const h = x.load(static_cast<int>(f));
        int const it = static_cast<int>(h.scalar("iter")), more = r.range(1, 3);
        auto lay = pick_layout(r, k.b, 6, k.ng);
#if defined(HERACLESPP_GRAVITY_Internal_mass)
        lay[0] = 1;
#endif
        Ini c = k.c;
        set_dims(c, lay);
        c.set("Problem", "restart", "true");
        c.set("Problem", "restart_file", x.dir + "/" + x.files[f]);
        c.set("Output", "max_iter", it + more);
        std::string const dir = x.dir + "/again";
        c.set("Output", "directory", dir);
        World w2(prod(lay), k.b.cells());
        Run const y = go(k, c, prod(lay), r.next(), w2, {}, dir);
        std::string const cfg2 = cfg + vck::fmt(" restarted at iteration %d on %dx%dx%d", it, lay[0], lay[1], lay[2]);
        if (!y.ok()) {
            vck::fail("parts.run", cfg2 + " failed: " + y.why());
        } else {
            for (auto const& m : w2.made) {
                if (m.load() != 0) {
                    vck::fail("parts.init", cfg2 + ": the initial state is asked for again");
                    break;
                }
            }
            for (int p = 0; p < prod(lay); ++p) {
                auto const& l = w2.r[static_cast<std::size_t>(p)];
                if (!grammar(k, c, l, lay, true, h.scalar("current_time"), more, cfg2, p)) {
                    break;
                }
                // the interior of the first boundary conditions is that of the file
                if (!l.ev.empty() && l.ev[0].w == What::face) {
                    Sums q;
                    for (int z = 0; z < l.n[2]; ++z) {
                        for (int yy = 0; yy < l.n[1]; ++yy) {
                            for (int xx = 0; xx < l.n[0]; ++xx) {
                                auto const g = static_cast<std::size_t>(k.b.at(xx + l.lo[0], yy + l.lo[1], z + l.lo[2]));
                                q.part = add(q.part, h.f("rho").at(g));
                                for (int s = 0; s < k.nfx; ++s) {
                                    q.part = add(q.part, h.f(vck::fmt("fx%d", s)).at(g));
                                }
                            }
                        }
                    }
                    if (q.part != l.ev[0].part) {
                        vck::fail("parts.state", cfg2 + ": the first boundary condition gets another state than the file's");
                    }
                    vck::stat("restarted_states");
                }
            }
            outputs(k, y, w2, it, 0, cfg2);
            vck::stat("restarts");
        }
        vck::eval(vck::hash_str(cfg2));
    }
    drop(x);
}

// a shipped setup that provides none of the optional parts
static void default_case(long n, Rng& r)
{
    Box b;
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(5, nd == 3 ? 7 : 12);
        b.lo[d] = spherical() ? 0.5 : 0;
    }
    Ini c = base_ini(b);
    auto const lay = pick_layout(r, b, 4, 2);
    set_dims(c, lay);
    c.set("Boundary Condition", "BC", "NullGradient");
    c.set("Run", "cfl", 0.2);
    c.set("Run", "t_end", 1e-3);
    c.set("Output", "iter_frequency", 1);
    bool none = false;
    std::string how;
    switch (n % 5) {
    case 0:
        how = "mesh";
        c.set("Grid", "type", "UserDefined");
        break;
    case 1:
        how = "boundary condition";
        c.set("Boundary Condition", r.pick(std::vector<std::string> {"BC", "BC_X0", "BC_X0_left", "BC_X0_right"}), "UserDefined");
        break;
    case 2:
        how = "user step";
        c.set("User step", "user_step", "UserDefined");
        break;
    case 3:
        how = "criterion";
        c.set("Grid", "shift_grid", "UserDefined");
        break;
    default:
        how = "nothing";
        none = true;
    }
    RunOpt o;
    o.ranks = prod(lay);
    o.seed = r.next();
    Run const x = run(c, o);
    std::string const cfg = vck::fmt("%s asked of a setup without it, layout %dx%dx%d", how.c_str(), lay[0], lay[1], lay[2]);
    bool any = false;
    for (std::size_t p = 0; p < x.w.rc.size(); ++p) {
        any = any || x.w.rc[p] != 0;
    }
    bool const end = x.w.cout_text.find("--- End ---") != std::string::npos;
    if (none) {
        if (!x.ok() || any || !end) {
            vck::fail("parts.default", "a run without own parts fails: " + x.why());
        }
    } else if (!any || end) {
        vck::fail("parts.default", cfg + ": the run goes on as if it were there");
    } else if (x.w.cerr_text.find("not implemented") == std::string::npos) {
        vck::fail("parts.default", cfg + ": the run ends without saying so: " + x.why());
    }
    // an output shows at most the state before the first step
    for (std::size_t i = 0; i < x.files.size() && !none; ++i) {
        if (x.load(static_cast<int>(i)).scalar("iter") != 0) {
            vck::fail("parts.default", cfg + ": a step is completed");
        }
    }
    vck::stat("defaults");
    vck::eval(vck::hash_str(cfg));
    drop(x);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    bool const th = vck::st().thorough;
    if (std::string(MY_SETUP) == "verif") {
        vck::cases("parts", th ? 1500 : 60, parts_case);
    } else {
        vck::cases("default", th ? 200 : 25, default_case);
    }
    return vck::finish();
}
