// C13: halo exchange.  C14: physical boundaries.
#include <boundary.hpp>
#include <boundary_distribute.hpp>
#include <boundary_factory.hpp>
#include <gravity.hpp>
#include <inih/INIReader.hpp>
#include <param.hpp>
#include <vghost.hpp>
#include <vsys.hpp>
#include <vunit.hpp>

using namespace vsys;
using namespace hclpp;
using vck::fmt;
using vck::Rng;
using vghost::Bcs;
using vghost::Field;
using vunit::put;
using vunit::same_bits;
using vunit::snap;

using Gr = UniformGravity;

static std::uint64_t g_useed;
static double user_value(int face, int var, int const* q)
{
    return 10 + 5 * h01(g_useed, 1000 * (face + 1) + var, q[0], q[1], q[2]);
}

// writes user_value into the ghosts of its face
static void write_user(int idim, int iface, Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx)
{
    int lo[3] = {0, 0, 0}, hi[3] = {ext[0], ext[1], ext[2]};
    int const ng = g.Nghost[static_cast<std::size_t>(idim)];
    lo[idim] = iface == 0 ? 0 : ext[idim] - ng;
    hi[idim] = lo[idim] + ng;
    long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
    for (int k = lo[2]; k < hi[2]; ++k) {
        for (int j = lo[1]; j < hi[1]; ++j) {
            for (int i = lo[0]; i < hi[0]; ++i) {
                int const q[3] = {i + g.range.Corner_min[0], j + g.range.Corner_min[1], k + g.range.Corner_min[2]};
                long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                int const face = 2 * idim + iface;
                rho[l] = user_value(face, 0, q);
                for (int d = 0; d < nd; ++d) {
                    rhou[l + tot * d] = user_value(face, 1 + d, q);
                }
                E[l] = 1000 + user_value(face, 1 + nd, q);
                for (int f = 0; f < nfx; ++f) {
                    fx[l + tot * f] = user_value(face, 2 + nd + f, q);
                }
            }
        }
    }
}
static double model_user(int face, int var, int const* q) { return (var == 1 + nd ? 1000 : 0) + user_value(face, var, q); }

class UserBc : public IBoundaryCondition<Gr>
{
public:
    UserBc(int d, int f) : IBoundaryCondition<Gr>(d, f) {}
    void execute(Grid const& g, Gr const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        vshim::Peek const p;
        int const ext[3] = {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        write_user(this->bc_idim(), this->bc_iface(), g, rho.data(), rhou.data(), E.data(), fx.data(), ext, fx.extent_int(3));
    }
};

struct Local
{
    std::array<int, 3> cmin, ext, ng;
    std::vector<std::vector<double>> v; // fields with ghosts
};

// compares what the ranks hold with the model; kind: inner ghosts and interior (halo) or the physical ones
static void compare(std::string const& cfg, std::vector<Local> const& ranks, std::vector<Field> const& ref, std::string const& only, int sets = 2)
{
    long inner = 0, outer = 0, corners = 0;
    for (std::size_t r = 0; r < ranks.size(); ++r) {
        Local const& l = ranks[r];
        for (std::size_t v = 0; v < l.v.size(); ++v) {
            for (int k = 0; k < l.ext[2]; ++k) {
                for (int j = 0; j < l.ext[1]; ++j) {
                    for (int i = 0; i < l.ext[0]; ++i) {
                        int const q[3] = {i + l.cmin[0], j + l.cmin[1], k + l.cmin[2]};
                        int const li[3] = {i, j, k};
                        bool own = true, in_domain = true;
                        int beyond = 0;
                        for (int d = 0; d < 3; ++d) {
                            auto const D = static_cast<std::size_t>(d);
                            own = own && li[d] >= l.ng[D] && li[d] < l.ext[D] - l.ng[D];
                            bool const in = q[d] >= ref[v].g[D] && q[d] < ref[v].e[D] - ref[v].g[D];
                            in_domain = in_domain && in;
                            beyond += !in;
                        }
                        double const a = l.v[v][static_cast<std::size_t>(i + static_cast<long>(l.ext[0]) * (j + static_cast<long>(l.ext[1]) * k))];
                        double const b = ref[v].at(q[0], q[1], q[2]);
                        own ? 0L : (in_domain ? ++inner : (++outer, corners += beyond > 1));
                        if (!same_bits(a, b)) {
                            std::string const key = own ? "interior" : (in_domain ? "inner" : (beyond > 1 ? "corner" : "face"));
                            if (only.find(key) != std::string::npos) {
                                vck::fail("ghost." + key, cfg + fmt(" rank %zu field %zu global position (%d,%d,%d): %.17g instead of %.17g", r, v, q[0] - ref[v].g[0], q[1] - ref[v].g[1], q[2] - ref[v].g[2], a, b));
                            }
                        }
                    }
                }
            }
        }
    }
    (void)sets;
    vck::stat("inner_ghosts_compared", static_cast<double>(inner));
    vck::stat("outer_ghosts_compared", static_cast<double>(outer));
    vck::stat("corner_ghosts_compared", static_cast<double>(corners));
}

static std::unique_ptr<Param> make_param(Ini const& c)
{
    std::string const t = c.text();
    std::string const p = vck::st().dir + "/bound.ini";
    {
        std::ofstream f(p, std::ios::binary);
        f << t;
    }
    INIReader const r(p);
    return std::make_unique<Param>(r);
}

// what: halo (all periodic or arbitrary kinds, judge owned and inner cells) or faces (judge everything)
static void unit_case(bool faces, long, Rng& r)
{
    int const ng = r.range(1, 4);
    Box b;
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.coin(0.2) ? ng : r.range(ng, nd == 3 ? 9 : 20);
    }
    auto const lay = pick_layout(r, b, 8, ng);
    int const P = prod(lay);
    int const nfx = r.coin(0.3) ? 0 : (r.coin(0.2) ? r.range(5, 10) : r.range(1, 4));
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    Bcs bc;
    if (faces || r.coin()) {
        bc = vghost::random_bcs(r, nd);
    } else {
        for (int f = 0; f < 2 * nd; ++f) {
            bc.order.push_back(f);
        }
    }
    std::uint64_t const seed = r.next();
    g_useed = r.next();
    Ini c;
    c.set("Passive Scalar", "nfx", nfx);
    c.set("Boundary Condition", "BC", "Periodic");
    if (!bc.priority.empty()) {
        c.set("Boundary Condition", "Priority", bc.priority);
    }
    bool const aware = r.coin();
    c.set("Parallelization", "mpi_device_aware", aware ? "true" : "false");
    auto const param = make_param(c);
    int const nv = 2 + nd + nfx;
    int const times = r.range(1, 3);
    auto value = [&](int time, int v, int i, int j, int k) { return h01(seed + static_cast<std::uint64_t>(time), v, i, j, k) - (v > 0 && v <= nd ? 0.5 : 0); };
    std::vector<Local> out(static_cast<std::size_t>(P));
    bool const special = r.coin(0.2);
    vshim::allow_reorder() = r.coin(0.8);
    vshim::config().order = r.pick(std::vector<vshim::Order> {vshim::Order::sequential, vshim::Order::random, vshim::Order::reverse});
    vshim::config().seed = r.next();
    auto const nodes = vunit::random_mesh(r, N, ng, 0.3);
    std::string const cfg = fmt("n=%dx%dx%d ng=%d layout=%dx%dx%d nfx=%d aware=%d uses=%d %s", N[0], N[1], N[2], ng, lay[0], lay[1], lay[2], nfx, aware, times, bc.show(nd).c_str());
    std::vector<std::string> refused(static_cast<std::size_t>(P));
    auto const w = vunit::world(P, r.next(), [&](int rank) {
        Grid g(N, lay, ng);
        vunit::set_nodes(g, nodes);
        auto const& e = g.Nx_local_wg;
        KV_double_3d const rho("rho", e[0], e[1], e[2]), E("E", e[0], e[1], e[2]);
        KV_double_4d const rhou("rhou", e[0], e[1], e[2], nd), fx("fx", e[0], e[1], e[2], nfx);
        std::array<std::unique_ptr<IBoundaryCondition<Gr>>, nfaces> arr;
        for (int f = 0; f < nfaces; ++f) {
            auto const F = static_cast<std::size_t>(f);
            if (bc.kind[F] == vghost::user) {
                arr[F] = std::make_unique<UserBc>(f / 2, f % 2);
            } else {
                arr[F] = factory_boundary_construction<Gr>(vghost::kind_name[bc.kind[F]], f / 2, f % 2);
            }
        }
        Gr const grav = make_uniform_gravity(0, 0, 0);
        DistributedBoundaryCondition const bcs(g, *param);
        long const tot = static_cast<long>(e[0]) * e[1] * e[2];
        Local& l = out[static_cast<std::size_t>(rank)];
        l.cmin = g.range.Corner_min;
        l.ext = e;
        l.ng = g.Nghost;
        for (int t = 0; t < times; ++t) {
            std::vector<std::vector<double>> v(static_cast<std::size_t>(nv), std::vector<double>(static_cast<std::size_t>(tot), special ? NAN : vunit::poison));
            for (int k = 0; k < g.Nx_local_ng[2]; ++k) {
                for (int j = 0; j < g.Nx_local_ng[1]; ++j) {
                    for (int i = 0; i < g.Nx_local_ng[0]; ++i) {
                        for (int q = 0; q < nv; ++q) {
                            v[static_cast<std::size_t>(q)][static_cast<std::size_t>((i + g.Nghost[0]) + static_cast<long>(e[0]) * ((j + g.Nghost[1]) + static_cast<long>(e[1]) * (k + g.Nghost[2])))]
                                    = value(t, q, i + l.cmin[0], j + l.cmin[1], k + l.cmin[2]);
                        }
                    }
                }
            }
            put(rho, v[0]);
            std::vector<double> m, x;
            for (int d = 0; d < nd; ++d) {
                m.insert(m.end(), v[static_cast<std::size_t>(1 + d)].begin(), v[static_cast<std::size_t>(1 + d)].end());
            }
            put(rhou, m);
            put(E, v[static_cast<std::size_t>(1 + nd)]);
            for (int f = 0; f < nfx; ++f) {
                x.insert(x.end(), v[static_cast<std::size_t>(2 + nd + f)].begin(), v[static_cast<std::size_t>(2 + nd + f)].end());
            }
            put(fx, x);
            bcs(arr, g, grav, rho, rhou, E, fx);
        }
        l.v.assign(static_cast<std::size_t>(nv), {});
        auto const T = static_cast<std::size_t>(tot);
        l.v[0] = snap(rho);
        auto const m = snap(rhou), x = snap(fx);
        for (int d = 0; d < nd; ++d) {
            auto const D = static_cast<std::size_t>(d);
            l.v[1 + D].assign(m.begin() + static_cast<long>(T * D), m.begin() + static_cast<long>(T * (D + 1)));
        }
        l.v[static_cast<std::size_t>(1 + nd)] = snap(E);
        for (int f = 0; f < nfx; ++f) {
            auto const F = static_cast<std::size_t>(f);
            l.v[static_cast<std::size_t>(2 + nd) + F].assign(x.begin() + static_cast<long>(T * F), x.begin() + static_cast<long>(T * (F + 1)));
        }
    });
    vshim::config().order = vshim::Order::sequential;
    vshim::allow_reorder() = true;
    vck::eval(vck::hash_str(cfg), faces || P > 1);
    vck::sample(cfg);
    if (!w.ok) {
        return;
    }
    std::vector<Field> ref(static_cast<std::size_t>(nv), Field(N, ng, nd));
    for (int q = 0; q < nv; ++q) {
        for (int k = 0; k < N[2]; ++k) {
            for (int j = 0; j < N[1]; ++j) {
                for (int i = 0; i < N[0]; ++i) {
                    ref[static_cast<std::size_t>(q)].in(i, j, k) = value(times - 1, q, i, j, k);
                }
            }
        }
    }
    vghost::fill(ref, bc, nd, model_user);
    bool allper = true;
    for (int f = 0; f < 2 * nd; ++f) {
        allper = allper && bc.kind[static_cast<std::size_t>(f)] == vghost::periodic;
    }
    compare(cfg, out, ref, faces || allper ? "interior inner face corner" : "interior inner");
}

// in periodic directions the position is taken modulo the domain, also when the other directions have walls
// (covered by the model above); narrow ranks: the exchange reaches one neighbour only
static void narrow_case(long, Rng& r)
{
    int const ng = r.range(2, 3);
    Box b;
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(ng, 6);
    }
    int const nd0 = r.range(0, nd - 1);
    b.n[nd0] = ng - 1;
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    Ini c;
    auto const param = make_param(c);
    Local l;
    std::uint64_t const seed = r.next();
    vunit::world(1, r.next(), [&](int) {
        Grid g(N, {1, 1, 1}, ng);
        vunit::set_nodes(g, vunit::random_mesh(r, N, ng, 0));
        auto const& e = g.Nx_local_wg;
        KV_double_3d const rho("rho", e[0], e[1], e[2]), E("E", e[0], e[1], e[2]);
        KV_double_4d const rhou("rhou", e[0], e[1], e[2], nd), fx("fx", e[0], e[1], e[2], 0);
        std::array<std::unique_ptr<IBoundaryCondition<Gr>>, nfaces> arr;
        for (int f = 0; f < nfaces; ++f) {
            arr[static_cast<std::size_t>(f)] = factory_boundary_construction<Gr>("Periodic", f / 2, f % 2);
        }
        DistributedBoundaryCondition const bcs(g, *param);
        l.cmin = g.range.Corner_min;
        l.ext = e;
        l.ng = g.Nghost;
        std::vector<double> v(rho.size(), vunit::poison);
        for (int k = 0; k < N[2]; ++k) {
            for (int j = 0; j < N[1]; ++j) {
                for (int i = 0; i < N[0]; ++i) {
                    v[static_cast<std::size_t>((i + g.Nghost[0]) + static_cast<long>(e[0]) * ((j + g.Nghost[1]) + static_cast<long>(e[1]) * (k + g.Nghost[2])))] = h01(seed, 0, i, j, k);
                }
            }
        }
        put(rho, v);
        put(E, v);
        std::vector<double> m;
        for (int d = 0; d < nd; ++d) {
            m.insert(m.end(), v.begin(), v.end());
        }
        put(rhou, m);
        bcs(arr, g, make_uniform_gravity(0, 0, 0), rho, rhou, E, fx);
        l.v = {snap(rho)};
    });
    std::vector<Field> ref(1, Field(N, ng, nd));
    for (int k = 0; k < N[2]; ++k) {
        for (int j = 0; j < N[1]; ++j) {
            for (int i = 0; i < N[0]; ++i) {
                ref[0].in(i, j, k) = h01(seed, 0, i, j, k);
            }
        }
    }
    ref[0].wrap();
    long bad = 0;
    for (std::size_t q = 0; q < ref[0].v.size() && q < l.v[0].size(); ++q) {
        bad += !same_bits(ref[0].v[q], l.v[0][q]);
    }
    if (bad > 0) {
        vck::fail("ghost.narrow", fmt("n=%dx%dx%d ng=%d periodic: %ld ghost cells do not hold the value of the cell at their position (fewer cells than ghosts along direction %d)", N[0], N[1], N[2], ng, bad, nd0));
    }
    vck::eval(vck::mix(seed, 3));
}

// lists of priorities that must be refused
static void refuse_case(long n, Rng& r)
{
    Bcs bc = vghost::random_bcs(r, nd);
    std::vector<std::string> w;
    for (int f = 0; f < 2 * nd; ++f) {
        w.push_back(vghost::face_name[f]);
    }
    for (std::size_t i = w.size(); i > 1; --i) {
        std::swap(w[i - 1], w[r.below(i)]);
    }
    std::string what;
    switch (n % 5) {
    case 0:
        what = "a face is missing";
        w.pop_back();
        break;
    case 1:
        what = "a face is repeated";
        w[0] = w[1];
        break;
    case 2:
        what = "unknown name";
        w[r.below(w.size())] = r.pick(std::vector<std::string> {"W_left", "left", "X", "X_up", "1", "X_lefty"});
        break;
    case 3:
        what = "other case";
        w[r.below(w.size())][0] = 'x';
        break;
    default:
        what = "face of an absent direction or joined names";
        if (nd < 3 && r.coin()) {
            w[r.below(w.size())] = "Z_left";
        } else {
            w = {w[0] + w[1]};
        }
        break;
    }
    std::string list;
    for (auto const& x : w) {
        list += (list.empty() ? "" : " ") + x;
    }
    Ini c;
    c.set("Boundary Condition", "Priority", list);
    auto const param = make_param(c);
    bool threw = false;
    vunit::world(1, 1, [&](int) {
        Grid const g({8, nd > 1 ? 8 : 1, nd > 2 ? 8 : 1}, {1, 1, 1}, 2);
        try {
            DistributedBoundaryCondition const bcs(g, *param);
        } catch (std::exception const&) {
            threw = true;
        }
    });
    if (!threw) {
        vck::fail("priority.refuse", "priority list '" + list + "' accepted (" + what + ")");
    }
    vck::eval(vck::hash_str(list));
}

// the boundaries of whole runs, configured by name
static void run_case(long, Rng& r)
{
    Box b;
    int const ng = r.range(2, 3);
    for (int d = 0; d < nd; ++d) {
        b.n[d] = r.range(ng, nd == 3 ? 6 : 12);
    }
    auto const lay = pick_layout(r, b, 6, ng);
    int const P = prod(lay);
    if (spherical()) {
        b.lo[0] = 1, b.hi[0] = 2, b.lo[1] = 1, b.hi[1] = 2, b.hi[2] = 1;
    }
    int const nfx = r.coin(0.2) ? r.range(3, 10) : r.range(0, 2);
    Bcs const bc = vghost::random_bcs(r, nd);
    Ini c = base_ini(b);
    set_dims(c, lay);
    c.set("Grid", "Nghost", ng);
    c.set("Passive Scalar", "nfx", nfx);
    c.set("Parallelization", "mpi_device_aware", r.coin() ? "true" : "false");
    int const steps = r.range(1, 2);
    c.set("Output", "max_iter", steps);
    c.set("Run", "cfl", 0.1);
    if (!bc.priority.empty()) {
        c.set("Boundary Condition", "Priority", bc.priority);
    }
    // the same choice written in different ways
    auto name = [&](int f) { return std::string(vghost::kind_name[bc.kind[static_cast<std::size_t>(f)]]); };
    c.s["Boundary Condition"].erase("BC");
    std::string const common = r.coin() ? name(r.range(0, 2 * nd - 1)) : "";
    if (!common.empty()) {
        c.set("Boundary Condition", "BC", common);
    }
    for (int d = 0; d < nd; ++d) {
        std::string dir = common;
        if (r.coin()) {
            dir = name(2 * d + r.range(0, 1));
            c.set("Boundary Condition", fmt("BC_X%d", d), dir);
        }
        for (int f = 0; f < 2; ++f) {
            if (name(2 * d + f) != dir || r.coin(0.3)) {
                c.set("Boundary Condition", fmt("BC_X%d_%s", d, f == 0 ? "left" : "right"), name(2 * d + f));
            }
        }
    }
    std::uint64_t const seed = r.next();
    g_useed = r.next();
    double const ps = radgas() ? 1e12 : 1, rs = radgas() ? 1e-2 : 1, us = std::sqrt(ps / rs);
    vcase::hooks().init = [&, ps, rs, us](vcase::CellIn const& in) {
        vcase::CellState s {};
        s.rho = rs * (1 + h01(seed, 0, in.g[0], in.g[1], in.g[2]));
        s.P = ps * (1 + h01(seed, 1, in.g[0], in.g[1], in.g[2]));
        for (int d = 0; d < nd; ++d) {
            s.u[d] = us * 0.3 * (h01(seed, 2 + d, in.g[0], in.g[1], in.g[2]) - 0.5);
        }
        for (int f = 0; f < nfx; ++f) {
            s.fx[f] = h01(seed, 8 + f, in.g[0], in.g[1], in.g[2]);
        }
        return s;
    };
    auto scale = [&](int v) { return v == 0 ? rs : (v <= nd ? rs * us : (v == 1 + nd ? ps : 1)); };
    vcase::hooks().boundary = [&](int d, int f, Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int n) {
        write_user(d, f, g, rho, rhou, E, fx, ext, n);
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        int lo[3] = {0, 0, 0}, hi[3] = {ext[0], ext[1], ext[2]};
        int const gg = g.Nghost[static_cast<std::size_t>(d)];
        lo[d] = f == 0 ? 0 : ext[d] - gg;
        hi[d] = lo[d] + gg;
        for (int k = lo[2]; k < hi[2]; ++k) {
            for (int j = lo[1]; j < hi[1]; ++j) {
                for (int i = lo[0]; i < hi[0]; ++i) {
                    long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                    rho[l] *= scale(0);
                    for (int q = 0; q < nd; ++q) {
                        rhou[l + tot * q] *= scale(1);
                    }
                    E[l] *= scale(1 + nd);
                }
            }
        }
    };
    int const nv = 2 + nd + nfx;
    // states with ghosts of every step, per rank
    std::vector<std::vector<Local>> seen(static_cast<std::size_t>(steps), std::vector<Local>(static_cast<std::size_t>(P)));
    std::vector<int> calls(static_cast<std::size_t>(P), 0);
    c.set("Grid", "shift_grid", "UserDefined");
    vcase::hooks().shift = [&](Grid const& g, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int n) {
        auto const R = static_cast<std::size_t>(vshim::tl_rank);
        auto const s = static_cast<std::size_t>(calls[R]++);
        if (s >= seen.size()) {
            return false;
        }
        Local& l = seen[s][R];
        l.cmin = g.range.Corner_min;
        l.ext = {ext[0], ext[1], ext[2]};
        l.ng = g.Nghost;
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        l.v.clear();
        l.v.emplace_back(rho, rho + tot);
        for (int d = 0; d < nd; ++d) {
            l.v.emplace_back(rhou + tot * d, rhou + tot * (d + 1));
        }
        l.v.emplace_back(E, E + tot);
        for (int f = 0; f < n; ++f) {
            l.v.emplace_back(fx + tot * f, fx + tot * (f + 1));
        }
        return false;
    };
    RunOpt o;
    o.ranks = P;
    o.seed = r.next();
    o.order = r.coin() ? vshim::Order::random : vshim::Order::sequential;
    Run const x = run(c, o);
    clear_hooks();
    std::string const cfg = fmt("program n=%dx%dx%d ng=%d layout=%dx%dx%d nfx=%d %s", b.n[0], b.n[1], b.n[2], ng, lay[0], lay[1], lay[2], nfx, bc.show(nd).c_str());
    vck::eval(vck::hash_str(cfg));
    vck::sample(cfg);
    if (!x.ok()) {
        vck::fail("ghost.run", cfg + " run failed: " + x.why());
        drop(x);
        return;
    }
    drop(x);
    std::array<int, 3> const N {b.n[0], b.n[1], b.n[2]};
    for (int s = 0; s < steps; ++s) {
        auto const& ls = seen[static_cast<std::size_t>(s)];
        std::vector<Field> ref(static_cast<std::size_t>(nv), Field(N, ng, nd));
        bool complete = true;
        for (auto const& l : ls) {
            complete = complete && static_cast<int>(l.v.size()) == nv;
            for (int v = 0; complete && v < nv; ++v) {
                for (int k = l.ng[2]; k < l.ext[2] - l.ng[2]; ++k) {
                    for (int j = l.ng[1]; j < l.ext[1] - l.ng[1]; ++j) {
                        for (int i = l.ng[0]; i < l.ext[0] - l.ng[0]; ++i) {
                            ref[static_cast<std::size_t>(v)].at(i + l.cmin[0], j + l.cmin[1], k + l.cmin[2])
                                    = l.v[static_cast<std::size_t>(v)][static_cast<std::size_t>(i + static_cast<long>(l.ext[0]) * (j + static_cast<long>(l.ext[1]) * k))];
                        }
                    }
                }
            }
        }
        if (!complete) {
            vck::fail("ghost.run", cfg + fmt(" step %d was not seen on every rank", s));
            break;
        }
        vghost::fill(ref, bc, nd, [&](int face, int v, int const* q) { return model_user(face, v, q) * scale(v); });
        compare(cfg + fmt(" step %d", s), ls, ref, "inner face corner");
    }
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    long const k = vck::st().thorough ? 25 : 1;
    if (what == "halo") {
        vck::cases("halo", 250 * k, [](long n, Rng& r) { unit_case(false, n, r); });
        vck::cases("narrow", 3 * k, narrow_case);
        vck::cases("program", 12 * k, run_case);
    } else {
        vck::cases("faces", 300 * k, [](long n, Rng& r) { unit_case(true, n, r); });
        vck::cases("refuse", 40 * k, refuse_case);
        vck::cases("program", 25 * k, run_case);
    }
    return vck::finish();
}
