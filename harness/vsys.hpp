// Whole runs of the real program in simulated worlds, and what came out of them.
#pragma once
#include <hdf5.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <geom.hpp>
#include <grid.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <vcase.hpp>
#include <vck.hpp>
#include <vshim.hpp>
#include <vshim_pdi.hpp>

int hclpp_real_main(int, char**);

namespace vsys {

namespace fs = std::filesystem;

inline constexpr int nd = hclpp::ndim;
inline bool spherical() { return hclpp::geom == hclpp::Geometry::Geom_spherical; }
inline bool radgas() { return std::string(hclpp::eos_choice) == "RadGas"; }

inline std::string num(double v)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", v);
    return b;
}

// ---- configuration text ----
struct Ini
{
    std::map<std::string, std::map<std::string, std::string>> s;
    Ini& set(std::string const& sec, std::string const& key, std::string const& v)
    {
        s[sec][key] = v;
        return *this;
    }
    Ini& set(std::string const& sec, std::string const& key, double v) { return set(sec, key, num(v)); }
    Ini& set(std::string const& sec, std::string const& key, int v) { return set(sec, key, std::to_string(v)); }
    Ini& set(std::string const& sec, std::string const& key, char const* v) { return set(sec, key, std::string(v)); }
    std::string get(std::string const& sec, std::string const& key) const
    {
        auto a = s.find(sec);
        if (a == s.end()) {
            return "";
        }
        auto b = a->second.find(key);
        return b == a->second.end() ? "" : b->second;
    }
    std::string text() const
    {
        std::string o;
        for (auto const& [sec, kv] : s) {
            o += "[" + sec + "]\n";
            for (auto const& [k, v] : kv) {
                o += k + " = " + v + "\n";
            }
        }
        return o;
    }
};

struct Box
{
    int n[3] = {1, 1, 1};
    double lo[3] = {0, 0, 0};
    double hi[3] = {1, 1, 1};
    long cells() const { return static_cast<long>(n[0]) * n[1] * n[2]; }
    long at(int i, int j, int k) const { return (static_cast<long>(k) * n[1] + j) * n[0] + i; }
};

inline Ini base_ini(Box const& b)
{
    Ini c;
    for (int d = 0; d < 3; ++d) {
        c.set("Grid", vck::fmt("Nx%d_glob", d), b.n[d]);
        c.set("Grid", vck::fmt("x%dmin", d), b.lo[d]);
        c.set("Grid", vck::fmt("x%dmax", d), b.hi[d]);
    }
    c.set("Boundary Condition", "BC", "Periodic");
    c.set("Run", "t_end", 1e300);
    c.set("Output", "max_iter", 3);
    return c;
}

inline void set_dims(Ini& c, std::array<int, 3> const& d)
{
    for (int i = 0; i < 3; ++i) {
        c.set("Parallelization", vck::fmt("mpi_dims_cart_x%d", i), d[static_cast<std::size_t>(i)]);
    }
}

// all factorisations of p over the first nd directions that leave at least mincells cells on every rank
inline std::vector<std::array<int, 3>> layouts(int p, Box const& b, int mincells)
{
    std::vector<std::array<int, 3>> r;
    for (int a = 1; a <= p; ++a) {
        for (int c = 1; a * c <= p; ++c) {
            if (p % (a * c) != 0) {
                continue;
            }
            std::array<int, 3> const d {a, c, p / a / c};
            bool ok = true;
            for (int i = 0; i < 3; ++i) {
                ok = ok && (i < nd || d[static_cast<std::size_t>(i)] == 1) && b.n[i] / d[static_cast<std::size_t>(i)] >= (i < nd ? mincells : 1);
            }
            if (ok) {
                r.push_back(d);
            }
        }
    }
    return r;
}
// a random layout of 1..maxp ranks
inline std::array<int, 3> pick_layout(vck::Rng& r, Box const& b, int maxp, int mincells = 2, int minp = 1)
{
    for (int t = 0; t < 50; ++t) {
        int const p = r.range(minp, maxp);
        auto l = layouts(p, b, mincells);
        if (!l.empty()) {
            return l[r.below(l.size())];
        }
    }
    return {1, 1, 1};
}
inline int prod(std::array<int, 3> const& d) { return d[0] * d[1] * d[2]; }

// ---- HDF5 ----
struct H5
{
    bool ok = false;
    std::map<std::string, std::vector<double>> d;
    std::map<std::string, std::vector<long>> dims;
    std::map<std::string, std::string> attr;
    double scalar(std::string const& n) const
    {
        auto it = d.find(n);
        return it == d.end() || it->second.empty() ? NAN : it->second[0];
    }
    bool has(std::string const& n) const { return d.count(n) > 0; }
    std::vector<double> const& f(std::string const& n) const
    {
        static std::vector<double> const none;
        auto it = d.find(n);
        return it == d.end() ? none : it->second;
    }
};

inline H5 load_h5(std::string const& path)
{
    H5 h;
    hid_t const f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) {
        return h;
    }
    h.ok = true;
    hsize_t n = 0;
    H5Gget_num_objs(f, &n);
    for (hsize_t i = 0; i < n; ++i) {
        char name[256];
        H5Gget_objname_by_idx(f, i, name, sizeof name);
        hid_t const ds = H5Dopen2(f, name, H5P_DEFAULT);
        if (ds < 0) {
            continue;
        }
        hid_t const sp = H5Dget_space(ds);
        int const rank = H5Sget_simple_extent_ndims(sp);
        hsize_t dim[8] = {0};
        H5Sget_simple_extent_dims(sp, dim, nullptr);
        std::size_t tot = 1;
        std::vector<long> dv;
        for (int r = 0; r < rank; ++r) {
            tot *= dim[r];
            dv.push_back(static_cast<long>(dim[r]));
        }
        std::vector<double> v(tot);
        if (H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0) {
            h.d[name] = std::move(v);
            h.dims[name] = dv;
        }
        H5Sclose(sp);
        H5Dclose(ds);
    }
    hid_t const root = H5Gopen2(f, "/", H5P_DEFAULT);
    int const na = H5Aget_num_attrs(root);
    for (int i = 0; i < na; ++i) {
        hid_t const a = H5Aopen_idx(root, static_cast<unsigned>(i));
        char name[256];
        H5Aget_name(a, sizeof name, name);
        hid_t const t = H5Aget_type(a);
        std::string s(H5Tget_size(t), '\0');
        H5Aread(a, t, s.data());
        while (!s.empty() && s.back() == '\0') {
            s.pop_back();
        }
        h.attr[name] = s;
        H5Tclose(t);
        H5Aclose(a);
    }
    H5Gclose(root);
    H5Fclose(f);
    return h;
}

// ---- runs ----
struct Run
{
    vshim::WorldResult w;
    std::string dir; // directory of the outputs
    std::string prefix = "result";
    std::vector<std::string> files; // sorted .h5 names
    std::string xmf;
    vshim::MpiReport mpi;
    vshim::PdiLog pdi;
    bool ok() const { return w.ok; }
    H5 load(int i) const { return load_h5(dir + "/" + files.at(static_cast<std::size_t>(i))); }
    H5 last() const { return files.empty() ? H5 {} : load_h5(dir + "/" + files.back()); }
    std::string why() const
    {
        std::string s = w.cerr_text;
        for (std::size_t r = 0; r < w.rc.size(); ++r) {
            s += " rc" + std::to_string(r) + "=" + std::to_string(w.rc[r]);
        }
        for (auto const& e : w.err) {
            s += " " + e;
        }
        return s;
    }
};

inline std::string slurp(std::string const& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

inline long& run_counter()
{
    static long c = 0;
    return c;
}

// text after key in the standard output, as a number
inline double after(std::string const& text, std::string const& key)
{
    auto p = text.find(key);
    return p == std::string::npos ? NAN : std::atof(text.c_str() + p + key.size());
}

struct RunOpt
{
    int ranks = 1;
    std::uint64_t seed = 1; // schedule, kernel order, rank numbering
    vshim::Order order = vshim::Order::sequential;
    bool keep = false; // keep the directory after the run (otherwise the caller removes it with drop())
    std::string dir; // use this directory
    std::vector<std::string> extra_args;
};

inline Run run(Ini c, RunOpt const& o)
{
    Run r;
    std::string const base = o.dir.empty() ? vck::st().dir + "/run" + std::to_string(run_counter()++) : o.dir;
    fs::create_directories(base);
    r.dir = base;
    if (c.get("Output", "directory").empty()) {
        c.set("Output", "directory", base);
    } else {
        r.dir = c.get("Output", "directory");
    }
    if (!c.get("Output", "prefix").empty()) {
        r.prefix = c.get("Output", "prefix");
    }
    std::string const ini = base + "/run.ini";
    {
        std::ofstream f(ini, std::ios::binary);
        f << c.text();
    }
    vshim::pdi_reset();
    vshim::config().order = o.order;
    vshim::config().seed = o.seed;
    r.w = vshim::run_world(o.ranks, o.seed, [&](int) {
        std::vector<std::string> args {"hera", ini};
        args.insert(args.end(), o.extra_args.begin(), o.extra_args.end());
        std::vector<char*> argv;
        for (auto& a : args) {
            argv.push_back(a.data());
        }
        argv.push_back(nullptr);
        return hclpp_real_main(static_cast<int>(args.size()), argv.data());
    });
    vshim::config().order = vshim::Order::sequential;
    r.mpi = vshim::last_mpi_report();
    r.pdi = vshim::pdi_log();
    if (vck::st().opt["only"] == "protocol") {
        std::string n;
        for (auto const& q : r.mpi.notes) {
            n += " " + q;
        }
        if (!n.empty() || r.mpi.leaked_comms != 0 || r.mpi.unmatched_sends != 0 || r.mpi.inits != o.ranks || r.mpi.finalizes != o.ranks) {
            vck::fail("protocol.run_of_setup",
                      vck::fmt("%d ranks start message passing %d times and end it %d times, %ld communicators and %ld messages are left;%s %s", o.ranks, r.mpi.inits, r.mpi.finalizes,
                               r.mpi.leaked_comms, r.mpi.unmatched_sends, n.c_str(), r.why().c_str()));
        }
    }
    if (fs::exists(r.dir)) {
        for (auto const& e : fs::directory_iterator(r.dir)) {
            if (e.path().extension() == ".h5") {
                r.files.push_back(e.path().filename().string());
            }
        }
    }
    std::sort(r.files.begin(), r.files.end());
    r.xmf = slurp(r.dir + "/" + r.prefix + ".xmf");
    vck::stat("program_runs");
    vck::stat("program_ranks", o.ranks);
    return r;
}

inline void drop(Run const& r)
{
    std::string const base = vck::st().dir;
    if (r.dir.rfind(base, 0) == 0 && r.dir.size() > base.size() + 1) {
        std::error_code ec;
        fs::remove_all(r.dir, ec);
    }
}

// ---- observation of the evolved state through the user shift criterion and the user step ----
struct Step
{
    int cells_seen = 0;
    double t = NAN, dt = NAN;
    std::vector<double> rho, E, m[3];
    std::vector<std::vector<double>> fx;
};
struct RankSteps
{
    std::vector<std::pair<double, double>> tdt;
};
struct Observer
{
    Box box;
    bool states = true;
    std::vector<Step> steps; // after the k-th step, after the boundary conditions
    std::vector<RankSteps> ranks;
    std::vector<std::string> problems;
    std::vector<int> shift_calls;
    std::vector<int> owner; // rank that holds each global cell
};

// installs hooks that record every step; the configuration must use user_step and shift_grid = UserDefined
inline void observe(Observer& ob, Box const& box, int nranks, Ini& c)
{
    ob.box = box;
    ob.steps.clear();
    ob.problems.clear();
    ob.ranks.assign(static_cast<std::size_t>(nranks), {});
    ob.shift_calls.assign(static_cast<std::size_t>(nranks), 0);
    ob.owner.assign(static_cast<std::size_t>(box.cells()), -1);
    c.set("User step", "user_step", "UserDefined");
    c.set("Grid", "shift_grid", "UserDefined");
    vcase::hooks().user_step = [&ob](hclpp::Range const&, double t, double dt, double*, double*, double*, int const*, int) {
        int const r = vshim::tl_rank;
        ob.ranks[static_cast<std::size_t>(r)].tdt.emplace_back(t, dt);
    };
    vcase::hooks().shift = [&ob](hclpp::Grid const& g, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx) {
        int const r = vshim::tl_rank;
        std::size_t const s = static_cast<std::size_t>(ob.shift_calls[static_cast<std::size_t>(r)]++);
        if (!ob.states) {
            return false;
        }
        while (ob.steps.size() <= s) {
            Step st;
            auto const n = static_cast<std::size_t>(ob.box.cells());
            st.rho.assign(n, NAN);
            st.E.assign(n, NAN);
            for (int d = 0; d < nd; ++d) {
                st.m[d].assign(n, NAN);
            }
            st.fx.assign(static_cast<std::size_t>(nfx), std::vector<double>(n, NAN));
            ob.steps.push_back(std::move(st));
        }
        Step& st = ob.steps[s];
        if (s < ob.ranks[static_cast<std::size_t>(r)].tdt.size()) {
            st.t = ob.ranks[static_cast<std::size_t>(r)].tdt[s].first;
            st.dt = ob.ranks[static_cast<std::size_t>(r)].tdt[s].second;
        }
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        for (int k = 0; k < g.Nx_local_ng[2]; ++k) {
            for (int j = 0; j < g.Nx_local_ng[1]; ++j) {
                for (int i = 0; i < g.Nx_local_ng[0]; ++i) {
                    long const l = (i + g.Nghost[0]) + static_cast<long>(ext[0]) * ((j + g.Nghost[1]) + static_cast<long>(ext[1]) * (k + g.Nghost[2]));
                    auto const q = static_cast<std::size_t>(ob.box.at(i + g.range.Corner_min[0], j + g.range.Corner_min[1], k + g.range.Corner_min[2]));
                    st.rho[q] = rho[l];
                    st.E[q] = E[l];
                    for (int d = 0; d < nd; ++d) {
                        st.m[d][q] = rhou[l + tot * d];
                    }
                    for (int f = 0; f < nfx; ++f) {
                        st.fx[static_cast<std::size_t>(f)][q] = fx[l + tot * f];
                    }
                    ob.owner[q] = r;
                    ++st.cells_seen;
                }
            }
        }
        return false;
    };
}
inline void clear_hooks() { vcase::hooks() = vcase::Hooks {}; }

// ---- initial states ----
// value in [0,1) attached to (seed, channel, cell)
inline double h01(std::uint64_t seed, int ch, int i, int j, int k)
{
    vck::Rng r(vck::mix(vck::mix(seed, static_cast<std::uint64_t>(ch) * 1000003ULL), (static_cast<std::uint64_t>(i + 1000) << 40) ^ (static_cast<std::uint64_t>(j + 1000) << 20) ^ static_cast<std::uint64_t>(k + 1000)));
    return r.u01();
}

// volume and left-face areas of cells of a given mesh, from the definitions (used as reference)
inline double cell_volume(double const* x0, double const* x1, double const* x2, int i, int j, int k)
{
    long double const a = x0[i], b = x0[i + 1];
    if (!spherical()) {
        return static_cast<double>((b - a) * ((long double)x1[j + 1] - x1[j]) * ((long double)x2[k + 1] - x2[k]));
    }
    long double const pi = 3.14159265358979323846264338327950288L;
    long double const r3 = (b * b * b - a * a * a) / 3;
    if (nd == 1) {
        return static_cast<double>(4 * pi * r3);
    }
    long double const dc = cosl(x1[j]) - cosl(x1[j + 1]);
    if (nd == 2) {
        return static_cast<double>(2 * pi * r3 * dc);
    }
    return static_cast<double>(r3 * dc * ((long double)x2[k + 1] - x2[k]));
}

struct Mesh
{
    std::vector<double> x[3]; // interior nodes
    double vol(int i, int j, int k) const { return cell_volume(x[0].data(), x[1].data(), x[2].data(), i, j, k); }
};
inline Mesh regular_mesh(Box const& b)
{
    Mesh m;
    for (int d = 0; d < 3; ++d) {
        double const dx = (b.hi[d] - b.lo[d]) / b.n[d];
        for (int i = 0; i <= b.n[d]; ++i) {
            m.x[d].push_back(b.lo[d] + i * dx);
        }
    }
    return m;
}

inline std::string const vel_name[3] = {"ux0", "ux1", "ux2"};

} // namespace vsys
