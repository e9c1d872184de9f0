// C38: what a run says about itself (settings, progress, summary, end) and the command line it honours.
#include <vphys.hpp>
#include <vclock.hpp>
#include <vsys.hpp>

#include <config.yaml.hpp>

using namespace vsys;
using vck::Rng;
using vphys::Gas;

static Gas gas() { return Gas {5.0L / 3, 1, radgas()}; }

static std::vector<std::string> lines(std::string const& s)
{
    std::vector<std::string> v;
    std::stringstream ss(s);
    std::string l;
    while (std::getline(ss, l)) {
        v.push_back(l);
    }
    return v;
}

// name....value
static std::map<std::string, std::vector<std::string>> settings(std::string const& text)
{
    std::map<std::string, std::vector<std::string>> m;
    for (auto const& l : lines(text)) {
        auto const a = l.find("..");
        if (a == std::string::npos || a == 0) {
            continue;
        }
        auto const b = l.find_first_not_of('.', a);
        // a value may itself start with a dot or a slash: it is what follows the filling
        m[l.substr(0, a)].push_back(b == std::string::npos ? "" : l.substr(b));
    }
    return m;
}

static std::vector<double> all_after(std::string const& text, std::string const& key)
{
    std::vector<double> v;
    for (auto p = text.find(key); p != std::string::npos; p = text.find(key, p + 1)) {
        v.push_back(std::atof(text.c_str() + p + key.size()));
    }
    return v;
}

struct Status
{
    double iter, time, percent, file;
};
static std::vector<Status> statuses(std::string const& text)
{
    std::vector<Status> v;
    auto const it = all_after(text, "current iteration "), t = all_after(text, "current time = "), f = all_after(text, "file number  = ");
    std::vector<double> pc;
    for (auto p = text.find("current time = "); p != std::string::npos; p = text.find("current time = ", p + 1)) {
        auto const e = text.find('\n', p);
        auto const q = text.find("( ~ ", p);
        pc.push_back(q < e ? std::atof(text.c_str() + q + 4) : NAN);
    }
    std::size_t const n = std::max({it.size(), t.size(), f.size()});
    auto at = [](std::vector<double> const& w, std::size_t i) { return i < w.size() ? w[i] : NAN; };
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back({at(it, i), at(t, i), at(pc, i), at(f, i)});
    }
    return v;
}

// what the stream prints of a number: six digits
static bool shown(double said, double v) { return vphys::near(said, v, 6e-6, 1e-300); }

struct Case
{
    Box b;
    Ini c;
    std::array<int, 3> lay {1, 1, 1};
    std::array<int, 3> asked {0, 0, 0};
    int ranks = 1, ng = 2, nfx = 0, steps = 1;
    double t_end = 0;
    std::uint64_t seed = 0;
    vphys::Scale sc {};
    double amp = 0.1;
    std::vector<int> shifts; // steps after which the mesh moves
    double per_step = 1000; // seconds of the clock per step
    std::string text() const
    {
        return vck::fmt("n=%dx%dx%d layout=%dx%dx%d asked %d,%d,%d ng=%d nfx=%d steps=%d%s", b.n[0], b.n[1], b.n[2], lay[0], lay[1], lay[2], asked[0], asked[1], asked[2], ng, nfx, steps,
                        shifts.empty() ? "" : " moving grid");
    }
};

static std::array<int, 3> some_layout(Rng& r, Case const& k, int most)
{
    auto l = pick_layout(r, k.b, most, k.ng);
#if defined(HERACLESPP_GRAVITY_Internal_mass)
    l[0] = 1; // refused otherwise
#endif
    return l;
}

static Case make(Rng& r)
{
    Case k;
    Gas const g = gas();
    for (int d = 0; d < 3; ++d) {
        k.b.n[d] = d < nd ? r.range(5, nd == 3 ? 8 : 14) : 1;
        if (spherical()) {
            k.b.lo[d] = d == 0 ? r.uni(0.5, 2) : (d == 1 ? r.uni(0.3, 1) : r.uni(0, 1));
            k.b.hi[d] = k.b.lo[d] + r.uni(0.5, 1.5);
        } else {
            k.b.lo[d] = r.uni(-2, 1);
            k.b.hi[d] = k.b.lo[d] + r.loguni(0.3, 3);
        }
    }
    k.ng = r.pick(std::vector<int> {2, 2, 3, 4});
    k.nfx = r.pick(std::vector<int> {0, 0, 1, 3, 10});
    k.lay = some_layout(r, k, 8);
    k.ranks = prod(k.lay);
    k.c = base_ini(k.b);
    k.asked = k.lay;
    if (k.ranks == 1 && r.coin()) {
        k.asked = {0, 0, 0}; // left to the library
    } else if (r.coin(0.3) && k.lay[0] > 1) {
        k.asked[0] = 0;
    } else if (r.coin(0.3)) {
        k.asked[1 + r.below(2)] = 0;
    }
    set_dims(k.c, k.asked);
    if (k.ng != 2) {
        k.c.set("Grid", "Nghost", k.ng);
    }
    if (k.nfx) {
        k.c.set("Passive Scalar", "nfx", k.nfx);
    }
    k.steps = r.range(2, 7);
    k.c.set("Output", "max_iter", k.steps);
    k.c.set("Output", "time_job", 100000);
    if (r.coin(0.8)) {
        k.c.set("Output", "iter_frequency", r.range(1, 3));
    }
    k.c.set("Run", "cfl", r.uni(0.1, 0.4));
    k.c.set("Hydro", "riemann_solver", r.pick(std::vector<std::string> {"HLL", "HLLC", "Low Mach"}));
    if (r.coin(0.3)) {
        k.c.set("Pressure fix", "pressure_fix", "On");
    }
    if (r.coin(0.3)) {
        k.c.set("Pressure fix", "eps_pf", r.pick(std::vector<double> {1e-3, 0.25, 1.5e-9}));
    }
    if (r.coin(0.3)) {
        k.c.set("Parallelization", "mpi_device_aware", r.coin() ? "true" : "off");
    }
    k.sc = vphys::scale(g, r);
    k.amp = r.uni(0.05, 0.3);
    k.seed = r.next();
    // a time of the order of the run, so that the percentage means something
    double w = 1e300;
    for (int d = 0; d < nd; ++d) {
        w = std::min(w, (k.b.hi[d] - k.b.lo[d]) / k.b.n[d]);
    }
    double const cs = static_cast<double>(g.c_P(k.sc.rho, k.sc.P));
    k.t_end = w / (cs + std::fabs(k.sc.u)) * r.loguni(5, 500);
    if (r.coin(0.2)) {
        double const t0 = k.t_end * r.uni(-0.5, 0.5);
        k.c.set("Run", "t_ini", t0);
    }
    k.c.set("Run", "t_end", k.t_end);
    if (r.coin(0.3)) {
        k.c.set("Boundary Condition", "BC", "NullGradient");
        for (int s = 1; s <= k.steps; ++s) {
            if (r.coin(0.4)) {
                k.shifts.push_back(s);
            }
        }
    }
    k.per_step = r.loguni(1e3, 1e5);
    return k;
}

struct Seen
{
    std::vector<std::vector<std::pair<double, double>>> tdt; // per rank
    std::vector<int> calls;
};

static Run go(Case const& k, Ini c, int ranks, std::uint64_t seed, Seen& s, std::vector<int> const& shifts, std::vector<std::string> args = {}, std::string const& dir = "")
{
    s.tdt.assign(static_cast<std::size_t>(ranks), {});
    s.calls.assign(static_cast<std::size_t>(ranks), 0);
    c.set("User step", "user_step", "UserDefined");
    c.set("Grid", "shift_grid", "UserDefined");
    auto const seed0 = k.seed;
    auto const sc = k.sc;
    double const amp = k.amp;
    vcase::hooks().init = [=](vcase::CellIn const& q) {
        vcase::CellState w {};
        w.rho = sc.rho * std::exp(amp * (h01(seed0, 0, q.g[0], q.g[1], q.g[2]) - 0.5));
        w.P = sc.P * std::exp(amp * (h01(seed0, 1, q.g[0], q.g[1], q.g[2]) - 0.5));
        for (int d = 0; d < 3; ++d) {
            w.u[d] = sc.u * amp * (h01(seed0, 2 + d, q.g[0], q.g[1], q.g[2]) - 0.5);
        }
        for (int f = 0; f < 10; ++f) {
            w.fx[f] = h01(seed0, 10 + f, q.g[0], q.g[1], q.g[2]);
        }
        return w;
    };
    vcase::hooks().user_step = [&s](hclpp::Range const&, double t, double dt, double*, double*, double*, int const*, int) {
        s.tdt[static_cast<std::size_t>(vshim::tl_rank)].emplace_back(t, dt);
    };
    vcase::hooks().shift = [&s, shifts](hclpp::Grid const&, double const*, double const*, double const*, double const*, int const*, int) {
        int const n = ++s.calls[static_cast<std::size_t>(vshim::tl_rank)];
        return std::find(shifts.begin(), shifts.end(), n) != shifts.end();
    };
    double const per = k.per_step;
    vclock::extra() = [&s, per] {
        int const p = vshim::tl_rank;
        return p < 0 ? 0. : (7 + p) + static_cast<double>(s.tdt[static_cast<std::size_t>(p)].size()) * per / 3600;
    };
    RunOpt o;
    o.ranks = ranks;
    o.seed = seed;
    o.extra_args = std::move(args);
    o.dir = dir;
    Run x = run(c, o);
    vclock::extra() = nullptr;
    clear_hooks();
    return x;
}

static void judge(Case const& k, Ini const& c, std::array<int, 3> const& asked, int ranks, Run const& x, Seen const& s, std::vector<int> const& shifts, std::string const& cfg, bool restarted, H5 const& from,
                  std::string const& from_name, std::size_t first_file, double base_rmax)
{
    auto bad = [&](char const* what, std::string const& m) { vck::fail(std::string("report.") + what, cfg + " " + m); };
    if (!x.ok()) {
        bad("run", "failed: " + x.why());
        return;
    }
    for (int p = 0; p < ranks; ++p) {
        if (x.w.rc[static_cast<std::size_t>(p)] != 0) {
            bad("code", vck::fmt("rank %d ends with code %d", p, x.w.rc[static_cast<std::size_t>(p)]));
        }
    }
    std::string const& out = x.w.cout_text;
    auto const m = settings(out);
    auto one = [&](std::string const& name) -> std::string {
        auto it = m.find(name);
        if (it == m.end() || it->second.size() != 1) {
            bad("settings", vck::fmt("%s is printed %zu times", name.c_str(), it == m.end() ? std::size_t(0) : it->second.size()));
            return "";
        }
        return it->second[0];
    };
    auto is = [&](std::string const& name, std::string const& v) {
        auto const g = one(name);
        vck::stat("settings_checked");
        if (g != v) {
            bad("settings", name + " is said to be <" + g + ">, it is <" + v + ">");
        }
    };
    auto isn = [&](std::string const& name, int v) { is(name, std::to_string(v)); };
    auto opt = [&](char const* sec, char const* key, std::string const& def) {
        auto const v = c.get(sec, key);
        return v.empty() ? def : v;
    };
    isn("Ndim", nd);
    isn("mpi_size", ranks);
    isn("nfx", k.nfx);
    int total = 1;
    for (int d = 0; d < 3; ++d) {
        int const gh = d < nd ? k.ng : 0;
        isn(vck::fmt("Nghost[%d]", d), gh);
        isn(vck::fmt("Nx_glob_ng[%d]", d), k.b.n[d]);
        isn(vck::fmt("mpi_dims_cart_x%d", d), asked[static_cast<std::size_t>(d)]);
        int const p = std::atoi(one(vck::fmt("mpi_dims_cart[%d]", d)).c_str());
        total *= p;
        if (p < 1 || (asked[static_cast<std::size_t>(d)] != 0 && p != asked[static_cast<std::size_t>(d)])) {
            bad("settings", vck::fmt("%d processes along direction %d, %d were requested", p, d, asked[static_cast<std::size_t>(d)]));
            return;
        }
        // the block of the rank that prints
        int const nx = std::atoi(one(vck::fmt("Nx[%d]", d)).c_str());
        if (nx != k.b.n[d] / p && nx != (k.b.n[d] + p - 1) / p) {
            bad("settings", vck::fmt("%d cells along direction %d for one of %d processes, %d in all", nx, d, p, k.b.n[d]));
        }
        isn(vck::fmt("Nx_local_wg[%d]", d), nx + 2 * gh);
        isn(vck::fmt("Corner_min[%d]", d), 0);
        isn(vck::fmt("Corner_max[%d]", d), nx);
    }
    if (total != ranks) {
        bad("settings", vck::fmt("the process counts multiply to %d on %d ranks", total, ranks));
    }
    is("setup", "verif");
    is("eos", radgas() ? "RadGas" : "PerfectGas");
    is("geometry", spherical() ? "Spherical" : "Cartesian");
    is("gravity",
#if defined(HERACLESPP_GRAVITY_Uniform)
       "Uniform"
#elif defined(HERACLESPP_GRAVITY_Point_mass)
       "Point_mass"
#else
       "Internal_mass"
#endif
    );
    auto const da = opt("Parallelization", "mpi_device_aware", "false");
    auto truth = [](std::string v) { return v == "1" || v == "true"; };
    if (truth(one("restart")) != restarted || truth(one("mpi_device_aware")) != (da == "true")) {
        bad("settings", "restart is said to be " + one("restart") + ", mpi_device_aware " + one("mpi_device_aware"));
    }
    is("restart_file", restarted ? from_name : "None");
    is("pressure_fix", opt("Pressure fix", "pressure_fix", "Off"));
    is("riemann_solver", opt("Hydro", "riemann_solver", "HLL"));
    is("user_step", "UserDefined");
    if (!shown(std::atof(one("eps_pf").c_str()), std::atof(opt("Pressure fix", "eps_pf", "0.000001").c_str()))) {
        bad("settings", "eps_pf is said to be " + one("eps_pf"));
    }
    is("git_branch", "verif-branch");
    is("git_build_string", "verif-build");
    is("compile_date", "01/02/03");
    is("compile_time", "04:05:06");
    // restart line
    auto const where = out.find("restarting from file ");
    if ((where != std::string::npos) != restarted) {
        bad("restart", restarted ? "a restart is not announced" : "announces a restart");
    } else if (restarted) {
        if (out.compare(where + 21, from_name.size() + 1, from_name + "\n") != 0) {
            bad("restart", "announces another file than " + from_name);
        }
        auto const rest = out.substr(where);
        if (!shown(after(rest, "at time "), from.scalar("current_time")) || after(rest, "with iteration  ") != from.scalar("iter")
            || !shown(after(rest, "( ~ "), 100 * from.scalar("current_time") / k.t_end)) {
            bad("restart", vck::fmt("announces time %g iteration %g of an output at %.17g, %g", after(rest, "at time "), after(rest, "with iteration  "), from.scalar("current_time"), from.scalar("iter")));
        }
    }
    // progress: one entry for each output of this run
    auto const st = statuses(out);
    if (x.files.size() < first_file || st.size() != x.files.size() - first_file) {
        bad("progress", vck::fmt("%zu entries for %zu outputs", st.size(), x.files.size() - first_file));
    } else {
        for (std::size_t i = 0; i < st.size(); ++i) {
            H5 const h = x.load(static_cast<int>(first_file + i));
            double const t = h.scalar("current_time");
            if (st[i].iter != h.scalar("iter") || !shown(st[i].time, t) || !shown(st[i].percent, 100 * t / k.t_end) || st[i].file != h.scalar("output_id")) {
                bad("progress", vck::fmt("entry %zu says iteration %g time %g %g%% file %g; output %g has iteration %g at %.17g (%.17g%%)", i, st[i].iter, st[i].time, st[i].percent, st[i].file,
                                         h.scalar("output_id"), h.scalar("iter"), t, 100 * t / k.t_end));
            }
            vck::stat("progress_entries");
        }
    }
    // moves of the grid
    auto const& td = s.tdt[0];
    auto const it0 = restarted ? static_cast<int>(from.scalar("iter")) : 0;
    auto const at = all_after(out, "Shifting grid at time = "), rm = all_after(out, "Rmax = ");
    std::vector<int> done;
    for (int const q : shifts) {
        if (q <= static_cast<int>(td.size())) {
            done.push_back(q);
        }
    }
    if (at.size() != done.size() || rm.size() != done.size()) {
        bad("shift", vck::fmt("%zu moves of the grid announced, %zu made", at.size(), done.size()));
    } else {
        double const dx = (k.b.hi[0] - k.b.lo[0]) / k.b.n[0];
        for (std::size_t i = 0; i < done.size(); ++i) {
            auto const q = static_cast<std::size_t>(done[i] - 1);
            double const r1 = base_rmax + static_cast<double>(i + 1) * dx;
            if (!vphys::near(at[i], td[q].first, 6e-6, 1e-300) || !vphys::near(rm[i], r1, 6e-6, 2e-6 * (std::fabs(k.b.lo[0]) + std::fabs(k.b.hi[0])))) {
                bad("shift", vck::fmt("move %zu is announced at %g with the outer radius %g, made at %.17g with %.17g", i, at[i], rm[i], td[q].first, r1));
            }
            vck::stat("moves_announced");
        }
        auto const itn = [&] {
            std::vector<double> v;
            for (auto p = out.find("Shifting grid"); p != std::string::npos; p = out.find("Shifting grid", p + 1)) {
                v.push_back(after(out.substr(p), "iteration = "));
            }
            return v;
        }();
        for (std::size_t i = 0; i < done.size() && i < itn.size(); ++i) {
            if (itn[i] != it0 + done[i] - 1) {
                bad("shift", vck::fmt("move %zu is announced at iteration %g instead of %d", i, itn[i], it0 + done[i] - 1));
            }
        }
    }
    // summary
    if (td.empty()) {
        bad("run", "no steps");
        return;
    }
    auto once = [&](char const* key) {
        auto const v = all_after(out, key);
        if (v.size() != 1) {
            bad("summary", vck::fmt("'%s' is printed %zu times", key, v.size()));
            return static_cast<double>(NAN);
        }
        return v[0];
    };
    double const tf = td.back().first + td.back().second;
    if (!shown(once("Final time = "), tf) || once("number of iterations = ") != it0 + static_cast<double>(td.size())) {
        bad("summary", vck::fmt("final time %g and %g iterations, the run ends at %.17g after %zu steps from iteration %d", once("Final time = "), once("number of iterations = "), tf, td.size(), it0));
    }
    double const perf = 1e-6 * static_cast<double>(k.b.cells()) * static_cast<double>(td.size()) / (k.per_step * static_cast<double>(td.size()));
    if (!vphys::near(once("Mean performance: "), perf, 0.02)) {
        bad("performance", vck::fmt("%g million cells per second: %zu steps of %ld cells in %g seconds are %g", once("Mean performance: "), td.size(), k.b.cells(), k.per_step * static_cast<double>(td.size()), perf));
    }
    once("Initial mass = ");
    once("--- End ---");
    auto const e = out.find("--- End ---");
    if (e != std::string::npos && out.find_first_not_of(" \n", e + 11) != std::string::npos) {
        bad("summary", "something follows the end of the summary");
    }
    if (!x.w.cerr_text.empty()) {
        bad("errors", "a run without error writes to the error stream: " + x.w.cerr_text.substr(0, 200));
    }
}

static void report_case(long, Rng& r)
{
    Case const k = make(r);
    Seen s;
    Run const x = go(k, k.c, k.ranks, r.next(), s, k.shifts);
    double const top = k.b.hi[0];
    judge(k, k.c, k.asked, k.ranks, x, s, k.shifts, k.text(), false, {}, "", 0, top);
    vck::eval(vck::hash_str(k.text()));
    vck::sample(k.text());
    if (x.ok() && x.files.size() >= 2 && k.shifts.empty() && r.coin(0.6)) {
        // continue from one of its outputs on another layout
        std::size_t const f = r.below(x.files.size() - 1) + 0;
        H5 const h = x.load(static_cast<int>(f));
        int const it = static_cast<int>(h.scalar("iter"));
        auto const lay = some_layout(r, k, 6);
        Ini c = k.c;
        set_dims(c, lay);
        std::string const from = x.dir + "/" + x.files[f];
        c.set("Problem", "restart", "true");
        c.set("Problem", "restart_file", from);
        c.set("Output", "max_iter", it + r.range(1, 4));
        c.set("Output", "directory", x.dir + "/again");
        fs::create_directories(x.dir + "/again");
        Seen s2;
        Run const y = go(k, c, prod(lay), r.next(), s2, {}, {}, x.dir + "/again");
        std::string const cfg = k.text() + vck::fmt(" restarted at iteration %d on %dx%dx%d", it, lay[0], lay[1], lay[2]);
        judge(k, c, lay, prod(lay), y, s2, {}, cfg, true, h, from, 0, top);
        vck::eval(vck::hash_str(cfg));
        vck::stat("restarts");
    }
    drop(x);
}

// ---------------------------------------------------------------------------------------------------------------------
// another data description replaces the built-in one, and only then
static void description_case(long n, Rng& r)
{
    Case k = make(r);
    k.shifts.clear();
    std::string const text = ::io_config;
    bool const changed = n % 2 == 1;
    std::string other = text;
    if (changed) {
        // gamma goes to a dataset of another name
        auto const w = other.find("write:\n");
        std::string const a = "gamma:\n";
        auto const p = other.find(a, w == std::string::npos ? 0 : w);
        if (w == std::string::npos || p == std::string::npos) {
            vck::stat("description_not_understood");
            return;
        }
        auto const indent = p - other.rfind('\n', p) - 1;
        other.insert(p + a.size(), std::string(indent + 2, ' ') + "dataset: gamma_of_run\n");
    }
    std::string const file = vck::st().dir + vck::fmt("/description%s.yml", r.coin() ? " with blank" : "");
    {
        std::ofstream f(file);
        f << other;
    }
    std::uint64_t const seed = r.next();
    Seen s, s2;
    Run const x = go(k, k.c, k.ranks, seed, s, {});
    std::vector<std::string> args {"--pdi-config=" + file};
    if (r.coin()) {
        args.insert(args.begin(), "--some-other-option=1");
    }
    if (r.coin()) {
        args.push_back("--kokkos-num-threads=1");
    }
    Run const y = go(k, k.c, k.ranks, seed, s2, {}, args);
    std::string const cfg = k.text() + (changed ? " changed description" : " copy of the description");
    if (!x.ok() || !y.ok() || x.files.size() != y.files.size()) {
        vck::fail("command.description", cfg + " fails: " + x.why() + y.why());
    } else {
        for (std::size_t i = 0; i < x.files.size(); ++i) {
            H5 const a = x.load(static_cast<int>(i)), b = y.load(static_cast<int>(i));
            auto const da = a.d.find("gamma"), db = b.d.find(changed ? "gamma_of_run" : "gamma");
            if (da == a.d.end() || db == b.d.end() || da->second != db->second || (changed && b.has("gamma")) || a.has("gamma_of_run")) {
                vck::fail("command.description", cfg + vck::fmt(" output %zu is not written as described: gamma %d gamma_of_run %d", i, b.has("gamma"), b.has("gamma_of_run")));
                break;
            }
            vck::stat("described_outputs");
        }
    }
    vck::eval(vck::hash_str(cfg));
    drop(x);
    drop(y);
    std::error_code ec;
    fs::remove(file, ec);
}

// ---------------------------------------------------------------------------------------------------------------------
// runs that cannot go on end with a code other than zero on every rank and say why, and do not claim to have ended normally
static void refused_case(long n, Rng& r)
{
    Case k = make(r);
    k.shifts.clear();
    Ini c = k.c;
    std::string how;
    vshim::WorldResult w;
    int inits = -1;
    if (n % 5 == 0) {
        how = "no argument";
        w = vshim::run_world(1, r.next(), [](int) {
            std::string a = "/some/where/heracles++";
            char* v[] = {a.data(), nullptr};
            return hclpp_real_main(1, v);
        });
        inits = vshim::last_mpi_report().inits;
        if (w.cerr_text.find("usage") == std::string::npos || w.cerr_text.find("heracles++") == std::string::npos) {
            vck::fail("command.usage", "without argument the program says: " + w.cerr_text);
        }
    } else if (n % 5 == 1) {
        how = "missing configuration";
        w = vshim::run_world(k.ranks, r.next(), [](int) {
            std::string a = "heracles++", b = vck::st().dir + "/there is no such file.ini";
            char* v[] = {a.data(), b.data(), nullptr};
            return hclpp_real_main(2, v);
        });
    } else {
        if (n % 5 == 2) {
            how = "unknown solver";
            c.set("Hydro", "riemann_solver", "none of them");
        } else if (n % 5 == 3) {
            how = "missing restart file";
            c.set("Problem", "restart", "true");
            c.set("Problem", "restart_file", vck::st().dir + "/there is no such file.h5");
        } else {
            how = "no boundary condition";
            c.set("Boundary Condition", "BC", "");
        }
        Seen s;
        Run const x = go(k, c, k.ranks, r.next(), s, {});
        w = x.w;
        if (!s.tdt[0].empty()) {
            vck::fail("command.refused", how + " is found after a step");
        }
        drop(x);
    }
    std::string const cfg = k.text() + " " + how;
    for (std::size_t p = 0; p < w.rc.size(); ++p) {
        if (w.rc[p] == 0) {
            vck::fail("command.code", cfg + vck::fmt(": rank %zu ends with code 0", p));
        }
    }
    if (w.cerr_text.find_first_not_of(" \n") == std::string::npos) {
        vck::fail("command.silent", cfg + ": nothing on the error stream");
    }
    if (w.cout_text.find("--- End ---") != std::string::npos || w.cout_text.find("Final time") != std::string::npos) {
        vck::fail("command.claims", cfg + ": the summary of a completed run is printed");
    }
    if (inits > 0) {
        vck::fail("command.usage", "message passing is started only to print the usage");
    }
    vck::stat("refused");
    vck::eval(vck::hash_str(cfg));
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    bool const th = vck::st().thorough;
    vck::cases("report", th ? 1500 : 40, report_case);
    vck::cases("description", th ? 200 : 12, description_case);
    vck::cases("refused", th ? 200 : 20, refused_case);
    return vck::finish();
}
