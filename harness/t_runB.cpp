// Statements about how a run starts, goes on and ends.
//   what=restart (C10)  energy (C28)  shift (C29)  names (C34)  protocol (C37)  safety (C27)
#include <riemann_solver.hpp>
#include <vclock.hpp>
#include <vfeat.hpp>
#include <vh5count.hpp>
#include <vunit.hpp>

using namespace vfeat;
using vphys::ld;

namespace {

template <class F>
void each(Box const& b, F const& f)
{
    for (int k = 0; k < b.n[2]; ++k) {
        for (int j = 0; j < b.n[1]; ++j) {
            for (int i = 0; i < b.n[0]; ++i) {
                f(i, j, k, static_cast<std::size_t>(b.at(i, j, k)));
            }
        }
    }
}

bool cold(Run const& x) { return x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos; }
bool all_failed(Run const& x)
{
    bool f = true;
    for (int const c : x.w.rc) {
        f = f && c != 0;
    }
    return f;
}

std::array<int, 3> any_layout(Rng& r, Feat const& f)
{
    for (int t = 0; t < 50; ++t) {
        auto const l = pick_layout(r, f.b, 8, f.ng);
        if (gravity_kind != 2 || l[0] == 1) {
            return l;
        }
    }
    return {1, 1, 1};
}

// a shift criterion that depends on the number of the iteration only
void shift_at(std::uint64_t seed, int first, double p, int nranks)
{
    auto calls = std::make_shared<std::vector<int>>(static_cast<std::size_t>(nranks), first);
    vcase::hooks().shift = [=](hclpp::Grid const&, double const*, double const*, double const*, double const*, int const*, int) {
        return h01(seed, 77, (*calls)[static_cast<std::size_t>(vshim::tl_rank)]++, 0, 0) < p;
    };
}

// scale of a field of the files, for comparisons up to rounding
double field_scale(Feat const& f, H5 const& h, std::string const& name)
{
    double s = 0;
    for (double const q : h.f(name)) {
        s = std::fmax(s, std::fabs(q));
    }
    if (name[0] == 'u') {
        s = std::fmax(s, f.sc.u);
    }
    if (name == "P" || name == "T") { // the pressure is what remains of the energy
        double e = 0;
        for (double const q : h.f("E")) {
            e = std::fmax(e, std::fabs(q));
        }
        double p = 1e300;
        for (double const q : h.f("P")) {
            p = std::fmin(p, std::fabs(q));
        }
        s *= std::fmin(1e3, std::fmax(1.0, e / p));
    }
    return s;
}

bool integer_like(std::string const& n) { return n == "output_id" || n == "iter_output_id" || n == "time_output_id" || n == "iter" || n == "gamma"; }
bool mesh_name(std::string const& n) { return n[0] == 'x'; }

// ---- C10 ----
void restart(long, Rng& r)
{
    Opt o;
    o.steps = 7;
    o.heat = true;
    o.pf = false;
    o.amp = 0.5;
    o.mach = 0.5;
    Feat f = random_feat(r, o);
    f.steps = r.range(3, 8);
    f.c.set("Output", "max_iter", f.steps);
    int const mode = r.range(0, 2);
    if (mode != 1) {
        f.c.set("Output", "iter_frequency", r.range(1, 2));
    }
    double const width = (f.b.hi[0] - f.b.lo[0]) / f.sc.u / f.b.n[0];
    if (mode != 0) {
        f.c.set("Output", "time_frequency", width * r.uni(0.02, 0.5));
        if (r.coin()) {
            f.c.set("Output", "time_first_output", width * r.uni(0.01, 0.3));
        }
    }
    if (r.coin(0.3)) {
        f.c.set("Run", "t_ini", width * r.uni(0, 10));
        if (mode != 0) {
            f.c.set("Output", "time_first_output", vsys::num(std::atof(f.c.get("Run", "t_ini").c_str()) + width * 0.1));
        }
    }
    bool const shift = gravity_kind != 1 && r.coin(0.4);
    double const ps = r.pick(std::vector<double> {0.3, 0.7, 1});
    if (shift) {
        f.c.set("Grid", "shift_grid", "UserDefined");
    }
    f.lay = any_layout(r, f);
    set_dims(f.c, f.lay);
    f.install();
    if (shift) {
        shift_at(f.seed, 0, ps, f.ranks());
    }
    std::string const cfg0 = "program " + f.text + (shift ? " moving grid" : "") + fmt(" outputs every %s iterations or %s seconds", f.c.get("Output", "iter_frequency").c_str(), f.c.get("Output", "time_frequency").c_str());
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    if (!x.ok()) {
        if (!cold(x)) {
            vck::fail("restart.run", cfg0 + " run failed: " + x.why());
        }
        drop(x);
        return;
    }
    std::vector<H5> ref;
    for (std::size_t i = 0; i < x.files.size(); ++i) {
        ref.push_back(x.load(static_cast<int>(i)));
    }
    double worst = 0;
    auto compare = [&](std::string const& cfg, std::string const& which, H5 const& h, H5 const& w) {
        for (auto const& [name, v] : w.d) {
            auto const& z = h.f(name);
            if (z.size() != v.size()) {
                vck::fail("restart.shape", cfg + " " + which + ": " + name + " has another size");
                continue;
            }
            double const s = field_scale(f, w, name);
            bool const exact = integer_like(name) || mesh_name(name);
            double const tol = exact ? 0 : (name == "current_time" ? 1e-12 : (radgas() ? 1e-9 : 2e-12));
            for (std::size_t p = 0; p < v.size(); ++p) {
                double const d = std::fabs(v[p] - z[p]);
                if (!(d <= tol * s)) {
                    vck::fail("restart." + std::string(exact ? name : "fields"), cfg + fmt(" %s: %s[%zu] is %.17g, uninterrupted %.17g", which.c_str(), name.c_str(), p, z[p], v[p]));
                    break;
                }
                if (!exact && s > 0) {
                    worst = std::fmax(worst, d / s / tol);
                }
            }
            vck::stat("values_compared", static_cast<double>(v.size()));
        }
    };
    int const points = std::min<int>(3, static_cast<int>(x.files.size()) - 1);
    for (int q = 0; q < points; ++q) {
        std::size_t from = r.below(x.files.size() - 1);
        std::string file = x.dir + "/" + x.files[from];
        std::vector<Run> runs;
        bool const twice = r.coin(0.3);
        int const halt = static_cast<int>(ref[from].scalar("iter"));
        if (halt > 0 && r.coin()) { // the run itself stopped there
            Ini c = f.c;
            c.set("Output", "max_iter", halt);
            f.install();
            if (shift) {
                shift_at(f.seed, 0, ps, f.ranks());
            }
            Run const y = run(c, run_opt(r, f));
            clear_hooks();
            std::string const cfg = cfg0 + fmt(" stopped after iteration %d", halt);
            if (!y.ok()) {
                vck::fail("restart.run", cfg + " failed: " + y.why());
                drop(y);
            } else if (y.files.size() != from + 1 || y.files.back() != x.files[from]) {
                vck::fail("restart.stopped", cfg + fmt(" writes %zu files instead of %zu", y.files.size(), from + 1));
                drop(y);
            } else {
                compare(cfg, y.files.back(), y.load(static_cast<int>(from)), ref[from]);
                file = y.dir + "/" + y.files.back();
                runs.push_back(y);
                vck::stat("stopped_runs");
            }
        }
        for (int leg = 0; leg < (twice ? 2 : 1); ++leg) {
            Ini c = f.c;
            auto const lay = any_layout(r, f);
            set_dims(c, lay);
            c.set("Problem", "restart", "true");
            c.set("Problem", "restart_file", file);
            RunOpt opt = run_opt(r, f);
            opt.ranks = prod(lay);
            int const iter0 = static_cast<int>(ref[from].scalar("iter"));
            f.install_grid();
            vcase::hooks().init = [&](vcase::CellIn const&) {
                vck::fail("restart.initialised", cfg0 + " the restarted run calls the initial state of the setup");
                return f.state(0, 0, 0);
            };
            if (shift) {
                shift_at(f.seed, iter0, ps, opt.ranks);
            }
            Run const y = run(c, opt);
            clear_hooks();
            std::string const cfg = cfg0 + fmt(" restarted from %s%s on %dx%dx%d ranks", x.files[from].c_str(), leg ? " of a restarted run" : "", lay[0], lay[1], lay[2]);
            if (!y.ok()) {
                vck::fail("restart.run", cfg + " failed: " + y.why());
                drop(y);
                break;
            }
            std::vector<std::string> const want(x.files.begin() + static_cast<long>(from) + 1, x.files.end());
            if (y.files != want) {
                std::string s;
                for (auto const& n : y.files) {
                    s += " " + n;
                }
                vck::fail("restart.outputs", cfg + " writes" + s + " instead of " + want.front() + " to " + want.back());
                drop(y);
                break;
            }
            double const a = after(x.w.cout_text, "number of iterations = "), b = after(y.w.cout_text, "number of iterations = ");
            double const ta = after(x.w.cout_text, "Final time = "), tb = after(y.w.cout_text, "Final time = ");
            if (a != b || !(std::fabs(ta - tb) <= 2e-5 * std::fabs(ta))) {
                vck::fail("restart.end", cfg + fmt(" ends at time %.9g after %g iterations instead of %.9g after %g", tb, b, ta, a));
            }
            if (y.w.cout_text.find("restarting from file " + file) == std::string::npos) {
                vck::fail("restart.message", cfg + " does not say what it restarts from");
            }
            for (std::size_t i = 0; i < want.size(); ++i) {
                H5 const h = y.load(static_cast<int>(i));
                H5 const& w = ref[from + 1 + i];
                compare(cfg, want[i], h, w);
                vck::stat("outputs_compared");
            }
            vck::eval(vck::hash_str(cfg));
            vck::stat("restarts");
            if (leg == 0 && twice) { // next from an output of this run
                if (y.files.size() < 2) {
                    runs.push_back(y);
                    break;
                }
                std::size_t const k = r.below(y.files.size() - 1);
                from = from + 1 + k;
                file = y.dir + "/" + y.files[k];
            }
            runs.push_back(y);
        }
        for (auto const& y : runs) {
            drop(y);
        }
    }
    vck::stat_max("max.difference_over_tolerance", worst);
    drop(x);
}

// files that do not fit the configuration
void refused(long n, Rng& r)
{
    Opt o;
    o.steps = 2;
    o.pf = false;
    Feat f = random_feat(r, o);
    f.user_grid = false;
    rebuild(f);
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    Run const x = run(f.c, run_opt(r, f));
    if (!x.ok()) {
        drop(x);
        clear_hooks();
        return;
    }
    Feat g = f;
    std::string file = x.dir + "/" + x.files[r.below(x.files.size())], how;
    int const d = r.range(0, nd - 1);
    switch (n % 5) {
    case 0:
        g.b.n[d] += r.pick(std::vector<int> {1, 2, -1, g.b.n[d]});
        how = fmt("%d cells instead of %d in direction %d", g.b.n[d], f.b.n[d], d);
        break;
    case 1:
        g.ng += 1;
        how = "another number of ghost cells";
        break;
    case 2: // as many nodes in all
        g.ng = f.ng + 1;
        for (int q = 0; q < nd; ++q) {
            g.b.n[q] -= 2;
        }
        how = "two cells less and one ghost cell more on each side";
        break;
    case 3:
        file = x.dir + "/absent.h5";
        how = "a file that does not exist";
        break;
    default:
        file = x.dir + "/run.ini";
        how = "a file of another kind";
        break;
    }
    for (int q = 0; q < nd; ++q) {
        if (g.b.n[q] < g.ng) {
            drop(x);
            clear_hooks();
            return;
        }
    }
    g.lay = any_layout(r, g);
    rebuild(g);
    g.c.set("Problem", "restart", "true");
    g.c.set("Problem", "restart_file", file);
    g.c.set("Output", "iter_frequency", 1);
    long steps = 0;
    g.c.set("User step", "user_step", "UserDefined");
    vcase::hooks().user_step = [&](hclpp::Range const&, double, double, double*, double*, double*, int const*, int) { ++steps; };
    Run const y = run(g.c, run_opt(r, g));
    clear_hooks();
    std::string const cfg = "program " + f.text + " restarted with " + how;
    if (y.ok() || !all_failed(y) || steps > 0 || !y.files.empty()) {
        vck::fail("restart.accepted", cfg + fmt(" makes %ld steps and writes %zu files; %s", steps, y.files.size(), y.why().c_str()));
    }
    vck::eval(vck::hash_str(cfg));
    vck::stat("mismatched_files");
    drop(x);
    drop(y);
}

// the outer boundary that replaced the configured one when the grid stopped moving
void beyond_limit(long, Rng& r)
{
    Opt o;
    o.pf = false;
    o.irregular = false;
    o.heat = false;
    Feat f = random_feat(r, o);
    f.bc.kind[0] = vghost::null_gradient;
    f.bc.kind[1] = vghost::reflexive;
    f.steps = 4;
    f.lay = {1, 1, 1};
    rebuild(f);
    f.c.set("Output", "iter_frequency", 1);
    f.c.set("Grid", "shift_grid", "UserDefined");
    f.c.set("Problem", "rmax_shift", f.b.lo[0]);
    f.install();
    shift_at(1, 0, 1.1, 1);
    Run const x = run(f.c, run_opt(r, f));
    Ini c = f.c;
    c.set("Problem", "restart", "true");
    c.set("Problem", "restart_file", x.dir + "/" + x.files.at(1));
    shift_at(1, 1, 1.1, 1);
    Run const y = run(c, run_opt(r, f));
    clear_hooks();
    std::string const cfg = "program " + f.text + " restarted after the moving grid has reached its limit";
    if (!x.ok() || !y.ok()) {
        vck::fail("restart.run", cfg + " failed: " + x.why() + y.why());
    } else {
        for (std::size_t i = 2; i < x.files.size(); ++i) {
            H5 const a = x.load(static_cast<int>(i)), b = load_h5(y.dir + "/" + x.files[i]);
            bool same = true;
            for (auto const& [name, v] : a.d) {
                double const s = field_scale(f, a, name);
                for (std::size_t p = 0; p < v.size(); ++p) {
                    same = same && b.f(name).size() == v.size() && std::fabs(b.f(name)[p] - v[p]) <= 1e-9 * s;
                }
            }
            if (!same) {
                vck::fail("restart.shift_limit", cfg + ": " + x.files[i] + " differs, the first step after the restart uses the configured outer boundary again");
                break;
            }
        }
    }
    drop(x);
    drop(y);
    vck::eval(vck::hash_str(cfg));
}

// ---- C28 ----
// which cells of a state are invalid: 1 certainly, 0 certainly not, -1 within rounding
int invalid(double rho, double const* m, double E)
{
    if (std::isnan(rho) || std::isnan(E)) {
        return 1;
    }
    ld k = 0;
    for (int d = 0; d < nd; ++d) {
        if (std::isnan(m[d])) {
            return 1;
        }
        k += static_cast<ld>(m[d]) * m[d];
    }
    k /= 2 * static_cast<ld>(rho);
    ld const e = E - k;
    if (std::isnan(static_cast<double>(e))) {
        return 1;
    }
    if (fabsl(e) <= 1e-14L * (fabsl(static_cast<ld>(E)) + fabsl(k))) {
        return e == 0 && k == 0 ? 0 : -1;
    }
    return e < 0 ? 1 : 0;
}

void energy(long n, Rng& r)
{
    Opt o;
    o.steps = 6;
    bool const violent = n % 3 == 0, start = !violent && n % 4 == 1;
    o.amp = violent ? 6 : 0.5;
    o.mach = violent ? r.pick(std::vector<double> {1, 5, 30, 300}) : 0.5;
    Feat f = random_feat(r, o);
    f.steps = r.range(2, 6);
    f.c.set("Output", "max_iter", f.steps);
    if (r.coin(0.7)) {
        f.c.set("Output", "iter_frequency", r.range(1, 3));
    }
    if (violent) {
        f.c.set("Run", "cfl", r.uni(0.3, 0.9));
    }
    int const bad[3] = {static_cast<int>(r.below(static_cast<std::uint64_t>(f.b.n[0]))), static_cast<int>(r.below(static_cast<std::uint64_t>(f.b.n[1]))),
                        static_cast<int>(r.below(static_cast<std::uint64_t>(f.b.n[2])))};
    int const when = violent || start ? 1 << 20 : r.range(0, f.steps - 1);
    int kind = r.range(0, start ? 3 : 5);
    bool const moving = start && n % 8 == 5 && !radgas() && r.coin(0.6); // a positive total energy, less than the kinetic energy
    int const fast = r.range(0, nd - 1);
    if (moving) {
        kind = 6;
    }
    static char const* const how[7] = {"NaN", "-1", "-1e-200", "-inf", "density NaN", "energy 0", "more kinetic than total energy"};
    double const bad_e = kind == 0 ? NAN : (kind == 1 ? -f.sc.P : (kind == 2 ? -1e-200 : (kind == 3 ? -INFINITY : 0)));
    bool const zero = start && n % 8 == 1 && !radgas(); // a cell without internal energy is not invalid
    f.install();
    if (start) {
        vcase::hooks().init = [=](vcase::CellIn const& q) {
            auto s = f.state(q.g[0], q.g[1], q.g[2]);
            if (q.g[0] == bad[0] && q.g[1] == bad[1] && q.g[2] == bad[2]) {
                s.u[0] = s.u[1] = s.u[2] = 0;
                s.P = zero ? 0 : (radgas() ? NAN : bad_e);
                if (moving) {
                    s.u[fast] = f.sc.u * 3;
                    s.P = -0.2 * (f.gamma - 1) * s.rho * s.u[fast] * s.u[fast];
                }
            }
            return s;
        };
        if (zero) {
            f.steps = 1;
            f.c.set("Output", "max_iter", 1);
        }
    }
    // ghost cells beyond those that the scheme reads may hold anything
    bool const ghosts = !start && n % 5 == 2 && f.ng > 2;
    if (ghosts) {
        for (int q = 0; q < 2 * nd; ++q) {
            f.c.set("Boundary Condition", fmt("BC_X%d_%s", q / 2, q % 2 ? "right" : "left"), "UserDefined");
        }
        vcase::hooks().boundary = [](int idim, int iface, hclpp::Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx) {
            int const ng = g.Nghost[static_cast<std::size_t>(idim)];
            long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
            for (int k = 0; k < ext[2]; ++k) {
                for (int j = 0; j < ext[1]; ++j) {
                    for (int i = 0; i < ext[0]; ++i) {
                        int q[3] = {i, j, k};
                        int const depth = iface == 0 ? ng - q[idim] : q[idim] - (ext[idim] - ng) + 1;
                        if (depth < 1) {
                            continue;
                        }
                        long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                        q[idim] = iface == 0 ? ng : ext[idim] - ng - 1;
                        long const m = q[0] + static_cast<long>(ext[0]) * (q[1] + static_cast<long>(ext[1]) * q[2]);
                        double const sign = depth > 2 ? -1 : 1; // same sound speed, opposite energy
                        rho[l] = sign * rho[m];
                        E[l] = sign * E[m];
                        for (int d = 0; d < nd; ++d) {
                            rhou[l + d * tot] = sign * rhou[m + d * tot];
                        }
                        for (int z = 0; z < nfx; ++z) {
                            fx[l + z * tot] = fx[m + z * tot];
                        }
                    }
                }
            }
        };
        vck::stat("odd_ghosts");
    }
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    auto const seen = vcase::hooks().user_step;
    std::vector<int> steps(static_cast<std::size_t>(f.ranks()), 0);
    vcase::hooks().user_step = [&](hclpp::Range const& range, double t, double dt, double* rho, double* E, double* fx, int const* ext, int nfx) {
        seen(range, t, dt, rho, E, fx, ext, nfx);
        if (steps[static_cast<std::size_t>(vshim::tl_rank)]++ != when) {
            return;
        }
        int q[3];
        for (int d = 0; d < 3; ++d) {
            int const loc = bad[d] - range.Corner_min[static_cast<std::size_t>(d)];
            if (loc < 0 || bad[d] >= range.Corner_max[static_cast<std::size_t>(d)]) {
                return;
            }
            q[d] = loc + (d < nd ? f.ng : 0);
        }
        long const l = q[0] + static_cast<long>(ext[0]) * (q[1] + static_cast<long>(ext[1]) * q[2]);
        if (kind == 4) {
            rho[l] = NAN;
        } else if (kind == 5) {
            E[l] = 0;
        } else {
            E[l] = bad_e;
        }
    };
    std::string const cfg = "program " + f.text + (violent ? fmt(" violent flow amplitude %g mach %g", f.amp, f.mach) : fmt(" cell (%d,%d,%d) gets %s", bad[0], bad[1], bad[2], zero ? "no energy" : how[kind])) +
                            (start ? " at the start" : (violent ? "" : fmt(" in step %d of %d", when, f.steps))) + (ghosts ? " odd ghosts" : "");
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    bool const stopped = cold(x);
    std::size_t const done = ob.steps.size();
    // the first state that has to stop the run: s = 0 is the initial one, s = k the one after k steps
    int must = -1, may = -1;
    for (std::size_t s = 0; s <= done && must < 0; ++s) {
        int worst = 0;
        each(f.b, [&](int i, int j, int k, std::size_t q) {
            int v = 0;
            if (s == 0) {
                v = start && !zero && i == bad[0] && j == bad[1] && k == bad[2] ? 1 : 0;
            } else {
                double const m[3] = {ob.steps[s - 1].m[0][q], nd > 1 ? ob.steps[s - 1].m[1][q] : 0, nd > 2 ? ob.steps[s - 1].m[2][q] : 0};
                v = invalid(ob.steps[s - 1].rho[q], m, ob.steps[s - 1].E[q]);
            }
            worst = v == 1 || worst == 1 ? 1 : (v != 0 ? -1 : worst);
        });
        if (worst == 1) {
            must = static_cast<int>(s);
        } else if (worst == -1 && may < 0) {
            may = static_cast<int>(s);
        }
        if (start && s == 0 && radgas() && !zero && worst == 1) {
            break;
        }
    }
    bool const last = must == static_cast<int>(done) && static_cast<int>(done) == f.steps; // the run had ended before looking again
    if (!stopped) {
        if (!x.ok()) {
            vck::fail("energy.run", cfg + " run failed: " + x.why());
        } else if (must >= 0 && !last) {
            vck::fail("energy.missed", cfg + fmt(" the state after %d of %d steps is invalid and the run goes on", must, f.steps));
        }
        vck::stat("completed_runs");
    } else {
        int const at = static_cast<int>(done);
        if (must != at && may != at) {
            vck::fail("energy.false_alarm", cfg + fmt(" stopped after %d steps where the energy is valid: %s", at, x.why().c_str()));
        }
        if (may >= 0 && may < at && must != at) {
            vck::stat("within_rounding");
        }
        double t = std::atof(f.c.get("Run", "t_ini").c_str());
        for (auto const& s : ob.steps) {
            t = s.t + s.dt;
        }
        std::stringstream ss;
        ss << "Time = " << t << ", iteration = " << at;
        std::size_t told = 0;
        for (std::size_t p = x.w.cerr_text.find(ss.str()); p != std::string::npos; p = x.w.cerr_text.find(ss.str(), p + 1)) {
            ++told;
        }
        if (!all_failed(x) || told != static_cast<std::size_t>(f.ranks())) {
            vck::fail("energy.stop", cfg + fmt(" %zu of %d ranks stop with '%s': %s", told, f.ranks(), ss.str().c_str(), x.why().c_str()));
        }
        for (auto const& rk : ob.ranks) {
            if (static_cast<int>(rk.tdt.size()) != at) {
                vck::fail("energy.advanced", cfg + fmt(" a rank makes %zu steps and another %d", rk.tdt.size(), at));
            }
        }
        // outputs: one per regular output, then the dump
        int const fr = f.c.get("Output", "iter_frequency").empty() ? 0 : std::atoi(f.c.get("Output", "iter_frequency").c_str());
        int const regular = fr > 0 ? 1 + at / fr : 0;
        std::string const want = fmt("result_%08d.h5", regular);
        if (static_cast<int>(x.files.size()) != regular + 1 || x.files.back() != want) {
            vck::fail("energy.dump", cfg + fmt(" stops after %d steps with %zu files, the last of them %s instead of %s", at, x.files.size(), x.files.empty() ? "none" : x.files.back().c_str(), want.c_str()));
        } else {
            H5 const h = x.last();
            if (h.scalar("output_id") != regular || h.scalar("iter") != at || !(std::fabs(h.scalar("current_time") - t) <= 1e-15 * std::fabs(t))) {
                vck::fail("energy.dump", cfg + fmt(" dump with number %g, iteration %g and time %.17g instead of %d, %d and %.17g", h.scalar("output_id"), h.scalar("iter"), h.scalar("current_time"), regular, at, t));
            }
            bool told_state = false, told_T = false;
            long checked_T = 0;
            each(f.b, [&](int i, int j, int k, std::size_t q) {
                auto const same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
                bool ok;
                if (at == 0) {
                    auto s = f.state(i, j, k);
                    if (start && i == bad[0] && j == bad[1] && k == bad[2]) {
                        ok = same(h.f("rho").at(q), s.rho) && (!(h.f("E").at(q) >= 0) || zero || moving);
                    } else {
                        ok = same(h.f("rho").at(q), s.rho);
                    }
                } else {
                    ok = same(h.f("rho").at(q), ob.steps[done - 1].rho[q]) && same(h.f("E").at(q), ob.steps[done - 1].E[q]);
                    for (int d = 0; d < nd; ++d) {
                        double const u = ob.steps[done - 1].m[d][q] / ob.steps[done - 1].rho[q];
                        ok = ok && (same(h.f(vel_name[d]).at(q), u) || std::fabs(h.f(vel_name[d]).at(q) - u) <= 1e-15 * std::fabs(u));
                    }
                }
                double const rho = h.f("rho").at(q), P = h.f("P").at(q);
                if (rho > 0 && P > 0 && std::isfinite(rho) && std::isfinite(P)) { // the fields of the dump agree with each other
                    double const T = static_cast<double>(f.gas().T_P(rho, P)), got = h.f("T").at(q);
                    if (std::isfinite(T) && !(std::fabs(got - T) <= (radgas() ? 1e-9 : 1e-12) * T + (radgas() ? 1e-5 : 0)) && !told_T) {
                        told_T = true;
                        vck::fail("energy.dump_temperature", cfg + fmt(" the dump has temperature %.17g in cell (%d,%d,%d) where density %.17g and pressure %.17g give %.17g", got, i, j, k, rho, P, T));
                    }
                    ++checked_T;
                }
                if (!ok && !told_state) {
                    told_state = true;
                    vck::fail("energy.dump_state", cfg + fmt(" the dump has density %.17g and energy %.17g in cell (%d,%d,%d)", h.f("rho").at(q), h.f("E").at(q), i, j, k));
                }
            });
        }
        vck::stat("stopped_runs");
        vck::stat(violent ? "stopped_by_the_flow" : (start ? "stopped_at_the_start" : "stopped_by_injection"));
    }
    drop(x);
    vck::eval(vck::hash_str(cfg), stopped);
}

// ---- C29 ----
struct RankMesh
{
    int off[3] = {0, 0, 0}, ng[3] = {0, 0, 0};
    std::vector<double> x[3], dx[3], c[3], dv;
};

void shift(long n, Rng& r)
{
    Opt o;
    o.steps = 6;
    o.amp = 0.3;
    o.mach = 0.3;
    Feat f = random_feat(r, o);
    f.steps = r.range(2, vck::st().thorough ? 12 : 7);
    f.c.set("Output", "max_iter", f.steps);
    f.c.set("Output", "iter_frequency", 1);
    f.c.set("Grid", "shift_grid", "UserDefined");
    // the configured limit: after a random number of shifts, or never
    std::array<std::vector<double>, 3> nodes;
    int const total = f.b.n[0] + 2 * f.ng + 1;
    bool const limited = n % 2 == 0;
    double const p = r.pick(std::vector<double> {0.4, 0.8, 1});
    std::vector<double> rmax; // of the mesh after each number of shifts
    {
        std::vector<double> x;
        if (f.user_grid) {
            x = f.nodes[0];
        } else {
            double const h = (f.b.hi[0] - f.b.lo[0]) / f.b.n[0];
            for (int i = 0; i < total; ++i) {
                x.push_back(f.b.lo[0] + (i - f.ng) * h);
            }
        }
        for (int s = 0; s < f.steps + 2; ++s) {
            auto const z = x.size();
            rmax.push_back(x[static_cast<std::size_t>(f.b.n[0] + f.ng + 1)]);
            double const q = (x[z - 1] - x[z - 2]) / (x[z - 2] - x[z - 3]);
            x.push_back(x[z - 1] + (x[z - 1] - x[z - 2]) * q);
            x.erase(x.begin());
        }
    }
    double limit = INFINITY;
    if (limited) {
        std::size_t const k = r.below(rmax.size() - 2);
        limit = r.coin(0.3) ? rmax[k] * (1 - 1e-9) : rmax[k] + r.u01() * (rmax[k + 1] - rmax[k]);
        f.c.set("Problem", "rmax_shift", limit);
    } else if (r.coin()) {
        f.c.set("Problem", "rmax_shift", 1e300);
    }
    f.install();
    Observer ob;
    Ini keep = f.c;
    observe(ob, f.b, f.ranks(), f.c);
    int const np = f.ranks();
    // whole pre-shift state, decisions and meshes of each rank
    std::vector<std::vector<bool>> asked(static_cast<std::size_t>(np));
    std::vector<std::vector<RankMesh>> seen(static_cast<std::size_t>(np));
    auto const record = vcase::hooks().shift;
    std::uint64_t const sd = f.seed;
    vcase::hooks().shift = [&](hclpp::Grid const& g, double const* rho, double const* rhou, double const* E, double const* fx, int const* ext, int nfx) {
        record(g, rho, rhou, E, fx, ext, nfx);
        auto const rk = static_cast<std::size_t>(vshim::tl_rank);
        vshim::Peek const peek;
        RankMesh m;
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            m.off[d] = g.range.Corner_min[D];
            m.ng[d] = g.Nghost[D];
            auto const x = d == 0 ? g.x0 : (d == 1 ? g.x1 : g.x2);
            auto const c = d == 0 ? g.x0_center : (d == 1 ? g.x1_center : g.x2_center);
            auto const dx = d == 0 ? g.dx0 : (d == 1 ? g.dx1 : g.dx2);
            for (int i = 0; i < x.extent_int(0); ++i) {
                m.x[d].push_back(x(i));
            }
            for (int i = 0; i < c.extent_int(0); ++i) {
                m.c[d].push_back(c(i));
                m.dx[d].push_back(dx(i));
            }
        }
        seen[rk].push_back(m);
        bool const s = h01(sd, 78, static_cast<int>(asked[rk].size()), 0, 0) < p;
        asked[rk].push_back(s);
        return s;
    };
    std::string const cfg = "program " + f.text + fmt(" moving with probability %g%s", p, limited ? fmt(" up to %.9g", limit).c_str() : "");
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    if (!x.ok() && !cold(x)) {
        vck::fail("shift.run", cfg + " run failed: " + x.why());
        drop(x);
        return;
    }
    std::size_t const steps = x.ok() ? x.files.size() - 1 : x.files.size() - 2;
    int shifts = 0;
    bool ended = false;
    std::size_t end_file = 0;
    for (std::size_t s = 0; s < steps; ++s) {
        H5 const a = x.load(static_cast<int>(s)), b = x.load(static_cast<int>(s) + 1);
        auto const& xa = a.f("x0");
        auto const& xb = b.f("x0");
        bool const ask = !ended && s < asked[0].size() && asked[0][s];
        for (std::size_t q = 0; q < asked.size(); ++q) {
            if (asked[q].size() != asked[0].size()) {
                vck::fail("shift.ranks", cfg + fmt(" the criterion is asked %zu times on rank 0 and %zu times on rank %zu", asked[0].size(), asked[q].size(), q));
                drop(x);
                return;
            }
        }
        if (!ended && s >= asked[0].size()) {
            vck::fail("shift.ended_early", cfg + fmt(" the criterion is no longer asked after step %zu", s));
            break;
        }
        if (ended && s < asked[0].size()) {
            vck::fail("shift.not_ended", cfg + fmt(" the criterion is still asked in step %zu, beyond the limit", s));
            break;
        }
        bool moves = false;
        if (ask) {
            if (xa.at(static_cast<std::size_t>(f.b.n[0] + f.ng + 1)) >= limit) {
                ended = true;
                end_file = s + 1;
                vck::stat("limits_reached");
            } else {
                moves = true;
            }
        }
        // nodes
        bool bad = xa.size() != xb.size() || a.f("x1") != b.f("x1") || a.f("x2") != b.f("x2") || static_cast<int>(xa.size()) != total;
        for (std::size_t i = 0; i < xa.size() && !bad; ++i) {
            double want = xa[i];
            bool exact = true;
            if (moves) {
                if (i + 1 < xa.size()) {
                    want = xa[i + 1];
                } else {
                    ld const l = xa[i], l1 = xa[i - 1], l2 = xa[i - 2];
                    want = static_cast<double>(l + (l - l1) * ((l - l1) / (l1 - l2)));
                    exact = false;
                }
            }
            if (!(exact ? xb[i] == want : std::fabs(xb[i] - want) <= 1e-12 * std::fabs(want - xa[i - 1]) + 1e-14 * std::fabs(want))) {
                bad = true;
                vck::fail("shift.nodes", cfg + fmt(" step %zu %s: node %zu is %.17g instead of %.17g", s, moves ? "moves" : "does not move", i, xb[i], want));
            }
        }
        if (xa.size() != xb.size() || a.f("x1") != b.f("x1") || a.f("x2") != b.f("x2")) {
            vck::fail("shift.nodes", cfg + fmt(" step %zu changes the mesh of another direction or its size", s));
        }
        // matter
        if (s < ob.steps.size() && ob.steps[s].cells_seen == f.b.cells()) {
            auto const& st = ob.steps[s];
            bool told = false;
            each(f.b, [&](int i, int j, int k, std::size_t q) {
                int const src = moves ? i + 1 : i;
                if (told) {
                    return;
                }
                double const rho = b.f("rho").at(q), E = b.f("E").at(q);
                if (src >= f.b.n[0]) {
                    told = !(rho > 0) || !std::isfinite(E);
                } else {
                    auto const w = static_cast<std::size_t>(f.b.at(src, j, k));
                    told = rho != st.rho[w] || E != st.E[w];
                    for (int d = 0; d < nd; ++d) {
                        double const u = st.m[d][w] / st.rho[w];
                        told = told || !(std::fabs(b.f(vel_name[d]).at(q) - u) <= 2e-15 * std::fabs(u));
                    }
                    for (int z = 0; z < f.nfx; ++z) {
                        told = told || b.f(fmt("fx%d", z)).at(q) != st.fx[static_cast<std::size_t>(z)][w];
                    }
                }
                if (told) {
                    vck::fail("shift.matter", cfg + fmt(" step %zu %s: cell (%d,%d,%d) does not hold what was at (%d,%d,%d): density %.17g", s, moves ? "moves" : "does not move", i, j, k, src, j, k, rho));
                }
            });
        }
        // the mesh that each rank uses afterwards
        if (s + 1 < seen[0].size()) {
            for (std::size_t q = 0; q < seen.size(); ++q) {
                RankMesh const& m = seen[q][s + 1];
                for (int d = 0; d < 3; ++d) {
                    auto const& xg = b.f(fmt("x%d", d));
                    int const ng = d < nd ? f.ng : 0;
                    for (std::size_t i = 0; i < m.x[d].size(); ++i) {
                        long const gi = static_cast<long>(i) + m.off[d];
                        double const w = xg.at(static_cast<std::size_t>(gi));
                        if (m.x[d][i] != w) {
                            vck::fail("shift.rank_mesh", cfg + fmt(" after step %zu rank %zu has node %zu of direction %d at %.17g instead of %.17g", s, q, i, d, m.x[d][i], w));
                            break;
                        }
                        if (i + 1 < m.x[d].size() && i < m.dx[d].size()) {
                            double const wd = xg.at(static_cast<std::size_t>(gi) + 1) - w;
                            bool const interior = static_cast<int>(i) >= ng && static_cast<int>(i) + ng + 1 < static_cast<int>(m.x[d].size());
                            if (!(std::fabs(m.dx[d][i] - wd) <= 1e-14 * std::fabs(w) + 1e-14 * std::fabs(wd)) ||
                                (interior && !(m.c[d][i] > std::fmin(w, w + wd) && m.c[d][i] < std::fmax(w, w + wd)))) {
                                vck::fail("shift.rank_mesh", cfg + fmt(" after step %zu rank %zu has a cell %zu of direction %d of width %.17g and centre %.17g in [%.17g, %.17g]", s, q, i, d, m.dx[d][i], m.c[d][i], w, w + wd));
                                break;
                            }
                        }
                    }
                }
            }
            vck::stat("rank_meshes_checked", static_cast<double>(seen.size()));
        }
        shifts += moves;
    }
    vck::stat("shifts_observed", shifts);
    // what follows the limit is a run on that mesh with a zero-gradient outer boundary
    if (ended && x.ok() && end_file < x.files.size() - 1 && f.c.get("Pressure fix", "pressure_fix").empty()) {
        Ini c = keep;
        c.set("Grid", "shift_grid", "None");
        c.set("Boundary Condition", "BC_X0_right", "NullGradient");
        c.set("Problem", "restart", "true");
        c.set("Problem", "restart_file", x.dir + "/" + x.files[end_file]);
        f.install_grid();
        Run const y = run(c, run_opt(r, f));
        clear_hooks();
        if (!y.ok()) {
            vck::fail("shift.after_limit", cfg + " continued run failed: " + y.why());
        } else {
            for (std::size_t i = 0; i < y.files.size(); ++i) {
                H5 const h = y.load(static_cast<int>(i)), w = load_h5(x.dir + "/" + y.files[i]);
                for (auto const& [name, v] : h.d) {
                    auto const& z = w.f(name);
                    double const s = field_scale(f, h, name);
                    for (std::size_t q = 0; q < v.size(); ++q) {
                        if (z.size() != v.size() || !(std::fabs(z[q] - v[q]) <= (radgas() ? 1e-7 : 1e-10) * s)) {
                            vck::fail("shift.after_limit", cfg + fmt(" %s of %s[%zu] after the limit is not what a zero-gradient outer boundary gives (%.17g)", y.files[i].c_str(), name.c_str(), q, v[q]));
                            break;
                        }
                    }
                }
                vck::stat("outputs_after_limit");
            }
        }
        drop(y);
    }
    drop(x);
    vck::eval(vck::hash_str(cfg), shifts > 0);
}

// ---- C34 ----
ld limit(std::string const& n, ld a, ld b)
{
    if (n == "Constant" || a * b <= 0) {
        return 0;
    }
    if (n == "Minmod") {
        return fabsl(a) < fabsl(b) ? a : b;
    }
    if (n == "VanLeer") {
        return 2 * a * b / (a + b);
    }
    return a * b * (a + b) / (a * a + b * b); // VanAlbada
}

struct Face
{
    ld rho, u[3], P, m[3], E;
    std::vector<ld> s; // scalars
};

// one step of the MUSCL-Hancock scheme in a Cartesian box, from the conserved variables with ghosts
// (density, momenta, energy, scalars), with the numerical flux of the named solver
struct Scheme
{
    Feat const& f;
    hclpp::EOS eos;
    explicit Scheme(Feat const& q) : f(q), eos(q.gamma, q.mu) {}
    hclpp::EulerFlux flux(Face const& a, Face const& b, int d) const
    {
        hclpp::EulerCons l, r;
        l.rho = static_cast<double>(a.rho);
        r.rho = static_cast<double>(b.rho);
        l.E = static_cast<double>(a.E);
        r.E = static_cast<double>(b.E);
        for (int q = 0; q < nd; ++q) {
            l.rhou[q] = static_cast<double>(a.m[q]);
            r.rhou[q] = static_cast<double>(b.m[q]);
        }
        if (f.solver == "HLL") {
            return hclpp::HLL()(l, r, d, eos);
        }
        if (f.solver == "HLLC") {
            return hclpp::HLLC()(l, r, d, eos);
        }
        return hclpp::Splitting()(l, r, d, eos);
    }
    void step(std::vector<vghost::Field>& w, double dt) const
    {
        using vghost::Field;
        int const ns = f.nfx;
        auto const nv = static_cast<std::size_t>(2 + nd + ns);
        std::vector<Field> p = w; // primitive
        auto const& e = w[0].e;
        int const g[3] = {w[0].g[0], w[0].g[1], w[0].g[2]};
        for (std::size_t q = 0; q < w[0].v.size(); ++q) {
            ld k = 0;
            for (int d = 0; d < nd; ++d) {
                auto const D = static_cast<std::size_t>(1 + d);
                p[D].v[q] = w[D].v[q] / w[0].v[q];
                k += static_cast<ld>(w[D].v[q]) * w[D].v[q] / w[0].v[q] / 2;
            }
            p[static_cast<std::size_t>(1 + nd)].v[q] = static_cast<double>((f.gamma - 1) * (w[static_cast<std::size_t>(1 + nd)].v[q] - k));
        }
        auto const nodes = [&](int d) {
            std::vector<ld> x;
            for (int i = 0; i <= e[static_cast<std::size_t>(d)]; ++i) {
                if (f.user_grid) {
                    x.push_back(f.nodes[static_cast<std::size_t>(d)][static_cast<std::size_t>(i)]);
                } else {
                    x.push_back(f.b.lo[d] + (static_cast<ld>(i) - g[d]) * (static_cast<ld>(f.b.hi[d]) - f.b.lo[d]) / f.b.n[d]);
                }
            }
            return x;
        };
        std::vector<ld> x[3] = {nodes(0), nodes(1), nodes(2)};
        auto const dx = [&](int d, int i) { return x[d][static_cast<std::size_t>(i) + 1] - x[d][static_cast<std::size_t>(i)]; };
        // predicted states on the faces of one cell
        auto const faces = [&](int const* c) {
            std::array<std::array<Face, 2>, 3> F, O;
            for (int d = 0; d < nd; ++d) {
                int lo[3] = {c[0], c[1], c[2]}, hi[3] = {c[0], c[1], c[2]};
                --lo[d];
                ++hi[d];
                ld const h = dx(d, c[d]), hm = dx(d, c[d] - 1), hp = dx(d, c[d] + 1);
                std::vector<ld> v[2];
                for (std::size_t q = 0; q < nv; ++q) {
                    ld const m = p[q].at(lo[0], lo[1], lo[2]), z = p[q].at(c[0], c[1], c[2]), r = p[q].at(hi[0], hi[1], hi[2]);
                    ld const s = limit(f.recon, (r - z) / ((h + hp) / 2), (z - m) / ((h + hm) / 2));
                    v[0].push_back(z - s * h / 2);
                    v[1].push_back(z + s * h / 2);
                }
                for (int side = 0; side < 2; ++side) {
                    Face& a = F[static_cast<std::size_t>(d)][static_cast<std::size_t>(side)];
                    a.rho = v[side][0];
                    a.P = v[side][static_cast<std::size_t>(1 + nd)];
                    a.E = a.P / (f.gamma - 1);
                    for (int q = 0; q < nd; ++q) {
                        a.u[q] = v[side][static_cast<std::size_t>(1 + q)];
                        a.m[q] = a.rho * a.u[q];
                        a.E += a.m[q] * a.u[q] / 2;
                    }
                    for (int q = 0; q < ns; ++q) {
                        a.s.push_back(v[side][static_cast<std::size_t>(2 + nd + q)]);
                    }
                }
            }
            O = F;
            for (int d = 0; d < nd; ++d) {
                for (int side = 0; side < 2; ++side) {
                    Face& a = F[static_cast<std::size_t>(d)][static_cast<std::size_t>(side)];
                    ld mass = a.rho;
                    for (auto& s : a.s) {
                        s *= mass;
                    }
                    for (int q = 0; q < nd; ++q) {
                        ld const k = dt / 2 / dx(q, c[q]);
                        for (int y = 0; y < 2; ++y) {
                            Face const& b = O[static_cast<std::size_t>(q)][static_cast<std::size_t>(y)];
                            ld const z = y == 0 ? k : -k;
                            a.rho += z * b.m[q];
                            for (int w2 = 0; w2 < nd; ++w2) {
                                a.m[w2] += z * (b.m[q] * b.u[w2] + (w2 == q ? b.P : 0));
                            }
                            a.E += z * b.u[q] * (b.E + b.P);
                            for (std::size_t w2 = 0; w2 < a.s.size(); ++w2) {
                                a.s[w2] += z * b.m[q] * b.s[w2];
                            }
                        }
                    }
                    for (auto& s : a.s) {
                        s /= a.rho;
                    }
                }
            }
            return F;
        };
        std::vector<Field> out = w;
        std::map<long, std::array<std::array<Face, 2>, 3>> cache;
        auto const get = [&](int const* c) -> std::array<std::array<Face, 2>, 3> const& {
            long const key = (static_cast<long>(c[2]) * e[1] + c[1]) * e[0] + c[0];
            auto it = cache.find(key);
            if (it == cache.end()) {
                it = cache.emplace(key, faces(c)).first;
            }
            return it->second;
        };
        for (int k = 0; k < f.b.n[2]; ++k) {
            for (int j = 0; j < f.b.n[1]; ++j) {
                for (int i = 0; i < f.b.n[0]; ++i) {
                    int const c[3] = {i + g[0], j + g[1], k + g[2]};
                    std::vector<ld> n(nv);
                    for (std::size_t q = 0; q < nv; ++q) {
                        n[q] = w[q].at(c[0], c[1], c[2]);
                    }
                    for (std::size_t q = static_cast<std::size_t>(2 + nd); q < nv; ++q) {
                        n[q] *= w[0].at(c[0], c[1], c[2]);
                    }
                    for (int d = 0; d < nd; ++d) {
                        auto const D = static_cast<std::size_t>(d);
                        int a[3] = {c[0], c[1], c[2]}, b[3] = {c[0], c[1], c[2]};
                        --a[d];
                        ++b[d];
                        Face const &am = get(a)[D][1], &cl = get(c)[D][0], &cr = get(c)[D][1], &bp = get(b)[D][0];
                        auto const L = flux(am, cl, d), R = flux(cr, bp, d);
                        ld const z = dt / dx(d, c[d]);
                        n[0] += z * (static_cast<ld>(L.rho) - R.rho);
                        for (int q = 0; q < nd; ++q) {
                            n[static_cast<std::size_t>(1 + q)] += z * (static_cast<ld>(L.rhou[q]) - R.rhou[q]);
                        }
                        n[static_cast<std::size_t>(1 + nd)] += z * (static_cast<ld>(L.E) - R.E);
                        for (int q = 0; q < ns; ++q) {
                            auto const S = static_cast<std::size_t>(q);
                            n[static_cast<std::size_t>(2 + nd + q)] += z * (L.rho * (L.rho > 0 ? am.s[S] : cl.s[S]) - R.rho * (R.rho > 0 ? cr.s[S] : bp.s[S]));
                        }
                    }
                    for (std::size_t q = 0; q < nv; ++q) {
                        ld v = n[q];
                        if (q >= static_cast<std::size_t>(2 + nd)) {
                            v = v / n[0];
                            v = v < 0 ? 0 : (v > 1 ? 1 : v);
                        }
                        out[q].at(c[0], c[1], c[2]) = static_cast<double>(v);
                    }
                }
            }
        }
        w = out;
    }
};

// each accepted name behaves as it says
void accepted(long n, Rng& r)
{
    Opt o;
    o.gravity = false;
    o.pf = false;
    o.amp = 0.5;
    o.mach = r.pick(std::vector<double> {0.2, 1, 2});
    o.user_bc = true;
    o.nmax = nd == 1 ? 12 : 6;
    Feat f = random_feat(r, o);
    f.amp = std::fmax(f.amp, 0.1);
    f.recon = recons()[static_cast<std::size_t>(n) % 4];
    f.solver = solvers()[static_cast<std::size_t>(n / 4) % 3];
    f.steps = 2;
    if (f.nfx == 0) {
        f.nfx = 1;
    }
    rebuild(f);
    int const us = static_cast<int>(n % 3);
    static char const* const names[3] = {"Off", "Heat_nickel", "UserDefined"};
    if (us != 0 || r.coin()) {
        f.c.set("User step", "user_step", names[us]);
    }
    if (us == 1) {
        f.steps = 1;
        f.c.set("Output", "max_iter", 1);
    }
    if (!f.user_grid && r.coin()) {
        f.c.set("Grid", "type", "Regular");
    }
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    long calls = 0;
    vcase::hooks().user_step = [&](hclpp::Range const&, double, double, double*, double* E, double*, int const* ext, int) {
        ++calls;
        for (long q = 0; q < static_cast<long>(ext[0]) * ext[1] * ext[2]; ++q) {
            E[q] *= 1.5;
        }
    };
    // the user condition writes a constant state
    std::vector<double> user(static_cast<std::size_t>(2 + nd + f.nfx));
    user[0] = 1.7 * f.sc.rho;
    for (int d = 0; d < nd; ++d) {
        user[static_cast<std::size_t>(1 + d)] = 0.1 * (d + 1) * f.sc.rho * f.sc.u;
    }
    user[static_cast<std::size_t>(1 + nd)] = 4 * f.sc.P / (f.gamma - 1);
    for (int q = 0; q < f.nfx; ++q) {
        user[static_cast<std::size_t>(2 + nd + q)] = 0.25;
    }
    vcase::hooks().boundary = [&](int idim, int iface, hclpp::Grid const& g, double* rho, double* rhou, double* E, double* fx, int const* ext, int nfx) {
        long const tot = static_cast<long>(ext[0]) * ext[1] * ext[2];
        for (int k = 0; k < ext[2]; ++k) {
            for (int j = 0; j < ext[1]; ++j) {
                for (int i = 0; i < ext[0]; ++i) {
                    int const q[3] = {i, j, k};
                    int const ng = g.Nghost[static_cast<std::size_t>(idim)];
                    if (iface == 0 ? q[idim] >= ng : q[idim] < ext[idim] - ng) {
                        continue;
                    }
                    long const l = i + static_cast<long>(ext[0]) * (j + static_cast<long>(ext[1]) * k);
                    rho[l] = user[0];
                    for (int d = 0; d < nd; ++d) {
                        rhou[l + d * tot] = user[static_cast<std::size_t>(1 + d)];
                    }
                    E[l] = user[static_cast<std::size_t>(1 + nd)];
                    for (int z = 0; z < nfx; ++z) {
                        fx[l + z * tot] = user[static_cast<std::size_t>(2 + nd + z)];
                    }
                }
            }
        }
    };
    std::string const cfg = "program " + f.text + " user step " + names[us];
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    if (!x.ok()) {
        if (!cold(x)) {
            vck::fail("names.run", cfg + " run failed: " + x.why());
        }
        drop(x);
        return;
    }
    if ((us == 2) != (calls == static_cast<long>(f.steps) * f.ranks()) || (us != 2 && calls != 0)) {
        vck::fail("names.user_step", cfg + fmt(" the user's step is called %ld times", calls));
    }
    auto const nv = static_cast<std::size_t>(2 + nd + f.nfx);
    auto const state = [&](H5 const& h) {
        std::vector<vghost::Field> w(nv, vghost::Field(f.N(), f.ng, nd));
        each(f.b, [&](int i, int j, int k, std::size_t q) {
            double const rho = h.f("rho").at(q);
            w[0].in(i, j, k) = rho;
            for (int d = 0; d < nd; ++d) {
                w[static_cast<std::size_t>(1 + d)].in(i, j, k) = rho * h.f(vel_name[d]).at(q);
            }
            w[static_cast<std::size_t>(1 + nd)].in(i, j, k) = h.f("E").at(q);
            for (int z = 0; z < f.nfx; ++z) {
                w[static_cast<std::size_t>(2 + nd + z)].in(i, j, k) = h.f(fmt("fx%d", z)).at(q);
            }
        });
        return w;
    };
    // mesh
    {
        H5 const h = x.load(0);
        for (int d = 0; d < nd; ++d) {
            auto const& g = h.f(fmt("x%d", d));
            for (std::size_t i = 0; i < g.size(); ++i) {
                double const w = f.user_grid ? f.nodes[static_cast<std::size_t>(d)][i] : f.b.lo[d] + (static_cast<double>(i) - f.ng) * (f.b.hi[d] - f.b.lo[d]) / f.b.n[d];
                if (!(std::fabs(g[i] - w) <= (f.user_grid ? 0 : 1e-13) * (std::fabs(f.b.lo[d]) + std::fabs(f.b.hi[d]) + std::fabs(w)))) {
                    vck::fail("names.mesh", cfg + fmt(" node %zu of direction %d is %.17g instead of %.17g", i, d, g[i], w));
                    break;
                }
            }
        }
    }
    Scheme const sch(f);
    double worst = 0;
    for (int s = 0; s < f.steps; ++s) {
        H5 const a = x.load(s), b = x.load(s + 1);
        auto w = state(a);
        vghost::fill(w, f.bc, nd, [&](int, int v, int const*) { return user[static_cast<std::size_t>(v)]; });
        bool fine = true;
        for (std::size_t q = 0; q < w[0].v.size(); ++q) {
            fine = fine && w[0].v[q] > 0;
        }
        double const dt = b.scalar("current_time") - a.scalar("current_time");
        sch.step(w, dt);
        auto const got = state(b);
        std::vector<double> scale(nv, 1);
        for (std::size_t v = 0; v < static_cast<std::size_t>(2 + nd); ++v) {
            scale[v] = v == 0 ? f.sc.rho : (v <= static_cast<std::size_t>(nd) ? f.sc.rho * f.sc.u : f.sc.P);
            for (double const q : got[v].v) {
                scale[v] = std::fmax(scale[v], std::fabs(q));
            }
        }
        bool told = false;
        each(f.b, [&](int i, int j, int k, std::size_t) {
            for (std::size_t v = 0; v < nv && !told; ++v) {
                double const m = got[v].at(i + got[v].g[0], j + got[v].g[1], k + got[v].g[2]);
                double ref = w[v].at(i + got[v].g[0], j + got[v].g[1], k + got[v].g[2]);
                bool const E = v == static_cast<std::size_t>(1 + nd);
                if (E && us == 2) {
                    ref *= 1.5;
                }
                if (E && us == 1) {
                    double const fx = got[v + 1].at(i + got[v].g[0], j + got[v].g[1], k + got[v].g[2]), rho = got[0].at(i + got[v].g[0], j + got[v].g[1], k + got[v].g[2]);
                    double const rate = (m - ref) / (dt * rho * fx); // J per kg and second of fresh nickel
                    told = !(rate > 3.5e6 && rate < 4.5e6);
                    if (told) {
                        vck::fail("names.heat", cfg + fmt(" cell (%d,%d,%d) is heated at %.6g J/kg/s", i, j, k, rate));
                    }
                    continue;
                }
                double const d = std::fabs(m - ref) / scale[v];
                worst = std::fmax(worst, d);
                if (!(d <= 1e-11)) {
                    told = true;
                    vck::fail("names.scheme", cfg + fmt(" step %d variable %zu of cell (%d,%d,%d) is %.17g, with these components %.17g", s, v, i, j, k, m, ref));
                }
            }
        });
        vck::stat("steps_reproduced");
    }
    vck::stat_max("max.relative_difference", worst);
    drop(x);
    vck::eval(vck::hash_str(cfg));
}

std::string mutate(Rng& r, std::string const& s)
{
    std::string t = s;
    switch (r.range(0, 9)) {
    case 0:
        for (auto& c : t) {
            c = static_cast<char>(std::tolower(c));
        }
        break;
    case 1:
        for (auto& c : t) {
            c = static_cast<char>(std::toupper(c));
        }
        break;
    case 2: {
        auto const p = r.below(t.size());
        t[p] = static_cast<char>(std::islower(t[p]) ? std::toupper(t[p]) : std::tolower(t[p]));
        break;
    }
    case 3:
        t += r.pick(std::vector<std::string> {"x", "1", "_", ".", "s", " x", ","});
        break;
    case 4:
        t = r.pick(std::vector<std::string> {"x", "1", "_", "x ", "Not", "-"}) + t;
        break;
    case 5:
        t = t.substr(0, 1 + r.below(t.size() - 1));
        break;
    case 6:
        t = t.substr(1 + r.below(t.size() - 1));
        break;
    case 7: {
        auto const p = r.below(t.size());
        t.insert(p, 1, t[p]);
        break;
    }
    case 8:
        t = r.pick(std::vector<std::string> {"Periodic", "Reflexive", "NullGradient", "UserDefined", "Constant", "VanLeer", "Minmod", "VanAlbada", "HLL", "HLLC", "Low Mach", "Regular", "Off", "Heat_nickel", "0", "1",
                                             "None", "none", "true", "default", "Default", "LowMach", "Low_Mach", "Low  Mach", "Van Leer", "MinMod", "User", "\"" + s + "\"", s + " " + s});
        break;
    default:
        t = t + t;
        break;
    }
    return t;
}

void unknown(long n, Rng& r)
{
    Opt o;
    o.steps = 2;
    o.pf = false;
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    struct Kind
    {
        std::string sec, key;
        std::vector<std::string> good;
    };
    std::string const face = fmt("BC_X%d_%s", r.range(0, nd - 1), r.coin() ? "left" : "right");
    std::vector<Kind> const kinds {{"Boundary Condition", face, {"NullGradient", "Periodic", "Reflexive", "UserDefined"}},
                                   {"Hydro", "reconstruction", {"Constant", "VanLeer", "Minmod", "VanAlbada"}},
                                   {"Hydro", "riemann_solver", {"HLL", "HLLC", "Low Mach"}},
                                   {"Grid", "type", {"Regular", "UserDefined"}},
                                   {"User step", "user_step", {"Off", "Heat_nickel", "UserDefined"}}};
    Kind k = kinds[static_cast<std::size_t>(n) % kinds.size()];
    if (n % 5 == 0 && r.coin(0.3)) { // through the shorter keys
        f.c.s["Boundary Condition"].clear();
        for (int d = 0; d < nd; ++d) {
            f.c.set("Boundary Condition", fmt("BC_X%d", d), "Reflexive");
        }
        k.key = fmt("BC_X%d", r.range(0, nd - 1));
    }
    std::string bad;
    for (int t = 0; t < 20; ++t) {
        bad = mutate(r, r.pick(k.good));
        if (std::find(k.good.begin(), k.good.end(), bad) == k.good.end()) {
            break;
        }
        bad.clear();
    }
    if (bad.empty()) {
        return;
    }
    f.c.set(k.sec, k.key, bad);
    f.install();
    if (!f.user_grid) {
        vcase::hooks().grid = [](int, int ng, int m, double* p) {
            for (int i = 0; i < m; ++i) {
                p[i] = i - ng;
            }
        };
    }
    long calls = 0;
    vcase::hooks().user_step = [&](hclpp::Range const&, double, double, double*, double*, double*, int const*, int) { ++calls; };
    vcase::hooks().boundary = [](int, int, hclpp::Grid const&, double*, double*, double*, double*, int const*, int) {};
    std::string const cfg = "program " + f.text + " [" + k.sec + "] " + k.key + " = '" + bad + "'";
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    if (!all_failed(x) || calls > 0 || !x.files.empty()) {
        vck::fail("names.unknown", cfg + fmt(" is accepted (%zu files, %ld user steps): %s", x.files.size(), calls, x.why().c_str()));
    }
    drop(x);
    vck::eval(vck::hash_str(k.key + bad));
    vck::stat("unknown_names");
}

// ---- C37 ----
void protocol(long n, Rng& r)
{
    Opt o;
    o.steps = 4;
    o.heat = true;
    o.maxp = 12;
    o.nmax = nd == 1 ? 40 : (nd == 2 ? 14 : 9);
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    f.c.set("Parallelization", "mpi_device_aware", r.coin() ? "true" : "false");
    std::string how = "plain run";
    f.install();
    bool fails = false, may_fail = false;
    int const kind = static_cast<int>(n % 8);
    std::vector<int> calls(static_cast<std::size_t>(f.ranks()), 0);
    Run first;
    bool have_first = false;
    if (kind == 1) {
        how = "moving grid";
        f.c.set("Grid", "shift_grid", "UserDefined");
        if (r.coin()) {
            f.c.set("Problem", "rmax_shift", f.b.hi[0] + r.u01());
        }
        shift_at(f.seed, 0, 0.7, f.ranks());
    } else if (kind == 2 || kind == 3) { // one rank, one cell
        how = "energy of one cell breaks";
        int const when = r.range(0, f.steps - 1), who = r.range(0, f.ranks() - 1);
        f.c.set("User step", "user_step", "UserDefined");
        f.text += " ";
        double const v = kind == 2 ? NAN : -f.sc.P;
        vcase::hooks().user_step = [&, when, who, v](hclpp::Range const&, double, double, double*, double* E, double*, int const* ext, int) {
            if (calls[static_cast<std::size_t>(vshim::tl_rank)]++ == when && vshim::tl_rank == who) {
                E[ext[0] / 2 + static_cast<long>(ext[0]) * (ext[1] / 2 + static_cast<long>(ext[1]) * (ext[2] / 2))] = v;
            }
        };
        fails = when < f.steps - 1;
    } else if (kind == 4) {
        how = "end time in the past";
        f.c.set("Run", "t_ini", 2.0);
        f.c.set("Run", "t_end", 1.0);
        fails = true;
    } else if (kind == 5) {
        how = "unknown name";
        f.c.set("Hydro", r.coin() ? "reconstruction" : "riemann_solver", "nothing");
        fails = true;
    } else if (kind == 6) {
        how = "restart";
        first = run(f.c, run_opt(r, f));
        have_first = true;
        may_fail = !first.ok();
        if (!first.files.empty()) {
            f.c.set("Problem", "restart", "true");
            f.c.set("Problem", "restart_file", first.dir + "/" + first.files[r.below(first.files.size())]);
            f.lay = any_layout(r, f);
            set_dims(f.c, f.lay);
            if (r.coin(0.3)) {
                f.c.set("Problem", "restart_file", first.dir + "/absent.h5");
                how = "restart from nothing";
                fails = true;
            }
        }
    } else if (kind == 7) { // an output time that is already over
        how = "first output before the start";
        f.c.set("Run", "t_ini", 2.0);
        f.c.set("Output", "time_frequency", 1.0);
        f.c.set("Output", "time_first_output", r.uni(-1, 2));
        fails = true;
    }
    std::vector<int> asked, jump; // the allowance of wall clock time ends at another moment on each rank
    if ((kind == 0 || kind == 1 || (kind == 6 && !fails)) && r.coin(0.4)) {
        how += ", clocks apart";
        for (int p = 0; p < f.ranks(); ++p) {
            jump.push_back(r.range(2, 2 + f.steps));
        }
    }
    vclock::extra() = [&] {
        if (vshim::tl_rank < 0 || jump.empty()) {
            return 0.;
        }
        auto const q = static_cast<std::size_t>(vshim::tl_rank);
        return q < asked.size() && ++asked[q] >= jump[q] ? 100. : 0.;
    };
    std::string const cfg = "program " + f.text + " " + how;
    std::set<std::string> ends;
    for (int rep = 0; rep < (kind == 6 ? 1 : 2); ++rep) {
        std::fill(calls.begin(), calls.end(), 0);
        asked.assign(static_cast<std::size_t>(f.ranks()), 0);
        if (kind == 1) {
            shift_at(f.seed, 0, 0.7, f.ranks());
        }
        Run const x = run(f.c, run_opt(r, f));
        auto const notes = [&] {
            std::string s;
            for (auto const& q : x.mpi.notes) {
                s += " " + q;
            }
            return s;
        };
        int const np = f.ranks();
        if (x.mpi.inits != np || x.mpi.finalizes != np) {
            vck::fail("protocol.session", cfg + fmt(" %d ranks start message passing %d times and end it %d times", np, x.mpi.inits, x.mpi.finalizes) + notes() + x.why());
        }
        if (!x.mpi.notes.empty() || x.mpi.leaked_comms != 0 || x.mpi.unmatched_sends != 0) {
            vck::fail("protocol.clean", cfg + fmt(" leaves %ld communicators and %ld messages:", x.mpi.leaked_comms, x.mpi.unmatched_sends) + notes() + " " + x.why());
        }
        if (fails && !all_failed(x)) {
            vck::fail("protocol.error", cfg + " does not end with an error on every rank: " + x.why());
        }
        if (!fails && !may_fail && !x.ok() && !(cold(x) && all_failed(x))) {
            vck::fail("protocol.run", cfg + " run failed: " + x.why());
        }
        ends.insert(fmt("%d", x.ok()));
        drop(x);
        vck::stat(how.c_str());
    }
    if (ends.size() > 1) {
        vck::fail("protocol.schedule", cfg + " ends differently under two schedules");
    }
    vclock::extra() = nullptr;
    clear_hooks();
    if (have_first) {
        drop(first);
    }
    vck::eval(vck::hash_str(cfg), f.ranks() > 1);
}

// ---- C08 ----
// however a run ends, each rank opens the session once, closes it once and stays inside it
void session(long n, Rng& r)
{
    Opt o;
    o.steps = 2;
    o.nmax = nd == 1 ? 20 : 7;
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    RunOpt ro = run_opt(r, f);
    std::string how = "plain run";
    int fails = 0; // 1: must, 2: may
    f.install();
    std::vector<int> calls(static_cast<std::size_t>(f.ranks()), 0);
    switch (n % 9) {
    case 1:
        how = "unknown component";
        f.c.set(r.coin() ? "Hydro" : "Grid", r.coin() ? "riemann_solver" : "type", "nothing");
        f.c.set("Hydro", "reconstruction", "nothing");
        fails = 1;
        break;
    case 2:
        how = "unreadable number";
        f.c.set("Run", "cfl", "fast");
        fails = 1;
        break;
    case 4:
        how = "missing restart file";
        f.c.set("Problem", "restart", "true");
        f.c.set("Problem", "restart_file", "/nonexistent/file.h5");
        fails = 1;
        break;
    case 5:
        how = "missing configuration of the outputs";
        ro.extra_args = {"--pdi-config=/nonexistent/io.yml"};
        fails = 1;
        break;
    case 6: {
        how = "invalid energy";
        int const who = r.range(0, f.ranks() - 1);
        f.steps = 3;
        f.c.set("Output", "max_iter", 3);
        f.c.set("User step", "user_step", "UserDefined");
        vcase::hooks().user_step = [&, who](hclpp::Range const&, double, double, double*, double* E, double*, int const* ext, int) {
            if (calls[static_cast<std::size_t>(vshim::tl_rank)]++ == 0 && vshim::tl_rank == who) {
                E[ext[0] / 2 + static_cast<long>(ext[0]) * (ext[1] / 2 + static_cast<long>(ext[1]) * (ext[2] / 2))] = NAN;
            }
        };
        fails = 1;
        break;
    }
    case 7:
        how = "too few ghost cells";
        f.c.set("Grid", "Nghost", 1);
        fails = 1;
        break;
    case 8:
        how = "first output before the start";
        f.c.set("Run", "t_ini", 2.0);
        f.c.set("Output", "time_frequency", 1.0);
        f.c.set("Output", "time_first_output", 1.0);
        fails = 1;
        break;
    case 3:
        how = "unknown boundary condition";
        f.c.set("Boundary Condition", "BC_X0_left", "Open");
        fails = 1;
        break;
    default: break;
    }
    std::string const cfg = "program " + f.text + " " + how;
    Run const x = run(f.c, ro);
    clear_hooks();
    std::string notes;
    for (auto const& q : x.mpi.notes) {
        notes += " " + q;
    }
    if (x.mpi.inits != f.ranks() || x.mpi.finalizes != f.ranks()) {
        vck::fail("session.count", cfg + fmt(" %d ranks start message passing %d times and end it %d times", f.ranks(), x.mpi.inits, x.mpi.finalizes) + notes + x.why());
    }
    if (!x.mpi.notes.empty()) {
        vck::fail("session.calls", cfg + notes);
    }
    if (fails == 1 && !all_failed(x)) {
        vck::fail("session.error", cfg + " does not end with an error on every rank: " + x.why());
    }
    if (fails == 0 && !x.ok() && !cold(x)) {
        vck::fail("session.run", cfg + " run failed: " + x.why());
    }
    drop(x);
    vck::stat(how.c_str());
    vck::eval(vck::hash_str(cfg));
}

// ---- C07 ----
// no run leaves an object of the file library open, whether it restarts, is refused or writes outputs
void handles(long, Rng& r)
{
    Opt o;
    o.steps = 2;
    o.nmax = nd == 1 ? 20 : 7;
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    std::string const cfg = "program " + f.text;
    long const before = vh5::open_now();
    long seen = vh5::opened_so_far();
    Run const x = run(f.c, run_opt(r, f));
    auto judge = [&](char const* how, Run const& y) {
        if (vh5::open_now() != before) {
            vck::fail("handles.open", cfg + " " + how + " leaves file objects open: " + vh5::list() + " (" + y.why() + ")");
        }
        if (vh5::bad_so_far() != 0) {
            vck::fail("handles.twice", cfg + " " + how + " closes a file object that is not open, by " + vh5::live().last_bad);
        }
        if (H5Fget_obj_count(static_cast<hid_t>(H5F_OBJ_ALL), H5F_OBJ_ALL) != 0) {
            vck::fail("handles.library", cfg + " " + how + " leaves objects open in the library (" + y.why() + ")");
        }
        vck::stat("objects_opened", static_cast<double>(vh5::opened_so_far() - seen));
        seen = vh5::opened_so_far();
        vck::stat(how);
        vck::eval(vck::hash_str(cfg + how));
    };
    judge("plain run", x);
    if (!x.files.empty()) {
        Ini c = f.c;
        c.set("Problem", "restart", "true");
        c.set("Problem", "restart_file", x.dir + "/" + x.files[r.below(x.files.size())]);
        set_dims(c, f.lay);
        Run const y = run(c, run_opt(r, f));
        judge("restart", y);
        drop(y);
        for (int d = 0; d < nd; ++d) { // each node array refused in turn
            Ini w = c;
            w.set("Grid", fmt("Nx%d_glob", d), f.b.n[d] + 1);
            Run const z = run(w, run_opt(r, f));
            if (!all_failed(z)) {
                vck::fail("handles.accepted", cfg + fmt(" restart on a mesh of another size along direction %d was not refused: ", d) + z.why());
            }
            judge("refused restart", z);
            drop(z);
        }
        c.set("Problem", "restart_file", x.dir + "/absent.h5");
        Run const z = run(c, run_opt(r, f));
        judge("restart from nothing", z);
        drop(z);
    }
    drop(x);
    clear_hooks();
}

// ---- C27 ----
// every feature under the memory and undefined behaviour monitors; kernels in several orders or on several threads
void safety(long n, Rng& r)
{
    Opt o;
    o.steps = 3;
    o.heat = true;
    o.user_bc = false;
    o.maxp = nd == 1 ? 4 : 8;
    o.nfx_max = 4;
    if (n % 3 == 0) {
        o.nmax = 5; // down to as many cells as ghosts
        o.nmin = 2;
    }
    if (n % 4 == 0) {
        o.amp = 3;
        o.mach = 3;
    }
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    f.c.set("Parallelization", "mpi_device_aware", r.coin() ? "true" : "false");
    bool const shift = gravity_kind != 1 && r.coin(0.3);
    if (shift) {
        f.c.set("Grid", "shift_grid", "UserDefined");
        f.text += " moving grid";
    }
    std::string const cfg = "program " + f.text;
    std::vector<H5> ref;
    std::string first;
    int const threads = vck::st().opt.count("threads") ? std::atoi(vck::st().opt["threads"].c_str()) : 1;
    static vshim::Order const orders[3] = {vshim::Order::sequential, vshim::Order::reverse, vshim::Order::random};
    for (int rep = 0; rep < (threads > 1 ? 1 : 3); ++rep) {
        f.install();
        if (shift) {
            shift_at(f.seed, 0, 0.6, f.ranks());
        }
        RunOpt opt;
        opt.ranks = f.ranks();
        opt.seed = f.seed;
        opt.order = orders[rep];
        vshim::config().threads = threads;
        Run const x = run(f.c, opt);
        vshim::config().threads = 1;
        clear_hooks();
        if (!x.ok() && !cold(x)) {
            vck::fail("safety.run", cfg + " run failed: " + x.why());
        }
        for (std::size_t i = 0; i < x.files.size(); ++i) {
            H5 h = x.load(static_cast<int>(i));
            if (rep == 0) {
                ref.push_back(std::move(h));
                continue;
            }
            if (i >= ref.size()) {
                vck::fail("safety.order", cfg + " writes more files with another order of the iterations");
                break;
            }
            for (auto const& [name, v] : ref[i].d) {
                auto const& w = h.f(name);
                // sums over cells, as those of the gravity of the gas itself, are rounded in the order of their terms
                double const tol = gravity_kind == 2 && v.size() > 1 ? (radgas() ? 1e-8 : 1e-10) * field_scale(f, ref[i], name) : 0;
                for (std::size_t q = 0; q < v.size(); ++q) {
                    if (w.size() != v.size() || !(std::fabs(v[q] - w[q]) <= tol || v[q] == w[q] || (std::isnan(v[q]) && std::isnan(w[q])) || (tol > 0 && v.size() == 1))) {
                        vck::fail("safety.order", cfg + fmt(" file %zu %s[%zu] depends on the order of the iterations: %.17g and %.17g", i, name.c_str(), q, v[q], w.size() == v.size() ? w[q] : NAN));
                        break;
                    }
                }
                vck::stat("values_compared", static_cast<double>(v.size()));
            }
        }
        if (rep == 0 && x.ok() && x.files.size() > 1) { // and back in
            Ini c = f.c;
            c.set("Problem", "restart", "true");
            c.set("Problem", "restart_file", x.dir + "/" + x.files[0]);
            c.set("Output", "prefix", "again");
            f.install();
            if (shift) {
                shift_at(f.seed, 0, 0.6, f.ranks());
            }
            vshim::config().threads = threads;
            Run const y = run(c, opt);
            vshim::config().threads = 1;
            clear_hooks();
            if (!y.ok() && !cold(y)) {
                vck::fail("safety.run", cfg + " restarted run failed: " + y.why());
            }
            drop(y);
        }
        drop(x);
    }
    vck::eval(vck::hash_str(cfg));
}

} // namespace

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    long const k = vck::st().thorough ? 20 : 1;
    long const w = nd == 3 ? 1 : 2; // three-dimensional runs cost more
    if (what == "restart") {
        vck::cases("restart", 14 * w * k, restart);
        vck::cases("refused", 20 * w * k, refused);
        if (nd == 1) {
            vck::cases("limit", 1, beyond_limit);
        }
    } else if (what == "energy") {
        vck::cases("energy", 60 * w * k, energy);
    } else if (what == "shift") {
        vck::cases("shift", 30 * w * k, shift);
    } else if (what == "names") {
        vck::cases("accepted", 30 * w * k, accepted);
        vck::cases("unknown", 100 * w * k, unknown);
    } else if (what == "protocol") {
        vck::cases("protocol", 48 * w * k, protocol);
    } else if (what == "session") {
        vck::cases("session", 60 * w * k, session);
    } else if (what == "handles") {
        vck::cases("handles", 15 * w * k, handles);
    } else if (what == "safety") {
        vck::cases("safety", vck::st().opt.count("n") ? std::atol(vck::st().opt["n"].c_str()) * k : 8 * w * k, safety);
    }
    return vck::finish();
}
