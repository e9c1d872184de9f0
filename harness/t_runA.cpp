// Statements about the evolution computed by whole runs of the program.
//   what=conserve (C15)  layout (C16)  rest (C22)  scalars (C23)  gravity (C24)  symmetry, reduce (C30)
#include <vfeat.hpp>

using namespace vfeat;
using vphys::ld;

namespace {

// the conserved state of a cell
struct Cons
{
    ld rho = 0, m[3] = {0, 0, 0}, E = 0;
    std::vector<ld> s;
};
Cons cons(Step const& s, std::size_t q)
{
    Cons c;
    c.rho = s.rho[q];
    for (int d = 0; d < nd; ++d) {
        c.m[d] = s.m[d][q];
    }
    c.E = s.E[q];
    for (auto const& f : s.fx) {
        c.s.push_back(static_cast<ld>(f[q]) * s.rho[q]);
    }
    return c;
}
Cons cons(Feat const& f, vcase::CellState const& s)
{
    Cons c;
    c.rho = s.rho;
    ld u2 = 0;
    for (int d = 0; d < nd; ++d) {
        c.m[d] = static_cast<ld>(s.rho) * s.u[d];
        u2 += static_cast<ld>(s.u[d]) * s.u[d];
    }
    c.E = f.gas().e_P(s.rho, s.P) + s.rho * u2 / 2;
    for (int q = 0; q < f.nfx; ++q) {
        c.s.push_back(static_cast<ld>(s.fx[q]) * s.rho);
    }
    return c;
}

bool cold(Run const& x) { return x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos; }

template <class F>
void each(Box const& b, F const& f)
{
    for (int k = 0; k < b.n[2]; ++k) {
        for (int j = 0; j < b.n[1]; ++j) {
            for (int i = 0; i < b.n[0]; ++i) {
                f(i, j, k, static_cast<std::size_t>(b.at(i, j, k)));
            }
        }
    }
}

// ---- C15 ----
// In spherical coordinates a reflexive wall is tight only where its area vanishes (centre, axis); elsewhere the gas next to
// it is left at rest here.
void conserve(long n, Rng& r)
{
    Opt o;
    o.open = false;
    o.gravity = false;
    o.steps = spherical() ? (nd == 3 ? 2 : 3) : (vck::st().thorough ? 40 : 8);
    o.pf = false;
    o.amp = r.pick(std::vector<double> {0.3, 1, 3});
    o.mach = r.pick(std::vector<double> {0.1, 0.5, 2});
    Feat f = random_feat(r, o);
    int lo[3] = {0, 0, 0}, hi[3] = {1 << 20, 1 << 20, 1 << 20}; // cells that are not at rest
    if (spherical()) {
        bool const centre = r.coin(), axis = nd > 1 && r.coin();
        int const m = 2 * f.steps;
        for (int d = 0; d < nd; ++d) {
            bool const per = f.bc.kind[static_cast<std::size_t>(2 * d)] == vghost::periodic;
            bool const tl = per || (d == 0 && centre) || (d == 1 && axis), tr = per || (d == 1 && axis);
            f.b.n[d] = std::max(f.ng, (tl ? 0 : m) + (tr ? 0 : m) + r.range(2, 4));
            lo[d] = tl ? 0 : m;
            hi[d] = tr ? 1 << 20 : f.b.n[d] - m;
        }
        if (centre) {
            f.b.lo[0] = 0;
        }
        if (axis) {
            f.b.lo[1] = 0;
            f.b.hi[1] = M_PI;
        }
        f.user_grid = false;
        f.lay = pick_layout(r, f.b, 8, f.ng);
        rebuild(f);
        f.text += fmt(" moving from cell (%d,%d,%d) to (%d,%d,%d)%s%s", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], centre ? " with the centre" : "", axis ? " with the axis" : "");
    } else if (gravity_kind == 0 && n % 3 == 0) { // gravity along periodic directions
        for (int d = 0; d < nd; ++d) {
            bool const per = f.bc.kind[static_cast<std::size_t>(2 * d)] == vghost::periodic;
            f.g[d] = per ? r.uni(-1, 1) * f.sc.u * f.sc.u : 0;
            o.gravity = o.gravity || per;
        }
        rebuild(f);
    }
    if (r.coin(0.3)) { // mass and scalars through corrections of the energy
        f.c.set("Pressure fix", "pressure_fix", "On");
        f.c.set("Pressure fix", "eps_pf", r.loguni(1e-3, 10));
        f.text += " pressure fix";
    }
    auto const initial = [=](int i, int j, int k) {
        auto s = f.state(i, j, k);
        if (i < lo[0] || i >= hi[0] || j < lo[1] || j >= hi[1] || k < lo[2] || k >= hi[2]) {
            s.rho = f.sc.rho;
            s.P = f.sc.P;
            s.u[0] = s.u[1] = s.u[2] = 0;
        }
        return s;
    };
    bool const energy = f.c.get("Pressure fix", "pressure_fix").empty() && !o.gravity;
    bool const momentum = !o.gravity && !spherical();
    f.install_grid();
    vcase::hooks().init = [=](vcase::CellIn const& q) { return initial(q.g[0], q.g[1], q.g[2]); };
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    std::string const cfg = "program " + f.text;
    Run const x = run(f.c, run_opt(r, f));
    drop(x);
    clear_hooks();
    bool const broke = !x.ok() && cold(x);
    if (!x.ok() && !broke) {
        vck::fail("conserve.run", cfg + " run failed: " + x.why());
        return;
    }
    Mesh const m = f.mesh();
    Cons t0, sc;
    t0.s.assign(static_cast<std::size_t>(f.nfx), 0);
    sc.s.assign(static_cast<std::size_t>(f.nfx), 0);
    each(f.b, [&](int i, int j, int k, std::size_t) {
        Cons const c = cons(f, initial(i, j, k));
        ld const v = m.vol(i, j, k);
        t0.rho += v * c.rho;
        t0.E += v * c.E;
        ld const cs = f.gas().c_P(c.rho, initial(i, j, k).P);
        for (int d = 0; d < nd; ++d) {
            t0.m[d] += v * c.m[d];
            sc.m[d] += v * c.rho * (cs + fabsl(c.m[d] / c.rho));
        }
        for (std::size_t q = 0; q < c.s.size(); ++q) {
            t0.s[q] += v * c.s[q];
        }
    });
    std::size_t const steps = ob.steps.size();
    for (std::size_t s = 0; s < steps; ++s) {
        if (ob.steps[s].cells_seen != f.b.cells()) {
            continue;
        }
        Cons t;
        t.s.assign(static_cast<std::size_t>(f.nfx), 0);
        each(f.b, [&](int i, int j, int k, std::size_t q) {
            Cons const c = cons(ob.steps[s], q);
            ld const v = m.vol(i, j, k);
            t.rho += v * c.rho;
            t.E += v * c.E;
            for (int d = 0; d < nd; ++d) {
                t.m[d] += v * c.m[d];
            }
            for (std::size_t w = 0; w < c.s.size(); ++w) {
                t.s[w] += v * c.s[w];
            }
        });
        ld const tol = 2e-14L * static_cast<ld>(s + 2);
        auto judge = [&](std::string const& what, ld a, ld b, ld scale, ld tl) {
            if (!(fabsl(b - a) <= tl * scale)) {
                vck::fail("conserve." + what, cfg + fmt(" the total %s was %.17Lg and is %.17Lg after step %zu (%.3Lg of its scale)", what.c_str(), a, b, s, (b - a) / scale));
            }
            if (tl > 0 && scale > 0) {
                vck::stat_max("max.drift_over_tolerance", static_cast<double>(fabsl(b - a) / (tl * scale)));
            }
        };
        judge("mass", t0.rho, t.rho, t0.rho, tol);
        for (std::size_t q = 0; q < t.s.size(); ++q) {
            judge("scalar", t0.s[q], t.s[q], t0.rho, tol);
        }
        if (energy) {
            judge("energy", t0.E, t.E, t0.E, tol + (radgas() ? 1e-11L : 0));
        }
        if (momentum) {
            for (int d = 0; d < nd; ++d) {
                if (f.bc.kind[static_cast<std::size_t>(2 * d)] == vghost::periodic && f.bc.kind[static_cast<std::size_t>(2 * d + 1)] == vghost::periodic) {
                    judge(fmt("momentum_%d", d), t0.m[d], t.m[d], sc.m[d], tol);
                }
            }
        }
        vck::stat("steps_checked");
    }
    if (!broke) {
        double const im = after(x.w.cout_text, "Initial mass = "), ch = after(x.w.cout_text, "change in mass = ");
        if (!(std::fabs(im - static_cast<double>(t0.rho)) <= 6e-6 * std::fabs(im)) || !(ch <= static_cast<double>(t0.rho) * 2e-14 * static_cast<double>(steps + 2))) {
            vck::fail("conserve.report", cfg + fmt(" reported mass %.17g and change %.17g, the mass is %.17Lg", im, ch, t0.rho));
        }
    }
    vck::stat(broke ? "runs_ended_by_invalid_energy" : "runs_completed");
    vck::eval(vck::hash_str(cfg), steps > 0);
}

// the reported change is the true one also when mass leaves or enters
void report(long, Rng& r)
{
    Opt o;
    o.steps = 6;
    o.mach = 1;
    Feat f = random_feat(r, o);
    f.install();
    f.c.set("Output", "iter_frequency", 1);
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    std::string const cfg = "program " + f.text;
    if (x.ok()) {
        Mesh const m = f.mesh();
        ld t[2] = {0, 0};
        for (int w = 0; w < 2; ++w) {
            H5 const h = w ? x.last() : x.load(0);
            each(f.b, [&](int i, int j, int k, std::size_t q) { t[w] += static_cast<ld>(m.vol(i, j, k)) * h.f("rho").at(q); });
        }
        double const im = after(x.w.cout_text, "Initial mass = "), ch = after(x.w.cout_text, "change in mass = "), ref = static_cast<double>(fabsl(t[1] - t[0]));
        if (!(std::fabs(im - static_cast<double>(t[0])) <= 6e-6 * im) || !(std::fabs(ch - ref) <= 6e-6 * ref + 1e-13 * im)) {
            vck::fail("conserve.report", cfg + fmt(" reported mass %.9g and change %.9g, in the files they are %.9Lg and %.9g", im, ch, t[0], ref));
        }
        if (ref > 1e-6 * im) {
            vck::stat("reports_of_real_changes");
        }
    } else if (!cold(x)) {
        vck::fail("conserve.run", cfg + " run failed: " + x.why());
    }
    drop(x);
    vck::eval(vck::hash_str(cfg));
}

// ---- C16 ----
void layout(long, Rng& r)
{
    Opt o;
    o.steps = 5;
    o.heat = true;
    o.maxp = 8;
    o.amp = r.coin() ? 0.3 : 1;
    o.mach = r.coin() ? 0.3 : 1.5;
    Feat f = random_feat(r, o);
    f.c.set("Output", "iter_frequency", 1);
    if (gravity_kind != 2 && f.lay == std::array<int, 3> {1, 1, 1}) {
        f.lay = pick_layout(r, f.b, 8, f.ng, 2);
    }
    std::vector<std::array<int, 3>> lays {{1, 1, 1}, f.lay};
    auto const other = pick_layout(r, f.b, 8, f.ng, 2);
    if (gravity_kind != 2 || other[0] == 1) {
        lays.push_back(other);
    }
    if (r.coin(0.2)) {
        f.c.set("Output", "time_frequency", 1e-3 * (f.b.hi[0] - f.b.lo[0]) / f.sc.u);
    }
    std::string const cfg0 = "program " + f.text;
    std::vector<H5> ref;
    std::vector<std::string> names;
    std::string ref_final;
    double ref_mass = 0;
    bool ref_ok = false;
    for (std::size_t l = 0; l < lays.size(); ++l) {
        f.lay = lays[l];
        Ini c = f.c;
        set_dims(c, lays[l]);
        f.install();
        RunOpt opt = run_opt(r, f);
        Run const x = run(c, opt);
        clear_hooks();
        std::string const cfg = cfg0 + fmt(" run on %dx%dx%d ranks", lays[l][0], lays[l][1], lays[l][2]);
        if (!x.ok() && !cold(x)) {
            vck::fail("layout.run", cfg + " run failed: " + x.why());
            drop(x);
            return;
        }
        auto const p = x.w.cout_text.find("Final time");
        std::string const fin = p == std::string::npos ? "" : x.w.cout_text.substr(p, x.w.cout_text.find('\n', p) - p);
        double const mass = after(x.w.cout_text, "Initial mass = ");
        if (l == 0) {
            for (std::size_t i = 0; i < x.files.size(); ++i) {
                ref.push_back(x.load(static_cast<int>(i)));
            }
            names = x.files;
            ref_final = fin;
            ref_mass = mass;
            ref_ok = x.ok();
        } else {
            if (x.ok() != ref_ok || x.files != names || fin != ref_final) {
                vck::fail("layout.outputs", cfg + fmt(" ends with '%s' and %zu files, on one rank with '%s' and %zu", fin.c_str(), x.files.size(), ref_final.c_str(), names.size()));
            }
            if (ref_ok && !(std::fabs(mass - ref_mass) <= 6e-6 * std::fabs(ref_mass))) {
                vck::fail("layout.totals", cfg + fmt(" reports the mass %.9g, on one rank %.9g", mass, ref_mass));
            }
            for (std::size_t i = 0; i < std::min(x.files.size(), ref.size()); ++i) {
                H5 const h = x.load(static_cast<int>(i));
                for (auto const& [name, v] : ref[i].d) {
                    auto const& w = h.f(name);
                    if (w.size() != v.size()) {
                        vck::fail("layout.shape", cfg + fmt(" file %zu %s has another size", i, name.c_str()));
                        continue;
                    }
                    double scale = 0;
                    for (double const q : v) {
                        scale = std::fmax(scale, std::fabs(q));
                    }
                    if (name[0] == 'u') {
                        scale = f.sc.u;
                    }
                    for (std::size_t q = 0; q < v.size(); ++q) {
                        bool const same = gravity_kind != 2 ? (v[q] == w[q] || (std::isnan(v[q]) && std::isnan(w[q]))) : std::fabs(v[q] - w[q]) <= (radgas() ? 1e-8 : 1e-10) * scale;
                        if (!same) {
                            vck::fail("layout.fields", cfg + fmt(" file %zu %s[%zu] is %.17g, on one rank %.17g", i, name.c_str(), q, w[q], v[q]));
                            break;
                        }
                    }
                    vck::stat("values_compared", static_cast<double>(v.size()));
                }
            }
        }
        drop(x);
    }
    vck::eval(vck::hash_str(cfg0), lays.size() > 1);
}

// ---- C22 ----
void rest(long n, Rng& r)
{
    Opt o;
    o.gravity = false;
    o.pf = r.coin(0.2);
    o.steps = vck::st().thorough ? 60 : 12;
    bool const moving = !spherical() && n % 2 == 0;
    Feat f = random_feat(r, o);
    f.amp = f.mach = 0;
    double u[3] = {0, 0, 0};
    if (moving) {
        double const M = r.pick(std::vector<double> {1e-6, 0.1, 1, 1, 5, 50});
        for (int d = 0; d < nd; ++d) {
            u[d] = r.coin(0.8) ? M * f.sc.u * r.uni(-1, 1) : 0;
        }
        f.bc = vghost::Bcs {};
        for (int q = 0; q < 2 * nd; ++q) {
            f.bc.order.push_back(q);
        }
        for (int d = 0; d < nd; ++d) {
            if (r.coin(0.2)) {
                f.bc.kind[static_cast<std::size_t>(2 * d)] = f.bc.kind[static_cast<std::size_t>(2 * d + 1)] = vghost::null_gradient;
            }
        }
    }
    double const fv = r.pick(std::vector<double> {0, 1, 0.3, r.u01()});
    put_bcs(f.c, f.bc);
    f.describe();
    f.install_grid();
    auto const sc = f.sc;
    vcase::hooks().init = [=](vcase::CellIn const&) {
        vcase::CellState s {};
        s.rho = sc.rho;
        s.P = sc.P;
        for (int d = 0; d < 3; ++d) {
            s.u[d] = u[d];
        }
        for (double& q : s.fx) {
            q = fv;
        }
        return s;
    };
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    std::string const cfg = "program " + f.text + fmt(" uniform state at (%.6g %.6g %.6g)", u[0], u[1], u[2]);
    Run const x = run(f.c, run_opt(r, f));
    drop(x);
    clear_hooks();
    if (!x.ok()) {
        vck::fail("rest.run", cfg + " run failed: " + x.why());
        return;
    }
    ld u2 = 0;
    for (double const q : u) {
        u2 += static_cast<ld>(q) * q;
    }
    ld const e = f.gas().e_P(sc.rho, sc.P), E = e + sc.rho * u2 / 2, c = f.gas().c_P(sc.rho, sc.P);
    ld const vs = c + sqrtl(u2);
    bool shown = false;
    for (std::size_t s = 0; s < ob.steps.size() && !shown; ++s) {
        ld const tol = 3e-14L * static_cast<ld>(s + 3);
        auto const& st = ob.steps[s];
        each(f.b, [&](int i, int j, int k, std::size_t q) {
            if (shown) {
                return;
            }
            bool ok = fabsl(st.rho[q] - sc.rho) <= tol * sc.rho && fabsl(st.E[q] - E) <= (tol + (radgas() ? 1e-10L : 0)) * E;
            for (int d = 0; d < nd; ++d) {
                ok = ok && fabsl(st.m[d][q] - static_cast<ld>(sc.rho) * u[d]) <= tol * sc.rho * vs;
            }
            for (auto const& fx : st.fx) {
                ok = ok && std::fabs(fx[q] - fv) <= static_cast<double>(tol);
            }
            if (!ok) {
                vck::fail("rest.uniform", cfg + fmt(" after step %zu cell (%d,%d,%d): density %+.3Lg, momentum (%+.3Lg %+.3Lg %+.3Lg), energy %+.3Lg off, relative to their scales", s, i, j, k,
                                                    (st.rho[q] - sc.rho) / sc.rho, (st.m[0][q] - sc.rho * (ld)u[0]) / (sc.rho * vs), nd > 1 ? (st.m[1][q] - sc.rho * (ld)u[1]) / (sc.rho * vs) : 0,
                                                    nd > 2 ? (st.m[2][q] - sc.rho * (ld)u[2]) / (sc.rho * vs) : 0, (st.E[q] - E) / E));
                shown = true;
            }
        });
        vck::stat("steps_checked");
    }
    vck::eval(vck::hash_str(cfg));
}

// ---- C23 ----
void scalars(long n, Rng& r)
{
    Opt o;
    o.steps = vck::st().thorough ? 30 : 8;
    o.amp = r.pick(std::vector<double> {0.3, 1, 2});
    o.mach = r.pick(std::vector<double> {0.3, 1, 3});
    o.nfx_max = 4;
    Feat f = random_feat(r, o);
    if (f.nfx == 0) {
        f.nfx = r.coin(0.2) ? r.range(6, 10) : r.range(1, 5);
        f.c.set("Passive Scalar", "nfx", f.nfx);
        f.describe();
    }
    f.c.set("Output", "iter_frequency", 1);
    // the first field of each scalar: its own noise, uniform, blocks of 0 and 1, a copy of another one
    std::vector<int> kind;
    std::vector<double> level;
    std::vector<int> chan;
    for (int q = 0; q < f.nfx; ++q) {
        kind.push_back(r.range(0, 2));
        level.push_back(r.pick(std::vector<double> {0, 1, 0.5, r.u01()}));
        chan.push_back(q);
        if (q > 0 && r.coin(0.2)) { // identical to the previous one
            kind.back() = kind[static_cast<std::size_t>(q) - 1];
            level.back() = level[static_cast<std::size_t>(q) - 1];
            chan.back() = chan[static_cast<std::size_t>(q) - 1];
        }
    }
    auto value = [=](int q, int const* g) {
        auto const Q = static_cast<std::size_t>(q);
        if (kind[Q] == 1) {
            return level[Q];
        }
        double const h = h01(f.seed, 40 + chan[Q], g[0], g[1], g[2]);
        return kind[Q] == 0 ? h : (h < 0.5 ? 0.0 : 1.0);
    };
    // three runs: all scalars, a permutation with repetitions, none at all
    std::vector<int> map0, map1;
    for (int q = 0; q < f.nfx; ++q) {
        map0.push_back(q);
    }
    int const n1 = r.range(1, std::min(8, f.nfx + 2));
    for (int q = 0; q < n1; ++q) {
        map1.push_back(r.range(0, f.nfx - 1));
    }
    std::string const cfg = "program " + f.text;
    std::vector<H5> ref;
    for (int v = 0; v < 3; ++v) {
        auto const map = v == 0 ? map0 : (v == 1 ? map1 : std::vector<int> {});
        Ini c = f.c;
        c.set("Passive Scalar", "nfx", static_cast<int>(map.size()));
        f.install();
        vcase::hooks().init = [&](vcase::CellIn const& q) {
            auto s = f.state(q.g[0], q.g[1], q.g[2]);
            for (std::size_t w = 0; w < map.size(); ++w) {
                s.fx[w] = value(map[w], q.g);
            }
            return s;
        };
        Run const x = run(c, run_opt(r, f));
        clear_hooks();
        if (!x.ok() && !cold(x)) {
            vck::fail("scalar.run", cfg + fmt(" with %zu scalars: run failed: ", map.size()) + x.why());
            drop(x);
            return;
        }
        std::vector<H5> out;
        for (std::size_t i = 0; i < x.files.size(); ++i) {
            out.push_back(x.load(static_cast<int>(i)));
        }
        drop(x);
        if (v == 0) {
            ref = std::move(out);
            for (std::size_t i = 0; i < ref.size(); ++i) {
                for (int q = 0; q < f.nfx; ++q) {
                    auto const& a = ref[i].f(fmt("fx%d", q));
                    auto const& a0 = ref[0].f(fmt("fx%d", q));
                    if (a.empty() || a0.size() != a.size()) {
                        vck::fail("scalar.missing", cfg + fmt(" scalar %d is not in file %zu", q, i));
                        continue;
                    }
                    double const lo = *std::min_element(a0.begin(), a0.end()), hi = *std::max_element(a0.begin(), a0.end());
                    double const tol = 1e-14 * static_cast<double>(i + 2);
                    for (std::size_t w = 0; w < a.size(); ++w) {
                        if (!(a[w] >= lo - tol && a[w] <= hi + tol)) {
                            vck::fail(kind[static_cast<std::size_t>(q)] == 1 ? "scalar.uniform" : "scalar.bounds", cfg + fmt(" scalar %d started within [%.17g, %.17g] and is %.17g in file %zu cell %zu", q, lo, hi, a[w], i, w));
                            break;
                        }
                    }
                    if (chan[static_cast<std::size_t>(q)] != q && a != ref[i].f(fmt("fx%d", q - 1))) {
                        vck::fail("scalar.twins", cfg + fmt(" scalars %d and %d started identical and differ in file %zu", q - 1, q, i));
                    }
                    vck::stat("scalar_fields_checked");
                }
            }
            continue;
        }
        if (out.size() != ref.size()) {
            vck::fail("scalar.acts", cfg + fmt(" %zu files with %zu scalars, %zu with %d", out.size(), map.size(), ref.size(), f.nfx));
            continue;
        }
        for (std::size_t i = 0; i < out.size(); ++i) {
            for (auto const& [name, a] : out[i].d) {
                if (name.rfind("fx", 0) == 0 || name == "nfx") {
                    continue;
                }
                if (a != ref[i].f(name) && !(std::isnan(a.empty() ? 0 : a[0]))) {
                    vck::fail("scalar.acts", cfg + fmt(" %s in file %zu differs between runs with %zu and %d scalars", name.c_str(), i, map.size(), f.nfx));
                }
            }
            for (std::size_t w = 0; w < map.size(); ++w) {
                if (out[i].f(fmt("fx%zu", w)) != ref[i].f(fmt("fx%d", map[w]))) {
                    vck::fail("scalar.mix", cfg + fmt(" file %zu: scalar %zu, initialised as scalar %d of another run, differs from it", i, w, map[w]));
                }
            }
        }
    }
    (void)n;
    vck::eval(vck::hash_str(cfg), f.nfx > 0);
}

// a smooth scalar in a uniform flow: the profile moves with the flow, whatever the direction
void carried(long, Rng& r)
{
    if (spherical()) {
        return;
    }
    Opt o;
    o.walls = false;
    o.gravity = false;
    o.irregular = false;
    o.pf = false;
    o.maxp = 4;
    Feat f = random_feat(r, o);
    int const a = r.range(0, nd - 1);
    double const mach = r.loguni(0.8, 5);
    f.cfl = 0.35;
    f.ng = r.pick(std::vector<int> {2, 2, 3});
    double u[3] = {0, 0, 0};
    double const cs = static_cast<double>(f.gas().c_P(f.sc.rho, f.sc.P));
    u[a] = (r.coin() ? 1 : -1) * mach * cs;
    for (int d = 0; d < nd; ++d) {
        if (d != a && r.coin()) {
            u[d] = r.uni(-1, 1) * mach * cs;
        }
    }
    f.nfx = std::max(f.nfx, 1);
    f.amp = f.mach = 0;
    double const L = f.b.hi[a] - f.b.lo[a], dist = r.uni(0.1, 0.2), phase = r.u01();
    double err[2] = {0, 0};
    std::string cfg;
    for (int v = 0; v < 2; ++v) {
        int const n = v ? 48 : 24;
        for (int d = 0; d < nd; ++d) {
            f.b.n[d] = d == a ? n : f.ng;
            f.lay[static_cast<std::size_t>(d)] = d == a ? r.range(1, 3) : 1;
            if (d != a) { // the profile decides on the step
                f.b.lo[d] = 0;
                f.b.hi[d] = 10 * L;
            }
        }
        rebuild(f);
        f.c.set("Output", "max_iter", 100000);
        f.c.set("Run", "t_end", dist * L / std::fabs(u[a]));
        cfg = "program " + f.text + fmt(" uniform flow u=(%.6g %.6g %.6g), scalar varying along direction %d carried over %.3g of the box", u[0], u[1], u[2], a, dist);
        auto const profile = [=](int i, double shift) { return 0.5 + 0.4 * std::sin(2 * M_PI * ((i + 0.5) / n - shift - phase)); };
        auto const sc = f.sc;
        vcase::hooks().init = [=](vcase::CellIn const& q) {
            vcase::CellState s {};
            s.rho = sc.rho;
            s.P = sc.P;
            for (int d = 0; d < 3; ++d) {
                s.u[d] = u[d];
            }
            for (double& w : s.fx) {
                w = profile(q.g[a], 0);
            }
            return s;
        };
        f.c.set("Output", "iter_frequency", 100000);
        Run const x = run(f.c, run_opt(r, f));
        clear_hooks();
        H5 const h = x.last();
        drop(x);
        if (!x.ok() || !h.ok) {
            vck::fail("carried.run", cfg + " run failed: " + x.why());
            return;
        }
        auto const& fx = h.f("fx0");
        if (fx.size() != static_cast<std::size_t>(f.b.cells())) {
            vck::fail("carried.missing", cfg + " scalar missing");
            return;
        }
        double sum = 0;
        each(f.b, [&](int i, int j, int k, std::size_t q) {
            int const g[3] = {i, j, k};
            sum += std::fabs(fx[q] - profile(g[a], u[a] > 0 ? dist : -dist));
        });
        err[v] = sum / static_cast<double>(f.b.cells());
    }
    bool const first = f.recon == "Constant";
    vck::stat_max((first ? "max.error_constant" : "max.error_" + f.recon).c_str(), err[1]);
    vck::stat_max((first ? "max.ratio_constant" : "max.ratio_" + f.recon).c_str(), err[1] / err[0]);
    // observed at the time of writing: 0.002 and 0.3 with a limited reconstruction, 0.02 and 0.52 without
    if (!(err[1] < (first ? 0.06 : 0.008) && err[1] < (first ? 0.65 : 0.4) * err[0])) {
        vck::fail("carried.profile", cfg + fmt(" mean error %.4g with 24 cells and %.4g with 48", err[0], err[1]));
    }
    vck::eval(vck::hash_str(cfg));
}

// ---- C24 ----
void gravity_uniform(long, Rng& r)
{
    if (gravity_kind != 0 || spherical()) {
        return;
    }
    Opt o;
    o.walls = false;
    o.gravity = false;
    o.steps = 8;
    o.pf = false;
    Feat f = random_feat(r, o);
    f.amp = f.mach = 0;
    for (int d = 0; d < nd; ++d) {
        f.g[d] = r.coin(0.7) ? r.uni(-3, 3) * f.sc.u * f.sc.u : 0;
    }
    rebuild(f);
    double u[3] = {0, 0, 0};
    for (int d = 0; d < nd; ++d) {
        u[d] = r.coin() ? 0 : r.uni(-2, 2) * f.sc.u;
    }
    f.install_grid();
    auto const sc = f.sc;
    vcase::hooks().init = [=](vcase::CellIn const&) {
        vcase::CellState s {};
        s.rho = sc.rho;
        s.P = sc.P;
        for (int d = 0; d < 3; ++d) {
            s.u[d] = u[d];
        }
        for (double& q : s.fx) {
            q = 0.25;
        }
        return s;
    };
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    std::string const cfg = "program " + f.text + fmt(" uniform medium, g=(%.6g %.6g %.6g) u=(%.6g %.6g %.6g)", f.g[0], f.g[1], f.g[2], u[0], u[1], u[2]);
    Run const x = run(f.c, run_opt(r, f));
    drop(x);
    clear_hooks();
    if (!x.ok() && !cold(x)) {
        vck::fail("gravity.run", cfg + " run failed: " + x.why());
        return;
    }
    ld v[3] = {u[0], u[1], u[2]}, E = f.gas().e_P(sc.rho, sc.P), vs = 0;
    for (int d = 0; d < nd; ++d) {
        E += sc.rho * v[d] * v[d] / 2;
    }
    ld const c = f.gas().c_P(sc.rho, sc.P);
    ld const e0 = fabsl(E);
    for (std::size_t s = 0; s < ob.steps.size(); ++s) {
        ld const dt = ob.ranks[0].tdt.at(s).second;
        for (int d = 0; d < nd; ++d) {
            E += dt * sc.rho * v[d] * f.g[d];
            v[d] += dt * f.g[d];
            vs = fmaxl(vs, fabsl(v[d]) + c);
        }
        ld const tol = 3e-14L * static_cast<ld>(s + 3);
        auto const& st = ob.steps[s];
        bool ok = true;
        std::size_t bad = 0;
        each(f.b, [&](int, int, int, std::size_t q) {
            bool w = fabsl(st.rho[q] - sc.rho) <= tol * sc.rho && fabsl(st.E[q] - E) <= (tol + (radgas() ? 1e-10L : 0)) * fmaxl(e0, fabsl(E));
            for (int d = 0; d < nd; ++d) {
                w = w && fabsl(st.m[d][q] - sc.rho * v[d]) <= tol * sc.rho * vs;
            }
            for (auto const& fx : st.fx) {
                w = w && std::fabs(fx[q] - 0.25) <= static_cast<double>(tol);
            }
            if (ok && !w) {
                bad = q;
            }
            ok = ok && w;
        });
        if (!ok) {
            vck::fail("gravity.uniform", cfg + fmt(" after step %zu cell %zu: density %.17g momentum (%.17g %.17g %.17g) energy %.17g, expected %.17g (%.17Lg %.17Lg %.17Lg) %.17Lg", s, bad, st.rho[bad], st.m[0][bad],
                                                   nd > 1 ? st.m[1][bad] : 0, nd > 2 ? st.m[2][bad] : 0, st.E[bad], sc.rho, sc.rho * v[0], sc.rho * v[1], sc.rho * v[2], E));
            break;
        }
        vck::stat("steps_checked");
    }
    vck::eval(vck::hash_str(cfg));
}

// one very short step from rest at uniform pressure: the momentum gained is that of the configured field, with the mass that
// the gas has inside the radius of each cell
void gravity_field(long, Rng& r)
{
    Opt o;
    o.steps = 1;
    o.pf = false;
    o.amp = 1.5;
    Feat f = random_feat(r, o);
    f.mach = 0;
    f.steps = 1;
    f.cfl = 1e-5;
    double M = 0;
    if (gravity_kind == 0) {
        for (int d = 0; d < nd; ++d) {
            f.g[d] = r.coin(0.8) ? r.uni(-3, 3) * f.sc.u * f.sc.u / (f.b.hi[0] - f.b.lo[0]) : 0;
        }
        rebuild(f);
    } else {
        M = r.coin(0.2) ? 0 : r.loguni(1e-3, 1) * f.sc.u * f.sc.u * f.b.lo[0] / static_cast<double>(vphys::G);
        rebuild(f);
        f.c.set("Gravity", "M", M);
    }
    auto const state = [=](int i, int j, int k) {
        auto s = f.state(i, j, k);
        s.P = f.sc.P;
        s.u[0] = s.u[1] = s.u[2] = 0;
        return s;
    };
    f.install_grid();
    vcase::hooks().init = [=](vcase::CellIn const& q) { return state(q.g[0], q.g[1], q.g[2]); };
    Observer ob;
    observe(ob, f.b, f.ranks(), f.c);
    std::string const cfg = "program " + f.text + fmt(" M=%.6g, one step from rest at uniform pressure", M);
    Run const x = run(f.c, run_opt(r, f));
    drop(x);
    clear_hooks();
    if (!x.ok() || ob.steps.size() != 1) {
        vck::fail("gravity.run", cfg + " run failed: " + x.why());
        return;
    }
    ld const dt = ob.ranks[0].tdt.at(0).second;
    Mesh const m = f.mesh();
    std::vector<ld> g(static_cast<std::size_t>(f.b.n[0]), 0);
    ld in = M, gmax = 0;
    for (int i = 0; i < f.b.n[0]; ++i) {
        ld const a = m.x[0][static_cast<std::size_t>(i)], e = m.x[0][static_cast<std::size_t>(i) + 1], c = (a + e) / 2;
        ld here = in;
        if (gravity_kind == 2) {
            ld s = 0, v = 0;
            for (int k = 0; k < f.b.n[2]; ++k) {
                for (int j = 0; j < f.b.n[1]; ++j) {
                    ld const w = m.vol(i, j, k);
                    s += w * state(i, j, k).rho;
                    v += w;
                }
            }
            here += 4 * vphys::pi / 3 * (c * c * c - a * a * a) * s / v;
            in += 4 * vphys::pi / 3 * (e * e * e - a * a * a) * s / v;
        }
        g[static_cast<std::size_t>(i)] = -vphys::G * here / (c * c);
        gmax = fmaxl(gmax, fabsl(g[static_cast<std::size_t>(i)]));
    }
    ld gall = gmax;
    if (gravity_kind == 0) {
        gall = fabsl(f.g[0]) + fabsl(f.g[1]) + fabsl(f.g[2]);
    }
    ld worst = 0;
    std::size_t bad = 0;
    int bd = 0;
    ld bw = 0;
    each(f.b, [&](int i, int j, int k, std::size_t q) {
        ld h = 1e300L, r0 = 1, sn = 1;
        if (spherical()) {
            r0 = m.x[0][static_cast<std::size_t>(i)];
            sn = nd > 1 ? std::fmin(std::sin(m.x[1][static_cast<std::size_t>(j)]), std::sin(m.x[1][static_cast<std::size_t>(j) + 1])) : 1;
        }
        int const ix[3] = {i, j, k};
        for (int d = 0; d < nd; ++d) {
            h = fminl(h, (static_cast<ld>(m.x[d][static_cast<std::size_t>(ix[d]) + 1]) - m.x[d][static_cast<std::size_t>(ix[d])]) * (spherical() ? (d == 0 ? 1 : (d == 1 ? r0 : r0 * sn)) : 1));
        }
        ld const rho = state(i, j, k).rho;
        for (int d = 0; d < nd; ++d) {
            ld const want = gravity_kind == 0 ? f.g[d] : (d == 0 ? g[static_cast<std::size_t>(i)] : 0);
            // rounding of the balance of pressures, and the flow that the step itself starts
            ld const tol = 1e-12L * f.sc.P / h + 1e-3L * rho * (fabsl(want) + gall);
            ld const dev = fabsl(ob.steps[0].m[d][q] / dt - rho * want) / tol;
            if (!(dev <= worst)) {
                worst = dev;
                bad = q;
                bd = d;
                bw = rho * want;
            }
        }
        if (ob.owner[q] < 0) {
            worst = 1e9;
        }
    });
    vck::stat_max("max.field_deviation_over_tolerance", static_cast<double>(worst));
    if (!(worst <= 1)) {
        vck::fail("gravity.field", cfg + fmt(" cell %zu direction %d gains momentum at the rate %.12Lg instead of %.12Lg", bad, bd, ob.steps[0].m[bd][bad] / dt, bw));
    }
    vck::eval(vck::hash_str(cfg), gmax > 0 || gravity_kind == 0);
}

// the field of every step is that of the state at its beginning: a fresh run from the state after some steps makes the same
// next step
void gravity_follow(long, Rng& r)
{
    Opt o;
    o.steps = 6;
    o.pf = false;
    o.amp = r.pick(std::vector<double> {0.3, 1});
    o.mach = r.pick(std::vector<double> {0.3, 1});
    Feat f = random_feat(r, o);
    f.steps = r.range(2, 6);
    f.mach = o.mach;
    double const M = r.coin() ? 0 : r.loguni(1e-3, 1) * f.sc.u * f.sc.u * f.b.lo[0] / static_cast<double>(vphys::G);
    if (gravity_kind == 0 && !spherical()) {
        f.g[0] = r.uni(-1, 1) * f.sc.u * f.sc.u;
    }
    rebuild(f);
    if (gravity_kind != 0) {
        f.c.set("Gravity", "M", M);
    }
    f.c.set("Output", "iter_frequency", 1);
    f.install();
    Run const x = run(f.c, run_opt(r, f));
    clear_hooks();
    int const last = static_cast<int>(x.files.size()) - 1;
    if (!x.ok() && !cold(x)) {
        vck::fail("gravity.run", "program " + f.text + " run failed: " + x.why());
    }
    if (!x.ok() || last < 2) {
        drop(x);
        return;
    }
    int const s = r.range(1, last - 1);
    H5 const a = x.load(s), b = x.load(s + 1);
    drop(x);
    std::string const cfg = "program " + f.text + fmt(" M=%.6g, step %d made again from its own initial state", M, s);
    Feat w = f;
    w.lay = gravity_kind == 2 ? f.lay : pick_layout(r, f.b, 4, f.ng);
    rebuild(w);
    w.c.set("Output", "max_iter", 1);
    w.c.set("Output", "iter_frequency", 1);
    if (gravity_kind != 0) {
        w.c.set("Gravity", "M", M);
    }
    f.install_grid();
    vcase::hooks().init = [&](vcase::CellIn const& q) {
        vcase::CellState c {};
        auto const l = static_cast<std::size_t>(f.b.at(q.g[0], q.g[1], q.g[2]));
        c.rho = a.f("rho").at(l);
        c.P = a.f("P").at(l);
        for (int d = 0; d < nd; ++d) {
            c.u[d] = a.f(vel_name[d]).at(l);
        }
        for (int p = 0; p < f.nfx; ++p) {
            c.fx[p] = a.f(fmt("fx%d", p)).at(l);
        }
        return c;
    };
    Run const y = run(w.c, run_opt(r, w));
    clear_hooks();
    H5 const e = y.last();
    drop(y);
    if (!y.ok()) {
        if (!cold(y)) {
            vck::fail("gravity.run", cfg + " run failed: " + y.why());
        }
        return;
    }
    double const rel = radgas() ? 1e-9 : 1e-11;
    double const dta = b.scalar("current_time") - a.scalar("current_time"), dtb = e.scalar("current_time");
    if (!(std::fabs(dta - dtb) <= rel * dtb + 1e-15 * b.scalar("current_time"))) {
        vck::fail("gravity.follow", cfg + fmt(" its length is %.17g against %.17g", dtb, dta));
    }
    std::vector<std::string> names {"rho", "P"};
    for (int d = 0; d < nd; ++d) {
        names.push_back(vel_name[d]);
    }
    for (auto const& nm : names) {
        auto const &p = b.f(nm), &q = e.f(nm);
        double scale = nm[0] == 'u' ? f.sc.u : 0;
        for (double const v : p) {
            scale = std::fmax(scale, std::fabs(v));
        }
        double worst = p.size() == q.size() && !p.empty() ? 0 : 1e300;
        std::size_t bad = 0;
        for (std::size_t i = 0; i < std::min(p.size(), q.size()); ++i) {
            double const dv = std::fabs(p[i] - q[i]);
            if (!(dv <= worst)) {
                worst = dv;
                bad = i;
            }
        }
        if (!(worst <= rel * scale)) {
            vck::fail("gravity.follow", cfg + fmt(" %s of cell %zu is %.17g against %.17g", nm.c_str(), bad, q.empty() ? NAN : q[bad], p.empty() ? NAN : p[bad]));
        }
        vck::stat_max("max.follow_deviation_over_tolerance", worst / (rel * scale));
    }
    vck::eval(vck::hash_str(cfg));
}

// ---- C30 ----
struct Map // new axis d is old axis p[d], reversed when s[d]
{
    int p[3] = {0, 1, 2};
    bool s[3] = {false, false, false};
};

void symmetry(long, Rng& r)
{
    Opt o;
    o.steps = 5;
    o.maxp = 4;
    o.amp = r.pick(std::vector<double> {0.1, 0.5});
    o.mach = r.pick(std::vector<double> {0.1, 0.5, 1.5});
    Feat f = random_feat(r, o);
    Map t;
    if (!spherical()) {
        for (int d = nd - 1; d > 0; --d) {
            std::swap(t.p[d], t.p[r.range(0, d)]);
        }
    }
    for (int d = spherical() ? 1 : 0; d < nd; ++d) {
        t.s[d] = r.coin();
    }
    if (f.user_grid == false && r.coin(0.3)) {
        f.user_grid = true;
        f.nodes = irregular_nodes(r, f.b, f.ng, 0.3, f.bc);
        f.c.set("Grid", "type", "UserDefined");
    }
    Feat g = f;
    g.user_grid = f.user_grid;
    for (int d = 0; d < nd; ++d) {
        int const p = t.p[d];
        double const top = spherical() && d == 1 ? M_PI : 0; // theta is mirrored at the equator
        g.b.n[d] = f.b.n[p];
        g.lay[static_cast<std::size_t>(d)] = f.lay[static_cast<std::size_t>(p)];
        g.b.lo[d] = t.s[d] ? top - f.b.hi[p] : f.b.lo[p];
        g.b.hi[d] = t.s[d] ? top - f.b.lo[p] : f.b.hi[p];
        g.g[d] = t.s[d] ? -f.g[p] : f.g[p];
        if (f.user_grid) {
            auto v = f.nodes[static_cast<std::size_t>(p)];
            if (t.s[d]) {
                std::reverse(v.begin(), v.end());
                for (auto& q : v) {
                    q = top - q;
                }
            }
            g.nodes[static_cast<std::size_t>(d)] = v;
        }
    }
    if (gravity_kind != 2 && r.coin()) {
        g.lay = pick_layout(r, g.b, 4, g.ng);
    }
    auto face = [&](int q) { // new face of an old face
        for (int d = 0; d < nd; ++d) {
            if (t.p[d] == q / 2) {
                return 2 * d + ((q & 1) ^ (t.s[d] ? 1 : 0));
            }
        }
        return q;
    };
    g.bc.order.clear();
    for (int const q : f.bc.order) {
        g.bc.order.push_back(face(q));
    }
    for (int q = 0; q < 2 * nd; ++q) {
        g.bc.kind[static_cast<std::size_t>(face(q))] = f.bc.kind[static_cast<std::size_t>(q)];
    }
    g.bc.priority.clear();
    for (std::size_t i = g.bc.order.size(); i-- > 0;) {
        g.bc.priority += std::string(g.bc.priority.empty() ? "" : " ") + vghost::face_name[g.bc.order[i]];
    }
    Ini cf = f.c;
    rebuild(g);
    for (auto const* sec : {"Pressure fix"}) {
        if (cf.s.count(sec)) {
            g.c.s[sec] = cf.s[sec];
        }
    }
    if (cf.s.count("Gravity") && gravity_kind != 0) {
        g.c.s["Gravity"] = cf.s["Gravity"];
    }
    auto old = [&](int const* ix, int* w) {
        for (int d = 0; d < 3; ++d) {
            w[d] = ix[d];
        }
        for (int d = 0; d < nd; ++d) {
            w[t.p[d]] = t.s[d] ? g.b.n[d] - 1 - ix[d] : ix[d];
        }
    };
    std::string const cfg = "program " + f.text + fmt(" against axes %s%d%s%d%s%d", t.s[0] ? "-" : "+", t.p[0], t.s[1] ? "-" : "+", t.p[1], t.s[2] ? "-" : "+", t.p[2]);
    Run x[2];
    for (int v = 0; v < 2; ++v) {
        Feat& w = v ? g : f;
        w.c.set("Output", "iter_frequency", 1);
        w.install_grid();
        vcase::hooks().init = [&](vcase::CellIn const& q) {
            if (v == 0) {
                return f.state(q.g[0], q.g[1], q.g[2]);
            }
            int o3[3];
            old(q.g, o3);
            auto const s = f.state(o3[0], o3[1], o3[2]);
            auto s2 = s;
            for (int d = 0; d < nd; ++d) {
                s2.u[d] = t.s[d] ? -s.u[t.p[d]] : s.u[t.p[d]];
            }
            return s2;
        };
        x[v] = run(w.c, run_opt(r, w));
        clear_hooks();
    }
    if (x[0].ok() != x[1].ok()) {
        if (!cold(x[0]) && !cold(x[1])) {
            vck::fail("symmetry.run", cfg + " only one of the two runs ended well: " + x[0].why() + " / " + x[1].why());
        }
    }
    std::size_t const nf = std::min(x[0].files.size(), x[1].files.size());
    for (std::size_t i = 0; i < nf; ++i) {
        H5 const a = x[0].load(static_cast<int>(i)), b = x[1].load(static_cast<int>(i));
        double const rel = radgas() ? 1e-7 : 1e-10;
        double const ta = a.scalar("current_time"), tb = b.scalar("current_time");
        bool bad = !(std::fabs(ta - tb) <= rel * std::fabs(ta));
        if (bad) {
            vck::fail("symmetry.time", cfg + fmt(" file %zu is at time %.17g against %.17g", i, tb, ta));
            break;
        }
        std::vector<std::string> names {"rho", "P", "T"};
        for (int q = 0; q < f.nfx; ++q) {
            names.push_back(fmt("fx%d", q));
        }
        for (int d = 0; d < nd; ++d) {
            names.push_back(vel_name[d]);
        }
        for (auto const& nm : names) {
            int const d = nm[0] == 'u' ? nm[2] - '0' : -1;
            auto const& vb = b.f(nm);
            auto const& va = a.f(d < 0 ? nm : vel_name[t.p[d]]);
            double scale = 0;
            for (double const q : va) {
                scale = std::fmax(scale, std::fabs(q));
            }
            if (d >= 0) {
                scale += f.sc.u;
            }
            if (va.size() != vb.size() || va.empty()) {
                vck::fail("symmetry.shape", cfg + " " + nm + " has another size");
                continue;
            }
            int ix[3];
            for (ix[2] = 0; ix[2] < g.b.n[2] && !bad; ++ix[2]) {
                for (ix[1] = 0; ix[1] < g.b.n[1] && !bad; ++ix[1]) {
                    for (ix[0] = 0; ix[0] < g.b.n[0] && !bad; ++ix[0]) {
                        int w[3];
                        old(ix, w);
                        double const p = va[static_cast<std::size_t>(f.b.at(w[0], w[1], w[2]))] * (d >= 0 && t.s[d] ? -1 : 1), q = vb[static_cast<std::size_t>(g.b.at(ix[0], ix[1], ix[2]))];
                        if (!(std::fabs(p - q) <= rel * scale)) {
                            vck::fail("symmetry.fields", cfg + fmt(" file %zu %s at (%d,%d,%d) is %.17g, its image %.17g", i, nm.c_str(), ix[0], ix[1], ix[2], q, p));
                            bad = true;
                        }
                        vck::stat_max("max.deviation_over_tolerance", std::fabs(p - q) / (rel * scale));
                    }
                }
            }
        }
        if (bad) {
            break;
        }
        vck::stat("files_compared");
    }
    drop(x[0]);
    drop(x[1]);
    vck::eval(vck::hash_str(cfg), t.p[0] != 0 || t.p[1] != 1 || t.s[0] || t.s[1] || t.s[2]);
}

// a problem along one axis, with prescribed steps: the one-dimensional run writes its result, the others compare with it
void reduce(long n, Rng& r)
{
    // the same draws in every dimension
    int const N = r.range(8, 20), steps = r.range(3, 8), nfx = r.range(0, 2);
    double const lo = spherical() ? r.uni(0.6, 2) : r.uni(-1, 1), len = r.uni(0.8, 1.5);
    bool const user = r.coin();
    double const gamma = r.pick(std::vector<double> {1.4, 5.0 / 3});
    std::string const recon = r.pick(recons()), solver = r.pick(solvers());
    int kl = r.pick(std::vector<int> {0, 2, 1}), kr = r.pick(std::vector<int> {0, 2});
    if (spherical() && kl == 1) {
        kl = 2;
    }
    if (kl == 1) {
        kr = 1;
    }
    vphys::Gas const gs {gamma, 1, radgas()};
    auto const sc = vphys::scale(gs, r);
    double const amp = r.uni(0, 0.6), mach = r.uni(0, 1), grav = r.coin() && !spherical() ? r.uni(-1, 1) * sc.u * sc.u : 0;
    std::uint64_t const seed = r.next();
    bool const pfix = r.coin(0.2);
    std::vector<double> nodes(static_cast<std::size_t>(N + 5));
    {
        std::vector<double> w(static_cast<std::size_t>(N + 4));
        double s = 0;
        for (int i = 0; i < N + 4; ++i) {
            w[static_cast<std::size_t>(i)] = user ? std::exp(r.uni(-0.3, 0.3)) : 1;
        }
        for (int q : {1, 0}) {
            w[static_cast<std::size_t>(q)] = w[2];
            w[static_cast<std::size_t>(N + 3 - q)] = w[static_cast<std::size_t>(N + 1)];
        }
        for (int i = 2; i < N + 2; ++i) {
            s += w[static_cast<std::size_t>(i)];
        }
        nodes[2] = lo;
        for (int i = 2; i < N + 4; ++i) {
            nodes[static_cast<std::size_t>(i) + 1] = nodes[static_cast<std::size_t>(i)] + w[static_cast<std::size_t>(i)] * len / s;
        }
        nodes[1] = nodes[2] - w[1] * len / s;
        nodes[0] = nodes[1] - w[0] * len / s;
    }
    double const dt0 = 0.04 * len / N / (static_cast<double>(gs.c_P(sc.rho, sc.P)) * 2 + 2 * mach * sc.u);
    // draws of this dimension
    Rng q(vck::mix(seed, static_cast<std::uint64_t>(nd)));
    int const axis = spherical() ? 0 : q.range(0, nd - 1);
    bool const flip = !spherical() && q.coin(0.4) && nd > 1;
    Box b;
    std::array<std::vector<double>, 3> all;
    int const ng = 2;
    for (int d = 0; d < 3; ++d) {
        auto& v = all[static_cast<std::size_t>(d)];
        if (d == axis) {
            b.n[d] = N;
            v = nodes;
            if (flip) {
                std::reverse(v.begin(), v.end());
                for (auto& z : v) {
                    z = -z;
                }
            }
            b.lo[d] = v[2];
            b.hi[d] = v[static_cast<std::size_t>(N) + 2];
        } else {
            b.n[d] = d < nd ? q.range(2, 4) : 1;
            b.lo[d] = spherical() ? (d == 1 ? q.uni(0.6, 1) : 0.3) : q.uni(-1, 1);
            b.hi[d] = b.lo[d] + (spherical() ? 1 : q.uni(0.8, 1.5));
            int const w = d < nd ? ng : 0;
            for (int i = -w; i <= b.n[d] + w; ++i) {
                v.push_back(b.lo[d] + i * (b.hi[d] - b.lo[d]) / b.n[d]);
            }
        }
    }
    Ini c = base_ini(b);
    auto lay = pick_layout(q, b, 4, 2);
    set_dims(c, lay);
    c.set("Grid", "Nghost", ng);
    c.set("Grid", "type", "UserDefined");
    c.s["Boundary Condition"].clear();
    for (int f = 0; f < 2 * nd; ++f) {
        int k = f / 2 == axis ? ((f & 1) ^ (flip ? 1 : 0) ? kr : kl) : (spherical() && f / 2 == 1 ? 2 : 1);
        c.set("Boundary Condition", fmt("BC_X%d_%s", f / 2, f % 2 ? "right" : "left"), vghost::kind_name[k]);
    }
    c.set("Hydro", "reconstruction", recon);
    c.set("Hydro", "riemann_solver", solver);
    c.set("Perfect Gas", "gamma", gamma);
    c.set("Run", "cfl", 0.9);
    c.set("Output", "max_iter", steps);
    c.set("Output", "time_frequency", dt0);
    if (nfx) {
        c.set("Passive Scalar", "nfx", nfx);
    }
    if (grav != 0 && gravity_kind == 0) {
        c.set("Gravity", fmt("gx%d", axis), flip ? -grav : grav);
    }
    if (pfix) {
        c.set("Pressure fix", "pressure_fix", "On");
        c.set("Pressure fix", "eps_pf", 1.0);
    }
    vcase::hooks().grid = [all](int d, int, int m, double* p) {
        for (int i = 0; i < m; ++i) {
            p[i] = all[static_cast<std::size_t>(d)].at(static_cast<std::size_t>(i));
        }
    };
    vcase::hooks().init = [=](vcase::CellIn const& z) {
        int const i = flip ? N - 1 - z.g[axis] : z.g[axis];
        vcase::CellState s {};
        s.rho = sc.rho * std::exp(2 * amp * (h01(seed, 0, i, 0, 0) - 0.5));
        s.P = sc.P * std::exp(2 * amp * (h01(seed, 1, i, 0, 0) - 0.5));
        double const u = 2 * mach * sc.u * (h01(seed, 2, i, 0, 0) - 0.5);
        s.u[axis] = flip ? -u : u;
        for (int f = 0; f < 10; ++f) {
            s.fx[f] = h01(seed, 10 + f, i, 0, 0);
        }
        return s;
    };
    Observer ob;
    observe(ob, b, prod(lay), c);
    RunOpt o;
    o.ranks = prod(lay);
    o.seed = q.next();
    std::string const cfg = fmt("program one-dimensional problem of %d cells along axis %d%s of %dx%dx%d %s %s steps %d nfx=%d%s", N, axis, flip ? " reversed" : "", b.n[0], b.n[1], b.n[2], solver.c_str(), recon.c_str(), steps, nfx, pfix ? " pressure fix" : "");
    Run const x = run(c, o);
    drop(x);
    clear_hooks();
    if (!x.ok() || ob.steps.empty()) {
        if (!cold(x)) {
            vck::fail("reduce.run", cfg + " run failed: " + x.why());
        }
        return;
    }
    for (auto const& [t, dt] : ob.ranks[0].tdt) {
        if (std::fabs(dt - dt0) > 1e-9 * dt0) {
            vck::stat("runs_with_other_steps");
            return; // the bound of the step was met first
        }
    }
    Step const& st = ob.steps.back();
    std::string const path = vck::st().opt["profiles"] + fmt("/p%ld.bin", n);
    auto const row = static_cast<std::size_t>(3 + nfx);
    std::vector<double> mine(row * static_cast<std::size_t>(N));
    if (nd == 1) {
        for (std::size_t i = 0; i < static_cast<std::size_t>(N); ++i) {
            mine[row * i] = st.rho[i];
            mine[row * i + 1] = st.m[0][i];
            mine[row * i + 2] = st.E[i];
            for (std::size_t f = 0; f < static_cast<std::size_t>(nfx); ++f) {
                mine[row * i + 3 + f] = st.fx[f][i];
            }
        }
        std::ofstream(path, std::ios::binary).write(reinterpret_cast<char const*>(mine.data()), static_cast<std::streamsize>(mine.size() * sizeof(double)));
        vck::eval(vck::hash_str(cfg));
        return;
    }
    std::string const ref = slurp(path);
    if (ref.size() != mine.size() * sizeof(double)) {
        vck::stat("profiles_missing");
        return;
    }
    std::memcpy(mine.data(), ref.data(), ref.size());
    std::vector<double> scale(row, 0);
    for (std::size_t i = 0; i < mine.size(); ++i) {
        scale[i % row] = std::fmax(scale[i % row], std::fabs(mine[i]));
    }
    scale[1] = scale[0] * sc.u * (1 + mach);
    for (std::size_t f = 3; f < row; ++f) {
        scale[f] = 1;
    }
    double const rel = radgas() ? 1e-8 : 1e-11;
    bool bad = false;
    each(b, [&](int i, int j, int k, std::size_t w) {
        if (bad) {
            return;
        }
        int const ix[3] = {i, j, k};
        auto const p = static_cast<std::size_t>(flip ? N - 1 - ix[axis] : ix[axis]);
        std::vector<double> v {st.rho[w], flip ? -st.m[axis][w] : st.m[axis][w], st.E[w]};
        for (auto const& f : st.fx) {
            v.push_back(f[w]);
        }
        for (std::size_t z = 0; z < row; ++z) {
            if (!(std::fabs(v[z] - mine[row * p + z]) <= rel * scale[z])) {
                bad = true;
                vck::fail("reduce.profile", cfg + fmt(" quantity %zu of cell (%d,%d,%d) is %.17g, in one dimension %.17g", z, i, j, k, v[z], mine[row * p + z]));
                return;
            }
        }
        for (int d = 0; d < nd; ++d) {
            if (d != axis && !(std::fabs(st.m[d][w]) <= rel * scale[1])) {
                bad = true;
                vck::fail("reduce.transverse", cfg + fmt(" cell (%d,%d,%d) moves sideways: momentum %d is %.17g", i, j, k, d, st.m[d][w]));
                return;
            }
        }
    });
    vck::stat("profiles_compared");
    vck::eval(vck::hash_str(cfg));
}

} // namespace

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    long const k = vck::st().thorough ? 20 : 1;
    long const w = nd == 3 ? 1 : 2; // three-dimensional runs cost more
    if (what == "conserve") {
        vck::cases("conserve", 35 * w * k, conserve);
        vck::cases("report", 12 * w * k, report);
    } else if (what == "layout") {
        vck::cases("layout", 20 * w * k, layout);
    } else if (what == "rest") {
        vck::cases("rest", 35 * w * k, rest);
    } else if (what == "scalars") {
        vck::cases("scalars", 16 * w * k, scalars);
        vck::cases("carried", (nd == 3 ? 6 : 10) * k, carried);
    } else if (what == "gravity") {
        vck::cases("uniform", 30 * w * k, gravity_uniform);
        vck::cases("field", 30 * w * k, gravity_field);
        vck::cases("follow", 15 * w * k, gravity_follow);
    } else if (what == "symmetry") {
        vck::cases("symmetry", 35 * w * k, symmetry);
    } else if (what == "reduce") {
        vck::cases("reduce", 60 * k, reduce);
    }
    return vck::finish();
}
