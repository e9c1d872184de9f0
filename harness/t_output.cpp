// C09: what the output files contain.  C11: when outputs are made, their numbers and the index file.
#include <vphys.hpp>
#include <vclock.hpp>
#include <vsys.hpp>

using namespace vsys;
using vck::Rng;
using vphys::Gas;
using vphys::ld;

static Gas gas() { return Gas {5.0L / 3, 1, radgas()}; }

struct Field
{
    std::uint64_t seed;
    vphys::Scale sc;
    double amp;
    vcase::CellState at(int i, int j, int k) const
    {
        vcase::CellState s {};
        s.rho = sc.rho * std::exp(amp * (h01(seed, 0, i, j, k) - 0.5));
        s.P = sc.P * std::exp(amp * (h01(seed, 1, i, j, k) - 0.5));
        for (int d = 0; d < 3; ++d) {
            s.u[d] = sc.u * amp * (h01(seed, 2 + d, i, j, k) - 0.5);
        }
        for (int f = 0; f < 10; ++f) {
            s.fx[f] = h01(seed, 10 + f, i, j, k);
        }
        return s;
    }
    void install() const
    {
        auto self = *this;
        vcase::hooks().init = [self](vcase::CellIn const& c) { return self.at(c.g[0], c.g[1], c.g[2]); };
    }
};

static Box random_box(Rng& r, int nmin, int nmax)
{
    Box b;
    for (int d = 0; d < 3; ++d) {
        b.n[d] = d < nd ? r.range(nmin, nmax) : 1;
        if (spherical()) {
            b.lo[d] = d == 0 ? r.uni(0.5, 2) : (d == 1 ? r.uni(0.3, 1) : r.uni(0, 1));
            b.hi[d] = b.lo[d] + r.uni(0.5, 1.5);
        } else {
            b.lo[d] = r.uni(-2, 1);
            b.hi[d] = b.lo[d] + r.loguni(0.3, 3);
        }
    }
    return b;
}

static std::string cellstr(Box const& b, std::size_t q)
{
    int const i = static_cast<int>(q) % b.n[0], j = static_cast<int>(q) / b.n[0] % b.n[1], k = static_cast<int>(q) / b.n[0] / b.n[1];
    return vck::fmt("(%d,%d,%d)", i, j, k);
}

// an older run with another mesh and other scalars has left its last output and its index in the directory of the new run
static std::string old_output(Rng& r, std::string const& prefix)
{
    std::string const dir = vck::st().dir + "/used" + std::to_string(run_counter()++);
    Box b = random_box(r, 4, nd == 3 ? 7 : 14);
    Ini c = base_ini(b);
    int const nfx = r.pick(std::vector<int> {0, 2, 4, 9});
    if (nfx) {
        c.set("Passive Scalar", "nfx", nfx);
    }
    if (!prefix.empty()) {
        c.set("Output", "prefix", prefix);
    }
    c.set("Output", "max_iter", 1);
    Field const f {r.next(), vphys::scale(gas(), r), 0.1};
    f.install();
    RunOpt o;
    o.dir = dir;
    o.seed = r.next();
    Run const x = run(c, o);
    clear_hooks();
    if (!x.ok() || x.files.size() != 1) {
        vck::fail("output.run", "older run in the same directory failed: " + x.why());
    }
    vck::stat("directories_already_used");
    return dir;
}

// ---------------------------------------------------------------------------------------------------------------------
static void files_case(long n, Rng& r)
{
    Gas const g = gas();
    Box b = random_box(r, 4, nd == 3 ? 7 : 12);
    if (r.coin(0.15)) {
        b.n[r.range(0, nd - 1)] += 17;
    }
    int const nfx = r.pick(std::vector<int> {0, 0, 1, 2, 3, 5, 10});
    int const ng = r.pick(std::vector<int> {2, 2, 2, 3, 4});
    auto const lay = pick_layout(r, b, 8, ng);
    int const nranks = prod(lay);
    Ini c = base_ini(b);
    set_dims(c, lay);
    if (ng != 2) {
        c.set("Grid", "Nghost", ng);
    }
    if (nfx) {
        c.set("Passive Scalar", "nfx", nfx);
    }
    std::string const prefix = r.pick(std::vector<std::string> {"", "out", "a b", "run-1.x", "result_00000001"});
    if (!prefix.empty()) {
        c.set("Output", "prefix", prefix);
    }
    int const steps = r.range(1, 3);
    c.set("Output", "iter_frequency", 1);
    c.set("Output", "max_iter", steps);
    c.set("Run", "cfl", 0.3);
    double const t0 = r.coin() ? 0 : r.uni(0.1, 5);
    c.set("Run", "t_ini", t0);
    Field const f {r.next(), vphys::scale(g, r), 0.3};
    RunOpt o;
    if (r.coin(0.2)) {
        o.dir = old_output(r, prefix);
    }
    f.install();
    Observer ob;
    observe(ob, b, nranks, c);
    o.ranks = nranks;
    o.seed = r.next();
    Run const x = run(c, o);
    clear_hooks();
    std::string const cfg = vck::fmt("n=%dx%dx%d ranks=%dx%dx%d ng=%d nfx=%d steps=%d%s", b.n[0], b.n[1], b.n[2], lay[0], lay[1], lay[2], ng, nfx, steps, o.dir.empty() ? "" : " (directory already used)");
    if (!x.ok()) {
        vck::fail("output.run", cfg + " run failed: " + x.why());
        drop(x);
        return;
    }
    if (static_cast<int>(x.files.size()) != steps + 1) {
        vck::fail("output.count", cfg + vck::fmt(" %zu files", x.files.size()));
        drop(x);
        return;
    }
    std::string const pre = prefix.empty() ? "result" : prefix;
    auto const cells = static_cast<std::size_t>(b.cells());
    // every dataset element written exactly once, by its owner
    std::map<std::string, std::vector<int>> cover;
    for (auto const& t : x.pdi.transfers) {
        if (!t.write || t.size.size() != 3) {
            continue;
        }
        auto& cv = cover[t.file + ":" + t.dataset];
        cv.resize(cells, 0);
        for (long k = t.start[0]; k < t.start[0] + t.size[0]; ++k) {
            for (long j = t.start[1]; j < t.start[1] + t.size[1]; ++j) {
                for (long i = t.start[2]; i < t.start[2] + t.size[2]; ++i) {
                    if (k < 0 || j < 0 || i < 0 || k >= b.n[2] || j >= b.n[1] || i >= b.n[0]) {
                        vck::fail("output.bounds", cfg + " " + t.dataset + " written outside of the global box");
                        continue;
                    }
                    auto const q = static_cast<std::size_t>(b.at(static_cast<int>(i), static_cast<int>(j), static_cast<int>(k)));
                    ++cv[q];
                    if (ob.owner[q] != t.rank) {
                        vck::fail("output.owner", cfg + vck::fmt(" %s cell %s written by rank %d, owned by %d", t.dataset.c_str(), cellstr(b, q).c_str(), t.rank, ob.owner[q]));
                    }
                }
            }
        }
    }
    std::vector<std::string> names {"rho", "P", "E", "T"};
    for (int d = 0; d < nd; ++d) {
        names.push_back(vel_name[d]);
    }
    for (int q = 0; q < nfx; ++q) {
        names.push_back("fx" + std::to_string(q));
    }
    if (!cover.empty()) { // the program wrote through the data interface
        for (auto const& [nm, cv] : cover) {
            for (std::size_t q = 0; q < cells; ++q) {
                if (cv[q] != 1) {
                    vck::fail("output.once", cfg + vck::fmt(" %s cell %s written %d times", nm.c_str(), cellstr(b, q).c_str(), cv[q]));
                    break;
                }
            }
        }
        vck::stat("datasets_covered", static_cast<double>(cover.size()));
    }
    for (int s = 0; s <= steps; ++s) {
        std::string const want = vck::fmt("%s_%08d.h5", pre.c_str(), s);
        if (x.files[static_cast<std::size_t>(s)] != want) {
            vck::fail("output.name", cfg + " file " + x.files[static_cast<std::size_t>(s)] + " expected " + want);
            continue;
        }
        H5 const h = x.load(s);
        if (!h.ok) {
            vck::fail("output.unreadable", cfg + " " + want);
            continue;
        }
        bool shape = true;
        for (auto const& nm : names) {
            if (!h.has(nm)) {
                vck::fail("output.missing", cfg + " dataset " + nm + " missing");
                shape = false;
            } else if (h.dims.at(nm) != std::vector<long> {b.n[2], b.n[1], b.n[0]}) {
                vck::fail("output.shape", cfg + " dataset " + nm + " has a wrong shape");
                shape = false;
            }
        }
        for (auto const& [nm, dd] : h.dims) {
            if (dd.size() == 3 && std::find(names.begin(), names.end(), nm) == names.end()) {
                vck::fail("output.extra", cfg + " unexpected field " + nm);
            }
        }
        if (!shape) {
            continue;
        }
        // node coordinates
        for (int d = 0; d < 3; ++d) {
            int const gh = d < nd ? ng : 0;
            auto const& xg = h.f(vck::fmt("x%d", d));
            auto const& xn = h.f(vck::fmt("x%d_ng", d));
            if (static_cast<int>(xg.size()) != b.n[d] + 1 + 2 * gh || static_cast<int>(xn.size()) != b.n[d] + 1) {
                vck::fail("output.nodes", cfg + vck::fmt(" x%d has %zu nodes, x%d_ng has %zu", d, xg.size(), d, xn.size()));
                continue;
            }
            double const dx = (b.hi[d] - b.lo[d]) / b.n[d];
            double const tol = 1e-12 * (std::fabs(b.lo[d]) + std::fabs(b.hi[d]) + dx * b.n[d]);
            for (int i = 0; i < static_cast<int>(xg.size()); ++i) {
                if (std::fabs(xg[static_cast<std::size_t>(i)] - (b.lo[d] + (i - gh) * dx)) > tol) {
                    vck::fail("output.nodes", cfg + vck::fmt(" x%d[%d]=%.17g expected %.17g", d, i, xg[static_cast<std::size_t>(i)], b.lo[d] + (i - gh) * dx));
                    break;
                }
            }
            for (int i = 0; i <= b.n[d]; ++i) {
                if (xn[static_cast<std::size_t>(i)] != xg[static_cast<std::size_t>(i + gh)]) {
                    vck::fail("output.nodes", cfg + vck::fmt(" x%d_ng[%d] differs from x%d[%d]", d, i, d, i + gh));
                    break;
                }
            }
        }
        double const t = s == 0 ? t0 : ob.steps[static_cast<std::size_t>(s - 1)].t + ob.steps[static_cast<std::size_t>(s - 1)].dt;
        auto expect = [&](char const* nm, double v) {
            if (h.scalar(nm) != v) {
                vck::fail("output.counter", cfg + vck::fmt(" output %d: %s = %.17g expected %.17g", s, nm, h.scalar(nm), v));
            }
        };
        expect("output_id", s);
        expect("iter_output_id", s);
        expect("time_output_id", -1);
        expect("iter", s);
        expect("current_time", t);
        expect("gamma", 5. / 3);
        // what tools/vbuild.py puts in place of the placeholders of git_version.cpp.in
        for (auto const& [a, v] : std::map<std::string, std::string> {{"git_build_string", "verif-build"}, {"git_branch", "verif-branch"}, {"compile_date", "01/02/03"}, {"compile_time", "04:05:06"}}) {
            if (!h.attr.count(a) || h.attr.at(a) != v) {
                vck::fail("output.attribute", cfg + " attribute " + a + " missing or not that of the build");
            }
        }
        auto const& rho = h.f("rho");
        auto const& P = h.f("P");
        auto const& E = h.f("E");
        auto const& T = h.f("T");
        for (std::size_t q = 0; q < cells; ++q) {
            int const i = static_cast<int>(q) % b.n[0], j = static_cast<int>(q) / b.n[0] % b.n[1], k = static_cast<int>(q) / b.n[0] / b.n[1];
            std::string const at = cfg + vck::fmt(" output %d cell (%d,%d,%d)", s, i, j, k);
            ld ek = 0;
            for (int d = 0; d < nd; ++d) {
                ld const u = h.f(vel_name[d])[q];
                ek += u * u * rho[q] / 2;
            }
            bool bad = false;
            if (s == 0) {
                auto const w = f.at(i, j, k);
                bad = bad || rho[q] != w.rho;
                double const rt = static_cast<double>(g.relT(g.T_P(w.rho, w.P)));
                bad = bad || !vphys::near(P[q], w.P, 1e-12 + 8 * rt + 1e-14 * static_cast<double>(ek) / w.P);
                for (int d = 0; d < nd; ++d) {
                    bad = bad || vphys::ulps(h.f(vel_name[d])[q], w.u[d]) > 4;
                }
                for (int z = 0; z < nfx; ++z) {
                    bad = bad || h.f("fx" + std::to_string(z))[q] != w.fx[z];
                }
                if (bad) {
                    vck::fail("output.initial", at + vck::fmt(" does not hold the initial state: rho %.17g/%.17g P %.17g/%.17g u0 %.17g/%.17g", rho[q], w.rho, P[q], w.P, h.f("ux0")[q], w.u[0]));
                    break;
                }
            } else {
                auto const& st = ob.steps[static_cast<std::size_t>(s - 1)];
                bad = rho[q] != st.rho[q] || E[q] != st.E[q];
                for (int z = 0; z < nfx; ++z) {
                    bad = bad || h.f("fx" + std::to_string(z))[q] != st.fx[static_cast<std::size_t>(z)][q];
                }
                for (int d = 0; d < nd; ++d) {
                    bad = bad || vphys::ulps(h.f(vel_name[d])[q], st.m[d][q] / st.rho[q]) > 4;
                }
                if (bad) {
                    vck::fail("output.state", at + vck::fmt(" does not hold the solver's state: rho %.17g/%.17g E %.17g/%.17g", rho[q], st.rho[q], E[q], st.E[q]));
                    break;
                }
            }
            // consistency with the equation of state
            ld const Tr = g.T_P(rho[q], P[q]);
            double const rt = static_cast<double>(g.relT(Tr));
            ld const er = g.e_T(rho[q], Tr) + ek;
            if (!vphys::near(T[q], static_cast<double>(Tr), 1e-12 + 8 * rt) || !vphys::near(E[q], static_cast<double>(er), 1e-12 + 16 * rt)) {
                vck::fail("output.eos", at + vck::fmt(" inconsistent: T=%.17g (%.17Lg from rho,P) E=%.17g (%.17Lg)", T[q], Tr, E[q], er));
                break;
            }
            vck::stat("cells_checked");
        }
    }
    vck::eval(vck::hash_str(cfg));
    vck::sample(cfg + " " + vck::fmt("%zu datasets written, %d outputs, every cell compared", cover.size(), steps + 1));
    drop(x);
}

// ---------------------------------------------------------------------------------------------------------------------
struct Grd
{
    std::string time, topo;
    std::vector<std::string> items; // "dims|file:/dataset"
    std::vector<std::string> attrs;
};

static bool parse_xmf(std::string const& s, std::vector<Grd>& out, std::string& err)
{
    std::vector<std::string> stack;
    std::size_t i = 0;
    auto attr = [](std::string const& tag, std::string const& name, std::string& v) {
        std::size_t p = 0;
        while ((p = tag.find(name + "=\"", p)) != std::string::npos) {
            if (p > 0 && std::isspace(static_cast<unsigned char>(tag[p - 1]))) {
                auto const q = tag.find('"', p + name.size() + 2);
                if (q == std::string::npos) {
                    return false;
                }
                v = tag.substr(p + name.size() + 2, q - p - name.size() - 2);
                return true;
            }
            ++p;
        }
        return false;
    };
    std::string curdims;
    while (i < s.size()) {
        if (s[i] != '<') {
            auto const j = s.find('<', i);
            std::string t = s.substr(i, j == std::string::npos ? std::string::npos : j - i);
            while (!t.empty() && std::isspace(static_cast<unsigned char>(t.back()))) {
                t.pop_back();
            }
            while (!t.empty() && std::isspace(static_cast<unsigned char>(t.front()))) {
                t.erase(t.begin());
            }
            if (!t.empty()) {
                if (stack.empty() || stack.back() != "DataItem" || out.empty()) {
                    err = "stray text " + t;
                    return false;
                }
                out.back().items.push_back(curdims + "|" + t);
            }
            i = j;
            if (j == std::string::npos) {
                break;
            }
            continue;
        }
        // quotes may not contain '>' in this file
        auto const j = s.find('>', i);
        if (j == std::string::npos) {
            err = "unterminated tag";
            return false;
        }
        std::string tag = s.substr(i + 1, j - i - 1);
        i = j + 1;
        if (tag[0] == '?' || tag[0] == '!') {
            continue;
        }
        if (std::count(tag.begin(), tag.end(), '"') % 2) {
            err = "odd quotes in " + tag;
            return false;
        }
        if (tag[0] == '/') {
            if (stack.empty() || stack.back() != tag.substr(1)) {
                err = "unbalanced </" + tag.substr(1) + ">";
                return false;
            }
            stack.pop_back();
            continue;
        }
        bool const self = tag.back() == '/';
        std::string const name = tag.substr(0, tag.find_first_of(" /"));
        std::string v;
        if (name == "Grid" && attr(tag, "GridType", v) && v == "Uniform") {
            out.emplace_back();
        }
        if (!out.empty()) {
            if (name == "Time") {
                if (!attr(tag, "Value", out.back().time)) {
                    err = "Time without Value";
                    return false;
                }
            } else if (name == "Topology") {
                attr(tag, "Dimensions", out.back().topo);
            } else if (name == "DataItem") {
                curdims.clear();
                attr(tag, "Dimensions", curdims);
            } else if (name == "Attribute") {
                attr(tag, "Name", v);
                out.back().attrs.push_back(v);
            }
        }
        if (!self) {
            stack.push_back(name);
        }
    }
    if (!stack.empty()) {
        err = "unclosed " + stack.back();
        return false;
    }
    return true;
}

static void check_index(Run const& x, Box const& b, int nfx, int first, std::vector<double> const& times, std::string const& cfg)
{
    std::vector<Grd> gr;
    std::string err;
    if (!parse_xmf(x.xmf, gr, err)) {
        vck::fail("index.malformed", cfg + " index file: " + err);
        return;
    }
    if (gr.size() != times.size()) {
        vck::fail("index.count", cfg + vck::fmt(" the index lists %zu outputs, the run made %zu", gr.size(), times.size()));
        return;
    }
    for (std::size_t s = 0; s < gr.size(); ++s) {
        std::string const file = vck::fmt("%s_%08d.h5", x.prefix.c_str(), first + static_cast<int>(s));
        if (std::atof(gr[s].time.c_str()) != times[s]) {
            vck::fail("index.time", cfg + vck::fmt(" entry %zu has time %s, the output %.17g", s, gr[s].time.c_str(), times[s]));
        }
        H5 const h = load_h5(x.dir + "/" + file);
        if (!h.ok) {
            vck::fail("index.file", cfg + " listed file " + file + " cannot be opened");
            continue;
        }
        if (gr[s].topo != vck::fmt("%d %d %d", b.n[2] + 1, b.n[1] + 1, b.n[0] + 1)) {
            vck::fail("index.topology", cfg + " topology " + gr[s].topo);
        }
        std::set<std::string> seen;
        for (auto const& it : gr[s].items) {
            auto const bar = it.find('|');
            std::string const path = it.substr(bar + 1);
            std::string const pre = file + ":/";
            if (path.rfind(pre, 0) != 0) {
                vck::fail("index.path", cfg + " entry " + std::to_string(s) + " refers to " + path + " instead of " + file);
                continue;
            }
            std::string const ds = path.substr(pre.size());
            if (!seen.insert(ds).second) {
                vck::fail("index.twice", cfg + " dataset " + ds + " listed twice");
            }
            if (!h.has(ds)) {
                vck::fail("index.dataset", cfg + " dataset " + ds + " is not in " + file);
                continue;
            }
            std::string dims;
            for (long const v : h.dims.at(ds)) {
                dims += (dims.empty() ? "" : " ") + std::to_string(v);
            }
            if (dims != it.substr(0, bar)) {
                vck::fail("index.shape", cfg + " " + ds + " declared " + it.substr(0, bar) + " stored " + dims);
            }
        }
        std::set<std::string> want {"rho", "P", "E", "T", "x0_ng", "x1_ng", "x2_ng"};
        for (int d = 0; d < nd; ++d) {
            want.insert(vel_name[d]);
        }
        for (int z = 0; z < nfx; ++z) {
            want.insert("fx" + std::to_string(z));
        }
        if (seen != want) {
            std::string miss;
            for (auto const& w : want) {
                if (!seen.count(w)) {
                    miss += " -" + w;
                }
            }
            for (auto const& w : seen) {
                if (!want.count(w)) {
                    miss += " +" + w;
                }
            }
            vck::fail("index.fields", cfg + " fields of the index:" + miss);
        }
        for (std::size_t a = 0; a < gr[s].attrs.size(); ++a) {
            // the attribute named X shows dataset X
            if (a + 3 < gr[s].items.size()) {
                std::string const& it = gr[s].items[a + 3];
                if (it.substr(it.rfind('/') + 1) != gr[s].attrs[a]) {
                    vck::fail("index.attribute", cfg + " attribute " + gr[s].attrs[a] + " shows " + it);
                }
            }
        }
    }
    vck::stat("index_entries", static_cast<double>(gr.size()));
}

// Reference of the schedule: the steps that the CFL condition alone would give are those of the run itself, so the rules are
// checked on the observed (t, dt) sequence and the CFL step deduced from the state (cflstep).
static double cfl_bound(Observer const& ob, std::size_t s, Field const& f, Box const& b, double cfl, Gas const& g)
{
    // cells of the state at the start of step s (0 = initial)
    double m = 0;
    for (int k = 0; k < b.n[2]; ++k) {
        for (int j = 0; j < b.n[1]; ++j) {
            for (int i = 0; i < b.n[0]; ++i) {
                auto const q = static_cast<std::size_t>(b.at(i, j, k));
                double rho, P, u[3] = {0, 0, 0};
                if (s == 0) {
                    auto const w = f.at(i, j, k);
                    rho = w.rho;
                    P = w.P;
                    for (int d = 0; d < nd; ++d) {
                        u[d] = w.u[d];
                    }
                } else {
                    auto const& st = ob.steps[s - 1];
                    rho = st.rho[q];
                    ld e = st.E[q];
                    for (int d = 0; d < nd; ++d) {
                        u[d] = st.m[d][q] / rho;
                        e -= (ld)st.m[d][q] * st.m[d][q] / rho / 2;
                    }
                    P = static_cast<double>(g.P_e(rho, e));
                }
                double const cs = static_cast<double>(g.c_P(rho, P));
                double sum = 0;
                for (int d = 0; d < nd; ++d) {
                    sum += (std::fabs(u[d]) + cs) / ((b.hi[d] - b.lo[d]) / b.n[d]);
                }
                m = std::max(m, sum);
            }
        }
    }
    return cfl / m;
}

static void cadence_case(long n, Rng& r)
{
    Gas const g = gas();
    bool const many = nd == 1 && n % 60 == 59; // a run of many steps
    Box b = random_box(r, 4, many ? 6 : nd == 1 ? 24 : 6);
    if (spherical()) {
        return;
    }
    int const nfx = r.pick(std::vector<int> {0, 0, 1, 3});
    auto const lay = pick_layout(r, b, 4, 2);
    int const nranks = prod(lay);
    Ini c = base_ini(b);
    set_dims(c, lay);
    if (nfx) {
        c.set("Passive Scalar", "nfx", nfx);
    }
    double const cfl = r.uni(0.1, 0.5);
    c.set("Run", "cfl", cfl);
    Field const f {r.next(), vphys::scale(g, r), r.uni(0.01, 0.2)};
    double const dt0 = cfl_bound({}, 0, f, b, cfl, g);
    double const t0 = r.pick(std::vector<double> {0, 0, 0, 0.7, -1.3}) * dt0 * r.uni(0.5, 20);
    double t_end = t0 + dt0 * r.uni(0.3, 25);
    int max_iter = r.range(1, 30);
    if (r.coin(0.3)) {
        t_end = 1e300;
    } else if (r.coin(0.5)) {
        max_iter = 1000000;
    }
    if (many) {
        max_iter = vck::st().thorough ? r.range(1200, 3000) : r.range(300, 700);
        t_end = r.coin() ? 1e300 : t0 + dt0 * 0.9 * max_iter;
    }
    c.set("Run", "t_ini", t0);
    c.set("Run", "t_end", t_end);
    c.set("Output", "max_iter", max_iter);
    int ifreq = 0;
    double tfreq = 0;
    double tfirst = NAN;
    int const kind = r.range(0, 3);
    if (kind == 1 || kind == 3) {
        ifreq = r.pick(std::vector<int> {1, 2, 3, 5, 7, 100});
        c.set("Output", "iter_frequency", ifreq);
    }
    if (kind == 2 || kind == 3) {
        tfreq = dt0 * r.pick(std::vector<double> {0.3, 1.7, 1.7, 4.2, 8.8, 1000});
        if (r.coin(0.1) && std::isfinite(t_end) && t_end < 1e200) {
            tfreq = (t_end - t0) / r.range(1, 4); // outputs that coincide with the end
        }
        c.set("Output", "time_frequency", tfreq);
        tfirst = t0 + tfreq;
        if (r.coin(0.3)) {
            tfirst = t0 + dt0 * r.uni(0.05, 6);
            c.set("Output", "time_first_output", tfirst);
        }
    }
    RunOpt o;
    if (r.coin(0.2)) {
        o.dir = old_output(r, "");
    }
    f.install();
    Observer ob;
    observe(ob, b, nranks, c);
    o.ranks = nranks;
    o.seed = r.next();
    Run const x = run(c, o);
    clear_hooks();
    std::string const cfg = vck::fmt("n=%dx%dx%d ranks=%d t0=%.6g t_end=%.6g max_iter=%d ifreq=%d tfreq=%.6g tfirst=%.6g dt0=%.6g", b.n[0], b.n[1], b.n[2], nranks, t0,
                                     t_end, max_iter, ifreq, tfreq, tfirst, dt0);
    if (!x.ok()) {
        vck::fail("cadence.run", cfg + " failed: " + x.why());
        drop(x);
        return;
    }
    auto const& td = ob.ranks[0].tdt;
    std::size_t const ns = td.size();
    if (ns == 0 || ob.steps.size() != ns) {
        vck::fail("cadence.steps", cfg + " no steps");
        drop(x);
        return;
    }
    // rules on the sequence of steps
    std::vector<std::size_t> outs; // number of steps done at each output
    if (kind != 0) {
        outs.push_back(0);
    }
    int iter_id = kind != 0 ? 0 : -1;
    int time_id = -1;
    std::vector<int> iter_ids {iter_id}, time_ids {time_id};
    double t = t0;
    std::vector<double> times;
    if (kind != 0) {
        times.push_back(t0);
    }
    for (std::size_t s = 0; s < ns; ++s) {
        if (td[s].first != t) {
            vck::fail("cadence.time", cfg + vck::fmt(" step %zu starts at %.17g after %.17g", s, td[s].first, t));
        }
        double const dt = td[s].second;
        double const full = cfl_bound(ob, s, f, b, cfl, g);
        double const tol = 1e-9;
        if (!(dt > 0) || !(t + dt > t)) {
            vck::fail("cadence.positive", cfg + vck::fmt(" step %zu dt=%.17g", s, dt));
        }
        if (t + dt > t_end + 4e-16 * std::fabs(t_end)) {
            vck::fail("cadence.past_end", cfg + vck::fmt(" step %zu ends at %.17g", s, t + dt));
        }
        bool make = false;
        bool exact = false; // the step was bound to end at a requested time
        double want = full;
        bool fuzzy = false; // the decision hinges on rounding
        if (ifreq > 0 && static_cast<int>(s) + 1 >= (iter_id + 1) * ifreq) {
            ++iter_id;
            make = true;
        }
        if (tfreq > 0) {
            double const next = tfirst + (time_id + 1) * tfreq;
            if (std::fabs(t + want - next) <= tol * full) {
                fuzzy = true;
            }
            if (t + (fuzzy ? dt : want) >= next - (fuzzy ? 1e-14 * std::fabs(next) : 0)) {
                want = next - t;
                ++time_id;
                make = true;
                exact = true;
            }
        }
        // an output time may lie a rounding error before the end: the step that reaches it need not be the last
        bool const close = std::fabs(t + dt - t_end) <= 4e-16 * std::fabs(t_end);
        bool const before = close && s + 1 != ns && t + dt < t_end && exact;
        if ((t + want >= t_end || close) && !before) {
            want = t_end - t;
            make = true;
            exact = true;
            if (s + 1 != ns) {
                vck::fail("cadence.end", cfg + vck::fmt(" step %zu reached the end time but the run went on", s));
            }
        }
        if (static_cast<int>(s) + 1 >= max_iter) {
            make = true;
            if (s + 1 != ns) {
                vck::fail("cadence.max_iter", cfg + " the run went past the iteration limit");
            }
        }
        if (!vphys::near(dt, want, tol, 4e-16 * std::fabs(t))) {
            vck::fail("cadence.dt", cfg + vck::fmt(" step %zu from t=%.17g: dt=%.17g expected %.17g (CFL step %.17g%s)", s, t, dt, want, full, exact ? ", bound to a requested time" : ""));
            drop(x);
            return;
        }
        t += dt;
        if (make) {
            outs.push_back(s + 1);
            times.push_back(t);
            iter_ids.push_back(iter_id);
            time_ids.push_back(time_id);
        }
    }
    bool const ended = std::fabs(t - t_end) <= 4e-16 * std::fabs(t_end) || static_cast<int>(ns) == max_iter;
    if (!ended) {
        vck::fail("cadence.early", cfg + vck::fmt(" the run stopped at t=%.17g after %zu steps", t, ns));
    }
    if (x.files.size() != outs.size()) {
        std::string l;
        for (auto v : outs) {
            l += " " + std::to_string(v);
        }
        vck::fail("cadence.outputs", cfg + vck::fmt(" %zu output files, expected %zu (after steps%s)", x.files.size(), outs.size(), l.c_str()));
        drop(x);
        return;
    }
    std::size_t const shift = kind != 0 ? 0 : 1;
    for (std::size_t s = 0; s < outs.size(); ++s) {
        std::string const name = vck::fmt("result_%08zu.h5", s);
        if (x.files[s] != name) {
            vck::fail("cadence.names", cfg + " file " + x.files[s] + " expected " + name);
        }
        H5 const h = x.load(static_cast<int>(s));
        if (h.scalar("iter") != static_cast<double>(outs[s]) || h.scalar("current_time") != times[s] || h.scalar("output_id") != static_cast<double>(s)
            || h.scalar("iter_output_id") != iter_ids[s + shift] || h.scalar("time_output_id") != time_ids[s + shift]) {
            vck::fail("cadence.content", cfg + vck::fmt(" output %zu: iter %g/%zu time %.17g/%.17g id %g iter_output_id %g/%d time_output_id %g/%d", s, h.scalar("iter"), outs[s],
                                                        h.scalar("current_time"), times[s], h.scalar("output_id"), h.scalar("iter_output_id"), iter_ids[s + shift], h.scalar("time_output_id"), time_ids[s + shift]));
        }
        // the state in the file is the state after that step
        if (outs[s] > 0 && h.f("rho") != ob.steps[outs[s] - 1].rho) {
            vck::fail("cadence.state", cfg + vck::fmt(" output %zu does not hold the state after step %zu", s, outs[s]));
        }
    }
    check_index(x, b, nfx, 0, times, cfg);
    // summary on the terminal
    double const rep_t = after(x.w.cout_text, "Final time = "), rep_n = after(x.w.cout_text, "number of iterations = ");
    if (rep_n != static_cast<double>(ns) || !vphys::near(rep_t, t, 1e-5)) {
        vck::fail("cadence.summary", cfg + vck::fmt(" summary says t=%g n=%g, the run had t=%.17g n=%zu", rep_t, rep_n, t, ns));
    }
    vck::stat("steps", static_cast<double>(ns));
    vck::stat("outputs", static_cast<double>(outs.size()));
    vck::stat(kind == 0 ? "kind_final_only" : kind == 1 ? "kind_iter" : kind == 2 ? "kind_time" : "kind_both");
    vck::eval(vck::hash_str(cfg), ns > 1);
    vck::sample(cfg + vck::fmt(": %zu steps, %zu outputs", ns, outs.size()));
    drop(x);
}

// requested times that fall exactly on, or just beside, the end of a step: the run is made once without any requested time to
// learn its steps, then again with the end time or the first output at the end of step k, shifted by a small part of that step
static void exact_case(long n, Rng& r)
{
    if (spherical()) {
        return;
    }
    Gas const g = gas();
    Box b = random_box(r, 4, nd == 1 ? 16 : 5);
    auto const lay = pick_layout(r, b, 4, 2);
    int const nranks = prod(lay);
    Ini c = base_ini(b);
    set_dims(c, lay);
    c.set("Run", "cfl", r.uni(0.1, 0.5));
    Field const f {r.next(), vphys::scale(g, r), r.uni(0.01, 0.2)};
    double const dt0 = cfl_bound({}, 0, f, b, 0.3, g);
    double const t0 = r.pick(std::vector<double> {0, 0, 0.7, -1.3}) * dt0 * r.uni(0.5, 20);
    int const ns = r.range(2, 7);
    c.set("Run", "t_ini", t0);
    c.set("Run", "t_end", 1e300);
    c.set("Output", "max_iter", ns + 1);
    f.install();
    RunOpt o;
    o.ranks = nranks;
    o.seed = r.next();
    std::vector<std::pair<double, double>> td;
    {
        Observer ob;
        observe(ob, b, nranks, c);
        Run const x = run(c, o);
        td.assign(ob.ranks[0].tdt.begin(), ob.ranks[0].tdt.end());
        std::string const why = x.ok() ? "" : x.why();
        drop(x);
        if (!why.empty() || static_cast<int>(td.size()) != ns + 1) {
            clear_hooks();
            vck::fail("cadence.exact_dry", vck::fmt("the run without requested times makes %zu steps of %d: %s", td.size(), ns + 1, why.c_str()));
            return;
        }
    }
    int const k = r.range(0, ns - 1); // the step whose end is aimed at
    double const end_k = td[k + 1].first;
    static double const part[] = {0, 0, 0, 1e-7, -1e-7, 1e-4, -1e-4, 1e-3, -1e-3};
    double const delta = part[n % 9];
    double target = end_k + delta * td[k].second;
    bool const last = (n / 9) % 2;
    c.set("Output", "max_iter", ns + 4);
    bool const both = r.coin(0.25); // the end and an output coincide
    if (last || both) {
        c.set("Run", "t_end", target);
    }
    if (!last || both) {
        c.set("Output", "time_frequency", 1e6 * dt0);
        c.set("Output", "time_first_output", target);
    }
    Observer ob;
    observe(ob, b, nranks, c);
    Run const x = run(c, o);
    clear_hooks();
    std::string const cfg = vck::fmt("n=%dx%dx%d ranks=%d t0=%.6g %s at %.17g, %g of a step from the end of step %d", b.n[0], b.n[1], b.n[2], nranks, t0,
                                     last ? (both ? "end and output" : "end") : (both ? "output and end" : "output"), target, delta, k + 1);
    if (!x.ok()) {
        vck::fail("cadence.exact", cfg + " failed: " + x.why());
        drop(x);
        return;
    }
    auto const& to = ob.ranks[0].tdt;
    double const ulp = 4.5e-16 * (std::fabs(target) + std::fabs(t0));
    bool reached = false;
    for (std::size_t s = 0; s < to.size(); ++s) {
        double const t = to[s].first, dt = to[s].second;
        int const is = static_cast<int>(s);
        bool const before = is < k || (is == k && delta > 0);
        if (before && (t != td[s].first || dt != td[s].second)) {
            vck::fail("cadence.exact", cfg + vck::fmt(" step %d of [%.17g, +%.17g] becomes [%.17g, +%.17g] though the requested time is after it", is + 1, td[s].first, td[s].second, t, dt));
            break;
        }
        bool const same_start = is <= k || (delta > 0 && is == k + 1);
        if (same_start && dt > td[s].second * (1 + 1e-12) + ulp) {
            vck::fail("cadence.exact", cfg + vck::fmt(" step %d is %.17g long where the stability condition allows %.17g", is + 1, dt, td[s].second));
            break;
        }
        if (!(dt > 0)) {
            vck::fail("cadence.exact", cfg + vck::fmt(" step %d is %.17g long", is + 1, dt));
            break;
        }
        if (t < target - ulp && t + dt > target + ulp) {
            vck::fail("cadence.exact", cfg + vck::fmt(" step %d goes from %.17g past the requested time to %.17g", is + 1, t, t + dt));
            break;
        }
        if (std::fabs(t + dt - target) <= ulp) {
            reached = true;
            if ((last || both) && s + 1 != to.size()) {
                vck::fail("cadence.exact", cfg + vck::fmt(" step %d reaches the end and the run goes on", is + 1));
            }
        }
    }
    if (!reached) {
        vck::fail("cadence.exact", cfg + vck::fmt(" no step ends at the requested time (%zu steps)", to.size()));
    } else {
        bool found = false;
        for (std::size_t s = 0; s < x.files.size(); ++s) {
            H5 const h = x.load(static_cast<int>(s));
            found = found || std::fabs(h.scalar("current_time") - target) <= ulp;
        }
        std::size_t const want = !last ? (both ? 2 : 3) : (both ? 2 : 1);
        if (!found || x.files.size() != want) {
            vck::fail("cadence.exact", cfg + vck::fmt(" %zu files, expected %zu; %s of them has the requested time", x.files.size(), want, found ? "one" : "none"));
        }
    }
    vck::stat(delta == 0 ? "exactly_at_the_end_of_a_step" : "beside_the_end_of_a_step");
    vck::eval(vck::hash_str(cfg), true);
    drop(x);
}

// starting at or after the end time must be an error, not a step of zero or negative length
// the wall clock reaches the allowance of the run, at another step on each rank: every rank stops after the same step, which is output
static void wall_clock(long n, Rng& r)
{
    Gas const g = gas();
    Box b = random_box(r, 4, nd == 1 ? 16 : 5);
    if (spherical()) {
        return;
    }
    auto const lay = pick_layout(r, b, 6, 2);
    int const nranks = prod(lay);
    Ini c = base_ini(b);
    set_dims(c, lay);
    Field const f {r.next(), vphys::scale(g, r), r.uni(0.01, 0.2)};
    f.install();
    int const steps = r.range(3, 9), hours = r.pick(std::vector<int> {1, 2, 20, 300});
    c.set("Output", "max_iter", steps);
    c.set("Output", "time_job", hours);
    if (r.coin()) {
        c.set("Output", "iter_frequency", r.range(1, 4));
    }
    if (r.coin(0.3)) {
        c.set("Output", "time_frequency", cfl_bound({}, 0, f, b, 0.4, g) * r.uni(0.5, 4));
    }
    bool const near_miss = n % 4 == 3; // the allowance is nearly used up, but not quite
    std::vector<int> at; // the number of steps made when the clock of the rank jumps
    std::vector<double> skew; // the clocks of ranks have no common origin
    int lo = steps, hi = 0;
    int const base = r.range(1, steps);
    bool const apart = r.coin();
    for (int p = 0; p < nranks; ++p) {
        at.push_back(std::min(steps, std::max(1, base + (apart ? r.range(-2, 2) : 0))));
        skew.push_back(r.coin() ? 0 : r.uni(0, 1e4));
        lo = std::min(lo, at.back()), hi = std::max(hi, at.back());
    }
    double const jump = near_miss ? hours - r.uni(0.2, 0.6) : hours + r.uni(0, 5) + 1e-3;
    Observer ob;
    observe(ob, b, nranks, c);
    vclock::asked() = 0;
    vclock::extra() = [&] {
        int const p = vshim::tl_rank;
        if (p < 0) {
            return 0.;
        }
        auto const q = static_cast<std::size_t>(p);
        return skew[q] + (static_cast<int>(ob.ranks[q].tdt.size()) >= at[q] ? jump : 1e-9);
    };
    RunOpt o;
    o.ranks = nranks;
    o.seed = r.next();
    Run const x = run(c, o);
    vclock::extra() = nullptr;
    clear_hooks();
    std::string cfg = vck::fmt("n=%dx%dx%d layout=%dx%dx%d %d steps, %d hours, the clock jumps by %.4g hours after steps", b.n[0], b.n[1], b.n[2], lay[0], lay[1], lay[2], steps, hours, jump);
    for (int const a : at) {
        cfg += vck::fmt(" %d", a);
    }
    if (!x.ok()) {
        vck::fail("cadence.clock", cfg + " failed: " + x.why());
        drop(x);
        return;
    }
    if (vclock::asked() == 0) {
        vck::fail("cadence.clock", cfg + " the clock was never asked");
    }
    auto const& ref = ob.ranks[0].tdt;
    int const made = static_cast<int>(ref.size());
    for (int p = 0; p < nranks; ++p) {
        if (ob.ranks[static_cast<std::size_t>(p)].tdt != ref) {
            vck::fail("cadence.clock", cfg + vck::fmt(" rank %d makes %zu steps, rank 0 %d", p, ob.ranks[static_cast<std::size_t>(p)].tdt.size(), made));
        }
    }
    int const least = near_miss ? steps : lo, most = near_miss ? steps : std::min(steps, hi + 1);
    if (made < least || made > most) {
        vck::fail("cadence.clock", cfg + vck::fmt(" the run makes %d steps", made));
    }
    if (x.files.empty()) {
        vck::fail("cadence.clock", cfg + " has no output");
    } else {
        H5 const h = x.last();
        if (static_cast<int>(h.scalar("iter")) != made || h.scalar("current_time") != ref.back().first + ref.back().second) {
            vck::fail("cadence.clock", cfg + vck::fmt(" the last of %d steps ends at %.17g, the last output is of iteration %g at %.17g", made, ref.back().first + ref.back().second, h.scalar("iter"),
                                                      h.scalar("current_time")));
        }
    }
    vck::stat(near_miss ? "clock_near_miss" : made < steps ? "clock_stops" : "clock_late");
    vck::eval(vck::hash_str(cfg));
    drop(x);
}

static void late_start(long, Rng& r)
{
    Gas const g = gas();
    Box b = random_box(r, 4, 8);
    Ini c = base_ini(b);
    double const t0 = r.uni(0, 2);
    double const te = r.coin() ? t0 : t0 - r.uni(0.01, 1);
    c.set("Run", "t_ini", t0);
    c.set("Run", "t_end", te);
    Field const f {r.next(), vphys::scale(g, r), 0.1};
    f.install();
    Observer ob;
    observe(ob, b, 1, c);
    Run const x = run(c, {});
    clear_hooks();
    for (auto const& [t, dt] : ob.ranks[0].tdt) {
        if (!(dt > 0)) {
            vck::fail("cadence.late_start", vck::fmt("t_ini=%.17g t_end=%.17g: a step of length %.17g was made", t0, te, dt));
            break;
        }
        if (t + dt > te) {
            vck::fail("cadence.late_start", vck::fmt("t_ini=%.17g t_end=%.17g: stepped to %.17g", t0, te, t + dt));
            break;
        }
    }
    vck::eval(vck::mix(1, vck::hash_bytes(&t0, 8)));
    drop(x);
}

static bool advance(std::string const& file, char const* name, double by)
{
    hid_t const f = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    hid_t const ds = f < 0 ? -1 : H5Dopen2(f, name, H5P_DEFAULT);
    double v = 0;
    bool ok = ds >= 0 && H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v) >= 0;
    v += by;
    ok = ok && H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v) >= 0;
    if (ds >= 0) {
        H5Dclose(ds);
    }
    if (f >= 0) {
        H5Fclose(f);
    }
    return ok;
}

// a run with a long history behind it goes on like a young one: the same output is continued as it is, and with counters and time advanced
// as if many more steps and outputs had been made
static void history(long, Rng& r)
{
    Gas const g = gas();
    if (spherical()) {
        return;
    }
    Box const b = random_box(r, 4, nd == 1 ? 16 : 5);
    auto const lay = pick_layout(r, b, 4, 2);
    int const nranks = prod(lay), nfx = r.pick(std::vector<int> {0, 0, 2});
    Ini c = base_ini(b);
    set_dims(c, lay);
    if (nfx) {
        c.set("Passive Scalar", "nfx", nfx);
    }
    c.set("Run", "cfl", r.uni(0.1, 0.5));
    c.set("Run", "t_end", 1e300);
    Field const f {r.next(), vphys::scale(g, r), r.uni(0.01, 0.2)};
    double const dt0 = cfl_bound({}, 0, f, b, 0.3, g);
    int const kind = r.range(1, 3), first_steps = r.range(2, 6), more = r.range(3, 12);
    int ifreq = 0;
    double tfreq = 0;
    if (kind != 2) {
        ifreq = r.range(1, 4);
        c.set("Output", "iter_frequency", ifreq);
    }
    if (kind != 1) {
        tfreq = dt0 * r.uni(0.4, 5);
        c.set("Output", "time_frequency", tfreq);
    }
    c.set("Output", "max_iter", first_steps);
    f.install();
    RunOpt o;
    o.ranks = nranks;
    o.seed = r.next();
    Run const x = run(c, o);
    std::string cfg = vck::fmt("n=%dx%dx%d ranks=%d nfx=%d ifreq=%d tfreq=%.6g", b.n[0], b.n[1], b.n[2], nranks, nfx, ifreq, tfreq);
    if (!x.ok() || x.files.size() < 2) {
        clear_hooks();
        vck::fail("history.run", cfg + " failed: " + x.why());
        drop(x);
        return;
    }
    // the last output may be there only because the run ended: its counters need not be those of a requested output
    std::size_t const from = r.below(x.files.size() - 1);
    H5 const h0 = x.load(static_cast<int>(from));
    int const it = static_cast<int>(h0.scalar("iter")), id = static_cast<int>(h0.scalar("output_id"));
    auto edge = [&](int most) {
        int p = 10;
        for (int k = r.range(1, most); k > 0; --k) {
            p *= 10;
        }
        return p;
    };
    int const to_id = r.coin(0.1) ? 123456789 : edge(5) - r.range(1, 3);
    long d_iter = r.coin(0.2) ? 2147483647L - it - more - 16 : edge(8) - it - r.range(1, more);
    if (ifreq > 0) {
        d_iter -= d_iter % ifreq;
    }
    long const d_time = tfreq > 0 ? edge(4) : 0;
    std::vector<Run> y;
    for (int k = 0; k < 2; ++k) {
        std::string const dir = x.dir + (k ? "/late" : "/young");
        fs::create_directories(dir);
        std::string const file = dir + "/start.restart";
        fs::copy_file(x.dir + "/" + x.files[from], file);
        bool ok = true;
        if (k) {
            ok = advance(file, "iter", static_cast<double>(d_iter)) && advance(file, "output_id", to_id - id) && advance(file, "current_time", static_cast<double>(d_time) * tfreq);
            ok = ok && (ifreq == 0 || advance(file, "iter_output_id", static_cast<double>(d_iter / ifreq))) && (tfreq == 0 || advance(file, "time_output_id", static_cast<double>(d_time)));
        }
        if (!ok) {
            vck::fail("history.run", cfg + " the counters of the output cannot be changed");
            break;
        }
        Ini c2 = c;
        c2.set("Output", "directory", dir);
        c2.set("Problem", "restart", "true");
        c2.set("Problem", "restart_file", file);
        c2.set("Output", "max_iter", it + static_cast<int>(k ? d_iter : 0) + more);
        RunOpt o2 = o;
        o2.dir = dir;
        y.push_back(run(c2, o2));
    }
    clear_hooks();
    cfg += vck::fmt(" continued from iteration %d, output %d, and as if it were iteration %ld, output %d, %ld periods later", it, id, it + d_iter, to_id, d_time);
    if (y.size() != 2 || !y[0].ok() || !y[1].ok()) {
        vck::fail("history.run", cfg + " failed: " + (y.empty() ? "" : y[0].why() + y.back().why()));
    } else if (y[0].files.size() != y[1].files.size()) {
        vck::fail("history.outputs", cfg + vck::fmt(": %zu outputs instead of %zu", y[1].files.size(), y[0].files.size()));
    } else {
        std::vector<double> times;
        double const dT = static_cast<double>(d_time) * tfreq;
        for (std::size_t i = 0; i < y[0].files.size(); ++i) {
            H5 const a = y[0].load(static_cast<int>(i)), z = y[1].load(static_cast<int>(i));
            std::string const name = vck::fmt("result_%08zu.h5", to_id + 1 + i);
            if (y[1].files[i] != name) {
                vck::fail("history.names", cfg + ": file " + y[1].files[i] + " expected " + name);
            }
            times.push_back(z.scalar("current_time"));
            if (z.scalar("iter") != a.scalar("iter") + static_cast<double>(d_iter) || z.scalar("output_id") != static_cast<double>(to_id) + 1 + static_cast<double>(i)
                || !(std::fabs(z.scalar("current_time") - a.scalar("current_time") - dT) <= 1e-8 * dt0)) {
                vck::fail("history.counters", cfg + vck::fmt(": output %zu has iteration %.17g number %.17g time %.17g, the young run %g, %g, %.17g", i, z.scalar("iter"), z.scalar("output_id"),
                                                             z.scalar("current_time"), a.scalar("iter"), a.scalar("output_id"), a.scalar("current_time")));
            }
            for (auto const& [n, v] : a.d) {
                auto const& w = z.f(n);
                if (v.size() < 2 || n == "x0" || n == "x1" || n == "x2") {
                    continue;
                }
                double top = 0, off = 0;
                for (std::size_t q = 0; q < v.size() && w.size() == v.size(); ++q) {
                    top = std::max(top, std::fabs(v[q]));
                    off = std::max(off, std::fabs(v[q] - w[q]));
                    if (w[q] != w[q]) {
                        off = INFINITY;
                    }
                }
                bool const speed = n.size() == 3 && n[0] == 'u';
                if (w.size() != v.size() || (dT == 0 ? off != 0 : off > 1e-7 * (top + (speed ? f.sc.u + static_cast<double>(g.c_P(f.sc.rho, f.sc.P)) : 0)))) {
                    vck::fail("history.fields", cfg + vck::fmt(": output %zu, %s differs by %g of %g", i, n.c_str(), off, top));
                    break;
                }
            }
            vck::stat("late_outputs");
        }
        check_index(y[1], b, nfx, to_id + 1, times, cfg);
    }
    vck::eval(vck::hash_str(cfg));
    vck::sample(cfg);
    drop(x);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    std::string const what = vck::st().opt["what"];
    bool const th = vck::st().thorough;
    if (what == "files") {
        vck::cases("files", th ? 1500 : 40, files_case);
    } else if (what == "history") {
        vck::cases("history", th ? 1000 : (nd == 1 ? 60 : 25), history);
    } else {
        vck::cases("cadence", th ? 3000 : (nd == 1 ? 120 : 30), cadence_case);
        vck::cases("exact", th ? 900 : (nd == 1 ? 36 : 18), exact_case);
        vck::cases("wall_clock", th ? 400 : 24, wall_clock);
        vck::cases("late_start", th ? 40 : 6, late_start);
    }
    return vck::finish();
}
