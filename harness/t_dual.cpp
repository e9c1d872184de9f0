// C26: mirrored arrays, alone under random histories and inside whole runs.
#include <dual_view.hpp>
#include <vfeat.hpp>
#include <vunit.hpp>

using namespace vfeat;
namespace h = hclpp;

// reads and writes on the proper side
template <class V>
static void read_all(V const& v, bool dev, std::vector<double>& out)
{
    out.assign(v.size(), 0);
    if (dev) {
        Kokkos::parallel_for("read", Kokkos::RangePolicy<>(0, static_cast<int>(v.size())), [&](int i) { out[static_cast<std::size_t>(i)] = v.data()[i]; });
    } else {
        for (std::size_t i = 0; i < v.size(); ++i) {
            out[i] = v.data()[i];
        }
    }
}
template <class V>
static void write_some(V const& v, bool dev, std::vector<double> const& x)
{
    if (dev) {
        Kokkos::parallel_for("write", Kokkos::RangePolicy<>(0, static_cast<int>(v.size())), [&](int i) { v.data()[i] = x[static_cast<std::size_t>(i)]; });
    } else {
        for (std::size_t i = 0; i < v.size(); ++i) {
            v.data()[i] = x[i];
        }
    }
}

// a history on handles of one array of type DV
template <class DV, class CDV, class... N>
static void history(char const* name, Rng& r, N... n)
{
    std::vector<DV> hs {DV("array", n...)};
    std::vector<CDV> cs;
    std::size_t const size = hs[0].size();
    std::vector<double> model(size, 0);
    // which sides hold the last value
    bool dev_ok = true, host_ok = true;
    std::string trace = name;
    int const len = r.range(2, 30);
    auto fail = [&](char const* key, std::string const& m) { vck::fail(std::string("dual.") + key, m + " after: " + trace); };
    double next = 1;
    auto fresh = [&](std::vector<double>& x, bool all) {
        for (auto& v : x) {
            if (all || r.coin(0.3)) {
                v = next++;
            }
        }
    };
    auto flags = [&](auto const& d) {
        if (d.need_synchronization(h::device) != !dev_ok || d.need_synchronization(h::host) != !host_ok) {
            fail("flags", fmt("need_synchronization device=%d host=%d instead of %d %d", d.need_synchronization(h::device), d.need_synchronization(h::host), !dev_ok, !host_ok));
            return false;
        }
        return true;
    };
    for (int s = 0; s < len; ++s) {
        std::size_t const q = r.below(hs.size());
        bool const dev = r.coin();
        int const op = r.range(0, 13);
        std::vector<double> got;
        auto const copies0 = vshim::stats().hd_copies.load();
        bool& here = dev ? dev_ok : host_ok;
        bool& there = dev ? host_ok : dev_ok;
        auto check_read = [&](auto const& v) {
            read_all(v, dev, got);
            for (std::size_t i = 0; i < size; ++i) {
                if (got[i] != model[i]) {
                    fail("stale", fmt("element %zu reads %.17g instead of %.17g on the %s", i, got[i], model[i], dev ? "device" : "host"));
                    return false;
                }
            }
            return true;
        };
        bool ok = true;
        if (op <= 2) {
            trace += dev ? " Dr" : " Hr";
            ok = dev ? (r.coin() ? check_read(hs[q](h::device, h::read_only)) : check_read(hs[q](h::device_read_only)))
                     : (r.coin() ? check_read(hs[q](h::host, h::read_only)) : check_read(hs[q](h::host_read_only)));
            here = true;
        } else if (op <= 4 && !cs.empty()) {
            std::size_t const k = r.below(cs.size());
            trace += dev ? " cDr" : " cHr";
            ok = dev ? check_read(cs[k](h::device, h::read_only)) : check_read(cs[k](h::host, h::read_only));
            here = true;
        } else if (op <= 7) { // read, modify a part, write
            trace += dev ? " Dw" : " Hw";
            int const how = r.range(0, 2);
            auto x = model;
            auto doit = [&](auto const& v) {
                ok = check_read(v);
                fresh(x, false);
                write_some(v, dev, x);
            };
            if (dev) {
                how == 0 ? doit(hs[q](h::device)) : (how == 1 ? doit(hs[q](h::device, h::read_write)) : doit(hs[q](h::device_read_write)));
            } else {
                how == 0 ? doit(hs[q](h::host)) : (how == 1 ? doit(hs[q](h::host, h::read_write)) : doit(hs[q](h::host_read_write)));
            }
            model = x;
            here = true;
            there = false;
        } else if (op <= 9) { // overwrite everything
            trace += dev ? " Dd" : " Hd";
            auto x = model;
            fresh(x, true);
            auto doit = [&](auto const& v) {
                if (vshim::stats().hd_copies.load() != copies0) {
                    fail("copies", "an overwriting access copies between host and device");
                    ok = false;
                }
                write_some(v, dev, x);
            };
            bool const tag = r.coin();
            if (dev) {
                tag ? doit(hs[q](h::device_discard_write)) : doit(hs[q](h::device, h::discard_write));
            } else {
                tag ? doit(hs[q](h::host_discard_write)) : doit(hs[q](h::host, h::discard_write));
            }
            model = x;
            here = true;
            there = false;
        } else if (op == 10) {
            trace += dev ? " Ds" : " Hs";
            dev ? hs[q].synchronize(h::device) : hs[q].synchronize(h::host);
            here = true;
        } else if (op == 11) {
            int const how = r.range(0, 3);
            trace += fmt(" copy%d", how);
            if (how == 0) {
                hs.push_back(hs[q]);
            } else if (how == 1) {
                DV other("other", n...);
                auto const w = other(h::device, h::discard_write);
                write_some(w, true, std::vector<double>(size, -1));
                other = hs[q];
                hs.push_back(other);
            } else if (how == 2) {
                DV tmp(hs[q]);
                hs.push_back(std::move(tmp));
            } else {
                DV tmp(hs[q]), other;
                other = std::move(tmp);
                hs.push_back(other);
            }
        } else if (op == 12) {
            int const how = r.range(0, 4);
            trace += fmt(" const%d", how);
            if (how == 0) {
                cs.push_back(hs[q].const_view());
            } else if (how == 1) {
                cs.push_back(CDV(hs[q]));
            } else if (how == 2) {
                CDV x;
                x = hs[q];
                cs.push_back(x);
            } else if (how == 3) {
                DV tmp(hs[q]);
                cs.push_back(CDV(std::move(tmp)));
            } else {
                DV tmp(hs[q]);
                CDV x;
                x = std::move(tmp);
                cs.push_back(x);
            }
        } else if (hs.size() > 1) {
            trace += " drop";
            hs.erase(hs.begin() + static_cast<long>(q));
        }
        if (!ok) {
            return;
        }
        for (auto const& x : hs) {
            if (!flags(x)) {
                return;
            }
        }
        for (auto const& x : cs) {
            if (!flags(x)) {
                return;
            }
        }
    }
    // the last handle may go while read-only ones stay
    if (!cs.empty() && r.coin()) {
        hs.clear();
        bool const dev = r.coin();
        std::vector<double> got;
        dev ? read_all(cs[0](h::device, h::read_only), true, got) : read_all(cs[0](h::host, h::read_only), false, got);
        if (got != model) {
            fail("stale", "read through the remaining read-only handle");
        }
    }
    vck::eval(vck::hash_str(trace), len > 3);
    vck::sample(trace);
    vck::stat("accesses", len);
}

template <class DV, class... N>
static void shape(Rng&, std::string const& label, N... n)
{
    DV const d(label, n...);
    std::vector<std::size_t> const e {static_cast<std::size_t>(n)...};
    typename DV::view_device_type const ref(label, n...);
    bool ok = d.label() == label && d.is_allocated() && d.size() == ref.size() && d.span() == ref.span() && d.span_is_contiguous() == ref.span_is_contiguous() && DV::rank == e.size();
    for (std::size_t i = 0; i < e.size(); ++i) {
        ok = ok && d.extent(i) == e[i] && d.extent_int(static_cast<int>(i)) == static_cast<int>(e[i]) && d.stride(i) == ref.stride(i);
    }
    auto const hv = d(h::host, h::discard_write);
    for (std::size_t i = 0; i < e.size(); ++i) {
        ok = ok && static_cast<std::size_t>(hv.extent(i)) == e[i];
    }
    DV const none;
    ok = ok && !none.is_allocated();
    if (!ok) {
        vck::fail("dual.shape", label + " has another shape or label");
    }
    vck::eval(vck::hash_str(label + fmt("%zu", d.size())), false);
}

template <class T, class L>
using DVt = h::DualView<T, L>;

static void unit_case(long n, Rng& r)
{
    int const a = r.range(1, 5), b = r.range(1, 4), c = r.range(1, 3), d = r.range(1, 3);
    switch (n % 5) {
    case 0:
        history<DVt<double*, Kokkos::LayoutLeft>, DVt<double const*, Kokkos::LayoutLeft>>("1d", r, a);
        shape<DVt<double*, Kokkos::LayoutLeft>>(r, "one", a);
        break;
    case 1:
        history<DVt<double**, Kokkos::LayoutRight>, DVt<double const**, Kokkos::LayoutRight>>("2d right", r, a, b);
        shape<DVt<double**, Kokkos::LayoutRight>>(r, "two", a, b);
        break;
    case 2:
        history<DVt<double***, Kokkos::LayoutLeft>, DVt<double const***, Kokkos::LayoutLeft>>("3d", r, a, b, c);
        shape<DVt<double***, Kokkos::LayoutLeft>>(r, "three", a, b, c);
        break;
    case 3:
        history<DVt<double****, Kokkos::LayoutLeft>, DVt<double const****, Kokkos::LayoutLeft>>("4d", r, a, b, c, d);
        shape<DVt<double****, Kokkos::LayoutLeft>>(r, "four", a, b, c, d);
        break;
    default:
        // one of the extents is empty, as without scalars
        history<DVt<double****, Kokkos::LayoutLeft>, DVt<double const****, Kokkos::LayoutLeft>>("4d empty", r, a, b, c, 0);
        shape<DVt<double****, Kokkos::LayoutLeft>>(r, "empty", a, b, c, 0);
        break;
    }
}

// whole runs: the space monitor stops any access from the wrong side; restarts read through the mirrors
static void program_case(long, Rng& r)
{
    Opt o;
    o.heat = true;
    o.steps = 3;
    Feat f = random_feat(r, o);
    f.install();
    f.c.set("Output", "iter_frequency", 1);
    f.c.set("Parallelization", "mpi_device_aware", r.coin() ? "true" : "false");
    bool const shift = r.coin(0.4) && gravity_kind != 1;
    if (shift) {
        f.c.set("Grid", "shift_grid", "UserDefined");
        vcase::hooks().shift = [](hclpp::Grid const&, double const*, double const*, double const*, double const*, int const*, int) { return true; };
        if (r.coin(0.3)) {
            f.c.set("Problem", "rmax_shift", f.b.lo[0]);
        }
    }
    Run const x = run(f.c, run_opt(r, f));
    vck::eval(vck::hash_str(f.text));
    vck::sample(f.text);
    bool const stopped = x.w.cerr_text.find("invalid volumic internal energy") != std::string::npos;
    if (!x.ok() && !stopped) {
        vck::fail("dual.run", f.text + " run failed: " + x.why());
    }
    if (x.ok() && x.files.size() > 1 && r.coin()) {
        Ini c2 = f.c;
        c2.set("Problem", "restart", "true");
        c2.set("Problem", "restart_file", x.dir + "/" + x.files[0]);
        c2.set("Output", "prefix", "again");
        Run const y = run(c2, run_opt(r, f));
        if (!y.ok() && y.w.cerr_text.find("invalid volumic internal energy") == std::string::npos) {
            vck::fail("dual.run", f.text + " restart failed: " + y.why());
        }
        drop(y);
    }
    clear_hooks();
    drop(x);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    long const k = vck::st().thorough ? 40 : 1;
    vck::cases("history", 3000 * k, unit_case);
    vck::cases("program", 15 * k, program_case);
    return vck::finish();
}
