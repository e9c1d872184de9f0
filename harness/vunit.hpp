// Helpers of the drivers that call parts of the code directly (no main program).
#pragma once
#include <array>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <mpi.h>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <geom.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <vck.hpp>
#include <vphys.hpp>
#include <vshim.hpp>

namespace vunit {

using namespace hclpp;
inline constexpr int nd = hclpp::ndim;
inline bool spherical() { return hclpp::geom == hclpp::Geometry::Geom_spherical; }
inline bool radgas() { return std::string(hclpp::eos_choice) == "RadGas"; }

// f(rank) on every simulated rank, between initialisation and finalisation of message passing
inline vshim::WorldResult world(int ranks, std::uint64_t seed, std::function<void(int)> const& f)
{
    auto w = vshim::run_world(ranks, seed, [&](int r) {
        MPI_Init(nullptr, nullptr);
        f(r);
        MPI_Finalize();
        return 0;
    });
    if (!w.ok) {
        std::string s;
        for (auto const& e : w.err) {
            s += e + "; ";
        }
        vck::fail("world", "an error escaped: " + s + w.cerr_text);
    }
    return w;
}

inline constexpr double poison = -7.25e77; // recognisable untouched value

// host-side access to the content of an array
template <class V>
std::vector<double> snap(V const& v)
{
    vshim::Peek const p;
    std::vector<double> r(v.size());
    if (!r.empty()) {
        std::memcpy(r.data(), v.data(), r.size() * sizeof(double));
    }
    return r;
}
template <class V>
void put(V const& v, std::vector<double> const& x)
{
    vshim::Peek const p;
    if (!x.empty()) {
        std::memcpy(v.data(), x.data(), x.size() * sizeof(double));
    }
}
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

// increasing nodes, n + 2 ng + 1 of them; the first interior one at lo and the last interior one at hi
inline std::vector<double> random_nodes(vck::Rng& r, int n, int ng, double lo, double hi, double irregular)
{
    std::vector<double> w(static_cast<std::size_t>(n + 2 * ng));
    for (auto& x : w) {
        x = irregular > 0 ? std::exp(r.uni(-irregular, irregular)) : 1.0;
    }
    double s = 0;
    for (int i = ng; i < n + ng; ++i) {
        s += w[static_cast<std::size_t>(i)];
    }
    double const h = (hi - lo) / s;
    std::vector<double> x(static_cast<std::size_t>(n + 2 * ng + 1));
    x[static_cast<std::size_t>(ng)] = lo;
    for (int i = ng; i < n + 2 * ng; ++i) {
        x[static_cast<std::size_t>(i) + 1] = x[static_cast<std::size_t>(i)] + h * w[static_cast<std::size_t>(i)];
    }
    for (int i = ng - 1; i >= 0; --i) {
        x[static_cast<std::size_t>(i)] = x[static_cast<std::size_t>(i) + 1] - h * w[static_cast<std::size_t>(i)];
    }
    return x;
}

inline KV_double_1d upload(std::string const& name, std::vector<double> const& x)
{
    KV_double_1d const v(name, x.size());
    put(v, x);
    return v;
}
// give the grid the same nodes on every rank
inline void set_nodes(Grid& g, std::array<std::vector<double>, 3> const& x)
{
    g.set_grid(upload("x0_glob", x[0]), upload("x1_glob", x[1]), upload("x2_glob", x[2]));
}
inline std::array<std::vector<double>, 3> random_mesh(vck::Rng& r, std::array<int, 3> const& n, int ng, double irregular)
{
    std::array<std::vector<double>, 3> x;
    for (int d = 0; d < 3; ++d) {
        auto const D = static_cast<std::size_t>(d);
        double lo, hi;
        if (!spherical()) {
            lo = r.uni(-3, 3);
            hi = lo + r.loguni(0.01, 100);
        } else if (d == 0) {
            hi = r.loguni(0.5, 1e3);
            lo = hi * r.uni(0.3, 0.8);
        } else if (d == 1) {
            lo = r.uni(0.4, 1.4);
            hi = lo + r.uni(0.1, 1.2);
        } else {
            lo = r.uni(0, 3);
            hi = lo + r.uni(0.1, 2);
        }
        int const g = d < nd ? ng : 0;
        x[D] = random_nodes(r, n[D], g, lo, hi, d < nd ? irregular : 0);
    }
    return x;
}
// ghosts of random spherical meshes may leave the domain of the coordinates
inline bool physical_nodes(std::array<std::vector<double>, 3> const& x)
{
    if (!spherical()) {
        return true;
    }
    if (x[0][0] <= 0) {
        return false;
    }
    return nd == 1 || (x[1].front() > 0.02 && x[1].back() < 3.12);
}

inline double uniform_or_edge(vck::Rng& r, double a, double b) { return r.coin(0.1) ? (r.coin() ? a : b) : r.uni(a, b); }

} // namespace vunit
