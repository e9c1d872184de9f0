// Reference model of the ghost cells: the global interior, wrapped, then each face in order of increasing priority.
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>

#include <vck.hpp>

namespace vghost {

enum Kind { null_gradient, periodic, reflexive, user };
inline char const* const kind_name[4] = {"NullGradient", "Periodic", "Reflexive", "UserDefined"};
inline char const* const face_name[6] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"};

struct Bcs
{
    std::array<int, 6> kind {1, 1, 1, 1, 1, 1};
    std::vector<int> order; // faces from the lowest to the highest priority
    std::string priority; // text of the configuration
    std::string show(int nd) const
    {
        std::string s;
        for (int f = 0; f < 2 * nd; ++f) {
            s += std::string(f ? "," : "") + kind_name[kind[static_cast<std::size_t>(f)]];
        }
        return s + " priority '" + priority + "'";
    }
};

inline Bcs random_bcs(vck::Rng& r, int nd, bool allow_user = true)
{
    Bcs b;
    for (int d = 0; d < nd; ++d) {
        if (r.coin(0.3)) {
            b.kind[static_cast<std::size_t>(2 * d)] = b.kind[static_cast<std::size_t>(2 * d + 1)] = periodic;
        } else {
            for (int f = 0; f < 2; ++f) {
                b.kind[static_cast<std::size_t>(2 * d + f)] = r.pick(allow_user ? std::vector<int> {0, 2, 3, 1, 0, 2} : std::vector<int> {0, 2, 1, 0, 2});
            }
        }
    }
    std::vector<int> o;
    for (int f = 0; f < 2 * nd; ++f) {
        o.push_back(f);
    }
    if (r.coin(0.3)) {
        b.order = o; // default: later faces win
        return b;
    }
    for (std::size_t i = o.size(); i > 1; --i) {
        std::swap(o[i - 1], o[r.below(i)]);
    }
    b.order = o;
    for (std::size_t i = o.size(); i-- > 0;) { // the list names the highest priority first
        b.priority += std::string(b.priority.empty() ? "" : (r.coin(0.8) ? " " : "  ")) + face_name[o[i]];
    }
    return b;
}

// one field with ghosts over the whole domain
struct Field
{
    std::array<int, 3> n, g, e;
    std::vector<double> v;
    Field(std::array<int, 3> const& N, int ng, int nd) : n(N)
    {
        for (int d = 0; d < 3; ++d) {
            auto const D = static_cast<std::size_t>(d);
            g[D] = d < nd ? ng : 0;
            e[D] = n[D] + 2 * g[D];
        }
        v.assign(static_cast<std::size_t>(e[0]) * e[1] * e[2], 0);
    }
    double& at(int i, int j, int k) { return v[static_cast<std::size_t>((static_cast<long>(k) * e[1] + j) * e[0] + i)]; } // with ghosts
    double at(int i, int j, int k) const { return v[static_cast<std::size_t>((static_cast<long>(k) * e[1] + j) * e[0] + i)]; }
    double& in(int i, int j, int k) { return at(i + g[0], j + g[1], k + g[2]); }
    void wrap()
    {
        for (int k = 0; k < e[2]; ++k) {
            for (int j = 0; j < e[1]; ++j) {
                for (int i = 0; i < e[0]; ++i) {
                    int q[3] = {i - g[0], j - g[1], k - g[2]};
                    bool inside = true;
                    for (int d = 0; d < 3; ++d) {
                        int const N = n[static_cast<std::size_t>(d)];
                        inside = inside && q[d] >= 0 && q[d] < N;
                        q[d] = ((q[d] % N) + N) % N;
                    }
                    if (!inside) {
                        at(i, j, k) = in(q[0], q[1], q[2]);
                    }
                }
            }
        }
    }
};

// user(face, var, extended index) gives what the user condition writes; var is the number of the field,
// momenta are fields 1..nd
inline void fill(std::vector<Field>& f, Bcs const& b, int nd, std::function<double(int, int, int const*)> const& user_value)
{
    for (auto& x : f) {
        x.wrap();
    }
    for (int const face : b.order) {
        int const d = face / 2, side = face % 2;
        int const kind = b.kind[static_cast<std::size_t>(face)];
        if (kind == periodic) {
            continue;
        }
        for (std::size_t v = 0; v < f.size(); ++v) {
            Field& x = f[v];
            auto const D = static_cast<std::size_t>(d);
            int const ng = x.g[D], n = x.n[D];
            int lo[3] = {0, 0, 0}, hi[3] = {x.e[0], x.e[1], x.e[2]};
            lo[d] = side == 0 ? 0 : ng + n;
            hi[d] = lo[d] + ng;
            for (int k = lo[2]; k < hi[2]; ++k) {
                for (int j = lo[1]; j < hi[1]; ++j) {
                    for (int i = lo[0]; i < hi[0]; ++i) {
                        int const q[3] = {i, j, k};
                        int s[3] = {i, j, k};
                        double val;
                        if (kind == user) {
                            val = user_value(face, static_cast<int>(v), q);
                        } else if (kind == null_gradient) {
                            s[d] = side == 0 ? ng : ng + n - 1;
                            val = x.at(s[0], s[1], s[2]);
                        } else {
                            s[d] = side == 0 ? 2 * ng - 1 - q[d] : 2 * (ng + n) - 1 - q[d];
                            val = x.at(s[0], s[1], s[2]);
                            if (static_cast<int>(v) == 1 + d) {
                                val = -val;
                            }
                        }
                        x.at(i, j, k) = val;
                    }
                }
            }
        }
    }
    (void)nd;
}

} // namespace vghost
