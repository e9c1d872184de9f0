// C07: scoped HDF5 handles and extent checks, against the real HDF5 library.
#include <array>
#include <functional>
#include <stdexcept>
#include <string>

#include <hdf5.h>
#include <io_hdf5.hpp>
#include <vck.hpp>
#include <vh5count.hpp>

using vck::Rng;

static std::vector<hid_t> g_closed;
static herr_t closer(hid_t id)
{
    g_closed.push_back(id);
    return 0;
}
static herr_t closer_fails(hid_t id)
{
    g_closed.push_back(id);
    return -1;
}
static std::vector<hid_t> g_real;
static herr_t d_close(hid_t id)
{
    g_real.push_back(id);
    return ::H5Dclose(id);
}

static long open_objects() { return static_cast<long>(::H5Fget_obj_count(static_cast<hid_t>(H5F_OBJ_ALL), H5F_OBJ_ALL)); }
template <std::size_t N>
static bool accepted(hclpp::RaiiH5Hid const& f, std::string const& p, std::array<std::size_t, N> const& e)
{
    long const before = open_objects(), idb = vh5::open_now();
    bool ok = true;
    try {
        hclpp::check_extent_dset(f, p.c_str(), e);
    } catch (std::exception const&) {
        ok = false;
    }
    if (open_objects() != before || vh5::open_now() != idb) {
        vck::fail("leak", vck::fmt("checking %s (%s) leaves open: %s", p.c_str(), ok ? "accepted" : "refused", vh5::list().c_str()));
    }
    return ok;
}

template <std::size_t N>
static void probe(hclpp::RaiiH5Hid const& f, std::string const& path, std::vector<hsize_t> const* dims, Rng& r)
{
    // the extents to ask for: right ones, one changed, permuted, other rank
    std::array<std::size_t, N> e {};
    for (auto& x : e) {
        x = static_cast<std::size_t>(r.range(1, 9));
    }
    int const variant = r.range(0, 5);
    if (dims) {
        for (std::size_t i = 0; i < N && i < dims->size(); ++i) {
            e[i] = static_cast<std::size_t>((*dims)[i]);
        }
        if (N > 0 && variant == 1) {
            e[r.below(N)] += r.coin() ? 1 : static_cast<std::size_t>(-1);
        } else if (N > 1 && variant == 2) {
            std::swap(e[0], e[N - 1]);
        } else if (N > 0 && variant == 3) {
            e[r.below(N)] += static_cast<std::size_t>(1) << 32;
        }
    }
    bool want = dims && dims->size() == N;
    for (std::size_t i = 0; want && i < N; ++i) {
        want = e[i] == (*dims)[i];
    }
    bool const got = accepted(f, path, e);
    if (got != want) {
        std::string m = path + (dims ? " of extents" : " (no such dataset)");
        for (std::size_t i = 0; dims && i < dims->size(); ++i) {
            m += vck::fmt(" %lld", static_cast<long long>((*dims)[i]));
        }
        m += got ? " accepted for" : " refused for";
        for (auto x : e) {
            m += vck::fmt(" %zu", x);
        }
        vck::fail(got ? "wrong-extent-accepted" : "right-extent-refused", m);
    }
    vck::stat(want ? "extent_checks_to_accept" : "extent_checks_to_refuse");
    vck::eval(vck::mix(vck::hash_str(path + vck::fmt("%zu.%d", N, variant)), r.next()));
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    ::H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    std::string const file = vck::st().dir + "/t.h5";

    vck::cases("handles", vck::st().thorough ? 5000 : 400, [&](long, Rng& r) {
        // nested scopes with stand-in close functions; some left by exception
        g_closed.clear();
        std::vector<hid_t> opened;
        int const depth = r.range(1, 6);
        int const throw_at = r.coin() ? r.range(1, depth) : 0;
        std::function<void(int)> nest = [&](int d) {
            if (d > depth) {
                return;
            }
            hid_t const id = static_cast<hid_t>(r.next() >> 1);
            hclpp::RaiiH5Hid const h(r.coin(0.05) ? 0 : id, r.coin(0.8) ? closer : closer_fails);
            opened.push_back(*h);
            if (*h != id && *h != 0) {
                vck::fail("identifier", "the handle returns another identifier");
            }
            if (!g_closed.empty()) {
                vck::fail("closed-early", "a handle was closed before its scope ended");
            }
            if (throw_at == d) {
                throw std::logic_error("leave");
            }
            nest(d + 1);
        };
        bool threw = false;
        try {
            nest(1);
        } catch (std::logic_error const&) {
            threw = true;
        }
        if (threw != (throw_at != 0)) {
            vck::fail("exception", "an exception was swallowed or invented");
        }
        if (g_closed != std::vector<hid_t>(opened.rbegin(), opened.rend())) {
            vck::fail("close-count", vck::fmt("%zu handles opened, %zu close calls, or in another order", opened.size(), g_closed.size()));
        }
        // invalid identifier or no close function: refused, nothing closed
        g_closed.clear();
        int refused = 0;
        for (hid_t bad : {static_cast<hid_t>(-1), static_cast<hid_t>(H5I_INVALID_HID), std::numeric_limits<hid_t>::min()}) {
            try {
                hclpp::RaiiH5Hid const h(bad, closer);
            } catch (std::exception const&) {
                ++refused;
            }
        }
        try {
            hclpp::RaiiH5Hid const h(5, nullptr);
        } catch (std::exception const&) {
            ++refused;
        }
        if (refused != 4 || !g_closed.empty()) {
            vck::fail("invalid-identifier", vck::fmt("%d of 4 invalid handles refused, %zu closed", refused, g_closed.size()));
        }
        vck::stat("scoped_handles", static_cast<double>(opened.size()));
        vck::stat("scopes_left_by_exception", threw);
        vck::eval(vck::mix(static_cast<std::uint64_t>(depth * 10 + throw_at), opened.empty() ? 0 : static_cast<std::uint64_t>(opened[0])));
    });

    vck::cases("extents", vck::st().thorough ? 400 : 40, [&](long, Rng& r) {
        long const base = open_objects();
        struct D
        {
            std::string path;
            std::vector<hsize_t> dims;
            bool plain = true;
        };
        std::vector<D> ds;
        {
            hid_t const f = ::H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            hid_t const g = ::H5Gcreate2(f, "/grp", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
            for (int i = 0; i < 8; ++i) {
                D d;
                d.path = (r.coin(0.2) ? "/grp/d" : "/d") + std::to_string(i);
                int const rank = r.range(0, 5);
                std::vector<hsize_t> max;
                for (int k = 0; k < rank; ++k) {
                    d.dims.push_back(static_cast<hsize_t>(r.range(r.coin(0.05) ? 0 : 1, 7)));
                    max.push_back(r.coin(0.3) ? H5S_UNLIMITED : d.dims.back() + static_cast<hsize_t>(r.range(0, 2)));
                }
                hid_t const s = ::H5Screate_simple(rank, d.dims.data(), max.data());
                hid_t const pl = ::H5Pcreate(H5P_DATASET_CREATE);
                if (rank > 0) {
                    std::vector<hsize_t> const ch(static_cast<std::size_t>(rank), 2);
                    std::vector<hsize_t> chk = ch;
                    ::H5Pset_chunk(pl, rank, chk.data());
                    for (int k = 0; k < rank; ++k) {
                        if (max[static_cast<std::size_t>(k)] < 2) {
                            chk[static_cast<std::size_t>(k)] = 1;
                        }
                    }
                    ::H5Pset_chunk(pl, rank, chk.data());
                }
                hid_t const dt = r.coin() ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT;
                hid_t const x = ::H5Dcreate2(f, d.path.c_str(), dt, s, H5P_DEFAULT, pl, H5P_DEFAULT);
                if (x >= 0) {
                    ds.push_back(d);
                    ::H5Dclose(x);
                }
                ::H5Pclose(pl);
                ::H5Sclose(s);
            }
            ::H5Gclose(g);
            ::H5Fclose(f);
        }
        if (open_objects() != base) {
            std::fprintf(stderr, "harness leaks\n");
            std::_Exit(70);
        }
        {
            hclpp::RaiiH5Hid const f(::H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
            for (int k = 0; k < 40; ++k) {
                bool const missing = r.coin(0.1);
                bool const group = !missing && r.coin(0.05);
                D const& d = r.pick(ds);
                std::string const p = missing ? "/none" : group ? "/grp" : d.path;
                auto const* dims = (missing || group) ? nullptr : &d.dims;
                std::size_t const n = (dims && r.coin(0.6)) ? d.dims.size() : r.below(5);
                switch (n) {
                case 0: probe<0>(f, p, dims, r); break;
                case 1: probe<1>(f, p, dims, r); break;
                case 2: probe<2>(f, p, dims, r); break;
                case 3: probe<3>(f, p, dims, r); break;
                case 4: probe<4>(f, p, dims, r); break;
                default: probe<5>(f, p, dims, r); break;
                }
            }
            g_real.clear();
            {
                hclpp::RaiiH5Hid const x(::H5Dopen2(*f, ds[0].path.c_str(), H5P_DEFAULT), d_close);
                if (::H5Iget_type(*x) != H5I_DATASET) {
                    vck::fail("identifier", "the handle does not hold the dataset");
                }
            }
            if (g_real.size() != 1) {
                vck::fail("close-count", "a dataset handle was not closed exactly once");
            }
        }
        if (open_objects() != base) {
            vck::fail("leak", vck::fmt("%ld HDF5 objects stay open", open_objects() - base));
        }
        bool threw = false;
        try {
            hclpp::RaiiH5Hid const f(::H5Fopen("/nonexistent.h5", H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
        } catch (std::exception const&) {
            threw = true;
        }
        if (!threw) {
            vck::fail("invalid-identifier", "a handle to a missing file exists");
        }
        vck::sample(vck::fmt("file with %zu datasets, first %s of rank %zu", ds.size(), ds[0].path.c_str(), ds[0].dims.size()));
    });
    std::remove(file.c_str());
    return vck::finish();
}
