// Counts the HDF5 objects the code opens and closes, by standing in front of the library's functions.
// Include in one translation unit of a driver that links the shared HDF5 library.
#pragma once
#include <dlfcn.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <string>

#include <hdf5.h>

namespace vh5 {

struct Live
{
    std::mutex m;
    std::map<hid_t, char const*> open; // live identifiers and the function that made them
    long opened = 0;
    long closed = 0;
    long bad = 0; // closings the library refused
    std::string last_bad;
};
inline Live& live()
{
    static Live* l = new Live; // outlives the exit handlers of the library
    return *l;
}
inline hid_t made(hid_t id, char const* by)
{
    if (id >= 0) {
        std::lock_guard<std::mutex> g(live().m);
        live().open[id] = by;
        ++live().opened;
    }
    return id;
}
inline herr_t gone(hid_t id, herr_t rc, char const* by)
{
    std::lock_guard<std::mutex> g(live().m);
    if (rc < 0) {
        ++live().bad;
        live().last_bad = by;
    } else {
        live().open.erase(id);
        ++live().closed;
    }
    return rc;
}
template <class F>
F* real(F*, char const* name)
{
    void* p = ::dlsym(RTLD_NEXT, name);
    if (p == nullptr) {
        std::fprintf(stderr, "harness: no %s in the library\n", name);
        std::_Exit(70);
    }
    return reinterpret_cast<F*>(p);
}
inline long open_now()
{
    std::lock_guard<std::mutex> g(live().m);
    return static_cast<long>(live().open.size());
}
inline long opened_so_far()
{
    std::lock_guard<std::mutex> g(live().m);
    return live().opened;
}
inline long bad_so_far()
{
    std::lock_guard<std::mutex> g(live().m);
    return live().bad;
}
inline std::string list()
{
    std::lock_guard<std::mutex> g(live().m);
    std::map<std::string, int> n;
    for (auto const& [id, by] : live().open) {
        ++n[by];
    }
    std::string s;
    for (auto const& [by, k] : n) {
        s += (s.empty() ? "" : ", ") + std::to_string(k) + " from " + by;
    }
    return s.empty() ? "none" : s;
}

} // namespace vh5

#define VH5_MAKE(name, params, args) \
    extern "C" hid_t name params \
    { \
        static auto* const f = vh5::real(&name, #name); \
        return vh5::made(f args, #name); \
    }
#define VH5_END(name) \
    extern "C" herr_t name(hid_t id) \
    { \
        static auto* const f = vh5::real(&name, #name); \
        return vh5::gone(id, f(id), #name); \
    }

VH5_MAKE(H5Screate, (H5S_class_t a), (a))
VH5_MAKE(H5Screate_simple, (int a, const hsize_t* b, const hsize_t* c), (a, b, c))
VH5_MAKE(H5Scopy, (hid_t a), (a))
VH5_END(H5Sclose)
VH5_MAKE(H5Tcopy, (hid_t a), (a))
VH5_MAKE(H5Tcreate, (H5T_class_t a, size_t b), (a, b))
VH5_END(H5Tclose)
VH5_MAKE(H5Acreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t g), (a, b, c, d, e, g))
VH5_MAKE(H5Aopen, (hid_t a, const char* b, hid_t c), (a, b, c))
VH5_MAKE(H5Acreate_by_name, (hid_t a, const char* b, const char* c, hid_t d, hid_t e, hid_t g, hid_t h, hid_t i), (a, b, c, d, e, g, h, i))
VH5_MAKE(H5Aopen_by_name, (hid_t a, const char* b, const char* c, hid_t d, hid_t e), (a, b, c, d, e))
VH5_MAKE(H5Aget_space, (hid_t a), (a))
VH5_MAKE(H5Aget_type, (hid_t a), (a))
VH5_END(H5Aclose)
VH5_MAKE(H5Dcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t g, hid_t h), (a, b, c, d, e, g, h))
VH5_MAKE(H5Dopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
VH5_MAKE(H5Dget_space, (hid_t a), (a))
VH5_MAKE(H5Dget_type, (hid_t a), (a))
VH5_MAKE(H5Dget_create_plist, (hid_t a), (a))
VH5_END(H5Dclose)
VH5_MAKE(H5Gcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
VH5_MAKE(H5Gopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
VH5_END(H5Gclose)
VH5_MAKE(H5Oopen, (hid_t a, const char* b, hid_t c), (a, b, c))
VH5_END(H5Oclose)
VH5_MAKE(H5Pcreate, (hid_t a), (a))
VH5_MAKE(H5Pcopy, (hid_t a), (a))
VH5_END(H5Pclose)
VH5_MAKE(H5Fcreate, (const char* a, unsigned b, hid_t c, hid_t d), (a, b, c, d))
VH5_MAKE(H5Fopen, (const char* a, unsigned b, hid_t c), (a, b, c))
VH5_END(H5Fclose)
