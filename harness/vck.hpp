// Case accounting shared by all drivers.  Protocol on stdout, read by tools/vrun.py:
//   @VIOL <key>\t<case>\t<message>      a property violation
//   @STATS <json>                       what was observed (last line of a complete run)
#pragma once
#include <exception>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#ifdef VCK_WITH_SHIM
#include <vshim.hpp>
#endif

namespace vck {

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x51ED27ULL) { next(); }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return static_cast<int>(lo + static_cast<long>(below(static_cast<std::uint64_t>(static_cast<long>(hi) - lo + 1)))); }
    double u01() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    double loguni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    bool coin(double p = 0.5) { return u01() < p; }
    template <class V>
    auto pick(V const& v) -> decltype(v[0])
    {
        return v[below(v.size())];
    }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    Rng r(a ^ (b * 0x9E3779B97F4A7C15ULL));
    return r.next();
}
inline std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
    auto const* c = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ULL;
    }
    return h;
}
inline std::uint64_t hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

struct State
{
    std::uint64_t seed = 1;
    bool thorough = false;
    double scale = 1; // multiplies case counts
    long only = -1; // replay one case
    std::string only_group;
    std::string dir = "."; // scratch directory
    std::map<std::string, std::string> opt;
    // observations
    long evaluations = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, double> stats;
    long violations = 0;
    std::map<std::string, int> per_key;
    std::string cur = "-";
};
inline State& st()
{
    static State s;
    return s;
}

inline std::string fmt(char const* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char b[4096];
    std::vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline std::string clean(std::string s)
{
    for (auto& c : s) {
        if (c == '\n' || c == '\t' || c == '\r' || static_cast<unsigned char>(c) < 32) {
            c = ' ';
        }
    }
    if (s.size() > 1500) {
        s.resize(1500);
    }
    return s;
}

inline void fail(std::string const& key, std::string const& msg)
{
    auto& s = st();
    auto const only = s.opt.find("only"); // report the violations of one kind
    if (only != s.opt.end() && key.rfind(only->second, 0) != 0) {
        return;
    }
    ++s.violations;
    if (s.per_key[key]++ < 3) {
        std::printf("@VIOL %s\t%s\t%s\n", key.c_str(), s.cur.c_str(), clean(msg).c_str());
        std::fflush(stdout);
    }
}

inline void sample(std::string const& m)
{
    if (st().samples.size() < 6) {
        st().samples.push_back(clean(m).substr(0, 600));
    }
}
inline void stat(std::string const& k, double v = 1) { st().stats[k] += v; }
inline void stat_max(std::string const& k, double v)
{
    auto it = st().stats.find(k);
    if (it == st().stats.end() || v > it->second) {
        st().stats[k] = v;
    }
}
// one evaluated case; h identifies the case, nontrivial by the driver's rule
inline void eval(std::uint64_t h, bool nontrivial = true)
{
    ++st().evaluations;
    if (nontrivial) {
        st().distinct.insert(h);
    }
}

// run n cases of a group, each with its own random stream derived from (seed, group, index)
inline void cases(std::string const& group, long n, std::function<void(long, Rng&)> const& f)
{
    auto& s = st();
    if (!s.only_group.empty() && s.only_group != group) {
        return;
    }
    n = static_cast<long>(static_cast<double>(n) * s.scale + 0.5);
    for (long i = 0; i < n; ++i) {
        if (s.only >= 0 && s.only != i) {
            continue;
        }
        s.cur = group + ":" + std::to_string(i);
#ifdef VCK_WITH_SHIM
        vshim::set_context(s.cur);
#endif
        Rng r(mix(mix(s.seed, hash_str(group)), static_cast<std::uint64_t>(i)));
        f(i, r);
        if (s.violations > 40) {
            break;
        }
    }
    s.cur = "-";
}

// name the running case when a sanitizer or the C++ runtime ends the process
inline void print_case()
{
    std::printf("\n@CASE %s\n", st().cur.c_str());
    std::fflush(stdout);
}

inline std::string json_str(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 32 || c >= 127) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

inline void init(int argc, char** argv)
{
    auto& s = st();
    std::set_terminate([] {
        print_case();
        if (auto e = std::current_exception()) {
            try {
                std::rethrow_exception(e);
            } catch (std::exception const& x) {
                std::fprintf(stderr, "terminate called after throwing an exception\n  what(): %s\n", x.what());
            } catch (...) {
                std::fprintf(stderr, "terminate called after throwing an unknown exception\n");
            }
        } else {
            std::fprintf(stderr, "terminate called\n");
        }
        std::abort();
    });
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto eq = a.find('=');
        if (eq == std::string::npos) {
            continue;
        }
        std::string k = a.substr(0, eq);
        std::string v = a.substr(eq + 1);
        if (k == "seed") {
            s.seed = std::strtoull(v.c_str(), nullptr, 10);
        } else if (k == "tier") {
            s.thorough = v == "thorough";
        } else if (k == "scale") {
            s.scale = std::atof(v.c_str());
        } else if (k == "case") {
            auto c = v.rfind(':');
            s.only_group = v.substr(0, c);
            s.only = std::atol(v.substr(c + 1).c_str());
        } else if (k == "group") {
            s.only_group = v;
        } else if (k == "dir") {
            s.dir = v;
        } else {
            s.opt[k] = v;
        }
    }
}

inline int finish()
{
    auto& s = st();
    std::string j = "{\"evaluations\":" + std::to_string(s.evaluations) + ",\"distinct\":" + std::to_string(s.distinct.size())
                    + ",\"violations\":" + std::to_string(s.violations) + ",\"samples\":[";
    for (std::size_t i = 0; i < s.samples.size(); ++i) {
        j += (i ? "," : "") + json_str(s.samples[i]);
    }
    j += "],\"stats\":{";
    bool first = true;
    auto add = [&](std::string const& k, double v) {
        if (!std::isfinite(v)) {
            v = -1;
        }
        j += std::string(first ? "" : ",") + json_str(k) + ":" + fmt("%.17g", v);
        first = false;
    };
    for (auto const& [k, v] : s.stats) {
        add(k, v);
    }
#ifdef VCK_WITH_SHIM
    auto& m = vshim::stats();
    add("monitor.kernels", static_cast<double>(m.kernels.load()));
    add("monitor.iterations", static_cast<double>(m.iterations.load()));
    add("monitor.array_accesses_checked", static_cast<double>(m.accesses_checked.load()));
    add("monitor.mpi_calls", static_cast<double>(m.mpi_calls.load()));
    add("monitor.mpi_messages", static_cast<double>(m.mpi_msgs.load()));
    add("monitor.mpi_collectives", static_cast<double>(m.mpi_collectives.load()));
    add("monitor.rank_switches", static_cast<double>(m.mpi_switches.load()));
    add("monitor.pdi_writes", static_cast<double>(m.pdi_writes.load()));
    add("monitor.pdi_reads", static_cast<double>(m.pdi_reads.load()));
    add("monitor.host_device_copies", static_cast<double>(m.hd_copies.load()));
#endif
    j += "}}";
    std::printf("@STATS %s\n", j.c_str());
    std::fflush(stdout);
    return s.violations ? 1 : 0;
}

} // namespace vck

extern "C" __attribute__((weak, used)) void __asan_on_error() { vck::print_case(); }
extern "C" __attribute__((weak, used)) void __ubsan_on_report() { vck::print_case(); }
