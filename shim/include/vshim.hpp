// Monitoring runtime shared by the Kokkos / MPI / PDI stand-ins.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace vshim {

// ---- random numbers (splitmix64; own implementation so that it is stable) ----
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {}
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint64_t>(hi - lo + 1))); }
    double u01() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    bool coin(double p = 0.5) { return u01() < p; }
};

// ---- monitor configuration ----
enum class Order { sequential, random, reverse };

struct Config
{
    Order order = Order::sequential;
    std::uint64_t seed = 1;
    int threads = 1; // >1: kernels really run on several threads (ThreadSanitizer builds)
    bool check_space = true; // host/device separation monitor
    bool poison_uninit = true;
};
inline Config& config()
{
    static Config c;
    return c;
}

// ---- statistics: what the monitors observed ----
struct Stats
{
    std::atomic<long> kernels {0}, iterations {0}, accesses_checked {0}, views {0}, deep_copies {0}, hd_copies {0};
    std::atomic<long> reductions {0}, scans {0};
    std::atomic<long> mpi_calls {0}, mpi_msgs {0}, mpi_collectives {0}, mpi_switches {0};
    std::atomic<long> pdi_events {0}, pdi_writes {0}, pdi_reads {0};
    std::atomic<long> printf_calls {0};
    std::atomic<long> eos_warn {0};
};
inline Stats& stats()
{
    static Stats s;
    return s;
}

// ---- violations: never throws, because monitored code may be noexcept ----
// key: short identifier of what broke, msg: free text
[[noreturn]] void violation(char const* key, std::string const& msg);

// ---- per-thread state ----
inline thread_local int tl_in_kernel = 0; // >0: this thread executes a device kernel
inline thread_local int tl_rank = -1; // simulated MPI rank of this thread (-1: none)

inline thread_local Rng tl_rng {7};

struct KernelGuard
{
    KernelGuard() { ++tl_in_kernel; }
    ~KernelGuard() { --tl_in_kernel; }
    KernelGuard(KernelGuard const&) = delete;
    KernelGuard& operator=(KernelGuard const&) = delete;
};

// allow harness code to look at device memory directly
struct Peek
{
    bool old;
    Peek() : old(config().check_space) { config().check_space = false; }
    ~Peek() { config().check_space = old; }
};

// ---- allocation registry (used by the PDI stand-in and by leak accounting) ----
void register_alloc(void const* p, std::size_t bytes, std::string const& label, bool device);
void unregister_alloc(void const* p);
// bytes available from p to the end of the enclosing tracked allocation, -1 when unknown
long alloc_remaining(void const* p, std::string* label = nullptr, bool* device = nullptr);
long live_allocs();

// simulated world
struct WorldResult
{
    bool ok = true; // every rank returned 0
    std::vector<int> rc;
    std::vector<std::string> err; // exception text escaped from a rank
    std::string cout_text;
    std::string cerr_text;
};
// run fn(rank) on nranks simulated MPI ranks, one at a time, switching only inside MPI calls
WorldResult run_world(int nranks, std::uint64_t seed, std::function<int(int)> const& fn, bool capture_io = true);

// per-world MPI statistics kept after run_world
struct MpiReport
{
    int inits = 0, finalizes = 0;
    long leaked_comms = 0;
    long unmatched_sends = 0;
    std::vector<std::string> notes;
};
MpiReport& last_mpi_report();
bool& allow_reorder();

} // namespace vshim

namespace vshim {
void set_context(std::string const& s);
std::string const& get_context();
bool world_aborted();
} // namespace vshim
