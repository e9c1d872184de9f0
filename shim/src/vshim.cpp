// Runtime of the stand-ins: violations, allocation registry, simulated MPI world.
#include <mpi.h>

#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <vshim.hpp>

namespace vshim {

namespace {
struct World;
World* g_world = nullptr;
std::string g_context;
std::mutex g_out_mtx;
} // namespace

// harness context (case description), printed with any violation
void set_context(std::string const& s)
{
    g_context = s;
}
std::string const& get_context()
{
    return g_context;
}

void violation(char const* key, std::string const& msg)
{
    std::lock_guard<std::mutex> const lk(g_out_mtx);
    std::string m = msg;
    for (char& c : m) {
        if (c == '\n') {
            c = ' ';
        }
    }
    // rdbufs may be captured: use the C stream
    std::fprintf(stdout, "\nSHIM-VIOLATION key=%s rank=%d context=[%s] %s\n", key, tl_rank, g_context.c_str(), m.c_str());
    std::fflush(stdout);
    _exit(97);
}

// ---- allocations ----
namespace {
struct Alloc
{
    std::size_t bytes;
    std::string label;
    bool device;
};
std::mutex g_alloc_mtx;
std::map<char const*, Alloc>& allocs()
{
    static auto* m = new std::map<char const*, Alloc>;
    return *m;
}
} // namespace

void register_alloc(void const* p, std::size_t bytes, std::string const& label, bool device)
{
    std::lock_guard<std::mutex> const lk(g_alloc_mtx);
    allocs()[static_cast<char const*>(p)] = Alloc {bytes, label, device};
}
void unregister_alloc(void const* p)
{
    std::lock_guard<std::mutex> const lk(g_alloc_mtx);
    allocs().erase(static_cast<char const*>(p));
}
long alloc_remaining(void const* p, std::string* label, bool* device)
{
    std::lock_guard<std::mutex> const lk(g_alloc_mtx);
    char const* c = static_cast<char const*>(p);
    auto it = allocs().upper_bound(c);
    if (it == allocs().begin()) {
        return -1;
    }
    --it;
    if (c > it->first + it->second.bytes || (c == it->first + it->second.bytes && it->second.bytes != 0)) {
        return -1;
    }
    if (label) {
        *label = it->second.label;
    }
    if (device) {
        *device = it->second.device;
    }
    return static_cast<long>(it->second.bytes) - (c - it->first);
}
long live_allocs()
{
    std::lock_guard<std::mutex> const lk(g_alloc_mtx);
    return static_cast<long>(allocs().size());
}

MpiReport& last_mpi_report()
{
    static MpiReport r;
    return r;
}
bool& allow_reorder()
{
    static bool b = true;
    return b;
}

namespace {

struct WorldAborted : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Slot
{
    std::string sig;
    int arrived = 0;
    bool done = false;
    int left = 0;
    std::vector<std::vector<char>> in; // by comm rank
    std::vector<std::vector<char>> out;
    std::vector<long> aux; // by comm rank
    std::vector<vmpi_comm_s*> newcomm; // by comm rank
};

} // namespace
} // namespace vshim

struct vmpi_comm_s
{
    int id = 0;
    std::string kind;
    std::vector<int> members; // world ranks by comm rank
    std::vector<int> dims, periods; // Cartesian
    std::map<int, long> seq; // collective sequence number by world rank
    std::map<long, std::shared_ptr<vshim::Slot>> slots;
    std::set<int> freed_by;
};

struct vmpi_req_s
{
    bool is_recv = false;
    void* buf = nullptr;
    int count = 0;
    MPI_Datatype dt = 0;
    int src = 0, tag = 0;
    vmpi_comm_s* comm = nullptr;
    bool done = false;
};

namespace vshim {
namespace {

struct Msg
{
    int src, dst, tag;
    MPI_Datatype dt;
    int count;
    std::vector<char> data;
    std::shared_ptr<bool> taken;
};

struct Rank
{
    bool finished = false;
    bool started = false;
    std::function<bool()> ready; // empty: runnable
    std::string waiting_for;
    int rc = 0;
    std::string err;
    bool inited = false, finalized = false;
};

struct World
{
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    int token = -1;
    Rng rng;
    bool aborted = false;
    std::string abort_reason;
    std::vector<Rank> r;
    std::map<vmpi_comm_s*, std::deque<Msg>> queues;
    std::vector<std::unique_ptr<vmpi_comm_s>> comms;
    std::vector<vmpi_comm_s*> self;
    vmpi_comm_s* world = nullptr;
    std::set<std::pair<vmpi_comm_s*, int>> live; // created communicators still held by a rank
    long steps = 0;
};

// choose the next rank, called by the running rank; true if someone can run
bool pick_next(World& w)
{
    std::vector<int> cand;
    for (int i = 0; i < w.n; ++i) {
        if (!w.r[i].finished && (!w.r[i].ready || w.r[i].ready())) {
            cand.push_back(i);
        }
    }
    if (cand.empty()) {
        return false;
    }
    int const next = cand[w.rng.below(cand.size())];
    if (next != w.token) {
        ++stats().mpi_switches;
    }
    w.token = next;
    return true;
}

bool all_finished(World& w)
{
    return std::all_of(w.r.begin(), w.r.end(), [](Rank const& r) { return r.finished; });
}

void deadlock(World& w)
{
    std::ostringstream ss;
    bool some_failed = false;
    for (int i = 0; i < w.n; ++i) {
        ss << " r" << i << ":" << (w.r[i].finished ? "finished(rc=" + std::to_string(w.r[i].rc) + " " + w.r[i].err + ")" : w.r[i].waiting_for);
        some_failed = some_failed || (w.r[i].finished && w.r[i].rc != 0);
    }
    if (some_failed) {
        // a rank gave up with an error status: mpirun would kill the others
        w.aborted = true;
        w.abort_reason = "a rank failed while others were waiting:" + ss.str();
        last_mpi_report().notes.push_back(w.abort_reason);
        return;
    }
    violation("mpi-deadlock", "no rank can make progress:" + ss.str());
}

// give the others a chance, return once `ready` holds
void block(std::function<bool()> ready, std::string const& what)
{
    World& w = *g_world;
    std::unique_lock<std::mutex> lk(w.m);
    if (w.aborted) {
        return;
    }
    int const me = tl_rank;
    w.r[me].ready = std::move(ready);
    w.r[me].waiting_for = what;
    if (!pick_next(w)) {
        deadlock(w);
        w.token = me;
    }
    w.cv.notify_all();
    w.cv.wait(lk, [&] { return w.token == me; });
    w.r[me].ready = nullptr;
    w.r[me].waiting_for.clear();
}

struct Unwinding
{
};

// entry of every MPI call: returns false when the world is being torn down
bool enter(char const* name, bool needs_init = true)
{
    if (!g_world || tl_rank < 0) {
        violation("mpi-outside", std::string(name) + " called outside of a simulated world");
    }
    if (tl_in_kernel > 0) {
        violation("mpi-in-kernel", std::string(name) + " called inside a kernel");
    }
    World& w = *g_world;
    if (w.aborted) {
        if (std::uncaught_exceptions() > 0) {
            return false;
        }
        throw WorldAborted(w.abort_reason);
    }
    ++stats().mpi_calls;
    Rank& r = w.r[tl_rank];
    if (needs_init && !r.inited) {
        violation("mpi-before-init", std::string(name) + " before MPI_Init");
    }
    if (needs_init && r.finalized) {
        violation("mpi-after-finalize", std::string(name) + " after MPI_Finalize");
    }
    return true;
}

void after_block()
{
    World& w = *g_world;
    if (w.aborted && std::uncaught_exceptions() == 0) {
        throw WorldAborted(w.abort_reason);
    }
}

[[noreturn]] void fatal(std::string const& msg)
{
    // MPI_ERRORS_ARE_FATAL
    World& w = *g_world;
    if (!w.aborted) {
        w.aborted = true;
        w.abort_reason = "MPI error: " + msg;
        last_mpi_report().notes.push_back(w.abort_reason);
    }
    throw WorldAborted(w.abort_reason);
}

vmpi_comm_s* resolve(MPI_Comm c, char const* name)
{
    World& w = *g_world;
    if (c == MPI_COMM_WORLD) {
        return w.world;
    }
    if (c == MPI_COMM_SELF) {
        return w.self[tl_rank];
    }
    if (c == MPI_COMM_NULL) {
        violation("mpi-bad-comm", std::string(name) + " on MPI_COMM_NULL");
    }
    for (auto const& p : w.comms) {
        if (p.get() == c) {
            if (std::find(c->members.begin(), c->members.end(), tl_rank) == c->members.end()) {
                violation("mpi-bad-comm", std::string(name) + ": rank is not a member of the communicator");
            }
            if (c->freed_by.count(tl_rank)) {
                violation("mpi-bad-comm", std::string(name) + " on a freed communicator");
            }
            return c;
        }
    }
    violation("mpi-bad-comm", std::string(name) + " on an invalid communicator");
}

int rank_in(vmpi_comm_s* c)
{
    return static_cast<int>(std::find(c->members.begin(), c->members.end(), tl_rank) - c->members.begin());
}

std::size_t dtsize(MPI_Datatype dt)
{
    switch (dt) {
    case VMPI_CHAR:
    case VMPI_SCHAR:
    case VMPI_UCHAR:
    case VMPI_BYTE:
    case VMPI_BOOL:
        return 1;
    case VMPI_SHORT:
        return 2;
    case VMPI_INT:
    case VMPI_UINT:
    case VMPI_FLOAT:
        return 4;
    case VMPI_LONG:
    case VMPI_ULONG:
    case VMPI_LLONG:
    case VMPI_ULLONG:
    case VMPI_DOUBLE:
        return 8;
    case VMPI_DOUBLE_INT:
        return 16;
    default:
        violation("mpi-bad-datatype", "invalid datatype " + std::to_string(dt));
    }
}

std::vector<char> snapshot(void const* p, std::size_t n)
{
    std::vector<char> v(n);
    if (n) {
        long const rem = alloc_remaining(p);
        if (rem >= 0 && static_cast<std::size_t>(rem) < n) {
            violation("mpi-buffer-overrun", "send buffer of " + std::to_string(rem) + " bytes used for " + std::to_string(n));
        }
        std::memcpy(v.data(), p, n);
    }
    return v;
}
void deliver(void* p, std::vector<char> const& d)
{
    if (!d.empty()) {
        long const rem = alloc_remaining(p);
        if (rem >= 0 && static_cast<std::size_t>(rem) < d.size()) {
            violation("mpi-buffer-overrun", "receive buffer of " + std::to_string(rem) + " bytes used for " + std::to_string(d.size()));
        }
        std::memcpy(p, d.data(), d.size());
    }
}

template <class T>
void combine_t(char* acc, char const* v, int n, int op)
{
    auto* a = reinterpret_cast<T*>(acc);
    auto const* b = reinterpret_cast<T const*>(v);
    for (int i = 0; i < n; ++i) {
        switch (op) {
        // MPI implementations compare with < or >, hence NaN behaviour as below
        case VMPI_MAX:
            a[i] = a[i] > b[i] ? a[i] : b[i];
            break;
        case VMPI_MIN:
            a[i] = a[i] < b[i] ? a[i] : b[i];
            break;
        case VMPI_SUM:
            a[i] = static_cast<T>(a[i] + b[i]);
            break;
        case VMPI_PROD:
            a[i] = static_cast<T>(a[i] * b[i]);
            break;
        case VMPI_LAND:
            a[i] = static_cast<T>(a[i] && b[i]);
            break;
        case VMPI_LOR:
            a[i] = static_cast<T>(a[i] || b[i]);
            break;
        case VMPI_BAND:
            if constexpr (std::is_integral_v<T>) {
                a[i] = static_cast<T>(a[i] & b[i]);
                break;
            }
            [[fallthrough]];
        case VMPI_BOR:
            if constexpr (std::is_integral_v<T>) {
                a[i] = static_cast<T>(a[i] | b[i]);
                break;
            }
            [[fallthrough]];
        default:
            violation("mpi-bad-op", "unsupported reduction operator");
        }
    }
}

struct DI
{
    double v;
    int i;
};

void combine(std::vector<char>& acc, std::vector<char> const& v, int n, MPI_Datatype dt, int op)
{
    switch (dt) {
    case VMPI_DOUBLE:
        return combine_t<double>(acc.data(), v.data(), n, op);
    case VMPI_FLOAT:
        return combine_t<float>(acc.data(), v.data(), n, op);
    case VMPI_INT:
        return combine_t<int>(acc.data(), v.data(), n, op);
    case VMPI_UINT:
        return combine_t<unsigned>(acc.data(), v.data(), n, op);
    case VMPI_LONG:
    case VMPI_LLONG:
        return combine_t<long>(acc.data(), v.data(), n, op);
    case VMPI_ULONG:
    case VMPI_ULLONG:
        return combine_t<unsigned long>(acc.data(), v.data(), n, op);
    case VMPI_BOOL:
        return combine_t<unsigned char>(acc.data(), v.data(), n, op);
    case VMPI_CHAR:
    case VMPI_SCHAR:
        return combine_t<signed char>(acc.data(), v.data(), n, op);
    case VMPI_UCHAR:
    case VMPI_BYTE:
        return combine_t<unsigned char>(acc.data(), v.data(), n, op);
    case VMPI_DOUBLE_INT: {
        auto* a = reinterpret_cast<DI*>(acc.data());
        auto const* b = reinterpret_cast<DI const*>(v.data());
        for (int i = 0; i < n; ++i) {
            if (op == VMPI_MAXLOC) {
                if (b[i].v > a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i)) {
                    a[i] = b[i];
                }
            } else if (op == VMPI_MINLOC) {
                if (b[i].v < a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i)) {
                    a[i] = b[i];
                }
            } else {
                violation("mpi-bad-op", "unsupported operator for MPI_DOUBLE_INT");
            }
        }
        return;
    }
    default:
        violation("mpi-bad-op", "unsupported datatype in a reduction");
    }
}

// generic collective: sig must agree on all members; fin runs once, on the last arrival
std::shared_ptr<Slot> collective(
        vmpi_comm_s* c,
        std::string const& sig,
        std::vector<char> in,
        long aux,
        std::function<void(Slot&)> const& fin)
{
    ++stats().mpi_collectives;
    long const seq = c->seq[tl_rank]++;
    auto& sp = c->slots[seq];
    if (!sp) {
        sp = std::make_shared<Slot>();
        sp->sig = sig;
        sp->in.resize(c->members.size());
        sp->out.resize(c->members.size());
        sp->aux.resize(c->members.size());
        sp->newcomm.resize(c->members.size());
    }
    std::shared_ptr<Slot> s = sp;
    if (s->sig != sig) {
        violation("mpi-collective-mismatch", "on communicator " + c->kind + ": '" + sig + "' meets '" + s->sig + "'");
    }
    int const me = rank_in(c);
    s->in[me] = std::move(in);
    s->aux[me] = aux;
    if (++s->arrived == static_cast<int>(c->members.size())) {
        fin(*s);
        s->done = true;
        c->slots.erase(seq);
    }
    block([s] { return s->done; }, sig);
    after_block();
    return s;
}

vmpi_comm_s* new_comm(std::string kind, std::vector<int> members)
{
    World& w = *g_world;
    w.comms.push_back(std::make_unique<vmpi_comm_s>());
    vmpi_comm_s* c = w.comms.back().get();
    c->id = static_cast<int>(w.comms.size());
    c->kind = std::move(kind);
    c->members = std::move(members);
    for (int const m : c->members) {
        w.live.emplace(c, m);
    }
    return c;
}

void do_send(vmpi_comm_s* c, void const* buf, int n, MPI_Datatype dt, int dst, int tag, std::shared_ptr<bool> taken)
{
    if (dst == MPI_PROC_NULL) {
        *taken = true;
        return;
    }
    if (dst < 0 || dst >= static_cast<int>(c->members.size())) {
        fatal("invalid destination rank");
    }
    if (n < 0) {
        fatal("negative count");
    }
    ++stats().mpi_msgs;
    g_world->queues[c].push_back(Msg {rank_in(c), dst, tag, dt, n, snapshot(buf, n * dtsize(dt)), std::move(taken)});
}

std::deque<Msg>::iterator find_msg(std::deque<Msg>& q, int me, int src, int tag)
{
    return std::find_if(q.begin(), q.end(), [&](Msg const& m) {
        return m.dst == me && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag);
    });
}

void do_recv(vmpi_comm_s* c, void* buf, int n, MPI_Datatype dt, int src, int tag, MPI_Status* st, char const* name)
{
    if (src == MPI_PROC_NULL) {
        if (st) {
            *st = MPI_Status {MPI_PROC_NULL, MPI_ANY_TAG, 0, 0};
        }
        return;
    }
    auto& q = g_world->queues[c];
    int const me = rank_in(c);
    block([&q, me, src, tag] { return find_msg(q, me, src, tag) != q.end(); },
          std::string(name) + "(src=" + std::to_string(src) + ",tag=" + std::to_string(tag) + ",n=" + std::to_string(n) + ")");
    after_block();
    auto it = find_msg(q, me, src, tag);
    if (it == q.end()) {
        return; // world aborted during unwinding
    }
    if (it->count * dtsize(it->dt) > n * dtsize(dt)) {
        violation("mpi-truncate", "message of " + std::to_string(it->count) + " elements received in a buffer of " + std::to_string(n));
    }
    if (it->dt != dt) {
        violation("mpi-type-mismatch", "send and receive datatypes differ");
    }
    if (it->count != n) {
        violation("mpi-size-mismatch", "message of " + std::to_string(it->count) + " elements received as " + std::to_string(n));
    }
    deliver(buf, it->data);
    if (st) {
        *st = MPI_Status {it->src, it->tag, 0, it->count};
    }
    *it->taken = true;
    q.erase(it);
}

} // namespace

WorldResult run_world(int nranks, std::uint64_t seed, std::function<int(int)> const& fn, bool capture_io)
{
    World w;
    w.n = nranks;
    w.rng = Rng(seed ^ 0xabcdef1234ULL);
    w.r.resize(nranks);
    last_mpi_report() = MpiReport {};
    auto world = std::make_unique<vmpi_comm_s>();
    world->kind = "WORLD";
    std::vector<std::unique_ptr<vmpi_comm_s>> selfs;
    for (int i = 0; i < nranks; ++i) {
        world->members.push_back(i);
        selfs.push_back(std::make_unique<vmpi_comm_s>());
        selfs.back()->kind = "SELF";
        selfs.back()->members = {i};
        w.self.push_back(selfs.back().get());
    }
    w.world = world.get();
    g_world = &w;

    std::stringstream cap_out;
    std::stringstream cap_err;
    std::streambuf* old_out = nullptr;
    std::streambuf* old_err = nullptr;
    if (capture_io) {
        old_out = std::cout.rdbuf(cap_out.rdbuf());
        old_err = std::cerr.rdbuf(cap_err.rdbuf());
    }

    std::vector<std::thread> th;
    th.reserve(nranks);
    for (int i = 0; i < nranks; ++i) {
        th.emplace_back([&, i] {
            tl_rank = i;
            {
                std::unique_lock<std::mutex> lk(w.m);
                w.cv.wait(lk, [&] { return w.token == i; });
            }
            tl_rng = Rng(seed * 1315423911ULL + static_cast<std::uint64_t>(i));
            try {
                w.r[i].rc = fn(i);
            } catch (std::exception const& e) {
                w.r[i].rc = -1;
                w.r[i].err = e.what();
            }
            std::unique_lock<std::mutex> lk(w.m);
            if (w.r[i].inited && !w.r[i].finalized && !w.aborted && w.r[i].rc == 0) {
                last_mpi_report().notes.push_back("rank ended without MPI_Finalize");
            }
            w.r[i].finished = true;
            if (!all_finished(w)) {
                if (!pick_next(w)) {
                    deadlock(w);
                    for (int k = 0; k < w.n; ++k) {
                        if (!w.r[k].finished) {
                            w.token = k;
                            break;
                        }
                    }
                }
                if (w.aborted) {
                    // wake every rank in turn
                    for (int k = 0; k < w.n; ++k) {
                        if (!w.r[k].finished) {
                            w.token = k;
                            break;
                        }
                    }
                }
            }
            w.cv.notify_all();
        });
    }
    {
        std::unique_lock<std::mutex> lk(w.m);
        pick_next(w);
    }
    w.cv.notify_all();
    for (auto& t : th) {
        t.join();
    }
    if (capture_io) {
        std::cout.rdbuf(old_out);
        std::cerr.rdbuf(old_err);
        std::cout.clear();
        std::cerr.clear();
    }
    WorldResult res;
    res.cout_text = cap_out.str();
    res.cerr_text = cap_err.str();
    for (auto const& r : w.r) {
        res.rc.push_back(r.rc);
        res.err.push_back(r.err);
        res.ok = res.ok && r.rc == 0;
    }
    MpiReport& rep = last_mpi_report();
    rep.leaked_comms = static_cast<long>(w.live.size());
    std::map<std::string, int> leaked;
    for (auto const& [c, r] : w.live) {
        ++leaked[c->kind];
    }
    for (auto const& [k, n] : leaked) {
        rep.notes.push_back("leaked communicator " + k + " x" + std::to_string(n));
    }
    for (auto const& [c, q] : w.queues) {
        rep.unmatched_sends += static_cast<long>(q.size());
    }
    g_world = nullptr;
    return res;
}

bool world_aborted()
{
    return g_world && g_world->aborted;
}

// used by the PDI stand-in
void comm_barrier(MPI_Comm c)
{
    vmpi_Barrier(c);
}

} // namespace vshim

using namespace vshim;

extern "C" {

#define ENTER(name)                                                                                                    \
    if (!enter("MPI_" #name)) {                                                                                        \
        return MPI_SUCCESS;                                                                                            \
    }

int vmpi_Init(int*, char***)
{
    if (!enter("MPI_Init", false)) {
        return 0;
    }
    if (g_world->r[tl_rank].inited) {
        violation("mpi-double-init", "MPI_Init called twice");
    }
    g_world->r[tl_rank].inited = true;
    ++last_mpi_report().inits;
    return MPI_SUCCESS;
}
int vmpi_Init_thread(int* a, char*** b, int required, int* provided)
{
    *provided = required;
    return vmpi_Init(a, b);
}
int vmpi_Query_thread(int* p)
{
    *p = MPI_THREAD_FUNNELED;
    return 0;
}
int vmpi_Initialized(int* f)
{
    *f = (g_world && tl_rank >= 0 && g_world->r[tl_rank].inited) ? 1 : 0;
    return 0;
}
int vmpi_Finalized(int* f)
{
    *f = (g_world && tl_rank >= 0 && g_world->r[tl_rank].finalized) ? 1 : 0;
    return 0;
}
int vmpi_Finalize()
{
    if (!g_world || tl_rank < 0) {
        violation("mpi-outside", "MPI_Finalize outside of a world");
    }
    if (g_world->aborted) {
        return 0;
    }
    Rank& r = g_world->r[tl_rank];
    ++stats().mpi_calls;
    if (!r.inited) {
        violation("mpi-before-init", "MPI_Finalize before MPI_Init");
    }
    if (r.finalized) {
        violation("mpi-double-finalize", "MPI_Finalize called twice");
    }
    r.finalized = true;
    ++last_mpi_report().finalizes;
    return 0;
}
int vmpi_Abort(MPI_Comm, int code)
{
    fatal("MPI_Abort(" + std::to_string(code) + ")");
}
int vmpi_Comm_size(MPI_Comm c, int* n)
{
    ENTER(Comm_size)
    *n = static_cast<int>(resolve(c, "MPI_Comm_size")->members.size());
    return 0;
}
int vmpi_Comm_rank(MPI_Comm c, int* n)
{
    ENTER(Comm_rank)
    *n = rank_in(resolve(c, "MPI_Comm_rank"));
    return 0;
}
int vmpi_Comm_free(MPI_Comm* c)
{
    ENTER(Comm_free)
    if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) {
        fatal("MPI_Comm_free on a predefined communicator");
    }
    vmpi_comm_s* p = resolve(*c, "MPI_Comm_free");
    p->freed_by.insert(tl_rank);
    g_world->live.erase({p, tl_rank});
    *c = MPI_COMM_NULL;
    return 0;
}
int vmpi_Comm_set_errhandler(MPI_Comm, MPI_Errhandler)
{
    return 0;
}
int vmpi_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
    ENTER(Comm_compare)
    auto* x = resolve(a, "MPI_Comm_compare");
    auto* y = resolve(b, "MPI_Comm_compare");
    if (x == y) {
        *r = MPI_IDENT;
    } else if (x->members == y->members) {
        *r = MPI_CONGRUENT;
    } else {
        auto p = x->members;
        auto q = y->members;
        std::sort(p.begin(), p.end());
        std::sort(q.begin(), q.end());
        *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
    }
    return 0;
}
int vmpi_Comm_dup(MPI_Comm c, MPI_Comm* out)
{
    ENTER(Comm_dup)
    auto* p = resolve(c, "MPI_Comm_dup");
    auto s = collective(p, "Comm_dup", {}, 0, [&](Slot& s) {
        vmpi_comm_s* n = new_comm(p->kind + "-dup", p->members);
        n->dims = p->dims;
        n->periods = p->periods;
        std::fill(s.newcomm.begin(), s.newcomm.end(), n);
    });
    *out = s->newcomm[rank_in(p)];
    return 0;
}
int vmpi_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out)
{
    ENTER(Comm_split)
    auto* p = resolve(c, "MPI_Comm_split");
    auto s = collective(p, "Comm_split", {}, (static_cast<long>(color) << 32) | static_cast<unsigned>(key), [&](Slot& s) {
        std::map<int, std::vector<std::pair<int, int>>> g;
        for (std::size_t i = 0; i < s.aux.size(); ++i) {
            int const col = static_cast<int>(s.aux[i] >> 32);
            if (col != MPI_UNDEFINED) {
                g[col].emplace_back(static_cast<int>(s.aux[i] & 0xffffffff), static_cast<int>(i));
            }
        }
        for (auto& [col, v] : g) {
            std::stable_sort(v.begin(), v.end());
            std::vector<int> mem;
            for (auto const& [k, i] : v) {
                mem.push_back(p->members[i]);
            }
            vmpi_comm_s* n = new_comm(p->kind + "-split", mem);
            for (auto const& [k, i] : v) {
                s.newcomm[i] = n;
            }
        }
    });
    *out = s->newcomm[rank_in(p)];
    return 0;
}
int vmpi_Dims_create(int nnodes, int ndims, int* dims)
{
    ENTER(Dims_create)
    int rem = nnodes;
    int nfree = 0;
    for (int i = 0; i < ndims; ++i) {
        if (dims[i] < 0) {
            fatal("MPI_Dims_create: negative dimension");
        }
        if (dims[i] > 0) {
            if (rem % dims[i] != 0) {
                fatal("MPI_Dims_create: the number of nodes is not a multiple of the given dimensions");
            }
            rem /= dims[i];
        } else {
            ++nfree;
        }
    }
    if (nfree == 0) {
        if (rem != 1) {
            fatal("MPI_Dims_create: the product of the dimensions differs from the number of nodes");
        }
        return 0;
    }
    // non-increasing factorisation of rem in nfree factors, as balanced as possible
    std::vector<int> best;
    std::vector<int> cur;
    std::function<void(int, int, int)> rec = [&](int left, int k, int maxf) {
        if (k == 1) {
            if (left <= maxf) {
                cur.push_back(left);
                if (best.empty() || cur.front() - cur.back() < best.front() - best.back()) {
                    best = cur;
                }
                cur.pop_back();
            }
            return;
        }
        for (int f = 1; f <= std::min(left, maxf); ++f) {
            if (left % f == 0) {
                cur.push_back(f);
                rec(left / f, k - 1, f);
                cur.pop_back();
            }
        }
    };
    rec(rem, nfree, rem);
    int k = 0;
    for (int i = 0; i < ndims; ++i) {
        if (dims[i] == 0) {
            dims[i] = best[k++];
        }
    }
    return 0;
}
int vmpi_Cart_create(MPI_Comm c, int nd, int const* dims, int const* periods, int reorder, MPI_Comm* out)
{
    ENTER(Cart_create)
    auto* p = resolve(c, "MPI_Cart_create");
    std::ostringstream sig;
    sig << "Cart_create reorder=" << reorder << " dims";
    long prod = 1;
    for (int i = 0; i < nd; ++i) {
        sig << ' ' << dims[i] << (periods[i] ? "p" : "n");
        prod *= dims[i];
    }
    if (prod > static_cast<long>(p->members.size())) {
        fatal("MPI_Cart_create: grid larger than the communicator");
    }
    auto s = collective(p, sig.str(), {}, 0, [&](Slot& s) {
        std::vector<int> mem = p->members;
        if (reorder && allow_reorder()) {
            for (std::size_t i = mem.size(); i > 1; --i) {
                std::swap(mem[i - 1], mem[g_world->rng.below(i)]);
            }
        }
        mem.resize(prod);
        vmpi_comm_s* n = new_comm("CART", mem);
        n->dims.assign(dims, dims + nd);
        n->periods.assign(periods, periods + nd);
        for (std::size_t i = 0; i < p->members.size(); ++i) {
            s.newcomm[i] = std::find(mem.begin(), mem.end(), p->members[i]) != mem.end() ? n : nullptr;
        }
    });
    *out = s->newcomm[rank_in(p)];
    return 0;
}
static void coords_of(vmpi_comm_s* p, int rank, int* co)
{
    for (int i = static_cast<int>(p->dims.size()) - 1; i >= 0; --i) {
        co[i] = rank % p->dims[i];
        rank /= p->dims[i];
    }
}
static int rank_of(vmpi_comm_s* p, int const* co)
{
    int r = 0;
    for (std::size_t i = 0; i < p->dims.size(); ++i) {
        int x = co[i];
        if (x < 0 || x >= p->dims[i]) {
            if (!p->periods[i]) {
                return MPI_PROC_NULL;
            }
            x = ((x % p->dims[i]) + p->dims[i]) % p->dims[i];
        }
        r = (r * p->dims[i]) + x;
    }
    return r;
}
int vmpi_Cart_coords(MPI_Comm c, int rank, int maxdims, int* co)
{
    ENTER(Cart_coords)
    auto* p = resolve(c, "MPI_Cart_coords");
    if (maxdims < static_cast<int>(p->dims.size()) || rank < 0 || rank >= static_cast<int>(p->members.size())) {
        fatal("MPI_Cart_coords: invalid argument");
    }
    coords_of(p, rank, co);
    return 0;
}
int vmpi_Cart_get(MPI_Comm c, int maxdims, int* d, int* pe, int* co)
{
    ENTER(Cart_get)
    auto* p = resolve(c, "MPI_Cart_get");
    if (maxdims < static_cast<int>(p->dims.size())) {
        fatal("MPI_Cart_get: invalid argument");
    }
    std::copy(p->dims.begin(), p->dims.end(), d);
    std::copy(p->periods.begin(), p->periods.end(), pe);
    coords_of(p, rank_in(p), co);
    return 0;
}
int vmpi_Cartdim_get(MPI_Comm c, int* n)
{
    ENTER(Cartdim_get)
    *n = static_cast<int>(resolve(c, "MPI_Cartdim_get")->dims.size());
    return 0;
}
int vmpi_Cart_rank(MPI_Comm c, int const* co, int* r)
{
    ENTER(Cart_rank)
    auto* p = resolve(c, "MPI_Cart_rank");
    *r = rank_of(p, co);
    if (*r == MPI_PROC_NULL) {
        fatal("MPI_Cart_rank: coordinate out of range");
    }
    return 0;
}
int vmpi_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dst)
{
    ENTER(Cart_shift)
    auto* p = resolve(c, "MPI_Cart_shift");
    if (dir < 0 || dir >= static_cast<int>(p->dims.size())) {
        fatal("MPI_Cart_shift: invalid direction");
    }
    std::vector<int> co(p->dims.size());
    coords_of(p, rank_in(p), co.data());
    int const x = co[dir];
    co[dir] = x - disp;
    *src = rank_of(p, co.data());
    co[dir] = x + disp;
    *dst = rank_of(p, co.data());
    return 0;
}
int vmpi_Cart_sub(MPI_Comm c, int const* remain, MPI_Comm* out)
{
    ENTER(Cart_sub)
    auto* p = resolve(c, "MPI_Cart_sub");
    std::string sig = "Cart_sub";
    for (std::size_t i = 0; i < p->dims.size(); ++i) {
        sig += remain[i] ? " 1" : " 0";
    }
    auto s = collective(p, sig, {}, 0, [&](Slot& s) {
        std::map<std::vector<int>, std::vector<int>> g; // dropped coords -> comm ranks in row-major order
        int const nd = static_cast<int>(p->dims.size());
        for (int r = 0; r < static_cast<int>(p->members.size()); ++r) {
            std::vector<int> co(nd);
            coords_of(p, r, co.data());
            std::vector<int> key;
            for (int i = 0; i < nd; ++i) {
                if (!remain[i]) {
                    key.push_back(co[i]);
                }
            }
            g[key].push_back(r);
        }
        for (auto const& [k, v] : g) {
            std::vector<int> mem;
            for (int const r : v) {
                mem.push_back(p->members[r]);
            }
            vmpi_comm_s* n = new_comm("CART_SUB", mem);
            for (int i = 0; i < nd; ++i) {
                if (remain[i]) {
                    n->dims.push_back(p->dims[i]);
                    n->periods.push_back(p->periods[i]);
                }
            }
            for (int const r : v) {
                s.newcomm[r] = n;
            }
        }
    });
    *out = s->newcomm[rank_in(p)];
    return 0;
}
int vmpi_Send(void const* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c)
{
    ENTER(Send)
    auto* p = resolve(c, "MPI_Send");
    // unbuffered (rendezvous) semantics: a correct program may not rely on buffering
    auto taken = std::make_shared<bool>(false);
    do_send(p, b, n, dt, dst, tag, taken);
    block([taken] { return *taken; }, "Send(dst=" + std::to_string(dst) + ",tag=" + std::to_string(tag) + ")");
    after_block();
    return 0;
}
int vmpi_Recv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status* st)
{
    ENTER(Recv)
    do_recv(resolve(c, "MPI_Recv"), b, n, dt, src, tag, st, "Recv");
    return 0;
}
int vmpi_Isend(void const* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* rq)
{
    ENTER(Isend)
    do_send(resolve(c, "MPI_Isend"), b, n, dt, dst, tag, std::make_shared<bool>(false));
    *rq = new vmpi_req_s {};
    (*rq)->done = true;
    return 0;
}
int vmpi_Irecv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request* rq)
{
    ENTER(Irecv)
    *rq = new vmpi_req_s {true, b, n, dt, src, tag, resolve(c, "MPI_Irecv"), false};
    return 0;
}
int vmpi_Wait(MPI_Request* rq, MPI_Status* st)
{
    ENTER(Wait)
    if (*rq == MPI_REQUEST_NULL) {
        return 0;
    }
    std::unique_ptr<vmpi_req_s> const r(*rq);
    *rq = MPI_REQUEST_NULL;
    if (r->is_recv) {
        do_recv(r->comm, r->buf, r->count, r->dt, r->src, r->tag, st, "Wait(Irecv)");
    }
    return 0;
}
int vmpi_Waitall(int n, MPI_Request* rq, MPI_Status*)
{
    ENTER(Waitall)
    for (int i = 0; i < n; ++i) {
        vmpi_Wait(rq + i, MPI_STATUS_IGNORE);
    }
    return 0;
}
int vmpi_Sendrecv(
        void const* sb,
        int sn,
        MPI_Datatype sdt,
        int dst,
        int stag,
        void* rb,
        int rn,
        MPI_Datatype rdt,
        int src,
        int rtag,
        MPI_Comm c,
        MPI_Status* st)
{
    ENTER(Sendrecv)
    auto* p = resolve(c, "MPI_Sendrecv");
    do_send(p, sb, sn, sdt, dst, stag, std::make_shared<bool>(false));
    do_recv(p, rb, rn, rdt, src, rtag, st, "Sendrecv");
    return 0;
}
int vmpi_Sendrecv_replace(void* b, int n, MPI_Datatype dt, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
    ENTER(Sendrecv_replace)
    auto* p = resolve(c, "MPI_Sendrecv_replace");
    do_send(p, b, n, dt, dst, stag, std::make_shared<bool>(false));
    do_recv(p, b, n, dt, src, rtag, st, "Sendrecv_replace");
    return 0;
}
int vmpi_Get_count(MPI_Status const* s, MPI_Datatype, int* n)
{
    *n = s->count_;
    return 0;
}
int vmpi_Barrier(MPI_Comm c)
{
    ENTER(Barrier)
    collective(resolve(c, "MPI_Barrier"), "Barrier", {}, 0, [](Slot&) {});
    return 0;
}
static std::string sig_of(char const* name, int n, int dt, int op, int root)
{
    std::ostringstream s;
    s << name << " n=" << n << " dt=" << dt << " op=" << op << " root=" << root;
    return s.str();
}
int vmpi_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c)
{
    ENTER(Bcast)
    auto* p = resolve(c, "MPI_Bcast");
    if (root < 0 || root >= static_cast<int>(p->members.size())) {
        fatal("MPI_Bcast: invalid root");
    }
    auto s = collective(p, sig_of("Bcast", n, dt, 0, root), snapshot(b, n * dtsize(dt)), 0, [](Slot&) {});
    if (!s->in[root].empty() && s->done) {
        deliver(b, s->in[root]);
    }
    return 0;
}
static std::vector<char> reduce_all(Slot& s, int n, MPI_Datatype dt, int op)
{
    // the order in which contributions are combined is up to the implementation
    std::vector<int> order(s.in.size());
    for (std::size_t i = 0; i < order.size(); ++i) {
        order[i] = static_cast<int>(i);
    }
    for (std::size_t i = order.size(); i > 1; --i) {
        std::swap(order[i - 1], order[g_world->rng.below(i)]);
    }
    std::vector<char> acc = s.in[order[0]];
    for (std::size_t i = 1; i < order.size(); ++i) {
        combine(acc, s.in[order[i]], n, dt, op);
    }
    return acc;
}
int vmpi_Allreduce(void const* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    ENTER(Allreduce)
    auto* p = resolve(c, "MPI_Allreduce");
    auto s = collective(p, sig_of("Allreduce", n, dt, op, -1), snapshot(sb == MPI_IN_PLACE ? rb : sb, n * dtsize(dt)), 0, [&](Slot& s) {
        std::vector<char> const acc = reduce_all(s, n, dt, op);
        std::fill(s.out.begin(), s.out.end(), acc);
    });
    if (s->done) {
        deliver(rb, s->out[rank_in(p)]);
    }
    return 0;
}
int vmpi_Reduce(void const* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c)
{
    ENTER(Reduce)
    auto* p = resolve(c, "MPI_Reduce");
    auto s = collective(p, sig_of("Reduce", n, dt, op, root), snapshot(sb == MPI_IN_PLACE ? rb : sb, n * dtsize(dt)), 0, [&](Slot& s) {
        s.out[root] = reduce_all(s, n, dt, op);
    });
    if (s->done && rank_in(p) == root) {
        deliver(rb, s->out[root]);
    }
    return 0;
}
static int scan_impl(void const* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c, bool excl)
{
    auto* p = resolve(c, "MPI_Scan");
    auto s = collective(p, sig_of(excl ? "Exscan" : "Scan", n, dt, op, -1), snapshot(sb == MPI_IN_PLACE ? rb : sb, n * dtsize(dt)), 0, [&](Slot& s) {
        std::vector<char> acc;
        for (std::size_t i = 0; i < s.in.size(); ++i) {
            if (excl) {
                s.out[i] = acc;
            }
            if (i == 0) {
                acc = s.in[0];
            } else {
                combine(acc, s.in[i], n, dt, op);
            }
            if (!excl) {
                s.out[i] = acc;
            }
        }
    });
    if (s->done) {
        deliver(rb, s->out[rank_in(p)]);
    }
    return 0;
}
int vmpi_Scan(void const* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    ENTER(Scan)
    return scan_impl(sb, rb, n, dt, op, c, false);
}
int vmpi_Exscan(void const* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)
{
    ENTER(Exscan)
    return scan_impl(sb, rb, n, dt, op, c, true);
}
int vmpi_Allgather(void const* sb, int sn, MPI_Datatype sdt, void* rb, int rn, MPI_Datatype rdt, MPI_Comm c)
{
    ENTER(Allgather)
    auto* p = resolve(c, "MPI_Allgather");
    std::size_t const bytes = rn * dtsize(rdt);
    int const me = rank_in(p);
    auto const in = sb == MPI_IN_PLACE ? snapshot(static_cast<char*>(rb) + (me * bytes), bytes) : snapshot(sb, sn * dtsize(sdt));
    auto s = collective(p, sig_of("Allgather", rn, rdt, 0, -1), in, 0, [](Slot&) {});
    for (std::size_t i = 0; s->done && i < s->in.size(); ++i) {
        deliver(static_cast<char*>(rb) + (i * bytes), s->in[i]);
    }
    return 0;
}
int vmpi_Gather(void const* sb, int sn, MPI_Datatype sdt, void* rb, int rn, MPI_Datatype rdt, int root, MPI_Comm c)
{
    ENTER(Gather)
    auto* p = resolve(c, "MPI_Gather");
    int const me = rank_in(p);
    std::size_t const bytes = me == root ? rn * dtsize(rdt) : 0;
    auto const in = sb == MPI_IN_PLACE ? snapshot(static_cast<char*>(rb) + (me * bytes), bytes) : snapshot(sb, sn * dtsize(sdt));
    auto s = collective(p, "Gather root=" + std::to_string(root), in, 0, [](Slot&) {});
    if (me == root) {
        for (std::size_t i = 0; s->done && i < s->in.size(); ++i) {
            deliver(static_cast<char*>(rb) + (i * bytes), s->in[i]);
        }
    }
    return 0;
}
int vmpi_Scatter(void const* sb, int sn, MPI_Datatype sdt, void* rb, int rn, MPI_Datatype rdt, int root, MPI_Comm c)
{
    ENTER(Scatter)
    auto* p = resolve(c, "MPI_Scatter");
    int const me = rank_in(p);
    std::size_t const sbytes = me == root ? sn * dtsize(sdt) : 0;
    auto s = collective(p, "Scatter root=" + std::to_string(root), me == root ? snapshot(sb, sbytes * p->members.size()) : std::vector<char> {}, 0, [](Slot&) {});
    if (s->done && rb != MPI_IN_PLACE) {
        std::size_t const bytes = rn * dtsize(rdt);
        std::vector<char> const part(s->in[root].begin() + (me * bytes), s->in[root].begin() + ((me + 1) * bytes));
        deliver(rb, part);
    }
    return 0;
}
int vmpi_Type_size(MPI_Datatype dt, int* n)
{
    *n = static_cast<int>(dtsize(dt));
    return 0;
}
int vmpi_Get_processor_name(char* s, int* n)
{
    std::strcpy(s, "sim");
    *n = 3;
    return 0;
}
int vmpi_Error_string(int, char* s, int* n)
{
    std::strcpy(s, "error");
    *n = 5;
    return 0;
}
double vmpi_Wtime()
{
    return static_cast<double>(g_world ? ++g_world->steps : 0) * 1e-6;
}
}
