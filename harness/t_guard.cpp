// C08: the session guard, against a recording stand-in (default) or the real library (-DREAL_MPI).
#include <mpi.h>

#include <stdexcept>
#include <string>
#include <type_traits>

#include <mpi_scope_guard.hpp>
#include <vck.hpp>

using hclpp::MpiScopeGuard;

static_assert(!std::is_copy_constructible_v<MpiScopeGuard> && !std::is_move_constructible_v<MpiScopeGuard> && !std::is_copy_assignable_v<MpiScopeGuard>
                      && !std::is_move_assignable_v<MpiScopeGuard>,
              "a session cannot be duplicated");

#ifndef REAL_MPI
static std::vector<std::string> g_log;
static int* g_argc;
static char*** g_argv;
static int g_on, g_off;
static int init(int* argc, char*** argv)
{
    g_log.push_back("init");
    g_argc = argc;
    g_argv = argv;
    ++g_on;
    // a library may consume its own options
    if (argc && argv && *argc > 1 && std::string((*argv)[*argc - 1]) == "--mpi-option") {
        --*argc;
        (*argv)[*argc] = nullptr;
    }
    return MPI_SUCCESS;
}
extern "C" {
int MPI_Init(int* argc, char*** argv) { return init(argc, argv); }
int MPI_Init_thread(int* argc, char*** argv, int req, int* prov)
{
    if (prov) {
        *prov = req;
    }
    return init(argc, argv);
}
int MPI_Initialized(int* f)
{
    *f = g_on > 0;
    return 0;
}
int MPI_Finalized(int* f)
{
    *f = g_off > 0;
    return 0;
}
int MPI_Query_thread(int* p)
{
    *p = MPI_THREAD_MULTIPLE;
    return 0;
}
int MPI_Finalize(void)
{
    g_log.push_back("finalize");
    ++g_off;
    return 0;
}
int MPI_Abort(MPI_Comm, int)
{
    g_log.push_back("abort");
    return 0;
}
int MPI_Barrier(MPI_Comm)
{
    g_log.push_back("other");
    return 0;
}
}

struct Probe
{
    std::string where;
    Probe(std::string w) : where(std::move(w)) { g_log.push_back(where); }
    ~Probe() { g_log.push_back("~" + where); }
};

static void expect(std::vector<std::string> const& want, std::string const& what)
{
    std::string a, b;
    for (auto const& s : g_log) {
        a += s + " ";
    }
    for (auto const& s : want) {
        b += s + " ";
    }
    if (g_log != want) {
        vck::fail("session-order", what + ": observed " + a + "expected " + b);
    }
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    vck::cases("guard", 400, [&](long, vck::Rng& r) {
        g_log.clear();
        g_on = g_off = 0;
        bool const with_args = r.coin();
        bool const ex = r.coin();
        bool const nested = r.coin();
        bool const option = r.coin();
        std::vector<std::string> words = {"prog", "input.ini"};
        for (int i = r.range(0, 3); i > 0; --i) {
            words.push_back("--opt" + std::to_string(r.below(100)));
        }
        if (option) {
            words.push_back("--mpi-option");
        }
        std::vector<char*> v;
        for (auto& w : words) {
            v.push_back(w.data());
        }
        v.push_back(nullptr);
        int ac = static_cast<int>(words.size());
        char** av = v.data();
        bool threw = false;
        auto body = [&] {
            if (nested) {
                Probe const in("inner");
                if (ex) {
                    throw std::runtime_error("x");
                }
            }
            if (ex) {
                throw std::runtime_error("x");
            }
        };
        try {
            Probe const before("before");
            if (with_args) {
                MpiScopeGuard const g(ac, av);
                Probe const p("in");
                body();
            } else {
                MpiScopeGuard const g;
                Probe const p("in");
                body();
            }
        } catch (std::runtime_error const&) {
            threw = true;
        }
        std::vector<std::string> want = {"before", "init", "in"};
        if (nested) {
            want.insert(want.end(), {"inner", "~inner"});
        }
        want.insert(want.end(), {"~in", "finalize", "~before"});
        expect(want, ex ? "scope left by exception" : "scope left normally");
        if (threw != ex) {
            vck::fail("exception", "an exception was swallowed or invented");
        }
        if (with_args) {
            if (!g_argc || !g_argv || *g_argv != av) {
                vck::fail("arguments", "the program arguments did not reach the initialisation");
            }
            int const left = static_cast<int>(words.size()) - option;
            if (ac != left) {
                vck::fail("arguments", vck::fmt("argument count seen by the program is %d, expected %d", ac, left));
            }
            for (int i = 0; i < left; ++i) {
                if (words[static_cast<std::size_t>(i)] != av[i]) {
                    vck::fail("arguments", "an argument was altered");
                }
            }
        }
        vck::stat("sessions");
        vck::stat("sessions_left_by_exception", ex);
        vck::eval(static_cast<std::uint64_t>(with_args + 2 * ex + 4 * nested + 8 * option) * 16 + words.size());
    });
    vck::sample("before init in inner ~inner ~in finalize ~before");
    return vck::finish();
}
#else
int main(int argc, char** argv)
{
    vck::init(argc, argv);
    bool const ex = vck::st().opt["ex"] == "1";
    bool const args = vck::st().opt["args"] == "1";
    int f = -1;
    auto query = [&](int ini, int fin, char const* where) {
        int a = -1, b = -1;
        MPI_Initialized(&a);
        MPI_Finalized(&b);
        if (a != ini || b != fin) {
            vck::fail("session-state", vck::fmt("%s: initialized=%d finalized=%d", where, a, b));
        }
        vck::eval(vck::hash_str(where));
    };
    query(0, 0, "before");
    int const ac0 = argc;
    std::string const a0 = argv[0];
    try {
        auto work = [&] {
            query(1, 0, "inside");
            int n = 0, one = 1, sum = 0;
            MPI_Comm_size(MPI_COMM_WORLD, &n);
            MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
            if (sum != n) {
                vck::fail("session-use", "the session does not communicate");
            }
            if (ex) {
                throw std::runtime_error("x");
            }
        };
        if (args) {
            MpiScopeGuard const g(argc, argv);
            work();
        } else {
            MpiScopeGuard const g;
            work();
        }
    } catch (std::runtime_error const&) {
        f = 1;
    }
    query(1, 1, "after");
    if ((f == 1) != ex || argc != ac0 || a0 != argv[0]) {
        vck::fail("exception-or-arguments", "exception lost or arguments altered");
    }
    return vck::finish();
}
#endif
