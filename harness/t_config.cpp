// C03 / C04: typed lookups and run parameters.
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <fstream>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <variant>

#include <inih/INIReader.hpp>
#include <vck.hpp>

#ifdef WITH_PARAM
#include <param.hpp>
#endif

using vck::Rng;

static std::string scratch() { return vck::st().dir + "/c.ini"; }

static INIReader read_text(std::string const& text)
{
    std::ofstream(scratch(), std::ios::binary) << text;
    return INIReader(scratch());
}

static std::string lower(std::string s)
{
    std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return c < 128 ? static_cast<char>(std::tolower(c)) : static_cast<char>(c); });
    return s;
}
static std::string shuffle_case(Rng& r, std::string s)
{
    for (auto& c : s) {
        if (r.coin()) {
            c = static_cast<char>(r.coin() ? std::toupper(static_cast<unsigned char>(c)) : std::tolower(static_cast<unsigned char>(c)));
        }
    }
    return s;
}

template <class F>
static auto attempt(F f, std::string* what = nullptr) -> std::pair<bool, decltype(f())>
{
    try {
        return {true, f()};
    } catch (std::exception const& e) {
        if (what) {
            *what = e.what();
        }
        return {false, {}};
    }
}

// decimal text of a wide integer
static std::string dec(__int128 v)
{
    bool neg = v < 0;
    std::string s;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    do {
        s += static_cast<char>('0' + static_cast<int>(u % 10));
        u /= 10;
    } while (u);
    if (neg) {
        s += '-';
    }
    std::reverse(s.begin(), s.end());
    return s;
}
static std::string hex(Rng& r, __int128 v)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    std::string const digits = r.coin() ? "0123456789ABCDEF" : "0123456789abcdef";
    do {
        s += digits[static_cast<std::size_t>(u % 16)];
        u /= 16;
    } while (u);
    while (r.coin(0.2)) {
        s += '0';
    }
    s += r.coin() ? "x0" : "X0";
    if (neg) {
        s += '-';
    }
    std::reverse(s.begin(), s.end());
    return s;
}

#ifndef WITH_PARAM
static __int128 interesting(Rng& r)
{
    static std::vector<__int128> const edges = [] {
        std::vector<__int128> e;
        __int128 const one = 1;
        for (int b : {7, 8, 15, 16, 24, 31, 32, 33, 52, 53, 62, 63, 64, 65}) {
            for (int d = -2; d <= 2; ++d) {
                e.push_back((one << b) + d);
                e.push_back(-(one << b) + d);
            }
        }
        for (int d = -3; d <= 3; ++d) {
            e.push_back(d);
        }
        __int128 p = 1;
        for (int i = 0; i < 21; ++i, p *= 10) {
            e.push_back(p);
            e.push_back(-p);
            e.push_back(p - 1);
        }
        return e;
    }();
    if (r.coin(0.6)) {
        return edges[r.below(edges.size())];
    }
    int const bits = r.range(1, 66);
    __int128 v = (static_cast<__int128>(r.next()) << 20) ^ r.next();
    v &= ((static_cast<__int128>(1) << bits) - 1);
    return r.coin() ? v : -v;
}

template <class T>
static void check_int(INIReader const& rd, std::string const& s, std::string const& n, std::string const& lit, __int128 v, Rng& r, char const* tn)
{
    T const def = static_cast<T>(r.next());
    bool const fits = v >= static_cast<__int128>(std::numeric_limits<T>::min()) && v <= static_cast<__int128>(std::numeric_limits<T>::max());
    auto const got = attempt([&] { return rd.GetInteger(s, n, def); });
    static_assert(std::is_same_v<decltype(rd.GetInteger(s, n, def)), T>);
    if (fits && (!got.first || got.second != static_cast<T>(v))) {
        vck::fail("integer-value", vck::fmt("GetInteger<%s>(\"%s\") %s %s", tn, lit.c_str(), got.first ? "returned" : "threw, expected",
                                           got.first ? dec(static_cast<__int128>(got.second)).c_str() : dec(v).c_str()));
    }
    if (!fits && got.first) {
        vck::fail("integer-range", vck::fmt("GetInteger<%s>(\"%s\") returned %s instead of refusing", tn, lit.c_str(),
                                           dec(static_cast<__int128>(got.second)).c_str()));
    }
    vck::stat(fits ? "integers_that_fit" : "integers_out_of_range");
}

template <class T>
static void check_default(INIReader const& rd, std::string const& s, std::string const& n, Rng& r, char const* tn)
{
    T const def = static_cast<T>(r.next());
    auto const got = attempt([&] { return rd.GetInteger(s, n, def); });
    if (!got.first || got.second != def) {
        vck::fail("integer-default", vck::fmt("GetInteger<%s>([%s] %s) did not return the default", tn, s.c_str(), n.c_str()));
    }
}

template <class T>
static T parse_real(std::string const& s, bool& range)
{
    errno = 0;
    T v;
    if constexpr (std::is_same_v<T, float>) {
        v = std::strtof(s.c_str(), nullptr);
    } else if constexpr (std::is_same_v<T, double>) {
        v = std::strtod(s.c_str(), nullptr);
    } else {
        v = std::strtold(s.c_str(), nullptr);
    }
    range = errno == ERANGE;
    return v;
}

template <class T>
static void check_real(INIReader const& rd, std::string const& lit, char const* tn)
{
    bool range = false;
    T const want = parse_real<T>(lit, range);
    T const def = static_cast<T>(-77.25);
    auto const got = attempt([&] { return rd.GetReal("s", "k", def); });
    if (range) {
        // overflow must be refused; a result below the smallest normal number may be refused or rounded
        if (got.first && (std::isinf(want) || got.second != want)) {
            vck::fail("real-range", vck::fmt("GetReal<%s>(\"%s\") returned %.17Lg", tn, lit.c_str(), static_cast<long double>(got.second)));
        }
        vck::stat("reals_out_of_range");
        return;
    }
    if (!got.first || std::memcmp(&got.second, &want, std::is_same_v<T, long double> ? 10 : sizeof(T)) != 0) {
        vck::fail("real-value", vck::fmt("GetReal<%s>(\"%s\") %s %.21Lg, expected %.21Lg", tn, lit.c_str(), got.first ? "returned" : "threw", static_cast<long double>(got.second),
                                        static_cast<long double>(want)));
    }
    vck::stat("reals_exact");
}

static std::string word(Rng& r, int lo, int hi)
{
    static std::string const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- .";
    std::string s;
    int const n = r.range(lo, hi);
    for (int i = 0; i < n; ++i) {
        s += a[r.below(a.size())];
    }
    while (!s.empty() && s.front() == ' ') {
        s.erase(0, 1);
    }
    while (!s.empty() && s.back() == ' ') {
        s.pop_back();
    }
    return s.empty() ? "w" : s;
}

static void c03()
{
    long const f = vck::st().thorough ? 20 : 1;
    vck::cases("integers", 4000 * f, [&](long, Rng& r) {
        __int128 const v = interesting(r);
        bool const h = r.coin(0.4);
        std::string lit = h ? hex(r, v) : dec(v);
        if (!h && v >= 0 && r.coin(0.1)) {
            lit = "+" + lit;
        }
        if (!h && r.coin(0.1)) { // leading zeros stay decimal
            lit.insert(lit[0] == '-' || lit[0] == '+' ? 1 : 0, std::string(static_cast<std::size_t>(r.range(1, 4)), '0'));
        }
        auto rd = read_text("[S]\nother=3\nk = " + lit + "\nempty=\nz=5\n");
        check_int<int>(rd, "s", "K", lit, v, r, "int");
        check_int<long>(rd, "S", "k", lit, v, r, "long");
        check_int<long long>(rd, "S", "k", lit, v, r, "long long");
        check_int<unsigned>(rd, "S", "k", lit, v, r, "unsigned");
        check_int<unsigned long>(rd, "S", "k", lit, v, r, "unsigned long");
        check_int<unsigned long long>(rd, "S", "k", lit, v, r, "unsigned long long");
        vck::eval(vck::hash_str(lit));
        vck::sample(lit);
    });
    vck::cases("reals", 4000 * f, [&](long, Rng& r) {
        std::string lit;
        int const m = r.range(0, 6);
        if (m == 0) {
            std::uint64_t b = r.next();
            double d;
            std::memcpy(&d, &b, 8);
            if (!std::isfinite(d)) {
                d = 1.5;
            }
            lit = vck::fmt("%.17g", d);
        } else if (m == 1) {
            lit = vck::fmt("%.*f", r.range(0, 25), r.uni(-1e6, 1e6));
        } else if (m == 2) { // many digits
            lit = r.coin() ? "-" : "";
            int const n = r.range(1, 60);
            int const dot = r.range(0, n);
            for (int i = 0; i < n; ++i) {
                if (i == dot) {
                    lit += ".";
                }
                lit += static_cast<char>('0' + r.below(10));
            }
            lit += r.coin() ? vck::fmt("e%d", r.range(-330, 330)) : "";
        } else if (m == 3) {
            lit = vck::fmt("%d%s%s%d", r.range(-9, 9), r.coin() ? "E" : "e", r.coin() ? "" : "-", r.range(0, 400));
        } else if (m == 4) { // halfway cases around floats and doubles
            double d = static_cast<double>(static_cast<float>(r.uni(1, 2)));
            double const ulp = std::ldexp(1.0, -24);
            lit = vck::fmt("%.40f", d + ulp) + (r.coin() ? "1" : "");
        } else if (m == 5) {
            lit = vck::fmt("%d", r.range(-1000000, 1000000));
        } else {
            lit = vck::fmt("%s%g", r.coin() ? "+" : "", std::fabs(r.loguni(1e-12, 1e12)));
        }
        auto rd = read_text("[s]\nk:" + lit + "\n");
        check_real<float>(rd, lit, "float");
        check_real<double>(rd, lit, "double");
        check_real<long double>(rd, lit, "long double");
        if (r.coin(0.2)) {
            double const def = r.uni(-5, 5);
            auto const g = attempt([&] { return rd.GetReal("s", "absent", def); });
            auto const gf = attempt([&] { return rd.GetReal("s", "absent", static_cast<float>(def)); });
            auto const gl = attempt([&] { return rd.GetReal("x", "k", static_cast<long double>(def) / 3); });
            if (!g.first || g.second != def || !gf.first || gf.second != static_cast<float>(def) || !gl.first
                || gl.second != static_cast<long double>(def) / 3) {
                vck::fail("real-default", "GetReal of an absent key did not return the default");
            }
        }
        vck::eval(vck::hash_str(lit));
    });
    vck::cases("booleans", 2000 * f, [&](long, Rng& r) {
        static std::vector<std::string> const yes = {"true", "yes", "on", "1"};
        static std::vector<std::string> const no = {"false", "no", "off", "0"};
        static std::vector<std::string> const bad
                = {"maybe", "2", "-1", "t", "f", "y", "n", "tru", "truee", "yes no", "10", "01", "enabled", "0.0", "1.0", "onn", "of", "off 1", "None", "+1", "trüe", "o n", "o"};
        int const k = r.range(0, 2);
        std::string const w = shuffle_case(r, k == 0 ? r.pick(yes) : k == 1 ? r.pick(no) : r.pick(bad));
        auto rd = read_text("[b]\nflag = " + w + "\nempty =\n");
        for (bool def : {false, true}) {
            auto const g = attempt([&] { return rd.GetBoolean("B", "FLAG", def); });
            if (k == 2 ? g.first : (!g.first || g.second != (k == 0))) {
                vck::fail("boolean", "GetBoolean of <" + w + "> " + (g.first ? (g.second ? "returned true" : "returned false") : "threw"));
            }
            auto const d1 = attempt([&] { return rd.GetBoolean("b", "empty", def); });
            auto const d2 = attempt([&] { return rd.GetBoolean("b", "absent", def); });
            if (!d1.first || d1.second != def || !d2.first || d2.second != def) {
                vck::fail("boolean-default", "GetBoolean of an absent or empty key did not return the default");
            }
        }
        vck::eval(vck::hash_str(w));
    });
    vck::cases("not-a-number", 1500 * f, [&](long, Rng& r) {
        static std::vector<std::string> const bad
                = {"abc", "x12", "--5", "+-5", "- 5", "-", "+", ".", "e5", "=5", "None", "$1", "(3)", "\"4\"", "'5'", "true", "xyz 12", "#3", ",1", "/", "x0", "_1"};
        std::string w = r.pick(bad);
        if (r.coin(0.3)) {
            w = "g" + word(r, 1, 8);
        }
        auto rd = read_text("[n]\nk=" + w + "\n");
        bool ok = false;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1); }).first;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1L); }).first;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1LL); }).first;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1U); }).first;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1UL); }).first;
        ok = ok || attempt([&] { return rd.GetInteger("n", "k", 1ULL); }).first;
        if (ok) {
            vck::fail("not-an-integer", "an integer lookup accepted <" + w + ">");
        }
        ok = attempt([&] { return rd.GetReal("n", "k", 1.0); }).first || attempt([&] { return rd.GetReal("n", "k", 1.0F); }).first
             || attempt([&] { return rd.GetReal("n", "k", 1.0L); }).first;
        if (ok) {
            vck::fail("not-a-real", "a real lookup accepted <" + w + ">");
        }
        vck::eval(vck::hash_str(w));
    });
    vck::cases("strings", 1500 * f, [&](long, Rng& r) {
        // random file with repeated keys and continuation lines; a map kept here says what must be found
        std::map<std::string, std::string> want;
        std::vector<std::pair<std::string, std::string>> keys;
        std::vector<std::string> sections = {""};
        std::vector<std::string> names;
        int const ns = r.range(1, 4);
        for (int i = 0; i < ns; ++i) {
            sections.push_back(word(r, 1, 12));
        }
        for (int i = 0; i < 5; ++i) {
            names.push_back(word(r, 1, 10));
        }
        std::string text;
        auto store = [&](std::string const& s, std::string const& n, std::string const& v) {
            auto& w = want[lower(s) + "\x01" + lower(n)];
            if (!w.empty()) {
                w += "\n";
            }
            w += v;
        };
        std::string sec;
        int const blocks = r.range(1, 6);
        for (int b = 0; b < blocks; ++b) {
            if (b > 0 || r.coin()) {
                sec = sections[1 + r.below(sections.size() - 1)];
                sec = shuffle_case(r, sec);
                text += "[" + sec + "]\n";
            }
            int const n = r.range(0, 5);
            for (int i = 0; i < n; ++i) {
                std::string const k = shuffle_case(r, r.pick(names));
                std::string const v = r.coin(0.1) ? "" : word(r, 1, 20);
                text += k + " = " + v + "\n";
                store(sec, k, v);
                while (r.coin(0.2)) {
                    std::string const c = word(r, 1, 20);
                    text += "    " + c + "\n";
                    store(sec, k, c);
                }
            }
        }
        auto rd = read_text(text);
        std::string const def = "the default";
        for (auto const& s : sections) {
            for (auto const& n : names) {
                auto const it = want.find(lower(s) + "\x01" + lower(n));
                std::string const got = rd.Get(shuffle_case(r, s), shuffle_case(r, n), def);
                if (it == want.end() ? got != def : got != it->second) {
                    vck::fail("string", "text <" + text + "> Get(" + s + "," + n + ") gave <" + got + ">");
                }
            }
            if (rd.Get(s, "no such name", def) != def) {
                vck::fail("string-default", "default not returned");
            }
        }
        // a second reader is independent of the first, a copy equals it
        INIReader copy = rd;
        INIReader const empty;
        for (auto const& [k, v] : want) {
            auto const p = k.find('\x01');
            if (copy.Get(k.substr(0, p), k.substr(p + 1), def) != v) {
                vck::fail("copy", "a copied reader lost a value");
            }
            if (empty.Get(k.substr(0, p), k.substr(p + 1), def) != def) {
                vck::fail("shared-state", "an empty reader knows a value");
            }
        }
        vck::eval(vck::hash_str(text), !want.empty());
        vck::stat("string_keys", static_cast<double>(want.size()));
    });
    vck::cases("defaults", 200 * f, [&](long, Rng& r) {
        auto rd = read_text("[s]\nk=\nk2=7\n");
        for (auto const* n : {"k", "absent"}) {
            check_default<int>(rd, "s", n, r, "int");
            check_default<long>(rd, "s", n, r, "long");
            check_default<long long>(rd, "s", n, r, "long long");
            check_default<unsigned>(rd, "s", n, r, "unsigned");
            check_default<unsigned long>(rd, "s", n, r, "unsigned long");
            check_default<unsigned long long>(rd, "s", n, r, "unsigned long long");
        }
        vck::eval(r.next());
    });
    vck::cases("errors", 1, [&](long, Rng&) {
        std::string what;
        if (attempt([&] { return INIReader("/nonexistent/file.ini"); }, &what).first) {
            vck::fail("open-error", "reading a missing file did not throw");
        }
        std::ofstream(scratch()) << "a=1\nb=2\nnonsense\nc=3\n";
        if (attempt([&] { return INIReader(scratch()); }, &what).first) {
            vck::fail("parse-error", "reading a malformed file did not throw");
        } else if (what.find('3') == std::string::npos) {
            vck::fail("parse-error-line", "the error does not name line 3: " + what);
        }
        vck::eval(3);
    });
}
#else

namespace {
struct Field
{
    char const* section;
    char const* name;
    char kind; // s string, i int, d double, b bool
    std::variant<std::string, int, double, bool> def;
    std::function<std::variant<std::string, int, double, bool>(hclpp::Param const&)> get;
};
using Val = std::variant<std::string, int, double, bool>;
} // namespace

static std::vector<Field> const& fields()
{
    using P = hclpp::Param const&;
    static std::vector<Field> const f = {
            {"Problem", "type", 's', std::string("ShockTube"), [](P p) { return Val(p.problem); }},
            {"Problem", "restart", 'b', false, [](P p) { return Val(p.restart); }},
            {"Problem", "restart_file", 's', std::string("None"), [](P p) { return Val(p.restart_file); }},
            {"Problem", "rmax_shift", 'd', 1e20, [](P p) { return Val(p.rmax_shift); }},
            {"Grid", "Nx0_glob", 'i', 0, [](P p) { return Val(p.Nx_glob_ng[0]); }},
            {"Grid", "Nx1_glob", 'i', 0, [](P p) { return Val(p.Nx_glob_ng[1]); }},
            {"Grid", "Nx2_glob", 'i', 0, [](P p) { return Val(p.Nx_glob_ng[2]); }},
            {"Grid", "type", 's', std::string("Regular"), [](P p) { return Val(p.grid_type); }},
            {"Grid", "Nghost", 'i', 2, [](P p) { return Val(p.Ng); }},
            {"Grid", "x0min", 'd', 0., [](P p) { return Val(p.x0min); }},
            {"Grid", "x0max", 'd', 1., [](P p) { return Val(p.x0max); }},
            {"Grid", "x1min", 'd', 0., [](P p) { return Val(p.x1min); }},
            {"Grid", "x1max", 'd', 1., [](P p) { return Val(p.x1max); }},
            {"Grid", "x2min", 'd', 0., [](P p) { return Val(p.x2min); }},
            {"Grid", "x2max", 'd', 1., [](P p) { return Val(p.x2max); }},
            {"Grid", "shift_grid", 's', std::string("Off"), [](P p) { return Val(p.shift_grid); }},
            {"Parallelization", "mpi_device_aware", 'b', false, [](P p) { return Val(p.mpi_device_aware); }},
            {"Parallelization", "mpi_dims_cart_x0", 'i', 0, [](P p) { return Val(p.mpi_dims_cart[0]); }},
            {"Parallelization", "mpi_dims_cart_x1", 'i', 0, [](P p) { return Val(p.mpi_dims_cart[1]); }},
            {"Parallelization", "mpi_dims_cart_x2", 'i', 0, [](P p) { return Val(p.mpi_dims_cart[2]); }},
            {"Run", "t_ini", 'd', 0., [](P p) { return Val(p.t_ini); }},
            {"Run", "t_end", 'd', 0.2, [](P p) { return Val(p.t_end); }},
            {"Run", "cfl", 'd', 0.4, [](P p) { return Val(p.cfl); }},
            {"Output", "max_iter", 'i', 10000, [](P p) { return Val(p.max_iter); }},
            {"Output", "iter_frequency", 'i', 0, [](P p) { return Val(p.iter_output_frequency); }},
            {"Output", "time_frequency", 'd', 0., [](P p) { return Val(p.time_output_frequency); }},
            {"Output", "time_first_output", 'd', 0., [](P p) { return Val(p.time_first_output); }}, // default: t_ini + time_frequency
            {"Output", "directory", 's', std::string("."), [](P p) { return Val(p.directory); }},
            {"Output", "prefix", 's', std::string("result"), [](P p) { return Val(p.prefix); }},
            {"Output", "time_job", 'i', 20, [](P p) { return Val(p.time_job); }},
            {"Hydro", "reconstruction", 's', std::string("VanLeer"), [](P p) { return Val(p.reconstruction_type); }},
            {"Hydro", "riemann_solver", 's', std::string("HLL"), [](P p) { return Val(p.riemann_solver); }},
            {"Gravity", "gx0", 'd', 0., [](P p) { return Val(p.gx0); }},
            {"Gravity", "gx1", 'd', 0., [](P p) { return Val(p.gx1); }},
            {"Gravity", "gx2", 'd', 0., [](P p) { return Val(p.gx2); }},
            {"Gravity", "M", 'd', 1., [](P p) { return Val(p.M); }},
            {"Perfect Gas", "gamma", 'd', 5. / 3, [](P p) { return Val(p.gamma); }},
            {"Perfect Gas", "mu", 'd', 1., [](P p) { return Val(p.mu); }},
            {"Boundary Condition", "BC", 's', std::string(), [](P p) { return Val(p.bc_choice); }},
            {"Boundary Condition", "priority", 's', std::string(), [](P p) { return Val(p.bc_priority); }},
            {"Passive Scalar", "nfx", 'i', 0, [](P p) { return Val(p.nfx); }},
            {"User step", "user_step", 's', std::string("Off"), [](P p) { return Val(p.user_step); }},
            {"Pressure fix", "pressure_fix", 's', std::string("Off"), [](P p) { return Val(p.pressure_fix); }},
            {"Pressure fix", "eps_pf", 'd', 1e-6, [](P p) { return Val(p.eps_pf); }},
    };
    return f;
}

static std::string show(Val const& v)
{
    switch (v.index()) {
    case 0: return "'" + std::get<0>(v) + "'";
    case 1: return std::to_string(std::get<1>(v));
    case 2: return vck::fmt("%.17g", std::get<2>(v));
    default: return std::get<3>(v) ? "true" : "false";
    }
}

static std::pair<std::string, Val> value(Field const& f, Rng& r)
{
    switch (f.kind) {
    case 'i': {
        int const v = r.coin() ? r.range(0, 20) : r.range(-2000000000, 2000000000);
        return {std::to_string(v), v};
    }
    case 'd': {
        double const v = r.coin() ? r.uni(-10, 10) : (r.coin() ? 1 : -1) * r.loguni(1e-30, 1e30);
        return {vck::fmt("%.17g", v), v};
    }
    case 'b': {
        bool const v = r.coin();
        static char const* const w[2][4] = {{"false", "No", "OFF", "0"}, {"true", "Yes", "ON", "1"}};
        return {w[v][r.below(4)], v};
    }
    default: {
        std::string s;
        int const n = r.range(1, 20);
        for (int i = 0; i < n; ++i) {
            static std::string const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./+";
            s += a[r.below(a.size())];
        }
        return {s, s};
    }
    }
}

static void compare(hclpp::Param const& p, std::map<int, Val> const& set, std::string const& text, char const* how)
{
    auto const& fs = fields();
    for (std::size_t i = 0; i < fs.size(); ++i) {
        Val want = fs[i].def;
        auto it = set.find(static_cast<int>(i));
        if (it != set.end()) {
            want = it->second;
        } else if (std::string(fs[i].name) == "time_first_output") {
            want = p.t_ini + p.time_output_frequency;
        }
        Val const got = fs[i].get(p);
        if (got != want) {
            vck::fail(
                    std::string(it == set.end() ? "default:" : "value:") + fs[i].section + "/" + fs[i].name,
                    std::string(how) + ": [" + fs[i].section + "] " + fs[i].name + " is " + show(got) + ", expected " + show(want) + " for <" + text + ">");
        }
    }
}

static void c04()
{
    auto const& fs = fields();
    int const nf = static_cast<int>(fs.size());
    auto run = [&](std::vector<int> chosen, Rng& r, bool decoys) {
        std::map<int, Val> set;
        std::map<std::string, std::vector<std::string>> by;
        for (int i : chosen) {
            auto const v = value(fs[static_cast<std::size_t>(i)], r);
            set[i] = v.second;
            by[fs[static_cast<std::size_t>(i)].section].push_back(shuffle_case(r, fs[static_cast<std::size_t>(i)].name) + " = " + v.first);
        }
        if (decoys) {
            // the same names under other sections, and other names under the right sections
            for (int k = 0; k < 12; ++k) {
                auto const& f = fs[r.below(fs.size())];
                auto const& g = fs[r.below(fs.size())];
                bool clash = false;
                for (auto const& h : fs) {
                    clash = clash || (std::string(h.section) == g.section && std::string(h.name) == f.name);
                }
                if (!clash) {
                    by[g.section].push_back(std::string(f.name) + " = " + value(f, r).first);
                }
                by[g.section].push_back(std::string(g.name) + "_x = 3");
            }
            by["Decoy"].push_back("type = 4");
        }
        std::vector<std::string> order;
        for (auto const& kv : by) {
            order.push_back(kv.first);
        }
        for (std::size_t i = order.size(); i > 1; --i) {
            std::swap(order[i - 1], order[r.below(i)]);
        }
        std::string text;
        for (auto const& s : order) {
            text += "[" + shuffle_case(r, s) + "]\n";
            auto& lines = by[s];
            for (std::size_t i = lines.size(); i > 1; --i) {
                std::swap(lines[i - 1], lines[r.below(i)]);
            }
            for (auto const& l : lines) {
                text += l + "\n";
            }
        }
        hclpp::Param const p(read_text(text));
        compare(p, set, text, "constructed");
        for (auto const& [i, v] : set) {
            auto const& f = fs[static_cast<std::size_t>(i)];
            std::string const raw = p.reader.Get(f.section, f.name, "<absent>");
            if (raw == "<absent>") {
                vck::fail("reader", std::string("the kept reader does not know ") + f.name);
            }
        }
        if (r.coin(0.2)) {
            hclpp::Param q(p);
            compare(q, set, text, "copied");
            hclpp::Param m(std::move(q));
            compare(m, set, text, "moved");
            hclpp::Param a(read_text(""));
            a = p;
            compare(a, set, text, "assigned");
            hclpp::Param b(read_text(""));
            b = std::move(a);
            compare(b, set, text, "move-assigned");
        }
        vck::eval(vck::hash_str(text), !set.empty());
        vck::stat("keys_set", static_cast<double>(set.size()));
        vck::sample(text);
    };
    // each key alone, all keys, no key
    vck::cases("single", nf * 12L, [&](long i, Rng& r) { run({static_cast<int>(i % nf)}, r, false); });
    vck::cases("single-decoys", nf * 4L, [&](long i, Rng& r) { run({static_cast<int>(i % nf)}, r, true); });
    vck::cases("none", 3, [&](long i, Rng& r) { run({}, r, i > 0); });
    vck::cases("all", 60, [&](long, Rng& r) {
        std::vector<int> c;
        for (int i = 0; i < nf; ++i) {
            c.push_back(i);
        }
        run(c, r, false);
    });
    vck::cases("subset", vck::st().thorough ? 20000 : 1500, [&](long, Rng& r) {
        std::vector<int> c;
        double const p = r.u01();
        for (int i = 0; i < nf; ++i) {
            if (r.coin(p)) {
                c.push_back(i);
            }
        }
        run(c, r, r.coin());
    });
    // every bad literal must end construction, whichever parameter it belongs to
    vck::cases("bad", nf, [&](long i, Rng&) {
        auto const& f = fs[static_cast<std::size_t>(i)];
        if (f.kind == 's') {
            return;
        }
        bool threw = false;
        try {
            hclpp::Param const p(read_text(std::string("[") + f.section + "]\n" + f.name + " = nonsense\n"));
        } catch (std::exception const&) {
            threw = true;
        }
        if (!threw) {
            vck::fail(std::string("bad-literal:") + f.section + "/" + f.name, "a value that is not a number or boolean was accepted");
        }
        vck::eval(static_cast<std::uint64_t>(i) + 7777);
    });
}
#endif

int main(int argc, char** argv)
{
    vck::init(argc, argv);
#ifdef WITH_PARAM
    c04();
#else
    c03();
#endif
    return vck::finish();
}
