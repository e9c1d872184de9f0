// C05: checked integer conversion, all pairs of the ten integer types.
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

#include <int_cast.hpp>
#include <vck.hpp>

using vck::Rng;

template <class T>
static char const* name()
{
    if constexpr (std::is_same_v<T, signed char>) return "signed char";
    if constexpr (std::is_same_v<T, unsigned char>) return "unsigned char";
    if constexpr (std::is_same_v<T, short>) return "short";
    if constexpr (std::is_same_v<T, unsigned short>) return "unsigned short";
    if constexpr (std::is_same_v<T, int>) return "int";
    if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
    if constexpr (std::is_same_v<T, long>) return "long";
    if constexpr (std::is_same_v<T, unsigned long>) return "unsigned long";
    if constexpr (std::is_same_v<T, long long>) return "long long";
    return "unsigned long long";
}

static std::string dec(__int128 v)
{
    std::string s;
    bool n = v < 0;
    unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    do {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    } while (u);
    return n ? "-" + s : s;
}

static long g_ok, g_throw;

template <class R, class T>
static void one(T t)
{
    __int128 const v = t;
    bool const fits = v >= static_cast<__int128>(std::numeric_limits<R>::min()) && v <= static_cast<__int128>(std::numeric_limits<R>::max());
    int outcome = 0; // 1 value, 2 runtime_error, 3 other
    R r {};
    try {
        r = hclpp::int_cast<R>(t);
        outcome = 1;
    } catch (std::runtime_error const&) {
        outcome = 2;
    } catch (...) {
        outcome = 3;
    }
    if (fits ? (outcome != 1 || static_cast<__int128>(r) != v) : outcome != 2) {
        vck::fail(fits ? "representable" : "not-representable",
                  std::string("int_cast<") + name<R>() + ">(" + name<T>() + " " + dec(v) + ") "
                          + (outcome == 1 ? "returned " + dec(r) : outcome == 2 ? "threw a runtime error" : "threw something else"));
    }
    ++(fits ? g_ok : g_throw);
    vck::st().evaluations++;
}

template <class R, class T>
static void pair(Rng& r)
{
    static_assert(std::is_same_v<decltype(hclpp::int_cast<R>(T {})), R>);
    using TL = std::numeric_limits<T>;
    long const before_ok = g_ok, before_th = g_throw;
    if constexpr (sizeof(T) <= 2) {
        for (long v = TL::min(); v <= TL::max(); ++v) {
            one<R, T>(static_cast<T>(v));
        }
    } else {
        // around every boundary of every type, powers of two, and random values of every size
        for (int b = 0; b < 65; ++b) {
            for (int d = -3; d <= 3; ++d) {
                for (int s = 0; s < 2; ++s) {
                    __int128 v = (static_cast<__int128>(1) << b) + d;
                    v = s ? -v : v;
                    if (v >= static_cast<__int128>(TL::min()) && v <= static_cast<__int128>(TL::max())) {
                        one<R, T>(static_cast<T>(v));
                    }
                }
            }
        }
        for (int k = 0; k < 5; ++k) {
            one<R, T>(static_cast<T>(TL::min() + k));
            one<R, T>(static_cast<T>(TL::max() - k));
        }
        long const n = vck::st().thorough ? 200000 : 4000;
        for (long i = 0; i < n; ++i) {
            std::uint64_t x = r.next() >> r.below(64);
            one<R, T>(static_cast<T>(r.coin() ? x : 0 - x));
        }
    }
    vck::st().distinct.insert(vck::hash_str(std::string(name<R>()) + name<T>()) ^ static_cast<std::uint64_t>((g_ok > before_ok) + 2 * (g_throw > before_th)));
}

template <class T, class... R>
static void from(Rng& r)
{
    (pair<R, T>(r), ...);
}
template <class... T>
static void all(Rng& r)
{
    (from<T, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>(r), ...);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    vck::cases("pairs", 1, [&](long, Rng& r) {
        all<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>(r);
    });
    vck::stat("conversions_representable", static_cast<double>(g_ok));
    vck::stat("conversions_refused", static_cast<double>(g_throw));
    vck::sample("100 pairs of types: exhaustive for 8- and 16-bit arguments; for wider ones 2^b+d, limits and random values");
    return vck::finish();
}
