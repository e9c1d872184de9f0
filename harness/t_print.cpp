// C06: diagnostic lines.
#include <iomanip>
#include <sstream>
#include <string>
#include <string_view>

#include <print_info.hpp>
#include <vck.hpp>

using vck::Rng;

static std::string text(Rng& r, int n)
{
    static std::string const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-[] /.,+";
    std::string s;
    for (int i = 0; i < n; ++i) {
        s += a[r.below(a.size())];
    }
    return s;
}

struct Fmt
{
    std::ios_base::fmtflags flags;
    std::streamsize prec;
};

static void setup(std::ostream& os, Rng& r)
{
    if (r.coin(0.5)) {
        os << std::setprecision(r.range(0, 20));
    }
    switch (r.range(0, 5)) {
    case 0: os << std::scientific; break;
    case 1: os << std::fixed; break;
    case 2: os << std::hex; break;
    case 3: os << std::boolalpha << std::showpoint; break;
    case 4: os << std::showpos << std::uppercase; break;
    default: break;
    }
    if (r.coin(0.3)) {
        os << std::setfill("x*0_"[r.below(4)]);
    }
    switch (r.range(0, 4)) {
    case 0: os << std::left; break;
    case 1: os << std::right; break;
    case 2: os << std::internal; break;
    default: break;
    }
}

template <class T>
static void entry(std::ostringstream& os, std::string const& name, T const& v)
{
    // what the stream itself prints for the value, without width
    std::ostringstream plain;
    plain.copyfmt(os);
    plain.width(0);
    plain << v;
    std::string const val = plain.str();
    std::string const before_text = os.str();
    auto const prec = os.precision();
    auto const mask = ~std::ios_base::adjustfield;
    auto const flags = os.flags() & mask;
    auto const loc = os.getloc();
    hclpp::print_info(os, name, v);
    std::string const line = os.str().substr(before_text.size());
    std::string want = name;
    while (want.size() < 40) {
        want += '.';
    }
    want += std::string(val.size() < 40 ? 40 - val.size() : 0, '.') + val + "\n";
    if (line != want) {
        vck::fail("line", "name <" + name + "> value <" + val + "> printed as <" + line + "> expected <" + want + ">");
    }
    if (os.str().compare(0, before_text.size(), before_text) != 0) {
        vck::fail("earlier-text", "text printed earlier was altered");
    }
    if (os.width() != 0 || os.precision() != prec || (os.flags() & mask) != flags || os.getloc() != loc || !os.good()) {
        vck::fail("format-state", vck::fmt("width %ld precision %ld->%ld flags changed %d", static_cast<long>(os.width()), static_cast<long>(prec),
                                          static_cast<long>(os.precision()), (os.flags() & mask) != flags));
    }
    // later text and numbers without width look as they would have
    std::ostringstream after;
    after.copyfmt(os);
    os << "later" << 12 << ' ' << 2.5 << true << '\n';
    after.flags((after.flags() & ~mask) | flags);
    after.precision(prec);
    after.width(0);
    after << "later" << 12 << ' ' << 2.5 << true << '\n';
    if (os.str().substr(before_text.size() + line.size()) != after.str()) {
        vck::fail("later-text", "text printed afterwards is altered: <" + os.str().substr(before_text.size() + line.size()) + ">");
    }
    vck::eval(vck::hash_str(line));
    vck::stat(name.size() > 40 ? "names_longer_than_column" : "names_within_column");
    vck::stat(val.size() > 40 ? "values_longer_than_column" : "values_within_column");
    vck::sample(line);
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    vck::cases("entries", vck::st().thorough ? 20000 : 1500, [&](long, Rng& r) {
        std::ostringstream os;
        if (r.coin()) {
            setup(os, r);
        }
        int const n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            std::string const name = text(r, r.coin(0.2) ? r.range(36, 130) : r.range(0, 39));
            switch (r.range(0, 10)) {
            case 0: entry(os, name, r.range(-2000000000, 2000000000)); break;
            case 1: entry(os, name, static_cast<long>(r.next())); break;
            case 2: entry(os, name, static_cast<unsigned long>(r.next())); break;
            case 3: {
                std::uint64_t b = r.next();
                double d;
                std::memcpy(&d, &b, 8);
                entry(os, name, d);
                break;
            }
            case 4: entry(os, name, r.uni(-1e3, 1e3)); break;
            case 5: entry(os, name, r.coin()); break;
            case 6: entry(os, name, text(r, r.coin(0.3) ? r.range(36, 150) : r.range(0, 39))); break;
            case 7: {
                std::string const s = text(r, r.range(0, 60));
                entry(os, name, std::string_view(s));
                break;
            }
            case 8: {
                std::string const s = text(r, r.range(0, 60));
                char const* p = s.c_str();
                entry(os, name, p);
                break;
            }
            case 9: entry(os, name, 'c'); break;
            default: entry(os, name, static_cast<short>(r.range(-30000, 30000)));
            }
        }
        if (r.coin(0.1)) { // a pending width belongs to nobody
            os << std::setw(r.range(1, 90));
            entry(os, "pending", 1);
        }
    });
    vck::cases("exact-widths", 90, [&](long i, Rng& r) {
        std::ostringstream os;
        for (int j = 0; j < 90; j += 1 + r.range(0, 6)) {
            entry(os, text(r, static_cast<int>(i)), text(r, j));
        }
    });
    return vck::finish();
}
