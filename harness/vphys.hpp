// Reference physics, written from the definitions in extended precision.
#pragma once
#include <cmath>
#include <vck.hpp>

namespace vphys {

using ld = long double;
inline constexpr ld pi = 3.14159265358979323846264338327950288L;
inline constexpr ld kb = 1.380649E-23L, mp = 1.672649E-27L, G = 6.6743015E-11L, clight = 2.99792458E8L, hp = 6.62607015E-34L;
inline constexpr ld amu = 1.66053906660E-27L, MeV = 1.602176634E-13L, day = 86400;
inline constexpr ld ar = (8 * pi * pi * pi * pi * pi * kb * kb * kb * kb) / (15 * hp * hp * hp * clight * clight * clight);

// the ideal gas, with or without radiation in equilibrium
struct Gas
{
    ld gamma = 5.0L / 3, mu = 1;
    bool rad = false;
    ld R() const { return kb / (mu * mp); }
    ld P_T(ld rho, ld T) const { return rho * R() * T + (rad ? ar * T * T * T * T / 3 : 0); }
    ld e_T(ld rho, ld T) const { return rho * R() * T / (gamma - 1) + (rad ? ar * T * T * T * T : 0); }
    static ld solve(ld lin, ld quart, ld rhs) // lin T + quart T^4 = rhs, T >= 0
    {
        if (quart == 0) {
            return rhs / lin;
        }
        ld const a = rhs / lin, b = powl(rhs / quart, 0.25L);
        ld hi = a < b ? a : b, lo = hi / 4; // both bound the root from above, and the root is above half of the lower one
        ld T = hi;
        for (int i = 0; i < 200; ++i) {
            ld const f = lin * T + quart * T * T * T * T - rhs;
            if (f > 0) {
                hi = T;
            } else {
                lo = T;
            }
            ld Tn = T - f / (lin + 4 * quart * T * T * T);
            if (!(Tn >= lo && Tn <= hi)) {
                Tn = (lo + hi) / 2;
            }
            if (fabsl(Tn - T) <= 1e-18L * T) {
                return Tn;
            }
            T = Tn;
        }
        return T;
    }
    ld T_P(ld rho, ld P) const { return solve(rho * R(), rad ? ar / 3 : 0, P); }
    ld T_e(ld rho, ld e) const { return solve(rho * R() / (gamma - 1), rad ? ar : 0, e); }
    ld e_P(ld rho, ld P) const { return e_T(rho, T_P(rho, P)); }
    ld P_e(ld rho, ld e) const { return P_T(rho, T_e(rho, e)); }
    // sound speed at constant entropy: c2 = dP/drho|T + T/(rho^2 cv) (dP/dT)^2 with cv per mass
    ld c_P(ld rho, ld P) const
    {
        ld const T = T_P(rho, P);
        ld const dPdT = rho * R() + (rad ? 4 * ar * T * T * T / 3 : 0);
        ld const dedT = rho * R() / (gamma - 1) + (rad ? 4 * ar * T * T * T : 0); // per volume
        return sqrtl(R() * T + T * dPdT * dPdT / (rho * dedT));
    }
    // admissible error of a temperature: rounding, or the documented solver tolerance after quadratic convergence
    ld tolT(ld T) const
    {
        if (!rad) {
            return 1e-14L * T;
        }
        ld const q = T > 0 ? 1e-9L / T : 1e-6L;
        return 4e-13L * T + (q < 1e-6L ? q : 1e-6L);
    }
    ld relT(ld T) const { return tolT(T) / T; }
};

// typical magnitudes: code units for the ideal gas, stellar ones with radiation
struct Scale
{
    double rho = 1, P = 1, u = 1, T = 1;
};
inline Scale scale(Gas const& g, vck::Rng& r)
{
    Scale s;
    if (g.rad) {
        s.rho = r.loguni(1e-6, 1e-2);
        s.T = r.loguni(1e4, 3e6);
        s.P = static_cast<double>(g.P_T(s.rho, s.T));
        s.u = std::sqrt(s.P / s.rho);
    } else {
        s.T = static_cast<double>(g.T_P(1, 1));
    }
    return s;
}

inline double ulps(double a, double b)
{
    if (a == b) {
        return 0;
    }
    double const m = std::fmax(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) / (m * 2.220446049250313e-16);
}
inline bool near(double a, double b, double rel, double absl = 0) { return a == b || std::fabs(a - b) <= rel * std::fmax(std::fabs(a), std::fabs(b)) + absl; }

} // namespace vphys
