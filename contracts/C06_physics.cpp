// C06: radiometric and relativistic helper functions.
#include "any.h"
#include "huira/core/physics.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using namespace vc;
static const double C = 299792458.0;
VC_CONTRACT(REAL, linspace)
{
    size_t n = (size_t)vc_range("n", 2, 1000000);
    double a = vc_real("a"), b = vc_real("b");
    auto v = linspace<double>(a, b, n);
    vc_check(v.size() == n, "length");
    size_t i = (size_t)vc_index("i", (int64_t)n);
    vc_check(vc_eq(v[i], a + (b - a) * (double)i / (double)(n - 1)), "evenly spaced");
    vc_check(vc_eq(v[0], a), "starts at min");
    vc_check(vc_eq(v[n - 1], b), "ends at max");
}
VC_CONTRACT(REAL, linspace_one)
{
    double a = vc_real("a"), b = vc_real("b");
    auto v = linspace<double>(a, b, 1);
    vc_check(v.size() == 1, "length");
    vc_check(vc_eq(v[0], a), "starts at min");
    vc_check(linspace<double>(a, b, 0).empty(), "length");
}
VC_CONTRACT(REAL, integrate_safe)
{
    size_t n = (size_t)vc_range("n", 0, 1000000);
    double* px = (double*)vc_bytes("x", n, 2);
    double* py = (double*)vc_bytes("y", n, 2);
    std::vector<double> x(px, px + n), y(py, py + n);
    double r = integrate(x, y);
    vc_check(vc_implies(n <= 1, vc_eq(r, 0)), "no interval, no area");
}
template <int N> static void trapezoid()
{
    vc_bounded("number of samples");
    std::vector<double> x(N), y(N);
    double t = 0;
    for (int i = 0; i < N; ++i) {
        x[i] = vc_real("x");
        y[i] = vc_real("y");
        if (i) t += (x[i] - x[i - 1]) * (y[i] + y[i - 1]) / 2;
    }
    vc_check(vc_eq(integrate(x, y), t), "trapezoidal rule");
}
VC_CONTRACT(REAL, trapezoid)
{
    trapezoid<2>();
    trapezoid<3>();
    trapezoid<6>();
}
VC_CONTRACT(REAL, photon)
{
    double l = vc_real("l");
    vc_assume(vc_lt(0, l));
    vc_check(near(photon_energy(l) * 1e25 * l, 6.62607015e-34 * C * 1e25, 1e-9), "photon energy");
    vc_check(vc_lt(0, photon_energy(l)), "photon energy is positive");
}
VC_CONTRACT(REAL, planck)
{
    size_t n = (size_t)vc_range("n", 0, 1000000);
    double* p = (double*)vc_bytes("l", n, 2);
    std::vector<double> l(p, p + n);
    double t = vc_real("t");
    vc_assume(vc_lt(0, t));
    vc_option("no-fdiv");
    auto r = plancks_law(t, l);
    vc_check(r.size() == n, "one value per wavelength");
    size_t i = (size_t)vc_index("i", (int64_t)n);
    double li = l[i];
    vc_assume(vc_lt(0, li));
    double h = H_PLANCK<double>(), k = K_BOLTZ<double>(), c = SPEED_OF_LIGHT<double>();
    double c2 = (h * c) / k, c1 = 2 * h * c * c;
    vc_check(vc_eq(r[i], (c1 / std::pow(li, 5)) / (std::exp(c2 / (li * t)) - 1)), "Planck's law");
}
VC_CONTRACT(REAL, magnitude)
{
    double m = vc_real("m");
    vc_check(vc_eq(v_band_irradiance(0), 8.75e9), "zero point");
    vc_check(vc_eq(v_band_irradiance(m + 5) * 100, v_band_irradiance(m)), "five magnitudes are a factor of one hundred");
    vc_check(vc_lt(0, v_band_irradiance(m)), "positive");
}
static Vec3<double> velocity(double& b2)
{
    auto v = vec3("v");
    auto b = v / C;
    b2 = dot(b, b);
    vc_assume(vc_lt(b2, 0.999999));
    return v;
}
VC_CONTRACT(REAL, aberration_unit)
{
    double b2;
    auto u = unit3("u");
    auto v = velocity(b2);
    auto a = compute_aberrated_direction(u, v);
    vc_check(vc_eq(dot(a, a), 1), "the apparent direction is a unit vector");
}
VC_CONTRACT(REAL, aberration_angle)
{
    double b2;
    auto u = unit3("u");
    auto v = velocity(b2);
    auto a = compute_aberrated_direction(u, v);
    // cos t' = (cos t + beta) / (1 + beta cos t), written without dividing by the speed
    double ub = dot(u, v / C);
    vc_check(vc_eq(dot(a, v / C) * (1 + ub), ub + b2), "the relativistic aberration angle");
}
VC_CONTRACT(REAL, aberration_plane)
{
    double b2;
    auto u = unit3("u");
    auto v = velocity(b2);
    auto a = compute_aberrated_direction(u, v);
    auto n = glm::cross(u, v);
    vc_check(vc_eq(dot(a, n), 0), "the apparent direction stays in the plane of motion");
}
VC_CONTRACT(REAL, aberration_rest)
{
    auto u = unit3("u");
    auto a = compute_aberrated_direction(u, Vec3<double>{0, 0, 0});
    vc_check(eq3(a, u), "no motion, no aberration");
}
VC_CONTRACT(REAL, aberration_limit)
{
    auto u = unit3("u");
    auto v = vec3("v");
    bool t = throws([&] { compute_aberrated_direction(u, v); });
    vc_check(vc_iff(t, vc_le(0.999999, dot(v / C, v / C))), "speeds of light and above are rejected");
    double nan = std::numeric_limits<double>::quiet_NaN();
    vc_check(throws([&] { compute_aberrated_direction(u, Vec3<double>{nan, 0, 0}); }), "NaN speeds are rejected");
}
VC_CONTRACT(REAL, vband)
{
    size_t n = (size_t)vc_range("n", 2, 1000000);
    std::vector<double> l;
    auto e = johnson_vband_approximation(n, l);
    vc_check(vc_and(e.size() == n, l.size() == n), "length");
    size_t i = (size_t)vc_index("i", (int64_t)n);
    vc_check(vc_eq(l[i] * 1e9, 350 + 500.0 * (double)i / (double)(n - 1)), "wavelengths span 350 to 850 nm");
    vc_check(vc_and(vc_lt(0, e[i]), vc_le(e[i], 1)), "efficiency between 0 and 1");
}
