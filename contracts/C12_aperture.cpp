// C12: circular aperture: area, sampling, defocus kernels.
#include "any_image.h"
#include <filesystem>
namespace fs = std::filesystem;
#include "huira/cameras/apertures/circular_aperture.hpp"
using namespace huira;
namespace {
const double pif = PI<float>();
struct AnySampler : Sampler<float> {
    float x = vc_float("u"), y = vc_float("v");
    AnySampler() { vc_assume(vc_and(vc_and(vc_le(0, x), vc_lt(x, 1)), vc_and(vc_le(0, y), vc_lt(y, 1)))); }
    float get_1d() override { return x; }
    Vec2<float> get_2d() override { return {x, y}; }
};
struct Ap : CircularAperture<RGB> {
    using CircularAperture<RGB>::CircularAperture;
    using CircularAperture<RGB>::rasterize_kernel_;
    int banks() const { return this->defocus_cache_.banks; }
    int dim() const { return this->defocus_cache_.dim; }
    size_t kernels() const { return this->defocus_cache_.kernels.size(); }
    const Image<float>& kernel(size_t i) const { return this->defocus_cache_.kernels[i]; }
};
double clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
}
VC_CONTRACT(REAL, diameter)
{
    float d = vc_float("d"), e = vc_float("e");
    vc_assume(vc_and(vc_le(0, d), vc_le(0, e)));
    CircularAperture<RGB> a{units::Meter(e)};
    if (vc_split(vc_bool("set"))) a.set_diameter(units::Meter(d));
    else a = CircularAperture<RGB>(units::Meter(d));
    vc_check(vc_eq(a.get_diameter().to_si(), d), "diameter");
    vc_check(vc_eq(a.get_area().to_si(), pif * d * d / 4), "area of the disk");
    vc_check(vc_eq(a.get_bounding_radius().to_si(), d / 2), "radius");
}
VC_CONTRACT(REAL, area)
{
    float s = vc_float("s"), e = vc_float("e");
    vc_assume(vc_and(vc_le(0, s), vc_le(0, e)));
    CircularAperture<RGB> a{units::Meter(e)};
    a.set_area(units::SquareMeter(s));
    double d = a.get_diameter().to_si();
    vc_check(vc_eq(a.get_area().to_si(), s), "area");
    vc_check(vc_and(vc_le(0, d), vc_eq(d * d, 4 * s / pif)), "diameter of the disk with that area");
    vc_check(vc_eq(a.get_bounding_radius().to_si(), d / 2), "radius");
}
VC_CONTRACT(REAL, sample_inside)
{
    float d = vc_float("d");
    vc_assume(vc_le(0, d));
    CircularAperture<RGB> a{units::Meter(d)};
    AnySampler s;
    Vec2<float> p = a.sample(s);
    vc_check(vc_le(p.x * p.x + p.y * p.y, d * d / 4), "inside the aperture");
}
// concentric map: the square ring at distance m from the centre goes to the circle of m times the radius,
// and on it the arc is proportional to the way along the ring
VC_CONTRACT(REAL, sample_concentric)
{
    float d = vc_float("d");
    vc_assume(vc_lt(0, d));
    CircularAperture<RGB> a{units::Meter(d)};
    AnySampler s;
    Vec2<float> p = a.sample(s);
    double u = 2 * s.x - 1.0, v = 2 * s.y - 1.0, r = d / 2.0;
    if (vc_split(vc_and(u == 0, v == 0))) {
        vc_check(vc_and(vc_eq(p.x, 0), vc_eq(p.y, 0)), "the centre");
    } else if (vc_split(u * u > v * v)) {
        double t = pif / 4 * (v / u);
        vc_check(vc_and(vc_eq(p.x, r * u * std::cos(t)), vc_eq(p.y, r * u * std::sin(t))), "left and right quadrant");
    } else {
        double t = pif / 2 - pif / 4 * (u / v);
        vc_check(vc_and(vc_eq(p.x, r * v * std::cos(t)), vc_eq(p.y, r * v * std::sin(t))), "upper and lower quadrant");
    }
}
// coverage of every pixel of a kernel of any size
VC_CONTRACT(REAL, rasterize)
{
    int half = (int)vc_range("half", 0, 10000), dim = 2 * half + 1;
    float r = vc_float("r"), ox = vc_float("ox"), oy = vc_float("oy");
    vc_assume(vc_le(0, r));
    Ap a{units::Meter(1)};
    Image<float> k(dim, dim);
    a.rasterize_kernel_(k, r, ox, oy);
    vc_check(vc_and(k.width() == dim, k.height() == dim), "size");
    int x = (int)vc_index("x", dim), y = (int)vc_index("y", dim);
    double dx = x + 0.5 - (half + 0.5 + ox), dy = y + 0.5 - (half + 0.5 + oy);
    vc_check(vc_eq(k(x, y), clip(r - std::sqrt(dx * dx + dy * dy) + 0.5, 0, 1)), "coverage falls off over one pixel at the radius");
}
namespace {
struct Defocus {
    float w = vc_float("defocus"), f = 1, d = 2, px = 1, py = 1;
    double r; // blur radius in pixels
    Ap a{units::Meter(0)};
    Defocus(bool simple)
    {
        if (simple) {
            a.set_diameter(units::Meter(d));
            vc_assume(vc_le(0, w));
            r = w;
            return;
        }
        f = vc_float("f"), d = vc_float("d"), px = vc_float("px"), py = vc_float("py");
        vc_assume(vc_and(vc_and(vc_lt(0, px), vc_lt(0, py)), vc_and(vc_le(0, f), vc_le(0, d))));
        a.set_diameter(units::Meter(d));
        r = std::abs((double)w) * f * (d / 2.0) / (px < py ? px : py);
    }
    void build(int banks) { a.build_defocus_kernel(units::Diopter(w), units::Meter(f), units::Meter(px), units::Meter(py), banks); }
};
}
VC_CONTRACT(REAL, in_focus)
{
    Defocus c(false);
    vc_assume(vc_lt(c.r, 0.5));
    c.build(4);
    vc_check(vc_and(c.a.has_defocus() == false, vc_eq(c.a.get_defocus_radius(), 0)), "no kernels below half a pixel");
    vc_check(vc::throws([&] { c.a.get_defocus_kernel(0.f, 0.f); }), "no kernel to give");
}
VC_CONTRACT(REAL, refocus)
{
    Defocus c(false);
    vc_assume(vc_and(vc_le(0.5, c.r), vc_le(c.r, 1)));
    c.build(1);
    vc_check(c.a.has_defocus(), "out of focus");
    vc_check(vc_eq(c.a.get_defocus_radius(), c.r), "blur radius in pixels");
    c.a.build_defocus_kernel(units::Diopter(0), units::Meter(c.f), units::Meter(c.px), units::Meter(c.py), 1);
    vc_check(vc_and(c.a.has_defocus() == false, vc_eq(c.a.get_defocus_radius(), 0)), "kernels are dropped when in focus again");
    vc_check(vc::throws([&] { c.a.get_defocus_kernel(0.f, 0.f); }), "no kernel to give");
}
// kernels of every bank: one for each subpixel offset, in proportion to the coverage
static void out_of_focus(int banks)
{
    Defocus c(true);
    vc_assume(vc_and(vc_le(0.5, c.r), vc_le(c.r, 5000)));
    vc_witness(std::max(1, (int)std::ceil((float)c.r))); // the pixel in the middle is lit
    c.build(banks);
    vc_check(vc_eq(c.a.get_defocus_radius(), c.r), "blur radius in pixels");
    int half = c.a.get_defocus_half_extent();
    vc_check(vc_and(vc_le(c.r, half), vc_lt(half, c.r + 1)), "the kernel reaches over the blur");
    vc_check(c.a.kernels() == (size_t)(banks * banks), "one kernel for each bank");
    int dim = 2 * half + 1;
    int x = (int)vc_index("x", dim), y = (int)vc_index("y", dim);
    for (int j = 0; j < banks; ++j)
        for (int i = 0; i < banks; ++i) {
            const Image<float>& k = c.a.kernel((size_t)(j * banks + i));
            vc_check(vc_and(k.width() == dim, k.height() == dim), "size");
            Image<float> e(dim, dim);
            c.a.rasterize_kernel_(e, (float)c.r, (float)i / banks, (float)j / banks);
            vc_check(vc_eq((double)k(x, y) * e(half, half), (double)k(half, half) * e(x, y)), "proportional to the coverage");
            vc_check(vc_le(0, k(x, y)), "not negative");
            vc_check(vc_lt(0, k(half, half)), "the middle is lit");
        }
}
VC_CONTRACT(REAL, kernels_1) { out_of_focus(1); }
VC_CONTRACT(REAL, kernels_2)
{
    vc_bounded("several banks: four kernels of 3 by 3");
    Defocus c(true);
    vc_assume(vc_and(vc_le(0.5, c.r), vc_le(c.r, 1)));
    c.build(2);
    vc_check(c.a.kernels() == 4, "one kernel for each bank");
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) {
            const Image<float>& k = c.a.kernel((size_t)(j * 2 + i));
            vc_check(vc_and(k.width() == 3, k.height() == 3), "size");
            Image<float> e(3, 3);
            c.a.rasterize_kernel_(e, (float)c.r, (float)i / 2, (float)j / 2);
            for (int y = 0; y < 3; ++y)
                for (int x = 0; x < 3; ++x) vc_check(vc_eq((double)k(x, y) * e(1, 1), (double)k(1, 1) * e(x, y)), "proportional to the coverage");
        }
}
// the sum of all values, for the smallest kernels
static void unit_sum(int banks)
{
    vc_bounded("sum of a kernel: kernels of 3 by 3, one or two banks");
    Defocus c(true);
    vc_assume(vc_and(vc_le(0.5, c.r), vc_le(c.r, 1)));
    c.build(banks);
    for (int b = 0; b < banks * banks; ++b) {
        const Image<float>& k = c.a.kernel((size_t)b);
        double s = 0;
        for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) s += k(x, y);
        vc_check(vc_eq(s, 1), "a kernel keeps the energy");
    }
}
VC_CONTRACT(REAL, unit_sum) { unit_sum(1); }
VC_CONTRACT(REAL, unit_sum_2) { unit_sum(2); }
// the bank of a subpixel position
VC_CONTRACT(REAL, choose)
{
    Defocus c(true);
    vc_assume(vc_and(vc_le(0.5, c.r), vc_le(c.r, 1)));
    vc_witness(std::max(1, (int)std::ceil((float)c.r))); // the pixel in the middle is lit
    c.build(2);
    float u = vc_float("u"), v = vc_float("v");
    vc_assume(vc_and(vc_and(vc_le(0, u), vc_le(u, 1)), vc_and(vc_le(0, v), vc_le(v, 1))));
    const Image<float>* k = &c.a.get_defocus_kernel(u, v);
    const Image<float>* e = &c.a.kernel((size_t)((u < 0.5f ? 0 : 1) + (v < 0.5f ? 0 : 2)));
    vc_check(k == e, "the kernel of the nearest offset below");
}
