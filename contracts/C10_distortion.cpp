// C10: lens distortion models and their iterative inverses.
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/distortion/brown_distortion.hpp"
#include "huira/cameras/distortion/opencv_distortion.hpp"
#include "huira/cameras/distortion/owen_distortion.hpp"
#include "huira/images/image.hpp"
using namespace huira;
struct P2 { double x, y; };
static Pixel pixel(const char* n)
{
    float x = vc_float(n), y = vc_float(n);
    return Pixel{x, y};
}
// Brown-Conrady
struct Brown {
    using M = BrownDistortion<RGB>;
    BrownCoefficients k;
    Brown()
    {
        k.k1 = vc_real("k"), k.k2 = vc_real("k"), k.k3 = vc_real("k"), k.p1 = vc_real("p"), k.p2 = vc_real("p");
    }
    P2 delta(double x, double y) const
    {
        double r2 = x * x + y * y, f = k.k1 * r2 + k.k2 * r2 * r2 + k.k3 * r2 * r2 * r2;
        return {f * x + 2 * k.p1 * x * y + k.p2 * (3 * x * x + y * y), f * y + k.p1 * (x * x + 3 * y * y) + 2 * k.p2 * x * y};
    }
};
// rational radial terms, tangential terms, thin prism
struct OpenCV {
    using M = OpenCVDistortion<RGB>;
    OpenCVCoefficients k;
    OpenCV()
    {
        k.k1 = vc_real("k"), k.k2 = vc_real("k"), k.k3 = vc_real("k"), k.k4 = vc_real("k"), k.k5 = vc_real("k"), k.k6 = vc_real("k");
        k.p1 = vc_real("p"), k.p2 = vc_real("p"), k.s1 = vc_real("s"), k.s2 = vc_real("s"), k.s3 = vc_real("s"), k.s4 = vc_real("s");
    }
    double den(double r2) const { return 1 + k.k4 * r2 + k.k5 * r2 * r2 + k.k6 * r2 * r2 * r2; }
    P2 delta(double x, double y) const
    {
        double r2 = x * x + y * y, f = (1 + k.k1 * r2 + k.k2 * r2 * r2 + k.k3 * r2 * r2 * r2) / den(r2) - 1;
        return {f * x + 2 * k.p1 * x * y + k.p2 * (3 * x * x + y * y) + k.s1 * r2 + k.s2 * r2 * r2,
                f * y + k.p1 * (x * x + 3 * y * y) + 2 * k.p2 * x * y + k.s3 * r2 + k.s4 * r2 * r2};
    }
};
struct Owen {
    using M = OwenDistortion<RGB>;
    OwenCoefficients k;
    Owen()
    {
        k.e1 = vc_real("e"), k.e2 = vc_real("e"), k.e3 = vc_real("e"), k.e4 = vc_real("e"), k.e5 = vc_real("e"), k.e6 = vc_real("e");
    }
    P2 delta(double x, double y) const
    {
        double r = std::sqrt(x * x + y * y);
        double f = k.e2 * r * r + k.e4 * r * r * r * r + k.e5 * y + k.e6 * x, g = k.e1 * r + k.e3 * r * r * r;
        return {f * x - g * y, f * y + g * x};
    }
};
template <class D> static void admissible(const D& d, double x, double y)
{
    // the rational model has poles; near one the code limits the denominator
    if constexpr (std::is_same_v<D, OpenCV>) {
        double q = d.den(x * x + y * y);
        vc_assume(vc_or(vc_le(1e-10, q), vc_le(q, -1e-10)));
    }
}
template <class D> static void distorts()
{
    D d;
    const typename D::M m(d.k);
    Pixel p = pixel("p");
    admissible(d, p.x, p.y);
    P2 e = d.delta(p.x, p.y);
    const Distortion<RGB>& base = m;
    Pixel q = base.distort(p);
    vc_check(vc_and(vc_eq(q.x, p.x + e.x), vc_eq(q.y, p.y + e.y)), "the published formula");
}
VC_CONTRACT(REAL, brown) { distorts<Brown>(); }
VC_CONTRACT(REAL, opencv) { distorts<OpenCV>(); }
VC_CONTRACT(REAL, owen) { distorts<Owen>(); }
// without coefficients nothing happens, with any number of iterations and any tolerance
template <class D> static void neutral()
{
    typename D::M m;
    m.set_max_iterations((size_t)vc_range("n", 0, 1 << 30));
    m.set_tolerance(vc_float("tol"));
    Pixel p = pixel("p"), q = m.distort(p), u = m.undistort(p);
    vc_check(vc_and(vc_eq(q.x, p.x), vc_eq(q.y, p.y)), "no coefficients, no distortion");
    vc_check(vc_and(vc_eq(u.x, p.x), vc_eq(u.y, p.y)), "no coefficients, nothing to undo");
}
VC_CONTRACT(REAL, brown_neutral) { neutral<Brown>(); }
VC_CONTRACT(REAL, opencv_neutral) { neutral<OpenCV>(); }
VC_CONTRACT(REAL, owen_neutral) { neutral<Owen>(); }
// the inverse iterates u <- q - (distort(u) - u) until a step is shorter than the tolerance
template <class D, int N> static void iterates()
{
    vc_bounded("number of iterations");
    vc_option("no-fdiv");
    D d;
    typename D::M m(d.k);
    float tol = vc_float("tol");
    m.set_max_iterations(N);
    m.set_tolerance(tol);
    Pixel q = pixel("q");
    double x = q.x, y = q.y;
    bool done = false;
    for (int i = 0; i < N && !done; ++i) {
        Pixel u{(float)x, (float)y}, e = m.distort(u);
        double nx = q.x - (e.x - u.x), ny = q.y - (e.y - u.y);
        vc_check(vc_eq((double)m.get_tolerance(), tol), "tolerance");
        done = vc_split((nx - x) * (nx - x) + (ny - y) * (ny - y) < (double)tol * tol);
        x = nx, y = ny;
    }
    Pixel u = m.undistort(q);
    vc_check(vc_and(vc_eq(u.x, x), vc_eq(u.y, y)), "fixed-point iteration on the distorted point");
}
VC_CONTRACT(REAL, brown_0) { iterates<Brown, 0>(); }
VC_CONTRACT(REAL, brown_1) { iterates<Brown, 1>(); }
VC_CONTRACT(REAL, brown_2) { iterates<Brown, 2>(); }
VC_CONTRACT(REAL, opencv_1) { iterates<OpenCV, 1>(); }
VC_CONTRACT(REAL, owen_1) { iterates<Owen, 1>(); }
VC_CONTRACT(REAL, owen_2) { iterates<Owen, 2>(); }
// the centre stays where it is
template <class D> static void centre()
{
    D d;
    typename D::M m(d.k);
    m.set_max_iterations((size_t)vc_range("n", 0, 1 << 30));
    m.set_tolerance(vc_float("tol"));
    Pixel q = m.distort(Pixel{0.f, 0.f}), u = m.undistort(Pixel{0.f, 0.f});
    vc_check(vc_and(vc_eq(q.x, 0), vc_eq(q.y, 0)), "the centre is not moved");
    vc_check(vc_and(vc_eq(u.x, 0), vc_eq(u.y, 0)), "the centre is not moved");
}
VC_CONTRACT(REAL, brown_centre) { centre<Brown>(); }
VC_CONTRACT(REAL, opencv_centre) { centre<OpenCV>(); }
VC_CONTRACT(REAL, owen_centre) { centre<Owen>(); }
VC_CONTRACT(REAL, settings)
{
    BrownDistortion<RGB> m;
    float tol = vc_float("tol");
    size_t n = (size_t)vc_range("n", 0, 1 << 30);
    m.set_tolerance(tol);
    m.set_max_iterations(n);
    vc_check(m.get_max_iterations() == n && vc_eq(m.get_tolerance(), tol), "settings are kept");
}
