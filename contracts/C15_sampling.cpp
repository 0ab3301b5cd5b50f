// C15: sampling of directions, tangent frames, ray origins, samplers.
#include "any.h"
#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/materials/sampling_utils.hpp"
#include "huira/render/interaction.hpp"
#include "huira/render/sampler.hpp"
using namespace huira;
namespace {
template <class T> T any_value(const char* n) { if constexpr (std::is_same_v<T, float>) return vc_float(n); else return vc_real(n); }
using V = Vec3<float>;
const double pi = PI<float>();
double dotd(const V& a, const V& b) { return (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z; }
bool is(const V& a, double x, double y, double z) { return vc_and(vc_eq(a.x, x), vc_and(vc_eq(a.y, y), vc_eq(a.z, z))); }
struct U {
    float u1 = vc_float("u1"), u2 = vc_float("u2");
    U() { vc_assume(vc_and(vc_and(vc_le(0, u1), vc_lt(u1, 1)), vc_and(vc_le(0, u2), vc_lt(u2, 1)))); }
};
// a direction over the plane with azimuth 2 pi u2
void hemisphere(const V& d, float u2)
{
    vc_check(vc_eq(dotd(d, d), 1), "unit vector");
    vc_check(vc_le(0, d.z), "over the plane");
    double a = 2 * pi * u2, s = std::sqrt(1 - (double)d.z * d.z);
    vc_check(vc_and(vc_eq(d.x, s * std::cos(a)), vc_eq(d.y, s * std::sin(a))), "azimuth is spread evenly");
}
}
// The share of samples closer to the axis than d is |integral of the density|: with the azimuth spread evenly over 2 pi,
// a density p(z) means that the antiderivative of 2 pi p equals u1 (or 1 - u1) at every sample.
VC_CONTRACT(REAL, uniform)
{
    U u;
    auto s = sampling::uniform_hemisphere(u.u1, u.u2);
    hemisphere(s.direction, u.u2);
    vc_check(vc_eq(s.pdf, 1 / (2 * pi)), "density one over two pi");
    vc_check(vc_or(vc_eq(s.direction.z, u.u1), vc_eq(s.direction.z, 1 - (double)u.u1)), "samples are spread with that density");
}
VC_CONTRACT(REAL, cosine)
{
    U u;
    auto s = sampling::cosine_hemisphere(u.u1, u.u2);
    hemisphere(s.direction, u.u2);
    double z = s.direction.z;
    vc_check(vc_eq(s.pdf, z / pi), "density cosine over pi");
    vc_check(vc_or(vc_eq(z * z, 1 - (double)u.u1), vc_eq(z * z, u.u1)), "samples are spread with that density");
}
VC_CONTRACT(REAL, power_cosine)
{
    U u;
    float n = vc_float("n");
    vc_assume(vc_and(vc_le(0, n), vc_lt(0, u.u1)));
    auto s = sampling::power_cosine_hemisphere(u.u1, u.u2, n);
    double z = s.direction.z;
    vc_check(vc_eq(s.pdf, (n + 1.0) / (2 * pi) * std::pow(z, (double)n)), "density (n+1) cosine^n over two pi");
    vc_check(vc_eq(std::pow(z, n + 1.0), u.u1), "samples are spread with that density");
    hemisphere(s.direction, u.u2);
}
// density proportional to the sine of the angle from the axis, which leans towards the horizon
VC_CONTRACT(REAL, sine)
{
    U u;
    auto s = sampling::sine_hemisphere(u.u1, u.u2);
    hemisphere(s.direction, u.u2);
    double z = s.direction.z, sn = std::sqrt(1 - z * z), p = 2 * sn / (pi * pi);
    vc_check(vc_eq(s.pdf, p < 1e-8f ? 1e-8f : p), "density proportional to the sine");
}
VC_CONTRACT(REAL, sine_spread)
{
    U u;
    auto s = sampling::sine_hemisphere(u.u1, u.u2);
    double z = s.direction.z, c = 2 / pi * (std::acos(z) - std::sqrt(1 - z * z) * z);
    vc_check(vc_or(vc_eq(c, u.u1), vc_eq(c, 1 - (double)u.u1)), "samples are spread with that density");
}
VC_CONTRACT(REAL, ggx)
{
    U u;
    float r = vc_float("roughness");
    vc_assume(vc_and(vc_lt(0, r), vc_le(r, 1)));
    auto s = sampling::ggx_sample_half_vector(u.u1, u.u2, r);
    hemisphere(s.half_vector, u.u2);
    double z = s.half_vector.z, a2 = (double)r * r * (r * r), q = z * z * (a2 - 1) + 1, p = a2 / (pi * (q * q)) * z;
    vc_check(vc_eq(s.pdf, p < 1e-8f ? 1e-8f : p), "density of the GGX distribution");
    // antiderivative of 2 pi p: (1 - z^2) / (z^2 (a2 - 1) + 1), up to its sign
    vc_check(vc_eq(1 - z * z, u.u1 * q), "samples are spread with that density");
}
VC_CONTRACT(REAL, visible)
{
    vc_option("no-domain"), vc_option("no-fdiv"); // the half vector is a sum of perpendicular unit vectors stretched: never zero
    U u;
    float r = vc_float("roughness");
    vc_assume(vc_and(vc_lt(0, r), vc_le(r, 1)));
    V wo = vc::unit3f("wo");
    vc_assume(vc_lt(1e-4, wo.z));
    auto s = sampling::ggx_vndf_sample(wo, r, u.u1, u.u2);
    V h = s.half_vector;
    vc_check(vc_eq(dotd(h, h), 1), "unit vector");
    vc_check(vc_le(0, h.z), "over the plane");
    double z = h.z, a2 = (double)r * r * (r * r), q = z * z * (a2 - 1) + 1, oh = dotd(wo, h);
    const double tiny = 1e-8f;
    double c2 = (double)wo.z * wo.z, G1 = 1 / (1 + (-1 + std::sqrt(1 + a2 * ((1 - c2) / std::max(c2, tiny)))) * 0.5);
    double p = a2 / (pi * q * q) * G1 * std::max(oh, 0.0) / std::max(std::abs((double)wo.z), tiny);
    vc_check(vc_eq(s.pdf, std::max(p, tiny)), "density of visible normals");
}
// ---- frames
VC_CONTRACT(REAL, frame)
{
    V n = vc::unit3f("n"), t, b;
    build_default_tangent_frame(n, t, b);
    vc_check(vc_and(vc_eq(dotd(t, t), 1), vc_eq(dotd(b, b), 1)), "unit vectors");
    vc_check(vc_and(vc_eq(dotd(t, b), 0), vc_and(vc_eq(dotd(t, n), 0), vc_eq(dotd(b, n), 0))), "perpendicular");
    vc_check(is(n, (double)t.y * b.z - (double)t.z * b.y, (double)t.z * b.x - (double)t.x * b.z, (double)t.x * b.y - (double)t.y * b.x), "right-handed");
}
VC_CONTRACT(REAL, frame_change)
{
    V t = vc::vec3f("t"), b = vc::vec3f("b"), n = vc::vec3f("n"), v = vc::vec3f("v");
    V w = sampling::local_to_world(v, t, b, n), l = sampling::world_to_local(v, t, b, n);
    vc_check(is(w, (double)v.x * t.x + (double)v.y * b.x + (double)v.z * n.x, (double)v.x * t.y + (double)v.y * b.y + (double)v.z * n.y, (double)v.x * t.z + (double)v.y * b.z + (double)v.z * n.z), "sum of the axes");
    vc_check(is(l, dotd(v, t), dotd(v, b), dotd(v, n)), "components along the axes");
}
VC_CONTRACT(REAL, frame_inverse)
{
    V n = vc::unit3f("n"), v = vc::vec3f("v"), t, b;
    build_default_tangent_frame(n, t, b);
    V w = sampling::world_to_local(sampling::local_to_world(v, t, b, n), t, b, n);
    vc_check(is(w, v.x, v.y, v.z), "to the world and back");
    V l = sampling::local_to_world(sampling::world_to_local(v, t, b, n), t, b, n);
    vc_check(is(l, v.x, v.y, v.z), "from the world and back");
}
// ---- leaving a surface: every coordinate moves with the normal, and by little
template <class T> static void offset(int axis)
{
    T p = any_value<T>("p"), n = any_value<T>("n");
    const T big = std::numeric_limits<T>::max() / 4, first = T(std::is_same_v<T, float> ? 1. / 4096 : 1. / 1048576);
    vc_assume(vc_and(vc_and(vc_le(-big, p), vc_le(p, big)), vc_and(vc_le(T(-1), n), vc_le(n, T(1)))));
    Vec3<T> P(0), N(0);
    P[axis] = p, N[axis] = n;
    Vec3<T> r = offset_intersection_<T>(P, N);
    T q = r[axis];
    vc_check(vc_or(vc_lt(n, T(0)), vc_le(p, q)), "never against the normal");
    vc_check(vc_or(vc_lt(T(0), n), vc_le(q, p)), "never against the normal");
    vc_check(vc_or(vc_lt(n, T(1. / 128)), vc_lt(p, q)), "off the surface");
    vc_check(vc_or(vc_lt(T(-1. / 128), n), vc_lt(q, p)), "off the surface");
    T m = std::abs(p) < T(1) ? T(1) : std::abs(p), d = q - p;
    vc_check(vc_and(vc_le(-m * first, d), vc_le(d, m * first)), "by a small part of the distance from the origin");
}
VC_CONTRACT(FP, offset_fx) { offset<float>(0); }
VC_CONTRACT(FP, offset_fy) { offset<float>(1); }
VC_CONTRACT(FP, offset_fz) { offset<float>(2); }
VC_CONTRACT(FP, offset_dx) { offset<double>(0); }
VC_CONTRACT(FP, offset_dy) { offset<double>(1); }
VC_CONTRACT(FP, offset_dz) { offset<double>(2); }
// ---- samplers
VC_CONTRACT(REAL, deterministic)
{
    float a = vc_float("a"), b = vc_float("b"), c = vc_float("c");
    DeterministicSampler<float> s(a, Vec2<float>(b, c)), h;
    for (int i = 0; i < 2; ++i) {
        vc_check(vc_eq(s.get_1d(), a), "the value it was given");
        Vec2<float> v = s.get_2d();
        vc_check(vc_and(vc_eq(v.x, b), vc_eq(v.y, c)), "the pair it was given");
    }
    Vec2<float> v = h.get_2d();
    vc_check(vc_and(vc_eq(h.get_1d(), 0.5), vc_and(vc_eq(v.x, 0.5), vc_eq(v.y, 0.5))), "the middle by default");
}
