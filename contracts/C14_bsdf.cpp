// C14: reflectance models.
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/lommel_seeliger_bsdf.hpp"
#include "huira/materials/bsdfs/mcewen_bsdf.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
#include "huira/materials/bsdfs/hapke_bsdf.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
using namespace huira;
namespace {
using V = Vec3<float>;
const double pi = PI<float>();
double clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
double dotd(const V& a, const V& b) { return (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z; }
ShadingParams<RGB> any_params(bool clamped = true)
{
    ShadingParams<RGB> p;
    for (size_t i = 0; i < 3; ++i) {
        p.albedo[i] = vc_float("albedo");
        vc_assume(vc_and(vc_le(0, p.albedo[i]), vc_le(p.albedo[i], 1)));
    }
    p.roughness = vc_float("roughness"), p.metallic = vc_float("metallic");
    if (clamped) vc_assume(vc_and(vc_and(vc_le(0, p.roughness), vc_le(p.roughness, 1)), vc_and(vc_le(0, p.metallic), vc_le(p.metallic, 1))));
    return p;
}
// two directions over a surface with normal n; the models that need no more than the cosines get any vectors
struct Dirs {
    V wo, wi;
    Interaction<RGB> is{};
    double ci, co;
    Dirs(bool unit)
    {
        if (unit) is.normal_s = V(0, 0, 1), wo = vc::unit3f("wo"), wi = vc::unit3f("wi");
        else is.normal_s = vc::vec3f("n"), wo = vc::vec3f("wo"), wi = vc::vec3f("wi");
        ci = dotd(wi, is.normal_s), co = dotd(wo, is.normal_s);
    }
    void above() { vc_assume(vc_and(vc_lt(0, ci), vc_lt(0, co))); }
    void below() { vc_assume(vc_or(vc_le(ci, 0), vc_le(co, 0))); }
};
bool is(const RGB& v, double a, double b, double c) { return vc_and(vc_eq(v[0], a), vc_and(vc_eq(v[1], b), vc_eq(v[2], c))); }
bool same(const RGB& v, const RGB& w) { return is(v, w[0], w[1], w[2]); }
bool nonneg(const RGB& v) { return vc_and(vc_le(0, v[0]), vc_and(vc_le(0, v[1]), vc_le(0, v[2]))); }
// nothing is reflected to or from below the surface, and such directions are never sampled
void dark(const BSDF<RGB>& f, bool unit)
{
    Dirs d(unit);
    auto p = any_params();
    d.below();
    vc_check(is(f.eval(d.wo, d.wi, d.is, p), 0, 0, 0), "no light through the surface");
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), 0), "no sample below the surface");
}
// Helmholtz reciprocity
void reciprocal(const BSDF<RGB>& f, bool unit)
{
    Dirs d(unit);
    auto p = any_params();
    d.above();
    vc_check(same(f.eval(d.wo, d.wi, d.is, p), f.eval(d.wi, d.wo, d.is, p)), "the same both ways");
}
// a sample carries eval * cos / pdf and the density pdf of its direction, a unit vector above the surface
struct Sampled {
    V wo = vc::unit3f("wo");
    Interaction<RGB> is{};
    ShadingParams<RGB> p = any_params();
    float u1 = vc_float("u1"), u2 = vc_float("u2");
    Sampled()
    {
        vc_assume(vc_and(vc_and(vc_le(0, u1), vc_lt(u1, 1)), vc_and(vc_le(0, u2), vc_lt(u2, 1))));
        is.tangent = V(1, 0, 0), is.bitangent = V(0, 1, 0), is.normal_s = V(0, 0, 1);
    }
};
void sampled(const BSDF<RGB>& f)
{
    Sampled s;
    BSDFSample<RGB> r = f.sample(s.wo, s.is, s.p, s.u1, s.u2);
    vc_check(vc_or(vc_eq(r.pdf, 0), vc_and(vc_lt(0, r.pdf), vc_lt(0, r.wi.z))), "a valid sample points away from the surface");
    vc_check(r.is_valid() == (r.pdf > 0), "valid means a positive density");
    vc_check(r.is_delta == false, "not a mirror");
    if (vc_split(r.pdf > 0)) {
        vc_check(vc_eq(dotd(r.wi, r.wi), 1), "a unit vector");
        vc_check(vc_eq(r.pdf, f.pdf(s.wo, r.wi, s.is, s.p)), "the density of its direction");
        RGB e = f.eval(s.wo, r.wi, s.is, s.p);
        for (size_t i = 0; i < 3; ++i) vc_check(vc_eq((double)r.value[i] * r.pdf, (double)e[i] * r.wi.z), "value times cosine over density");
    } else {
        vc_check(is(r.value, 0, 0, 0), "no light in an invalid sample");
    }
}
struct AnyHapke {
    float h = vc_float("h"), B0 = vc_float("B0"), b = vc_float("b"), c = vc_float("c");
    AnyHapke()
    {
        vc_assume(vc_and(vc_le(0, h), vc_and(vc_le(0, B0), vc_and(vc_le(0, b), vc_and(vc_lt(b, 1), vc_and(vc_le(0, c), vc_le(c, 1)))))));
    }
};
}
// ---- Lambert
VC_CONTRACT(REAL, lambert)
{
    Dirs d(false);
    auto p = any_params();
    LambertianBSDF<RGB> f;
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    double k = d.ci <= 0 ? 0.0 : 1.0;
    vc_check(is(v, p.albedo[0] * k / pi, p.albedo[1] * k / pi, p.albedo[2] * k / pi), "albedo over pi");
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), d.ci <= 0 ? 0.0 : d.ci / pi), "cosine over pi");
}
VC_CONTRACT(REAL, lambert_sample) { LambertianBSDF<RGB> f; sampled(f); }
// every weight is the albedo: no more light leaves than comes in
VC_CONTRACT(REAL, lambert_energy)
{
    Sampled s;
    LambertianBSDF<RGB> f;
    auto r = f.sample(s.wo, s.is, s.p, s.u1, s.u2);
    for (size_t i = 0; i < 3; ++i) vc_check(vc_and(vc_le(0, r.value[i]), vc_le(r.value[i], s.p.albedo[i])), "reflects no more than the albedo");
}
// ---- Lommel-Seeliger
VC_CONTRACT(REAL, lommel)
{
    Dirs d(false);
    auto p = any_params();
    d.above();
    LommelSeeligerBSDF<RGB> f;
    double k = 4 * pi * (d.ci + d.co);
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    vc_check(is(v, p.albedo[0] / k, p.albedo[1] / k, p.albedo[2] / k), "the published formula");
    vc_check(nonneg(v), "not negative");
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), d.ci / pi), "cosine over pi");
}
VC_CONTRACT(REAL, lommel_dark) { LommelSeeligerBSDF<RGB> f; dark(f, false); }
VC_CONTRACT(REAL, lommel_reciprocal) { LommelSeeligerBSDF<RGB> f; reciprocal(f, false); }
VC_CONTRACT(REAL, lommel_sample) { LommelSeeligerBSDF<RGB> f; sampled(f); }
// ---- McEwen
VC_CONTRACT(REAL, mcewen)
{
    Dirs d(true);
    auto p = any_params();
    d.above();
    McEwenBSDF<RGB> f;
    double c = dotd(d.wi, d.wo), a = std::acos(c < -1 ? -1 : c > 1 ? 1 : c), beta = std::exp(-(a * 3 / pi));
    double k = (1 - beta) / pi + beta / (4 * pi * (d.ci + d.co));
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    vc_check(is(v, p.albedo[0] * k, p.albedo[1] * k, p.albedo[2] * k), "blend of Lambert and Lommel-Seeliger by phase angle");
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), d.ci / pi), "cosine over pi");
}
VC_CONTRACT(REAL, mcewen_dark) { McEwenBSDF<RGB> f; dark(f, true); }
VC_CONTRACT(REAL, mcewen_reciprocal) { McEwenBSDF<RGB> f; reciprocal(f, true); }
VC_CONTRACT(REAL, mcewen_sample) { McEwenBSDF<RGB> f; sampled(f); }
// ---- Oren-Nayar
VC_CONTRACT(REAL, oren)
{
    Dirs d(true);
    auto p = any_params();
    d.above();
    OrenNayarBSDF<RGB> f;
    double s = p.roughness * (pi / 2), s2 = s * s, A = 1 - 0.5 * (s2 / (s2 + 0.33)), B = 0.45 * (s2 / (s2 + 0.09));
    double across = dotd(d.wi, d.wo) - d.ci * d.co, m = d.ci < d.co ? d.co : d.ci; // sin sin cos of the azimuth between
    vc_assume(vc_lt(1e-6, m));
    double k = (A + B * (across > 0 ? across / m : 0.0)) / pi;
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    vc_check(is(v, p.albedo[0] * k, p.albedo[1] * k, p.albedo[2] * k), "the published formula");
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), d.ci / pi), "cosine over pi");
}
VC_CONTRACT(REAL, oren_smooth)
{
    Dirs d(true);
    auto p = any_params();
    p.roughness = 0;
    d.above();
    OrenNayarBSDF<RGB> f;
    LambertianBSDF<RGB> g;
    vc_check(same(f.eval(d.wo, d.wi, d.is, p), g.eval(d.wo, d.wi, d.is, p)), "smooth is Lambert");
}
VC_CONTRACT(REAL, oren_dark) { OrenNayarBSDF<RGB> f; dark(f, true); }
VC_CONTRACT(REAL, oren_reciprocal) { OrenNayarBSDF<RGB> f; reciprocal(f, true); }
VC_CONTRACT(REAL, oren_sample) { OrenNayarBSDF<RGB> f; sampled(f); }
// ---- Hapke
VC_CONTRACT(REAL, hapke)
{
    Dirs d(true);
    auto p = any_params();
    d.above();
    AnyHapke a;
    vc_assume(vc_lt(0, a.h));
    HapkeBSDF<RGB> f(a.h, a.B0, a.b, a.c);
    double c = dotd(d.wi, d.wo);
    c = c < -1 ? -1 : c > 1 ? 1 : c;
    double t = std::tan(std::acos(c) * 0.5);
    double b2 = (double)a.b * a.b;
    double P = (1 - a.c) * ((1 - b2) / std::pow(1 + b2 + 2 * a.b * c, 1.5)) + a.c * ((1 - b2) / std::pow(1 + b2 - 2 * a.b * c, 1.5));
    double B = a.B0 / (1 + t / a.h);
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    for (size_t i = 0; i < 3; ++i) {
        double w = p.albedo[i], g = std::sqrt(1 - w);
        double Hi = (1 + 2 * d.ci) / (1 + 2 * d.ci * g), Ho = (1 + 2 * d.co) / (1 + 2 * d.co * g);
        vc_check(vc_eq(v[i], w / (4 * pi * (d.ci + d.co)) * ((1 + B) * P - 1 + Hi * Ho)), "the published formula");
    }
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), d.ci / pi), "cosine over pi");
}
VC_CONTRACT(REAL, hapke_dark) { AnyHapke a; HapkeBSDF<RGB> f(a.h, a.B0, a.b, a.c); dark(f, true); }
VC_CONTRACT(REAL, hapke_reciprocal) { vc_option("no-domain"), vc_option("no-fdiv"); AnyHapke a; HapkeBSDF<RGB> f(a.h, a.B0, a.b, a.c); reciprocal(f, true); }
VC_CONTRACT(REAL, hapke_sample) { vc_option("no-domain"), vc_option("no-fdiv"); AnyHapke a; HapkeBSDF<RGB> f(a.h, a.B0, a.b, a.c); sampled(f); }
// ---- Cook-Torrance
VC_CONTRACT(REAL, cook)
{
    Dirs d(true);
    auto p = any_params(false);
    d.above();
    vc_assume(vc_and(vc_le(1e-4, d.ci), vc_le(1e-4, d.co)));
    CookTorranceBSDF<RGB> f;
    double r = clip(p.roughness, 0.01, 1), a2 = (r * r) * (r * r), m = clip(p.metallic, 0, 1); // both are clamped
    V h = glm::normalize(d.wo + d.wi);
    double ch = dotd(d.is.normal_s, h), oh = dotd(d.wo, h);
    ch = ch < 0 ? 0 : ch, oh = oh < 0 ? 0 : oh;
    double q = ch * ch * (a2 - 1) + 1, D = a2 / (pi * q * q);
    auto G1 = [&](double c) { return 2 / (1 + std::sqrt(1 + a2 * ((1 - c * c) / (c * c)))); };
    double t = 1 - oh, t5 = t * t * (t * t) * t;
    RGB v = f.eval(d.wo, d.wi, d.is, p);
    for (size_t i = 0; i < 3; ++i) {
        double f0 = p.albedo[i] * m + 0.04 * (1 - m), F = f0 + (1 - f0) * t5;
        vc_check(vc_eq(v[i], p.albedo[i] * ((1 - m) / pi) + F * (D * (G1(d.co) * G1(d.ci)) / (4 * d.co * d.ci))), "GGX, Smith and Schlick over a diffuse base");
    }
    double w = 0.5 * (1 + m);
    vc_check(vc_eq(f.pdf(d.wo, d.wi, d.is, p), w * (D * G1(d.co) / (4 * d.co)) + (1 - w) * (d.ci / pi)), "mixture of the two densities");
}
VC_CONTRACT(REAL, cook_dark) { CookTorranceBSDF<RGB> f; dark(f, true); }
// exchanging the directions changes nothing in the formula above but the angle to the half vector, and that is the same
VC_CONTRACT(REAL, cook_reciprocal)
{
    Dirs d(true);
    d.above();
    V h = glm::normalize(d.wo + d.wi), g = glm::normalize(d.wi + d.wo);
    vc_check(vc_eq(dotd(d.wo, h), dotd(d.wi, g)), "the half vector lies midway");
}
VC_CONTRACT(REAL, cook_sample) { vc_option("no-domain"), vc_option("no-fdiv"); CookTorranceBSDF<RGB> f; sampled(f); }
// ---- Null
VC_CONTRACT(REAL, null)
{
    Sampled s;
    NullBSDF<RGB> f;
    auto r = f.sample(s.wo, s.is, s.p, s.u1, s.u2);
    vc_check(vc_and(vc_eq(r.wi.x, -s.wo.x), vc_and(vc_eq(r.wi.y, -s.wo.y), vc_eq(r.wi.z, -s.wo.z))), "straight on");
    vc_check(vc_and(is(r.value, 1, 1, 1), vc_eq(r.pdf, 1)), "unattenuated");
    vc_check(r.is_delta && r.is_valid(), "a single direction");
    V wi = vc::vec3f("wi");
    vc_check(is(f.eval(s.wo, wi, s.is, s.p), 0, 0, 0), "no other direction");
    vc_check(vc_eq(f.pdf(s.wo, wi, s.is, s.p), 0), "no other direction");
}
// in float arithmetic: head on, with every roughness, the highlight is finite and the sample weight a number
VC_CONTRACT(FP, cook_polished)
{
    ShadingParams<RGB> p;
    p.albedo = RGB{1.f}, p.metallic = 1, p.roughness = vc_float("roughness");
    vc_assume(vc_and(vc_le(0.f, p.roughness), vc_le(p.roughness, 1.f)));
    Interaction<RGB> is{};
    is.normal_s = V(0, 0, 1);
    CookTorranceBSDF<RGB> f;
    V d(0, 0, 1);
    RGB v = f.eval(d, d, is, p);
    float q = f.pdf(d, d, is, p);
    vc_check(vc_and(vc_lt(0.f, v[0]), vc_lt(v[0], 1e9f)), "finite highlight");
    vc_check(vc_and(vc_lt(0.f, q), vc_lt(q, 1e9f)), "finite density");
}
