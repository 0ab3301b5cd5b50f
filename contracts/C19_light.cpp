// C19: lights, and objects too small to resolve.
#include <algorithm>
#include <vector>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include "huira/huira.hpp"
using namespace huira;
namespace {
double magnitude;
}
// Its own contract is in C06.
template <> RGB huira::visual_magnitude_to_irradiance<RGB>(double m, RGB albedo) { return magnitude = m, albedo; }
namespace {
using V = Vec3<float>;
const double pi = PI<float>();
struct Given : RandomSampler<float> {
    float a = vc_float("a"), b = vc_float("b");
    int asked = 0;
    Given() : RandomSampler<float>(1u) { vc_assume(vc_and(vc_and(vc_le(0, a), vc_lt(a, 1)), vc_and(vc_le(0, b), vc_lt(b, 1)))); }
    float get_1d() override { return asked++ == 0 ? a : b; }
    Vec2<float> get_2d() override { return {a, b}; }
};
RGB any_rgb(const char* n)
{
    RGB r;
    for (size_t i = 0; i < 3; ++i) r[i] = vc_float(n), vc_assume(vc_le(0, r[i]));
    return r;
}
double dot(const V& a, const V& b) { return (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z; }
Transform<float> at(const V& p)
{
    Transform<float> t;
    t.position = p;
    return t;
}
float any_radius()
{
    float r = vc_float("radius");
    vc_assume(vc_lt(1e-5, r));
    return r;
}
}
VC_CONTRACT(REAL, radius)
{
    double r = vc_real("radius");
    SphereLight<RGB> l(units::Meter(r), units::SpectralWatts<RGB>(any_rgb("power")));
    vc_check(vc_eq(l.radius().to_si(), r < 1e-5f ? 1e-5f : r), "the radius, 10 micrometres at the least");
}
VC_CONTRACT(REAL, spectral_power)
{
    RGB p = any_rgb("power");
    float r = any_radius();
    SphereLight<RGB> l(units::Meter((double)r), units::SpectralWatts<RGB>(p));
    V x = vc::vec3f("x"), w = vc::vec3f("w"), q = vc::vec3f("q"), o = vc::vec3f("o");
    RGB e = l.irradiance_at(q, at(o)), s = l.radiance(x, w);
    V d = o - q;
    double d2 = dot(d, d);
    for (size_t i = 0; i < 3; ++i) {
        vc_check(vc_eq(s[i] * (4 * pi * pi * r * r), p[i]), "the surface emits the power");
        if (d2 > (double)r * r) vc_check(vc_eq(e[i] * (4 * pi * d2), p[i]), "the power is spread over the sphere at this distance");
        else vc_check(vc_eq(e[i], 0), "no light inside");
    }
}
VC_CONTRACT(REAL, radiance)
{
    RGB p = any_rgb("radiance");
    float r = any_radius();
    SphereLight<RGB> l(units::Meter((double)r), units::SpectralWattsPerMeterSquaredSteradian<RGB>(p));
    RGB s = l.radiance(vc::vec3f("x"), vc::vec3f("w"));
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(s[i], p[i]), "the radiance in every direction");
}
VC_CONTRACT(REAL, power)
{
    double p = vc_real("power");
    float r = any_radius();
    double sum = 0;
    if (!vc::throws([&] {
            SphereLight<RGB> l(units::Meter((double)r), units::Watt(p));
            RGB s = l.radiance(vc::vec3f("x"), vc::vec3f("w"));
            sum = (double)s[0] + s[1] + s[2];
        })) {
        vc_check(vc_le(0, p), "negative power is rejected");
        vc_check(vc_eq(sum * (4 * pi * pi * r * r), p), "the power in all bins together");
    } else
        vc_check(vc_lt(p, 0), "valid power is accepted");
}
namespace {
struct Lit {
    float r = any_radius();
    RGB L = any_rgb("radiance");
    SphereLight<RGB> l{units::Meter((double)r), units::SpectralWattsPerMeterSquaredSteradian<RGB>(L)};
    V o = vc::vec3f("o"), p = vc::vec3f("p");
    Interaction<RGB> x;
    Given g;
    V c = o - p;
    Lit() { x.position = p; }
};
}
VC_CONTRACT(REAL, inside)
{
    Lit t;
    vc_assume(vc_le(dot(t.c, t.c), (double)t.r * t.r));
    vc_check(!t.l.sample_li(t.x, at(t.o), t.g), "no light inside");
    vc_check(vc_eq(t.l.pdf_li(t.x, at(t.o), vc::vec3f("w")), 0), "no density inside");
}
VC_CONTRACT(REAL, sample)
{
    Lit t;
    double d2 = dot(t.c, t.c), d = std::sqrt(d2);
    vc_assume(vc_lt((double)t.r * t.r, d2));
    auto s = t.l.sample_li(t.x, at(t.o), t.g);
    vc_check(s.has_value(), "light outside");
    if (!s) return;
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(s->Li[i], t.L[i]), "its radiance");
    double m = std::sqrt(1 - (double)t.r * t.r / d2), cosine = (1 - (double)t.g.a) + t.g.a * m;
    vc_check(vc_eq(dot(t.c, s->wi), d * cosine), "evenly spread over the cone");
    vc_check(vc_eq(dot(s->wi, s->wi), 1), "a unit direction");
    double solid = 2 * pi * (1 - m);
    vc_check(vc_eq(s->pdf * (solid < 1e-7 ? pi * t.r * t.r / d2 : solid), 1), "one over the solid angle");
}
VC_CONTRACT(REAL, pdf)
{
    Lit t;
    V w = vc::vec3f("w");
    double d2 = dot(t.c, t.c), d = std::sqrt(d2);
    vc_assume(vc_lt((double)t.r * t.r, d2));
    double m = std::sqrt(1 - (double)t.r * t.r / d2), solid = 2 * pi * (1 - m);
    float p = t.l.pdf_li(t.x, at(t.o), w);
    if (dot(t.c, w) < d * m) vc_check(vc_eq(p, 0), "none beside the light");
    else vc_check(vc_eq(p * (solid < 1e-7 ? pi * t.r * t.r / d2 : solid), 1), "one over the solid angle");
}
VC_CONTRACT(REAL, distance)
{
    vc_option("no-fdiv"), vc_option("no-domain"); // see sample
    Lit t;
    float d2 = glm::dot(t.c, t.c);
    vc_assume(vc_lt((double)t.r * t.r, d2));
    auto s = t.l.sample_li(t.x, at(t.o), t.g);
    if (!s) return;
    // The nearer of the distances x with |x wi - c| = r; wi is a unit vector (see sample).
    float b = glm::dot(t.c, s->wi);
    vc_check(vc_eq(s->distance, b - std::sqrt(std::max(0.0f, b * b - d2 + t.r * t.r))), "to the near side of the light");
}
// ---- unresolved
VC_CONTRACT(REAL, object)
{
    RGB p = any_rgb("irradiance");
    double w = vc_real("w");
    UnresolvedObject<RGB> o{units::SpectralWattsPerMeterSquared<RGB>(p)};
    o.resolve_irradiance(at(vc::vec3f("p")), {});
    RGB e = o.get_irradiance(Time{});
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(e[i], p[i]), "the irradiance wherever it is");
    if (!vc::throws([&] { o.set_irradiance(units::WattsPerMeterSquared(w)); })) {
        vc_check(vc_le(0, w), "negative irradiance is rejected");
        e = o.get_irradiance(Time{});
        vc_check(vc_eq((double)e[0] + e[1] + e[2], w), "the irradiance in all bins together");
    } else {
        vc_check(vc_lt(w, 0), "valid irradiance is accepted");
        e = o.get_irradiance(Time{});
        for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(e[i], p[i]), "the irradiance before");
    }
}
VC_CONTRACT(REAL, object_valid)
{
    RGB p;
    bool ok = true;
    for (size_t i = 0; i < 3; ++i) p[i] = vc_float("p"), ok = vc_and(ok, vc_le(0, p[i]));
    bool t = vc::throws([&] { UnresolvedObject<RGB> o{units::SpectralWattsPerMeterSquared<RGB>(p)}; });
    vc_check(t == !ok, "exactly valid irradiance is accepted");
    t = vc::throws([&] { UnresolvedEmitter<RGB> o{units::SpectralWatts<RGB>(p)}; });
    vc_check(t == !ok, "exactly valid power is accepted");
}
VC_CONTRACT(REAL, emitter)
{
    RGB p = any_rgb("power");
    V o = vc::vec3f("o");
    double d2 = dot(o, o);
    vc_assume(vc_lt(0, d2));
    UnresolvedEmitter<RGB> u{units::SpectralWatts<RGB>(p)};
    u.resolve_irradiance(at(o), {});
    RGB e = u.get_irradiance(Time{});
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(e[i] * (4 * pi * d2), p[i]), "the power is spread over the sphere at this distance");
    double w = vc_real("w");
    vc_assume(vc_le(0, w));
    u.set_spectral_power(units::Watt(w));
    u.resolve_irradiance(at(o), {});
    e = u.get_irradiance(Time{});
    vc_check(vc_eq(((double)e[0] + e[1] + e[2]) * (4 * pi * d2), w), "the power in all bins together");
}
namespace {
struct Lamp : Light<RGB> { // irradiance of one given source
    RGB e = any_rgb("incident");
    mutable V asked{}, asked_from{};
    std::optional<LightSample<RGB>> sample_li(const Interaction<RGB>&, const Transform<float>&, Sampler<float>&) const override { return {}; }
    float pdf_li(const Interaction<RGB>&, const Transform<float>&, const V&) const override { return 0; }
    RGB radiance(const V&, const V&) const override { return e; }
    RGB irradiance_at(const V& p, const Transform<float>& t) const override { return asked = p, asked_from = t.position, e; }
    LightType get_type() const override { return LightType::Sphere; }
};
struct Seen {
    std::shared_ptr<Lamp> lamp = std::make_shared<Lamp>(), other = std::make_shared<Lamp>();
    std::shared_ptr<Instance<RGB>> node = std::make_shared<Instance<RGB>>(nullptr, Instantiable<RGB>((Light<RGB>*)lamp.get()));
    InstanceHandle<RGB> handle{node};
    V p = vc::vec3f("p"), l = vc::vec3f("l");
    double d = std::sqrt(dot(p, p)), r = 0;
    V c = l - p;
    std::vector<LightInstance<RGB>> lights;
    Seen()
    {
        r = std::sqrt(dot(c, c));
        vc_assume(vc_and(vc_lt(0, d), vc_lt(0, r)));
        lights.push_back({other, {at(vc::vec3f("other"))}});
        lights.push_back({lamp, {at(l)}});
    }
};
}
VC_CONTRACT(REAL, sphere)
{
    Seen& t = *new Seen;
    float radius = any_radius();
    RGB a = any_rgb("albedo");
    for (size_t i = 0; i < 3; ++i) vc_assume(vc_le(a[i], 1));
    UnresolvedLambertianSphere<RGB>& u = *new UnresolvedLambertianSphere<RGB>(units::Meter((double)radius), t.handle, a);
    V view = -t.p / glm::length(t.p), light = glm::normalize(t.l - t.p);
    float k = std::clamp(glm::dot(view, light), -1.f, 1.f); // also if rounded beyond
    double phase = std::acos(k), f = (std::sin(phase) + (pi - phase) * std::cos(phase)) / pi;
    vc_assume(vc_le(0, f));
    u.resolve_irradiance(at(t.p), t.lights);
    RGB e = u.get_irradiance(Time{});
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(e[i] * t.d * t.d, (double)a[i] * t.lamp->e[i] * radius * radius * f / 1.5), "reflects the albedo of the light that meets it");
    vc_check(vc_eq(t.lamp->asked.x, t.p.x) && vc_eq(t.lamp->asked_from.z, t.l.z), "lit where it is");
    t.lights.pop_back();
    vc_check(vc::throws([&] { u.resolve_irradiance(at(t.p), t.lights); }), "a light not in view is an error");
}
VC_CONTRACT(REAL, asteroid)
{
    Seen& t = *new Seen;
    double H = vc_real("H"), G = vc_real("G");
    vc_assume(vc_and(vc_lt(0, G), vc_lt(G, 1)));
    RGB a = any_rgb("albedo");
    for (size_t i = 0; i < 3; ++i) vc_assume(vc_le(a[i], 1));
    UnresolvedAsteroid<RGB>& u = *new UnresolvedAsteroid<RGB>(H, G, t.handle, a);
    Vec3<double> view = Vec3<double>(-t.p) / t.d, light = Vec3<double>(t.l - t.p) / t.r;
    double k = std::max(-1.0, std::min(1.0, glm::dot(light, view)));
    double half = std::tan(std::acos(k) / 2), one = std::exp(-3.33 * std::pow(half, 0.64)), two = std::exp(-1.87 * std::pow(half, 1.22));
    double AU = 149597870700.0, m = H - 2.5 * std::log10((1 - G) * one + G * two) + 5 * std::log10((t.r / AU) * (t.d / AU));
    if (!vc::throws([&] { u.resolve_irradiance(at(t.p), t.lights); })) {
        vc_check(vc_eq(magnitude, m), "the H-G magnitude at these distances");
        RGB e = u.get_irradiance(Time{});
        for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(e[i], a[i]), "its irradiance");
    }
}
VC_CONTRACT(REAL, sphere_valid)
{
    Seen& t = *new Seen;
    float r = vc_float("radius"), a = vc_float("albedo");
    RGB s{a, vc_float("green"), 0.5f};
    bool many = vc_range("many", 0, 1), ok = vc_and(vc_lt(0, r), vc_and(vc_le(0, a), vc_le(a, 1)));
    if (many) ok = vc_and(ok, vc_and(vc_le(0, s[1]), vc_le(s[1], 1)));
    bool thrown = vc::throws([&] {
        if (many) new UnresolvedLambertianSphere<RGB>(units::Meter((double)r), t.handle, s);
        else new UnresolvedLambertianSphere<RGB>(units::Meter((double)r), t.handle, a);
    });
    vc_check(thrown == !ok, "exactly positive radii and albedos of at most one");
    UnresolvedObject<RGB>& o = *new UnresolvedObject<RGB>;
    InstanceHandle<RGB> h{std::make_shared<Instance<RGB>>(nullptr, Instantiable<RGB>(&o))};
    vc_check(vc::throws([&] { new UnresolvedLambertianSphere<RGB>(units::Meter(1.0), h, 0.5f); }), "only a light shines");
    vc_check(vc::throws([&] { new UnresolvedAsteroid<RGB>(1.0, 0.1, h, 0.5f); }), "only a light shines");
}
VC_CONTRACT(FP, asteroid_valid)
{
    Seen& t = *new Seen;
    double H = vc_real("H"), G = vc_real("G");
    bool ok = std::isfinite(H) && std::isfinite(G);
    vc_check(vc::throws([&] { new UnresolvedAsteroid<RGB>(H, G, t.handle, 0.5f); }) == !ok, "exactly finite parameters");
}
