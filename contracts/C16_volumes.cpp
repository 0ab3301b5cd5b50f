// C16: participating media.
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/geometry/ray.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/medium.hpp"
#include "huira/volumes/medium_stack.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
using namespace huira;
namespace {
using V = Vec3<float>;
const double pi = PI<float>();
bool is(const V& a, double x, double y, double z) { return vc_and(vc_eq(a.x, x), vc_and(vc_eq(a.y, y), vc_eq(a.z, z))); }
struct Given : RandomSampler<float> {
    float a = vc_float("a"), b = vc_float("b");
    Given() : RandomSampler<float>(1u) { vc_assume(vc_and(vc_and(vc_le(0, a), vc_lt(a, 1)), vc_and(vc_le(0, b), vc_lt(b, 1)))); }
    float get_1d() override { return a; }
    Vec2<float> get_2d() override { return {a, b}; }
};
RGB any_rgb(const char* n)
{
    RGB r;
    for (size_t i = 0; i < 3; ++i) r[i] = vc_float(n), vc_assume(vc_le(0, r[i]));
    return r;
}
struct Fog {
    RGB a = any_rgb("absorption"), s = any_rgb("scattering");
    std::shared_ptr<DensityField<RGB>> d = std::make_shared<ConstantDensityField<RGB>>(a, s);
    std::shared_ptr<PhaseFunction<RGB>> p = std::make_shared<IsotropicPhaseFunction<RGB>>();
    Medium<RGB> m{d, p};
    V o = vc::vec3f("o"), w = vc::vec3f("w");
    Ray<RGB> ray{o, w};
    Given g;
    Fog() {}
};
}
VC_CONTRACT(REAL, density)
{
    RGB a, s;
    bool ok = true;
    for (size_t i = 0; i < 3; ++i) {
        a[i] = vc_float("a"), s[i] = vc_float("s");
        ok = vc_and(ok, vc_and(vc_le(0, a[i]), vc_le(0, s[i])));
    }
    bool made = false;
    V p = vc::vec3f("p");
    MediumProperties<RGB> m;
    if (!vc::throws([&] {
            ConstantDensityField<RGB> f(a, s);
            made = true;
            m = f.evaluate(p);
        })) {
        for (size_t i = 0; i < 3; ++i) {
            vc_check(vc_and(vc_eq(m.absorption[i], a[i]), vc_eq(m.scattering[i], s[i])), "the coefficients everywhere");
            vc_check(vc_eq(m.extinction()[i], (double)a[i] + s[i]), "extinction is the sum");
        }
    }
    vc_check(vc_iff(made, ok), "negative coefficients are rejected");
}
VC_CONTRACT(REAL, transmittance)
{
    vc_option("no-fdiv"); // the reciprocal direction is not used
    Fog f;
    float t = vc_float("t"), u = vc_float("u");
    RGB x = f.m.evaluate_transmittance(f.ray, t, f.g);
    for (size_t i = 0; i < 3; ++i) {
        vc_check(vc_eq(x[i], t <= 0 ? 1.0 : std::exp(-(double)(f.a[i] + f.s[i]) * t)), "Beer-Lambert law");
        vc_check(vc_and(vc_lt(0, x[i]), vc_le(x[i], 1)), "a fraction");
    }
    vc_assume(vc_and(vc_lt(0, t), vc_lt(0, u)));
    RGB y = f.m.evaluate_transmittance(f.ray, u, f.g), z = f.m.evaluate_transmittance(f.ray, t + u, f.g);
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(z[i], (double)x[i] * y[i]), "two lengths one after the other");
}
VC_CONTRACT(REAL, free_path)
{
    vc_option("no-fdiv");
    Fog f;
    auto r = f.m.sample_free_path(f.ray, f.g);
    double e = 0;
    for (size_t i = 0; i < 3; ++i) e += (double)f.a[i] + f.s[i];
    e /= 3;
    vc_check(vc_iff(r.has_value(), vc_lt(1e-6, e)), "no interaction in empty space");
    if (r.has_value()) {
        vc_check(vc_le(0, r->t), "ahead of the origin");
        vc_check(vc_eq((double)r->t * e, -std::log(1 - (double)f.g.a)), "exponential distribution of the distance");
        vc_check(is(r->p, (double)f.o.x + (double)r->t * f.w.x, (double)f.o.y + (double)r->t * f.w.y, (double)f.o.z + (double)r->t * f.w.z), "on the ray");
        vc_check(is(r->wo, -f.w.x, -f.w.y, -f.w.z), "back along the ray");
        vc_check(r->is_valid() && r->phase_function == &f.m.get_phase_function(), "with the phase function");
        for (size_t i = 0; i < 3; ++i) vc_check(vc_and(vc_eq(r->properties.absorption[i], f.a[i]), vc_eq(r->properties.scattering[i], f.s[i])), "and the properties there");
    }
}
VC_CONTRACT(REAL, isotropic)
{
    IsotropicPhaseFunction<RGB> f;
    V a = vc::unit3f("a"), b = vc::unit3f("b");
    vc_check(vc_eq(f.evaluate(a, b), 1 / (4 * pi)), "the same in every direction; one over the sphere");
    Given g;
    PhaseSample s = f.sample(a, g);
    double z = s.wi.z, q = std::sqrt(1 - z * z);
    vc_check(vc_eq(s.p, 1 / (4 * pi)), "the density");
    vc_check(vc_eq((double)s.wi.x * s.wi.x + (double)s.wi.y * s.wi.y + z * z, 1), "unit vector");
    vc_check(vc_or(vc_eq(z, 1 - 2 * (double)g.a), vc_eq(z, 2 * (double)g.a - 1)), "height is spread evenly");
    vc_check(vc_and(vc_eq(s.wi.x, q * std::cos(2 * pi * g.b)), vc_eq(s.wi.y, q * std::sin(2 * pi * g.b))), "azimuth is spread evenly");
}
VC_CONTRACT(REAL, rays)
{
    V o = vc::vec3f("o"), w = vc::vec3f("w");
    vc_assume(vc_and(vc_lt(0, std::abs(w.x)), vc_and(vc_lt(0, std::abs(w.y)), vc_lt(0, std::abs(w.z)))));
    float t = vc_float("t");
    Ray<RGB> r(o, w);
    vc_check(is(r.origin(), o.x, o.y, o.z) && is(r.direction(), w.x, w.y, w.z), "as given");
    vc_check(is(r.at(t), (double)o.x + (double)t * w.x, (double)o.y + (double)t * w.y, (double)o.z + (double)t * w.z), "points along it");
    V q = r.reciprocal_direction();
    vc_check(vc_and(vc_eq((double)q.x * w.x, 1), vc_and(vc_eq((double)q.y * w.y, 1), vc_eq((double)q.z * w.z, 1))), "reciprocal direction");
    HitRecord h;
    vc_check(h.hit() == false && vc_eq(h.t, std::numeric_limits<float>::infinity()), "no hit at first");
}
// ---- the media a ray is in: entering puts a primitive on top, leaving takes it out wherever it is.
// A stack is determined by the primitives inside, in order of entry; every one of up to eight is made by entering them
// in turn, and one more step from each leads to another of these: together this covers every history.
namespace {
constexpr int N = 9;
struct Places {
    std::array<Primitive<RGB>, N> p;
    std::shared_ptr<Medium<RGB>> m[N];
    Places()
    {
        auto d = std::make_shared<ConstantDensityField<RGB>>(RGB{1.f}, RGB{1.f});
        auto f = std::make_shared<IsotropicPhaseFunction<RGB>>();
        for (int i = 0; i < N; ++i) p[(size_t)i].medium = m[i] = std::make_shared<Medium<RGB>>(d, f);
    }
};
}
static int choose(const char* name, int hi) // one path for each value
{
    int v = vc_range(name, 0, hi);
    for (int i = 0; i < hi; ++i)
        if (v == i) return i;
    return hi;
}
VC_CONTRACT(REAL, stack)
{
    Places& a = *new Places;
    int n = choose("inside", 8), k = choose("crossed", 8);
    if (n == 8 && k >= n) k = 0; // no room for a ninth
    MediumStack<RGB> s;
    vc_check(s.is_empty() && s.top() == nullptr, "empty at first");
    int in[N], c = 0;
    for (int i = 0; i < n; ++i) s.toggle(&a.p[(size_t)i]), in[c++] = i;
    vc_check(s.size() == (size_t)n && s.is_empty() == (n == 0), "one entry for each primitive");
    s.toggle(&a.p[(size_t)(k < n ? k : n)]);
    if (k < n) {
        for (int i = k; i + 1 < n; ++i) in[i] = in[i + 1];
        c = n - 1;
    } else {
        in[c++] = n;
    }
    vc_check(s.size() == (size_t)c, "entering adds one, leaving removes one");
    for (; c > 0; --c) {
        vc_check(s.top() == a.m[in[c - 1]].get(), "the medium entered last of those not left");
        s.toggle(&a.p[(size_t)in[c - 1]]);
    }
    vc_check(s.is_empty() && s.top() == nullptr, "empty when all are left");
}
VC_CONTRACT(REAL, stack_none)
{
    Places& a = *new Places;
    Primitive<RGB> solid;
    MediumStack<RGB> s;
    int n = choose("inside", 8);
    for (int i = 0; i < n; ++i) s.toggle(&a.p[(size_t)i]);
    const Medium<RGB>* t = s.top();
    s.toggle(nullptr);
    s.toggle(&solid);
    vc_check(s.size() == (size_t)n && s.top() == t, "surfaces without a medium change nothing");
    for (int i = n; i < N; ++i) s.toggle(&a.p[(size_t)i]);
    vc_check(s.size() == MediumStack<RGB>::CAPACITY, "no more than its capacity");
}
