// C08: sampling an image between its pixels.
#include "any_image.h"
// A point x + a of [0, n-1], for pixel x and 0 <= a < 1, as a coordinate in [0, 1]
static float coordinate(int x, double a, int n)
{
    vc_hint(x);
    double u = n > 1 ? (x + a) / (n - 1) : 0;
    vc_lemma(vc_and(vc_le(0, u), vc_le(u, 1)), "coordinate in the unit interval");
    return (float)u;
}
static double fraction(const char* name)
{
    double a = vc_float(name);
    vc_assume(vc_and(vc_le(0, a), vc_lt(a, 1)));
    return a;
}
template <class P> struct Place {
    Image<P> im;
    int w, h, x, y;
    double a, b;
    float u, v;
    Place(int minimum, bool inner) : im(any_image<P>("px")), w(im.width()), h(im.height())
    {
        vc_assume(vc_and(w >= minimum, h >= minimum));
        x = (int)vc_index("x", w), y = (int)vc_index("y", h);
        a = fraction("a"), b = fraction("b");
        vc_assume(vc_or(x + 1 < w, vc_and(!inner, vc_eq(a, 0))));
        vc_assume(vc_or(y + 1 < h, vc_and(!inner, vc_eq(b, 0))));
        u = coordinate(x, a, w), v = coordinate(y, b, h);
    }
};
template <class P> static void is_nearest(Place<P>& p, const P& r)
{
    int x = p.x + (int)vc_ifi(p.a >= 0.5, 1, 0), y = p.y + (int)vc_ifi(p.b >= 0.5, 1, 0);
    vc_check(same_pixel(r, p.im(x, y)), "the nearest pixel");
}
template <class P> static void is_bilinear(Place<P>& p, const P& r)
{
    int x1 = vc_split(p.x + 1 < p.w) ? p.x + 1 : p.x, y1 = vc_split(p.y + 1 < p.h) ? p.y + 1 : p.y;
    double a = p.a, b = p.b;
    for (int c = 0; c < lanes<P>(); ++c) {
        double p00 = lane(p.im(p.x, p.y), c), p10 = lane(p.im(x1, p.y), c), p01 = lane(p.im(p.x, y1), c), p11 = lane(p.im(x1, y1), c);
        vc_check(vc_eq(lane(r, c), (1 - b) * ((1 - a) * p00 + a * p10) + b * ((1 - a) * p01 + a * p11)), "weighted by the distance to the four pixels around");
    }
}
template <class P, WrapMode W> static void nearest(bool inner)
{
    Place<P> p(1, inner);
    vc_hint(p.x + 1), vc_hint(p.y + 1);
    is_nearest(p, p.im.template sample_nearest_neighbor<W>(p.u, p.v));
}
template <class P, WrapMode W> static void bilinear(bool inner)
{
    Place<P> p(1, inner);
    is_bilinear(p, p.im.template sample_bilinear<W>(p.u, p.v));
}
VC_CONTRACT(REAL, nearest_clamp) { nearest<float, WrapMode::Clamp>(false); }
VC_CONTRACT(REAL, nearest_repeat) { nearest<float, WrapMode::Repeat>(true); }
VC_CONTRACT(REAL, nearest_mirror) { nearest<float, WrapMode::Mirror>(false); }
VC_CONTRACT(REAL, nearest_rgb) { nearest<RGB, WrapMode::Clamp>(false); }
VC_CONTRACT(REAL, nearest_u8) { nearest<uint8_t, WrapMode::Clamp>(false); }
VC_CONTRACT(REAL, bilinear_clamp) { bilinear<float, WrapMode::Clamp>(false); }
VC_CONTRACT(REAL, bilinear_repeat) { bilinear<float, WrapMode::Repeat>(true); }
VC_CONTRACT(REAL, bilinear_mirror) { bilinear<float, WrapMode::Mirror>(false); }
VC_CONTRACT(REAL, bilinear_rgb) { bilinear<RGB, WrapMode::Clamp>(false); }
VC_CONTRACT(REAL, bilinear_vec3) { bilinear<Vec3<float>, WrapMode::Clamp>(false); }
// Coordinates outside [0, 1]
template <class F> static void far_repeat(F check)
{
    Place<float> p(2, true);
    int n = (int)vc_range("n", -1000000, 1000000);
    vc_hint(n), vc_hint(-n), vc_hint(-n - 1), vc_hint(n - 1);
    vc_lemma(p.u < 1, "inside"), vc_lemma(p.v < 1, "inside");
    if (vc_split(p.u == 0)) vc_lemma(vc_and(p.x == 0, vc_eq(p.a, 0)), "whole");
    if (vc_split(p.v == 0)) vc_lemma(vc_and(p.y == 0, vc_eq(p.b, 0)), "whole");
    check(p, n);
}
VC_CONTRACT(REAL, repeat_u)
{
    far_repeat([](auto& p, int n) { is_bilinear(p, p.im.template sample_bilinear<WrapMode::Repeat>(p.u + (float)n, p.v)); });
}
VC_CONTRACT(REAL, repeat_v)
{
    far_repeat([](auto& p, int n) { is_bilinear(p, p.im.template sample_bilinear<WrapMode::Repeat>(p.u, p.v - (float)n)); });
}
VC_CONTRACT(REAL, repeat_nearest)
{
    far_repeat([](auto& p, int n) {
        vc_hint(p.x + 1), vc_hint(p.y + 1);
        is_nearest(p, p.im.template sample_nearest_neighbor<WrapMode::Repeat>(p.u + (float)n, p.v));
    });
}
// mirrored: 2n + u and -(2n + u) and 2n + 2 - u are all where u is
static float mirrored(double u, int n, int how)
{
    if (how == 0) return (float)(u + 2.0 * n);
    if (how == 1) return (float)(-u - 2.0 * n);
    if (how == 2) return (float)(2.0 * n + 2 - u);
    return (float)(u - 2.0 * n - 2);
}
template <class F> static void far_mirror(F check)
{
    Place<float> p(2, true);
    int n = (int)vc_range("n", 0, 1000000);
    vc_hint(n), vc_hint(n + 1);
    vc_lemma(p.u < 1, "inside"), vc_lemma(p.v < 1, "inside");
    if (vc_split(p.u == 0)) vc_lemma(vc_and(p.x == 0, vc_eq(p.a, 0)), "whole");
    if (vc_split(p.v == 0)) vc_lemma(vc_and(p.y == 0, vc_eq(p.b, 0)), "whole");
    check(p, n);
}
template <int how> static void mirror_u()
{
    far_mirror([](auto& p, int n) { is_bilinear(p, p.im.template sample_bilinear<WrapMode::Mirror>(mirrored(p.u, n, how), p.v)); });
}
template <int how> static void mirror_v()
{
    far_mirror([](auto& p, int n) { is_bilinear(p, p.im.template sample_bilinear<WrapMode::Mirror>(p.u, mirrored(p.v, n, how))); });
}
template <int how> static void mirror_nearest()
{
    far_mirror([](auto& p, int n) {
        vc_hint(p.x + 1), vc_hint(p.y + 1);
        is_nearest(p, p.im.template sample_nearest_neighbor<WrapMode::Mirror>(mirrored(p.u, n, how), p.v));
    });
}
VC_CONTRACT(REAL, mirror_u_0) { mirror_u<0>(); }
VC_CONTRACT(REAL, mirror_u_1) { mirror_u<1>(); }
VC_CONTRACT(REAL, mirror_u_2) { mirror_u<2>(); }
VC_CONTRACT(REAL, mirror_u_3) { mirror_u<3>(); }
VC_CONTRACT(REAL, mirror_v_0) { mirror_v<0>(); }
VC_CONTRACT(REAL, mirror_v_3) { mirror_v<3>(); }
VC_CONTRACT(REAL, mirror_nearest_1) { mirror_nearest<1>(); }
VC_CONTRACT(REAL, mirror_nearest_2) { mirror_nearest<2>(); }
VC_CONTRACT(REAL, clamp_outside)
{
    Place<float> p(1, false);
    double d = vc_float("d");
    vc_assume(vc_le(0, d));
    vc_hint(p.w - 1), vc_hint(p.h - 1);
    auto at = [&](float u, float v, float s, float t) {
        vc_check(vc_eq(p.im.sample_bilinear<WrapMode::Clamp>(u, v), p.im.sample_bilinear<WrapMode::Clamp>(s, t)), "the edge continues");
        vc_check(vc_eq(p.im.sample_nearest_neighbor<WrapMode::Clamp>(u, v), p.im.sample_nearest_neighbor<WrapMode::Clamp>(s, t)), "the edge continues");
    };
    switch (vc_range("side", 0, 3)) {
    case 0: at((float)-d, p.v, 0.f, p.v); break;
    case 1: at((float)(1 + d), p.v, 1.f, p.v); break;
    case 2: at(p.u, (float)-d, p.u, 0.f); break;
    default: at(p.u, (float)(1 + d), p.u, 1.f);
    }
}
// an image of integers: the value is cut to an integer
VC_CONTRACT(REAL, bilinear_u8)
{
    Place<uint8_t> p(1, false);
    int x1 = vc_split(p.x + 1 < p.w) ? p.x + 1 : p.x, y1 = vc_split(p.y + 1 < p.h) ? p.y + 1 : p.y;
    double a = p.a, b = p.b;
    double p00 = p.im(p.x, p.y), p10 = p.im(x1, p.y), p01 = p.im(p.x, y1), p11 = p.im(x1, y1);
    double top = (1 - a) * p00 + a * p10, bottom = (1 - a) * p01 + a * p11;
    vc_lemma(vc_and(vc_and(vc_le(0, top), vc_le(top, 255)), vc_and(vc_le(0, bottom), vc_le(bottom, 255))), "between the pixels");
    double s = (1 - b) * top + b * bottom;
    vc_lemma(vc_and(vc_le(0, s), vc_le(s, 255)), "between the pixels");
    double r = p.im.sample_bilinear<WrapMode::Clamp>(p.u, p.v);
    if (vc_split(vc_and(vc_eq(a, 0), vc_eq(b, 0)))) vc_check(vc_eq(r, p00), "at a pixel, its value");
}
VC_CONTRACT(REAL, empty_image)
{
    Image<float> none;
    float u = vc_float("u"), v = vc_float("v");
    vc_check(none.sample_bilinear(u, v) == 0, "black");
    vc_check(none.sample_nearest_neighbor(u, v) == 0, "black");
    Image<RGB> rgb;
    vc_check(rgb.sample_bilinear<WrapMode::Mirror>(u, v) == RGB{}, "black");
}

// NaN, infinite and huge coordinates stay inside the image
template <WrapMode W> static void odd(float c)
{
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    float v = vc_float("v");
    const Image<float> im(w, h, v);
    vc_check(vc_eq(im.sample_bilinear<W>(c, 0.25f), v), "an image of one colour");
    vc_check(vc_eq(im.sample_bilinear<W>(0.25f, c), v), "an image of one colour");
    vc_check(vc_eq(im.sample_nearest_neighbor<W>(c, 0.25f), v), "an image of one colour");
    vc_check(vc_eq(im.sample_nearest_neighbor<W>(0.25f, c), v), "an image of one colour");
}
static constexpr float inf = std::numeric_limits<float>::infinity(), nan_ = std::numeric_limits<float>::quiet_NaN();
VC_CONTRACT(REAL, nan_clamp) { odd<WrapMode::Clamp>(nan_); }
VC_CONTRACT(REAL, nan_repeat) { odd<WrapMode::Repeat>(nan_); }
VC_CONTRACT(REAL, nan_mirror) { odd<WrapMode::Mirror>(nan_); }
VC_CONTRACT(REAL, inf_clamp) { odd<WrapMode::Clamp>(inf); }
VC_CONTRACT(REAL, inf_repeat) { odd<WrapMode::Repeat>(inf); }
VC_CONTRACT(REAL, inf_mirror) { odd<WrapMode::Mirror>(-inf); }
VC_CONTRACT(REAL, huge_clamp) { odd<WrapMode::Clamp>(3e38f); }
VC_CONTRACT(REAL, huge_repeat) { odd<WrapMode::Repeat>(-3e38f); }
VC_CONTRACT(REAL, huge_mirror) { odd<WrapMode::Mirror>(3e38f); }
