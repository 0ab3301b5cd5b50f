// C05: colour spaces and pixel conversion.
#include "any.h"
#include "huira/images/image.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/io/convert_pixel.hpp"
using namespace huira;
using namespace vc;
template <class T> static T any_int(const char* n)
{
    return (T)vc_range(n, (int64_t)std::numeric_limits<T>::min(), sizeof(T) == 8 ? INT64_MAX : (int64_t)std::numeric_limits<T>::max());
}
// where v lies in [lo, hi], as a value of T before rounding
template <class T> static double scaled(double v, double lo, double hi)
{
    double tmin = (double)std::numeric_limits<T>::min(), tmax = (double)std::numeric_limits<T>::max();
    double n = (v - lo) / (hi - lo);
    return vc_if(vc_le(n, 0), tmin, vc_if(vc_le(1, n), tmax, tmin + n * (tmax - tmin)));
}
template <class T> static void to_int(const char* n)
{
    double v = vc_float("v"), lo = vc_float("lo"), hi = vc_float("hi");
    vc_assume(vc_lt(lo, hi));
    double r = (double)float_to_integer<T>((float)v, (float)lo, (float)hi), s = scaled<T>(v, lo, hi);
    vc_check(near(r, s, 0.5), n);
}
template <class T> static void to_float(const char* n)
{
    double tmin = (double)std::numeric_limits<T>::min(), tmax = (double)std::numeric_limits<T>::max();
    T v = any_int<T>("v");
    double lo = vc_float("lo"), hi = vc_float("hi");
    vc_check(vc_eq(integer_to_float<T>(v, (float)lo, (float)hi), lo + ((double)v - tmin) / (tmax - tmin) * (hi - lo)), n);
    vc_check(vc_eq(integer_to_float<T>(v), ((double)v - tmin) / (tmax - tmin)), n);
    vc_check(float_to_integer<T>(integer_to_float<T>(v)) == v, n);
}
VC_CONTRACT(REAL, to_integer)
{
    to_int<uint8_t>("to uint8");
    to_int<uint16_t>("to uint16");
    to_int<uint32_t>("to uint32");
    to_int<int8_t>("to int8");
    to_int<int16_t>("to int16");
    to_int<int32_t>("to int32");
}
VC_CONTRACT(REAL, to_real)
{
    to_float<uint8_t>("from uint8");
    to_float<uint16_t>("from uint16");
    to_float<uint32_t>("from uint32");
    to_float<int8_t>("from int8");
    to_float<int16_t>("from int16");
    to_float<int32_t>("from int32");
}
// bit-precise: 8 bit values survive the round trip, and no float makes the conversion undefined
VC_CONTRACT(FP, bits_u8)
{
    uint8_t v = vc_u8("v");
    vc_check(float_to_integer<uint8_t>(integer_to_float<uint8_t>(v)) == v, "8 bit round trip");
}
VC_CONTRACT(FP, bits_i8)
{
    int8_t v = vc_i8("v");
    vc_check(float_to_integer<int8_t>(integer_to_float<int8_t>(v)) == v, "8 bit round trip");
}
template <class T> static void total()
{
    float f = vc_float("f");
    T r = float_to_integer<T>(f);
    vc_check(vc_implies(f <= 0.0f, r == std::numeric_limits<T>::min()), "clamped below");
    vc_check(vc_implies(f >= 1.0f, r == std::numeric_limits<T>::max()), "clamped above");
}
VC_CONTRACT(FP, total_u8) { total<uint8_t>(); }
VC_CONTRACT(FP, total_u16) { total<uint16_t>(); }
VC_CONTRACT(FP, total_u32) { total<uint32_t>(); }
VC_CONTRACT(FP, total_u64) { total<uint64_t>(); }
VC_CONTRACT(FP, total_i8) { total<int8_t>(); }
VC_CONTRACT(FP, total_i16) { total<int16_t>(); }
VC_CONTRACT(FP, total_i32) { total<int32_t>(); }
VC_CONTRACT(FP, total_i64) { total<int64_t>(); }
VC_CONTRACT(REAL, luminance)
{
    auto c = vec3f("c");
    float y = vc_float("y");
    double g = 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2];
    vc_check(vc_eq(convert_vec3_to_pixel<float>(c), g), "colour to grey");
    vc_check(vc_eq(convert_vec3_to_pixel<double>(c), g), "colour to grey");
    vc_check(vc_eq(convert_pixel_to_float<Vec3<float>>(c), g), "colour to grey");
    vc_check(vc_eq(convert_pixel_to_float<Vec3<double>>(Vec3<double>(c)), g), "colour to grey");
    vc_check(near(convert_vec3_to_pixel<uint8_t>(c), scaled<uint8_t>(g, 0, 1), 0.5), "colour to grey");
    vc_check(eq3(convert_vec3_to_pixel<Vec3<float>>(c), c), "colour stays colour");
    vc_check(eq3(convert_vec3_to_pixel<Vec3<double>>(c), c), "colour stays colour");
    vc_check(eq3(convert_pixel_to_vec3<Vec3<float>>(c), c), "colour stays colour");
    vc_check(eq3(convert_pixel_to_vec3<Vec3<double>>(Vec3<double>(c)), c), "colour stays colour");
    Vec3<double> yyy{y, y, y};
    vc_check(eq3(convert_float_to_pixel<Vec3<float>>(y), yyy), "grey to colour");
    vc_check(eq3(convert_float_to_pixel<Vec3<double>>(y), yyy), "grey to colour");
    vc_check(eq3(convert_pixel_to_vec3<float>(y), yyy), "grey to colour");
    vc_check(vc_eq(convert_float_to_pixel<float>(y), y), "grey stays grey");
    vc_check(vc_eq(convert_float_to_pixel<double>(y), y), "grey stays grey");
    vc_check(near(convert_float_to_pixel<uint16_t>(y), scaled<uint16_t>(y, 0, 1), 0.5), "grey to integer");
    vc_check(vc_eq(convert_pixel_to_float<float>(y), y), "grey stays grey");
    uint8_t b = any_int<uint8_t>("b");
    vc_check(vc_eq(convert_pixel_to_float<uint8_t>(b) * 255, b), "integer to grey");
    vc_check(vc_eq(convert_pixel_to_vec3<uint8_t>(b)[1] * 255, b), "integer to colour");
}
VC_CONTRACT(REAL, srgb_decode)
{
    double s = vc_float("s");
    vc_check(vc_eq(srgb_to_linear((float)s), s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4)), "sRGB decoding");
    vc_check(vc_eq(srgb_to_linear(0.f), 0), "black stays black");
    vc_check(near(srgb_to_linear(1.f), 1, 1e-9), "white stays white");
    double g = vc_float("g");
    vc_assume(vc_lt(0, s));
    vc_check(vc_eq(gamma_to_linear((float)s, (float)g), std::pow(s, g)), "gamma decoding");
}
VC_CONTRACT(REAL, srgb_encode)
{
    double l = vc_float("l");
    vc_check(vc_eq(linear_to_srgb((float)l), l <= 0.0031308 ? 12.92 * l : 1.055 * std::pow(l, 1 / 2.4) - 0.055), "sRGB encoding");
    vc_check(vc_eq(linear_to_srgb(0.f), 0), "black stays black");
    vc_check(near(linear_to_srgb(1.f), 1, 1e-9), "white stays white");
}
VC_CONTRACT(REAL, srgb_round_trip)
{
    float s = vc_float("s");
    // away from the joint of the two branches, where the standard's rounded constants leave a gap of 1e-7
    vc_assume(vc_or(vc_le(s, 0.0404), vc_le(0.0405, s)));
    vc_trusted("pow is increasing in a positive base");
    // pow is increasing: the bright branch decodes above the threshold of the encoder
    if (s > 0.04) {
        float d = srgb_to_linear(s);
        vc_assume(vc_implies(vc_lt(0.0404, s), vc_lt(0.0031308, d)));
    }
    vc_check(vc_eq(linear_to_srgb(srgb_to_linear(s)), s), "encoding undoes decoding");
}
template <class P, int N> static ImageBundle<P> any_bundle()
{
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    ImageBundle<P> b(Image<P>(w, h), Image<float>(w, h));
    std::memcpy((void*)b.image.data(), vc_array("px", b.image.size(), 1, N), b.image.size() * sizeof(P));
    std::memcpy((void*)b.alpha.data(), vc_array("alpha", b.alpha.size(), 1, 1), b.alpha.size() * sizeof(float));
    return b;
}
template <class P, int N, class F, class G> static void image(F f, G g, ColorSpaceHint hint)
{
    auto b = any_bundle<P, N>();
    auto r = f(b);
    int w = b.image.width(), h = b.image.height();
    vc_check(vc_and(vc_and(r.image.width() == w, r.image.height() == h), vc_and(r.alpha.width() == w, r.alpha.height() == h)), "size");
    vc_check(r.color_space == hint, "colour space");
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    vc_check(vc_eq(r.alpha(x, y), b.alpha(x, y)), "alpha is linear already");
    if constexpr (N == 1) vc_check(vc_eq(r.image(x, y), g(b.image(x, y))), "every pixel");
    else
        for (size_t c = 0; c < N; ++c) vc_check(vc_eq(r.image(x, y)[c], g(b.image(x, y)[c])), "every pixel");
}
VC_CONTRACT(REAL, image_rgb_encode)
{
    image<RGB, 3>([](auto& b) { return linear_to_srgb(b); }, [](float v) { return linear_to_srgb(v); }, ColorSpaceHint::sRGB);
}
VC_CONTRACT(REAL, image_rgb_decode)
{
    image<RGB, 3>([](auto& b) { return srgb_to_linear(b); }, [](float v) { return srgb_to_linear(v); }, ColorSpaceHint::Linear);
}
VC_CONTRACT(REAL, image_grey_encode)
{
    image<float, 1>([](auto& b) { return linear_to_srgb(b); }, [](float v) { return linear_to_srgb(v); }, ColorSpaceHint::sRGB);
}
VC_CONTRACT(REAL, image_grey_decode)
{
    image<float, 1>([](auto& b) { return srgb_to_linear(b); }, [](float v) { return srgb_to_linear(v); }, ColorSpaceHint::Linear);
}
