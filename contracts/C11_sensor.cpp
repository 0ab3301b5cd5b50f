// C11: sensor settings, gain, geometry and readout.
#include "any_image.h"
#include "huira/cameras/sensors/simple_sensor.hpp"
using namespace huira;
using vc::lanes;
// FrameBuffer is built by CameraModel, its only friend; the contracts need no camera.
namespace huira {
template <> class CameraModel<RGB> {
  public:
    static FrameBuffer<RGB> make(Resolution r) { return FrameBuffer<RGB>(r); }
};
using Mono = SpectralBins<2, 400, 500, 600>;
template <> class CameraModel<Mono> {
  public:
    static FrameBuffer<Mono> make(Resolution r) { return FrameBuffer<Mono>(r); }
};
} // namespace huira

// every float, NaN and infinities included: rejected exactly when out of range, and then nothing changes
template <class Set, class Get> static void setter(Set set, Get get, bool zero_ok, bool negative_ok)
{
    SimpleSensor<RGB> s;
    float old = get(s), v = vc_float("v");
    bool finite = v - v == 0;
    bool ok = vc_and(finite, vc_or(negative_ok, vc_or(v > 0, vc_and(zero_ok, v == 0))));
    bool t = vc::throws([&] { set(s, v); });
    vc_check(vc_iff(t, vc_not(ok)), "rejects exactly the values out of range");
    vc_check(vc_or(t, get(s) == v), "stores the value");
    vc_check(vc_or(vc_not(t), get(s) == old), "a rejected value changes nothing");
}
VC_CONTRACT(FP, full_well) { setter([](auto& s, float v) { s.set_full_well_capacity(v); }, [](auto& s) { return s.full_well_capacity(); }, false, false); }
VC_CONTRACT(FP, read_noise) { setter([](auto& s, float v) { s.set_read_noise(v); }, [](auto& s) { return s.read_noise(); }, true, false); }
VC_CONTRACT(FP, dark_current) { setter([](auto& s, float v) { s.set_dark_current(v); }, [](auto& s) { return s.dark_current(); }, true, false); }
VC_CONTRACT(FP, bias_level) { setter([](auto& s, float v) { s.set_bias_level_dn(v); }, [](auto& s) { return s.bias_level_dn(); }, true, false); }
VC_CONTRACT(FP, gain_adu) { setter([](auto& s, float v) { s.set_gain_adu(v); }, [](auto& s) { return s.gain_adu(); }, false, false); }
VC_CONTRACT(FP, unity_db) { setter([](auto& s, float v) { s.set_unity_db(v); }, [](auto& s) { return s.unity_db(); }, true, true); }
VC_CONTRACT(REAL, bit_depth)
{
    SimpleSensor<RGB> s;
    int v = vc_i32("bits"), old = s.bit_depth();
    bool t = vc::throws([&] { s.set_bit_depth(v); });
    vc_check(vc_iff(t, v <= 0), "rejects depths below one");
    vc_check(s.bit_depth() == (int)vc_ifi(t, old, v), "stores the depth");
}
VC_CONTRACT(REAL, resolution)
{
    SimpleSensor<RGB> s;
    int w = vc_i32("w"), h = vc_i32("h"), ow = s.resolution().width, oh = s.resolution().height;
    bool t = vc::throws([&] { s.set_resolution(Resolution{w, h}); });
    vc_check(vc_iff(t, vc_or(w < 0, h < 0)), "rejects negative sizes");
    vc_check(vc_and(s.resolution().width == (int)vc_ifi(t, ow, w), s.resolution().height == (int)vc_ifi(t, oh, h)), "stores the resolution");
}
VC_CONTRACT(FP, pitch)
{
    SimpleSensor<RGB> s;
    double x = vc_real("x"), y = vc_real("y");
    vc_assume(vc_and(x - x == 0, y - y == 0)); // units reject NaN, see C03
    float ox = s.pixel_pitch().x;
    bool ok = vc_and(x > 0, y > 0);
    bool t = vc::throws([&] { s.set_pixel_pitch(units::Meter(x), units::Meter(y)); });
    vc_check(vc_implies(vc_not(ok), t), "rejects pitches that are not positive");
    vc_check(vc_implies(t, s.pixel_pitch().x == ox), "a rejected value changes nothing");
}
VC_CONTRACT(FP, pitch_infinite)
{
    SimpleSensor<RGB> s;
    double y = vc_real("y");
    vc_assume(y == y);
    double inf = std::numeric_limits<double>::infinity();
    vc_check(vc::throws([&] { s.set_pixel_pitch(units::Meter(inf), units::Meter(y)); }), "rejects infinite pitches");
    vc_check(vc::throws([&] { s.set_pixel_pitch(units::Meter(y), units::Meter(inf)); }), "rejects infinite pitches");
    vc_check(vc::throws([&] { s.set_sensor_size(units::Meter(inf), units::Meter(y)); }), "rejects infinite sizes");
    vc_check(vc::throws([&] { s.set_sensor_size(units::Meter(y), units::Meter(inf)); }), "rejects infinite sizes");
}
VC_CONTRACT(REAL, pitch_size)
{
    SimpleSensor<RGB> s;
    int w = (int)vc_range("w", 1, 100000), h = (int)vc_range("h", 1, 100000);
    double x = vc_real("x"), y = vc_real("y");
    s.set_resolution(Resolution{w, h});
    bool t = vc::throws([&] { s.set_pixel_pitch(units::Meter(x), units::Meter(y)); });
    vc_check(vc_iff(t, vc_or(vc_le(x, 0), vc_le(y, 0))), "rejects pitches that are not positive");
    if (!t) {
        vc_check(vc_and(vc_eq(s.pixel_pitch().x, x), vc_eq(s.pixel_pitch().y, y)), "the pitch in metres");
        vc_check(vc_and(vc_eq(s.sensor_size().x, w * x), vc_eq(s.sensor_size().y, h * y)), "size is resolution times pitch");
    }
}
VC_CONTRACT(REAL, size_pitch)
{
    SimpleSensor<RGB> s;
    int w = (int)vc_range("w", 1, 100000), h = (int)vc_range("h", 1, 100000);
    double x = vc_real("x"), y = vc_real("y");
    s.set_resolution(Resolution{w, h});
    bool t = vc::throws([&] { s.set_sensor_size(units::Meter(x), units::Meter(y)); });
    vc_check(vc_iff(t, vc_or(vc_le(x, 0), vc_le(y, 0))), "rejects sizes that are not positive");
    if (!t) {
        vc_check(vc_and(vc_eq(s.pixel_pitch().x, x / w), vc_eq(s.pixel_pitch().y, y / h)), "pitch is size over resolution");
        vc_check(vc_and(vc_eq(s.sensor_size().x, x), vc_eq(s.sensor_size().y, y)), "the size is kept");
    }
}
VC_CONTRACT(REAL, built)
{
    SimpleSensorConfig<RGB> c;
    int w = vc_i32("w"), h = vc_i32("h");
    double x = vc_real("x"), y = vc_real("y");
    c.resolution = Resolution{w, h};
    c.pitch_x = units::Meter(x), c.pitch_y = units::Meter(y);
    c.gain = vc_float("gain");
    bool t = vc::throws([&] {
        SimpleSensor<RGB> s(c);
        vc_check(vc_and(s.resolution().width == w, vc_and(s.resolution().height == h, vc_eq(s.gain_adu(), c.gain))), "takes over the configuration");
    });
    vc_check(vc_iff(t, vc_or(vc_or(w < 0, h < 0), vc_or(vc_le(x, 0), vc_le(y, 0)))), "rejects negative resolutions and pitches that are not positive");
}
// gain in electrons per count and in decibel
VC_CONTRACT(REAL, gain_db)
{
    SimpleSensor<RGB> s;
    float u = vc_float("unity"), g = vc_float("db");
    s.set_unity_db(u);
    s.set_gain_db(g);
    vc_check(vc_eq(s.gain_db(), g), "the gain in decibel is kept");
    vc_check(vc_lt(0, s.gain_adu()), "the gain is positive");
    s.set_gain_db(u);
    vc_check(vc_eq(s.gain_adu(), 1), "unity gain is one electron per count");
    s.set_gain_db(u + 20);
    vc_check(vc_eq(s.gain_adu(), 0.1), "20 dB more is a tenth of the electrons per count");
}
VC_CONTRACT(FP, gain_db_invalid)
{
    SimpleSensor<RGB> s;
    float g = s.gain_adu();
    const float bad[3] = {std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()};
    for (float b : bad) vc_check(vc::throws([&] { s.set_gain_db(b); }), "rejects gains that are not finite");
    vc_check(s.gain_adu() == g, "a rejected value changes nothing");
}
VC_CONTRACT(FP, efficiency)
{
    SimpleSensor<RGB> s;
    float a = vc_float("q"), b = vc_float("q"), c = vc_float("q");
    RGB old = s.quantum_efficiency();
    auto in = [](float v) { return vc_and(v >= 0, v <= 1); };
    bool t = vc::throws([&] { s.set_quantum_efficiency(RGB{a, b, c}); });
    vc_check(vc_iff(t, vc_not(vc_and(in(a), vc_and(in(b), in(c))))), "rejects efficiencies outside [0,1]");
    RGB q = s.quantum_efficiency();
    vc_check(vc_or(t, vc_and(q[0] == a, vc_and(q[1] == b, q[2] == c))), "stores the efficiency");
    vc_check(vc_or(vc_not(t), vc_and(q[0] == old[0], vc_and(q[1] == old[1], q[2] == old[2]))), "a rejected value changes nothing");
}

// photons collected in the exposure, converted to electrons, clipped at the full well, digitised and clipped to the bit depth
template <class S> struct Readout {
    SimpleSensorConfig<S> c;
    float dt = vc_float("dt");
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000), bits = (int)vc_range("bits", 1, 32);
    FrameBuffer<S> fb;
    int x, y;
    S power;
    Readout(bool noise) : fb(CameraModel<S>::make(Resolution{w, h}))
    {
        for (size_t i = 0; i < S::size(); ++i) {
            float q = vc_float("qe");
            vc_assume(vc_and(vc_le(0, q), vc_le(q, 1)));
            c.quantum_efficiency[i] = q;
        }
        c.full_well_capacity = vc_float("well");
        c.gain = vc_float("gain");
        c.simulate_noise = noise;
        c.read_noise = vc_float("read");
        c.dark_current = vc_float("dark");
        c.bias_level_dn = vc_float("bias");
        c.bit_depth = bits;
        vc_assume(vc_and(vc_lt(0, c.full_well_capacity), vc_and(vc_lt(0, c.gain), vc_le(0, dt))));
        vc_assume(vc_and(vc_le(0, c.read_noise), vc_and(vc_le(0, c.dark_current), vc_le(0, c.bias_level_dn))));
        fb.enable_sensor_response();
        vc::fill_any(fb.received_power(), "power");
        x = (int)vc_index("x", w), y = (int)vc_index("y", h);
        power = fb.received_power()(x, y);
        SimpleSensor<S> s(c);
        s.readout(fb, units::Second(dt));
    }
    double full() const { return std::pow(2.0, (double)bits) - 1; }
    double electrons(size_t i) const { return (double)power[i] * dt / S::photon_energies()[i] * c.quantum_efficiency[i]; }
    double counts(double e) const
    {
        double d = (e < c.full_well_capacity ? e : (double)c.full_well_capacity) / c.gain;
        return (d < 0 ? 0 : d > full() ? full() : d) / full();
    }
};
VC_CONTRACT(REAL, readout_rgb)
{
    Readout<RGB> r(false);
    RGB v = r.fb.sensor_response()(r.x, r.y);
    vc_check(r.fb.sensor_response().sensor_bit_depth() == r.bits, "the response carries the bit depth");
    for (size_t i = 0; i < 3; ++i) vc_check(vc_eq(v[i], r.counts(r.electrons(i))), "exposure, efficiency, full well, gain and bit depth");
}
VC_CONTRACT(REAL, readout_mono)
{
    Readout<Mono> r(false);
    float v = r.fb.sensor_response()(r.x, r.y);
    vc_check(vc_eq(v, r.counts(r.electrons(0) + r.electrons(1))), "exposure, efficiency, full well, gain and bit depth");
    vc_check(vc::same_pixel(r.fb.received_power()(r.x, r.y), r.power), "the received power is left alone");
}
// one pixel, whatever the noise: the response is a fraction of full scale
VC_CONTRACT(REAL, noise)
{
    SensorConfig<RGB> c;
    float signal = vc_float("signal"), dark = vc_float("dark");
    vc_assume(vc_and(vc_le(0, signal), vc_le(0, dark)));
    c.full_well_capacity = vc_float("well"), c.gain = vc_float("gain"), c.bias_level_dn = vc_float("bias");
    c.simulate_noise = vc_bool("noise");
    vc_assume(vc_and(vc_lt(0, c.full_well_capacity), vc_lt(0, c.gain)));
    int bits = (int)vc_range("bits", 1, 32);
    float full = std::pow(2.f, (float)bits) - 1.f;
    std::mt19937 rng(1);
    std::normal_distribution<float> dist(0.f, 10.f);
    float v = noise_and_adc<RGB>(signal, dark, c, full, rng, dist);
    vc_check(vc_and(vc_le(0, v), vc_le(v, 1)), "a fraction of full scale");
}
