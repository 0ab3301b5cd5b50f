// C04: spectral bins: layout, element-wise arithmetic, totals, integrals, validity and conversions.
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/units/units.hpp"
using namespace huira;
using Pairs = SpectralBins<2, 600, 750, 400, 500>;
using Edges = SpectralBins<3, 400, 500, 550, 700>;
using One = UniformSpectralBins<1, 500, 600>;
template <class S> static S any(const char* n)
{
    S s;
    for (std::size_t i = 0; i < S::size(); ++i) s[i] = vc_float(n);
    return s;
}
template <class S> static void layout(const char* n, std::initializer_list<double> nm)
{
    auto all = S::get_all_bins();
    vc_check(S::size() * 2 == nm.size(), n);
    for (std::size_t i = 0; i < S::size(); ++i) {
        Bin b = S::get_bin(i);
        vc_check(vc_eq(b.min_wavelength, nm.begin()[2 * i] * 1e-9), n);
        vc_check(vc_eq(b.max_wavelength, nm.begin()[2 * i + 1] * 1e-9), n);
        vc_check(vc_eq(b.center_wavelength, (nm.begin()[2 * i] + nm.begin()[2 * i + 1]) / 2 * 1e-9), n);
        vc_check(vc_eq(all[i].min_wavelength, b.min_wavelength), n);
        vc_check(vc_eq(all[i].max_wavelength, b.max_wavelength), n);
    }
}
VC_CONTRACT(REAL, layout)
{
    layout<RGB>("RGB bands", {600, 750, 500, 600, 380, 500});
    layout<Edges>("edges", {400, 500, 500, 550, 550, 700});
    layout<One>("uniform", {500, 600});
    layout<UniformSpectralBins<4, 400, 800>>("uniform", {400, 500, 500, 600, 600, 700, 700, 800});
    layout<Visible8>("visible", {380, 426.25, 426.25, 472.5, 472.5, 518.75, 518.75, 565, 565, 611.25, 611.25, 657.5, 657.5, 703.75, 703.75, 750});
    layout<SWIR8>("swir", {900, 1100, 1100, 1300, 1300, 1500, 1500, 1700, 1700, 1900, 1900, 2100, 2100, 2300, 2300, 2500});
}
template <class S> static void arithmetic()
{
    const S a = any<S>("a"), b = any<S>("b");
    float k = vc_float("k");
    auto each = [&](const S& r, auto f, const char* n) {
        for (std::size_t i = 0; i < S::size(); ++i) vc_check(vc_eq(r[i], f(a[i], b[i])), n);
    };
    each(a + b, [](float x, float y) { return x + y; }, "sum");
    each(a - b, [](float x, float y) { return x - y; }, "difference");
    each(a * b, [](float x, float y) { return x * y; }, "product");
    each(-a, [](float x, float) { return -x; }, "negation");
    each(+a, [](float x, float) { return x; }, "plus");
    each(a + k, [k](float x, float) { return x + k; }, "scalar sum");
    each(k + a, [k](float x, float) { return x + k; }, "scalar sum");
    each(a - k, [k](float x, float) { return x - k; }, "scalar difference");
    each(k - a, [k](float x, float) { return k - x; }, "scalar difference");
    each(a * k, [k](float x, float) { return x * k; }, "scaling");
    each(k * a, [k](float x, float) { return x * k; }, "scaling");
    each(a * (double)k, [k](float x, float) { return x * k; }, "scaling");
    bool e = true;
    float t = 0;
    for (std::size_t i = 0; i < S::size(); ++i) {
        e = vc_and(e, vc_eq(a[i], b[i]));
        t += a[i];
    }
    vc_check(vc_iff(a == b, e), "equality");
    vc_check(vc_iff(a != b, vc_not(e)), "equality");
    vc_check(vc_eq(a.total(), t), "total");
    S c = a;
    c += b;
    c -= a;
    vc_check(c == b, "sum then difference");
    S f(k), g;
    g.fill(k);
    each(f, [k](float, float) { return k; }, "fill");
    each(g, [k](float, float) { return k; }, "fill");
    each(S(), [](float, float) { return 0.f; }, "default is zero");
    for (std::size_t i = 0; i < S::size(); ++i) {
        vc_check(vc_eq(a.at(i), a[i]), "at");
        vc_check(vc_eq(a.data()[i], a[i]), "data");
        vc_check(vc_eq(a.begin()[i], a[i]), "iteration");
    }
    vc_check(vc::throws([&] { (void)a.at(S::size()); }), "at rejects an index outside");
    for (std::size_t i = 0; i < S::size(); ++i) vc_assume(vc_not(vc_eq(b[i], 0)));
    vc_assume(vc_not(vc_eq(k, 0)));
    each(a / b, [](float x, float y) { return x / y; }, "quotient");
    each(a / k, [k](float x, float) { return x / k; }, "scaling");
    each(k / b, [k](float, float y) { return k / y; }, "scalar quotient");
}
VC_CONTRACT(REAL, arithmetic_rgb) { arithmetic<RGB>(); }
VC_CONTRACT(REAL, arithmetic_one) { arithmetic<One>(); }
VC_CONTRACT(REAL, arithmetic_pairs) { arithmetic<Pairs>(); }
VC_CONTRACT(REAL, arithmetic_visible8) { arithmetic<Visible8>(); }
VC_CONTRACT(REAL, initializer_list)
{
    float a = vc_float("a"), b = vc_float("b");
    auto from = [](std::initializer_list<float> l) { return Visible8(l); };
    Visible8 one = from({a}), two = from({a, b}), full = from({a, b, a, b, a, b, a, b}), more = from({a, b, a, b, a, b, a, b, 9.f});
    for (std::size_t i = 0; i < 8; ++i) {
        vc_check(vc_eq(one[i], a), "one value fills all bins");
        vc_check(vc_eq(two[i], i == 0 ? a : i == 1 ? b : 0.f), "a short list leaves zero");
        vc_check(vc_eq(full[i], i % 2 ? b : a), "list in order");
        vc_check(vc_eq(more[i], i % 2 ? b : a), "list in order");
    }
    RGB v{a, b, 3.0f};
    vc_check(vc_and(vc_and(vc_eq(v[0], a), vc_eq(v[1], b)), vc_eq(v[2], 3)), "values in order");
}
template <class S> static void extremes()
{
    S a = any<S>("a");
    bool isa = false, isi = false, ge = true, le = true;
    for (std::size_t i = 0; i < S::size(); ++i) {
        isa = vc_or(isa, vc_eq(a[i], a.max()));
        isi = vc_or(isi, vc_eq(a[i], a.min()));
        ge = vc_and(ge, vc_le(a[i], a.max()));
        le = vc_and(le, vc_le(a.min(), a[i]));
    }
    vc_check(vc_and(isa, ge), "max is the largest bin");
    vc_check(vc_and(isi, le), "min is the smallest bin");
    float q = 0;
    for (std::size_t i = 0; i < S::size(); ++i) q += a[i] * a[i];
    vc_check(vc_eq(a.magnitude() * a.magnitude(), q), "magnitude");
    vc_check(vc_le(0, a.magnitude()), "magnitude");
}
VC_CONTRACT(REAL, extremes_rgb) { extremes<RGB>(); }
VC_CONTRACT(REAL, extremes_4) { extremes<UniformSpectralBins<4, 400, 800>>(); }
VC_CONTRACT(REAL, square_root)
{
    RGB a = any<RGB>("a");
    for (int i = 0; i < 3; ++i) vc_assume(vc_le(0, a[i]));
    RGB r = a.sqrt();
    for (int i = 0; i < 3; ++i) vc_check(vc_and(vc_eq(r[i] * r[i], a[i]), vc_le(0, r[i])), "square root");
}
VC_CONTRACT(FP, valid)
{
    RGB a = any<RGB>("a");
    bool v = true, r = true;
    for (int i = 0; i < 3; ++i) {
        v = vc_and(v, vc_and(vc_le(0, a[i]), vc_le(a[i], std::numeric_limits<float>::max())));
        r = vc_and(r, vc_and(vc_le(0, a[i]), vc_le(a[i], 1)));
    }
    vc_check(vc_iff(a.valid(), v), "valid means finite and not negative");
    vc_check(vc_iff(a.valid_ratio(), r), "valid ratio means between 0 and 1");
}
template <class S> static double width(std::size_t i) { return S::get_bin(i).max_wavelength - S::get_bin(i).min_wavelength; }
template <class S> static void integrals()
{
    S a = any<S>("a");
    double t = 0, w = 0;
    for (std::size_t i = 0; i < S::size(); ++i) t += a[i] * width<S>(i), w += width<S>(i);
    vc_check(vc_eq(a.integrate() * 1e6, t * 1e6), "integral");
    float p = vc_float("p");
    S d = S::from_total(p);
    vc_check(vc_eq(d.total(), p), "from_total keeps the total");
    for (std::size_t i = 0; i < S::size(); ++i) vc_check(vc_eq(d[i] * w * 1e6, p * width<S>(i) * 1e6), "from_total is proportional to the width");
}
VC_CONTRACT(REAL, integrals_rgb) { integrals<RGB>(); }
VC_CONTRACT(REAL, integrals_edges) { integrals<Edges>(); }
VC_CONTRACT(REAL, integrals_pairs) { integrals<Pairs>(); }
VC_CONTRACT(REAL, integrals_visible8) { integrals<Visible8>(); }
template <class S> static void band()
{
    S a = any<S>("a");
    // lengths in nanometres, scaled to metres
    double lo = vc_real("lo"), hi = vc_real("hi");
    vc_assume(vc_le(lo, hi));
    double t = 0;
    for (std::size_t i = 0; i < S::size(); ++i) {
        double bl = S::get_bin(i).min_wavelength, bh = S::get_bin(i).max_wavelength;
        double l = vc_if(vc_le(bl, lo), lo, bl), h = vc_if(vc_le(hi, bh), hi, bh);
        t += vc_if(vc_lt(l, h), a[i] * (h - l), 0);
    }
    vc_check(vc_eq(a.integrate_over_band(lo, hi) * 1e6, t * 1e6), "integral over a band is the overlap");
}
VC_CONTRACT(REAL, band_rgb) { band<RGB>(); }
VC_CONTRACT(REAL, band_edges) { band<Edges>(); }
VC_CONTRACT(REAL, band_pairs) { band<Pairs>(); }
VC_CONTRACT(REAL, photon_energies)
{
    auto e = Visible8::photon_energies();
    for (std::size_t i = 0; i < 8; ++i)
        vc_check(vc::near(e[i] * 1e19 * Visible8::get_bin(i).center_wavelength * 1e6, 6.62607015e-34 * 299792458.0 * 1e25, 1e-5), "photon energy of the bin centre");
}
template <class S> static void from_rgb(bool overlaps)
{
    RGB c = any<RGB>("c");
    S s = convert_rgb_to_spectral<S>(c);
    for (std::size_t i = 0; i < S::size(); ++i) {
        double t = 0;
        for (std::size_t j = 0; j < 3; ++j) {
            double l = std::max(S::get_bin(i).min_wavelength, RGB::get_bin(j).min_wavelength), h = std::min(S::get_bin(i).max_wavelength, RGB::get_bin(j).max_wavelength);
            if (l < h) t += c[j] * (h - l);
        }
        if (overlaps) vc_check(vc_eq(s[i], t / width<S>(i)), "mean of the colour over the bin");
        else vc_check(vc_eq(s[i], (c[0] + c[1] + c[2]) / 3), "grey outside the visible range");
    }
}
VC_CONTRACT(REAL, rgb_visible) { from_rgb<Visible8>(true); }
VC_CONTRACT(REAL, rgb_blue) { from_rgb<UniformSpectralBins<2, 380, 500>>(true); }
VC_CONTRACT(REAL, rgb_edges) { from_rgb<Edges>(true); }
VC_CONTRACT(REAL, rgb_swir) { from_rgb<SWIR8>(false); }
VC_CONTRACT(REAL, rgb_same)
{
    RGB c = any<RGB>("c");
    vc_check(convert_rgb_to_spectral<RGB>(c) == c, "RGB stays RGB");
}
VC_CONTRACT(REAL, rgb_flat)
{
    float g = vc_float("g");
    auto s = convert_rgb_to_spectral<Visible8>(RGB(g));
    for (std::size_t i = 0; i < 8; ++i) vc_check(vc_eq(s[i], g), "grey stays flat");
}
VC_CONTRACT(REAL, quantity)
{
    RGB c = any<RGB>("c");
    units::SpectralKilowatts<RGB> k(c);
    units::SpectralMilliwatts<RGB> m = k;
    units::SpectralKilowatts<RGB> b = m;
    for (int i = 0; i < 3; ++i) {
        vc_check(vc_eq(k.to_si()[i], c[i] * 1000), "SI value");
        vc_check(vc_eq(m.value()[i], c[i] * 1e6), "conversion");
        vc_check(vc_eq(m.to_si()[i], c[i] * 1000), "conversion keeps the physical value");
        vc_check(vc_eq(b.value()[i], c[i]), "round trip");
        vc_check(vc_eq(k.template as<std::mega>().value()[i], c[i] / 1000), "as is conversion");
    }
    vc_check(units::SpectralWatts<RGB>().value() == RGB(0.f), "default is zero");
}
// measured data: piecewise linear through the samples, averaged over each bin
template <int M> static double piecewise(const double* x, const float* y, double a, double b)
{
    double t = 0;
    for (int k = 0; k + 1 < M; ++k) {
        double l = vc_if(vc_le(x[k], a), a, x[k]), h = vc_if(vc_le(b, x[k + 1]), b, x[k + 1]), m = (l + h) / 2;
        double v = y[k] + (y[k + 1] - y[k]) * (m - x[k]) / (x[k + 1] - x[k]);
        t += vc_if(vc_lt(l, h), v * (h - l), 0);
    }
    return t;
}
template <int M> static void data_covering()
{
    vc_bounded("number of samples");
    using S = SpectralBins<2, 400, 500, 600>;
    std::vector<double> x(M);
    std::vector<float> y(M);
    for (int i = 0; i < M; ++i) {
        x[i] = vc_real("x");
        y[i] = vc_float("y");
        if (i) vc_assume(vc_lt(x[i - 1], x[i]));
    }
    vc_assume(vc_le(x[0], 400));
    vc_assume(vc_le(600, x[M - 1]));
    S s = S::integrate_over_data(x, y);
    vc_check(vc_eq(s[0], piecewise<M>(x.data(), y.data(), 400, 500) / 100), "mean of the data over the bin");
    vc_check(vc_eq(s[1], piecewise<M>(x.data(), y.data(), 500, 600) / 100), "mean of the data over the bin");
}
VC_CONTRACT(REAL, data_2) { data_covering<2>(); }
VC_CONTRACT(REAL, data_3) { data_covering<3>(); }
// a table that tapers off to zero may start and end anywhere
template <int M> static void data_tapered()
{
    vc_bounded("number of samples");
    using S = SpectralBins<2, 400, 500, 600>;
    std::vector<double> x(M);
    std::vector<float> y(M);
    for (int i = 0; i < M; ++i) {
        x[i] = vc_real("x");
        y[i] = i + 1 < M ? vc_float("y") : 0.f;
        if (i) vc_assume(vc_lt(x[i - 1], x[i]));
    }
    S s = S::integrate_over_data(x, y);
    vc_check(vc_eq(s[0], piecewise<M>(x.data(), y.data(), 400, 500) / 100), "mean of the data over the bin");
    vc_check(vc_eq(s[1], piecewise<M>(x.data(), y.data(), 500, 600) / 100), "mean of the data over the bin");
}
VC_CONTRACT(REAL, taper_2) { data_tapered<2>(); }
VC_CONTRACT(REAL, taper_3) { data_tapered<3>(); }
VC_CONTRACT(REAL, taper_5) { data_tapered<5>(); }
VC_CONTRACT(REAL, data_5) { data_covering<5>(); }
VC_CONTRACT(REAL, data_outside)
{
    vc_bounded("two samples");
    std::vector<double> x{vc_real("x"), vc_real("x")};
    std::vector<float> y{vc_float("y"), vc_float("y")};
    vc_assume(vc_lt(x[0], x[1]));
    vc_assume(vc_or(vc_lt(x[1], 500), vc_lt(600, x[0])));
    One s = One::integrate_over_data(x, y);
    vc_check(vc_eq(s[0], 0), "no data, no response");
}
VC_CONTRACT(REAL, data_invalid)
{
    vc_bounded("up to three samples");
    std::vector<double> x{vc_real("x"), vc_real("x"), vc_real("x")};
    std::vector<float> y{vc_float("y"), vc_float("y"), vc_float("y")};
    bool t = vc::throws([&] { One::integrate_over_data(x, y); });
    vc_check(vc_iff(t, vc_or(vc_le(x[1], x[0]), vc_le(x[2], x[1]))), "samples must ascend");
    vc_check(vc::throws([&] { One::integrate_over_data(x, {1.f}); }), "lengths must agree");
    vc_check(vc::throws([&] { One::integrate_over_data({}, {}); }), "no data is rejected");
}
