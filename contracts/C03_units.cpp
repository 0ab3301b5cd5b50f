// C03: every unit has its defined size, conversions are exact and reversible, and arithmetic and comparison act on the physical value.
#include "huira/units/units.hpp"
#include "vc.h"
using namespace huira;
using namespace huira::units;
static const double PI_ = 3.141592653589793238462643383279502884;
template <class U> static void unit(const char* n, double factor, double offset = 0)
{
    double x = vc_real(n);
    vc_check(vc_eq(U(x).to_si(), x * factor + offset), n);
    vc_check(vc_eq(U(x).value(), x), n);
    vc_check(vc_eq(U(x).to_si_f(), (float)(x * factor + offset)), n);
    using S = Quantity<typename U::dimension_type, std::ratio<1, 1>>;
    S s = U(x);
    vc_check(vc_eq(s.value(), x * factor + offset), n);
    U back = s;
    vc_check(vc_eq(back.value(), x), n);
    vc_check(vc_eq(S(x).template as<U>().value(), (x - offset) / factor), n);
    vc_check(U(x) == U(x), n);
}
#define UNIT(U, f) unit<U>(#U, f)
VC_CONTRACT(REAL, length)
{
    UNIT(Kilometer, 1000.0);
    UNIT(Meter, 1.0);
    UNIT(Centimeter, 0.01);
    UNIT(Millimeter, 0.001);
    UNIT(Micrometer, 1e-6);
    UNIT(Nanometer, 1e-9);
    UNIT(AstronomicalUnit, 149597870700.0);
    UNIT(Foot, 0.3048);
    UNIT(Yard, 0.9144);
    UNIT(Mile, 1609.344);
    UNIT(SquareMeter, 1.0);
    UNIT(SquareCentimeter, 1e-4);
    UNIT(SquareMillimeter, 1e-6);
    UNIT(Diopter, 1.0);
    UNIT(Millidiopter, 1e-3);
    UNIT(Microdiopter, 1e-6);
}
VC_CONTRACT(REAL, mass_time)
{
    UNIT(Kilogram, 1.0);
    UNIT(Gram, 1e-3);
    UNIT(Milligram, 1e-6);
    UNIT(SiderealDay, 86164.0905);
    UNIT(Day, 86400.0);
    UNIT(Hour, 3600.0);
    UNIT(Minute, 60.0);
    UNIT(Second, 1.0);
    UNIT(Millisecond, 1e-3);
    UNIT(Microsecond, 1e-6);
    UNIT(Nanosecond, 1e-9);
    UNIT(Femtosecond, 1e-15);
    UNIT(MetersPerSecond, 1.0);
    UNIT(KilometersPerSecond, 1000.0);
    UNIT(MilesPerHour, 0.44704);
    unit<KilometersPerHour>("KilometersPerHour", 1000.0 / 3600.0);
    UNIT(Hertz, 1.0);
    UNIT(Kilohertz, 1e3);
    UNIT(Megahertz, 1e6);
    UNIT(Gigahertz, 1e9);
    UNIT(Terahertz, 1e12);
}
VC_CONTRACT(REAL, temperature)
{
    UNIT(Kelvin, 1.0);
    unit<Celsius>("Celsius", 1.0, 273.15);
    unit<Fahrenheit>("Fahrenheit", 5.0 / 9.0, 45967.0 / 180.0);
}
VC_CONTRACT(REAL, angle)
{
    UNIT(Radian, 1.0);
    UNIT(Degree, PI_ / 180.0);
    UNIT(Arcminute, PI_ / 180.0 / 60.0);
    UNIT(Arcsecond, PI_ / 180.0 / 3600.0);
    UNIT(Steradian, 1.0);
    UNIT(SquareDegree, (PI_ / 180.0) * (PI_ / 180.0));
    UNIT(RadiansPerSecond, 1.0);
    UNIT(DegreesPerSecond, PI_ / 180.0);
}
VC_CONTRACT(REAL, energy)
{
    UNIT(Newton, 1.0);
    UNIT(Kilonewton, 1e3);
    UNIT(Pascal, 1.0);
    UNIT(Kilopascal, 1e3);
    UNIT(Joule, 1.0);
    UNIT(Kilojoule, 1e3);
    UNIT(Megajoule, 1e6);
    UNIT(ElectronVolt, 1.602176634e-19);
    UNIT(Milliwatt, 1e-3);
    UNIT(Watt, 1.0);
    UNIT(Kilowatt, 1e3);
    UNIT(Megawatt, 1e6);
    UNIT(Gigawatt, 1e9);
    UNIT(Ampere, 1.0);
    UNIT(Mole, 1.0);
    UNIT(Candela, 1.0);
    UNIT(Coulomb, 1.0);
    UNIT(Lumen, 1.0);
    UNIT(WattsPerMeterSquared, 1.0);
    UNIT(WattsPerMeterSquaredSteradian, 1.0);
    UNIT(WattsPerSteradian, 1.0);
}
template <class A, class B> static void convert()
{
    double x = vc_real("x");
    A a(x);
    B b = a;
    A c = b;
    vc_check(vc_eq(b.to_si(), a.to_si()), "conversion keeps the physical value");
    vc_check(vc_eq(c.value(), x), "conversion round trip");
    vc_check(vc_eq(a.template as<B>().value(), b.value()), "as is conversion");
}
VC_CONTRACT(REAL, conversions)
{
    convert<Mile, Foot>();
    convert<Nanometer, AstronomicalUnit>();
    convert<Degree, Arcsecond>();
    convert<Arcminute, Degree>();
    convert<Celsius, Fahrenheit>();
    convert<Fahrenheit, Kelvin>();
    convert<SiderealDay, Hour>();
    convert<ElectronVolt, Kilojoule>();
    convert<MilesPerHour, KilometersPerHour>();
    convert<SquareDegree, Steradian>();
    convert<DegreesPerSecond, RadiansPerSecond>();
    convert<SquareCentimeter, SquareMillimeter>();
}
template <class A, class B> static void arithmetic()
{
    double x = vc_real("x"), y = vc_real("y"), k = vc_real("k");
    A a(x);
    B b(y);
    vc_check(vc_eq((a + b).to_si(), a.to_si() + b.to_si()), "sum");
    vc_check(vc_eq((a - b).to_si(), a.to_si() - b.to_si()), "difference");
    static_assert(std::is_same_v<decltype(a + b), A>);
    vc_check(vc_eq((a * b).to_si(), a.to_si() * b.to_si()), "product");
    vc_check(vc_eq((a * k).to_si(), a.to_si() * k), "scaling");
    vc_check(vc_eq((k * a).to_si(), a.to_si() * k), "scaling");
    vc_check(vc_eq((-a).to_si(), -a.to_si()), "negation");
    vc_check(vc_iff(a == b, vc_eq(a.to_si(), b.to_si())), "equality");
    vc_check(vc_iff(a != b, vc_not(vc_eq(a.to_si(), b.to_si()))), "equality");
    vc_check(vc_iff(a < b, vc_lt(a.to_si(), b.to_si())), "order");
    vc_check(vc_iff(a > b, vc_lt(b.to_si(), a.to_si())), "order");
    vc_check(vc_iff(a <= b, vc_le(a.to_si(), b.to_si())), "order");
    vc_check(vc_iff(a >= b, vc_le(b.to_si(), a.to_si())), "order");
    A c(a);
    c += A(y);
    vc_check(vc_eq(c.value(), x + y), "compound sum");
    c -= A(y);
    vc_check(vc_eq(c.value(), x), "compound difference");
    c *= k;
    vc_check(vc_eq(c.value(), x * k), "compound scaling");
    vc_assume(vc_not(vc_eq(k, 0)));
    vc_check(vc_eq((a / k).to_si(), a.to_si() / k), "scaling");
    c /= k;
    vc_check(vc_eq(c.value(), x), "compound scaling");
    vc_assume(vc_not(vc_eq(y, 0)));
    vc_check(vc_eq((a / b).to_si(), a.to_si() / b.to_si()), "quotient");
    vc_check(vc_eq((k / b).to_si(), k / b.to_si()), "reciprocal");
}
VC_CONTRACT(REAL, arithmetic_ratio) { arithmetic<Kilometer, Foot>(); }
VC_CONTRACT(REAL, arithmetic_same) { arithmetic<Hour, Hour>(); }
VC_CONTRACT(REAL, arithmetic_tag) { arithmetic<Degree, Arcsecond>(); }
VC_CONTRACT(REAL, arithmetic_mixed) { arithmetic<Minute, SiderealDay>(); }
VC_CONTRACT(REAL, arithmetic_mixed2) { arithmetic<ElectronVolt, Kilojoule>(); }
VC_CONTRACT(REAL, dimensions)
{
    double x = vc_real("x"), y = vc_real("y");
    MetersPerSecond v = Kilometer(x) / Second(2.0);
    vc_check(vc_eq(v.to_si(), x * 500), "velocity");
    Newton f = Kilogram(x) * Meter(y) / (Second(1.0) * Second(2.0));
    vc_check(vc_eq(f.to_si(), x * y / 2), "force");
    Watt w = Kilojoule(x) / Minute(1.0);
    vc_check(vc_eq(w.to_si(), x * 1000 / 60), "power");
    SquareCentimeter a = Millimeter(x) * Meter(y);
    vc_check(vc_eq(a.value(), x * y * 10), "area");
    Hertz h = 1.0 / Millisecond(2.0);
    vc_check(vc_eq(h.to_si(), 500), "frequency");
    double r = Kilometer(x) / Meter(10.0);
    vc_check(vc_eq(r, x * 100), "ratio of lengths is a plain number");
}
VC_CONTRACT(REAL, literals)
{
    using namespace huira::units::literals;
    auto is = [](auto q, double si) { vc_check(vc_eq(q.to_si(), si), "literal"); };
    is(3_Km, 3000); is(3_m, 3); is(3_cm, 0.03); is(3_mm, 0.003); is(3_um, 3e-6); is(3_nm, 3e-9); is(3_au, 3 * 149597870700.0);
    is(3_ft, 0.9144); is(3_yd, 2.7432); is(3_mi, 4828.032); is(3_Kg, 3); is(3_g, 0.003); is(3_mg, 3e-6);
    is(3_day, 259200); is(3_h, 10800); is(3_min, 180); is(3_s, 3); is(3_ms, 0.003); is(3_us, 3e-6); is(3_ns, 3e-9);
    is(3_rad, 3); is(180_deg, PI_); is(3_K, 3); is(3_C, 276.15); is(3_F, 46267.0 / 180.0);
    is(3_dpt, 3); is(3_mdpt, 0.003); is(3_udpt, 3e-6); is(3_mps, 3); is(3_Kmps, 3000); is(3_Miph, 1.34112); is(36_Kmph, 10);
    is(3_radps, 3); is(180_degps, PI_); is(3_Hz, 3); is(3_KHz, 3000); is(3_MHz, 3e6); is(3_GHz, 3e9);
    is(3_J, 3); is(3_KJ, 3000); is(3_eV, 4.806529902e-19); is(3_m2, 3); is(3_cm2, 3e-4); is(3_mm2, 3e-6);
    is(3_W, 3); is(3_mW, 0.003); is(3_KW, 3000); is(3_MW, 3e6);
}
VC_CONTRACT(REAL, nan_rejected)
{
    auto bad = [](auto f) {
        bool threw = false;
        try { f(); } catch (const std::runtime_error&) { threw = true; }
        vc_check(threw, "NaN is not a quantity");
    };
    double nan = std::numeric_limits<double>::quiet_NaN();
    bad([&] { Meter m(nan); });
    bad([&] { Degree m(nan); });
    bad([&] { Kelvin m((float)nan); });
    bad([&] { Quantity<Dimensionless, std::ratio<1, 1>> m(nan); });
    bad([&] { Meter m(vc_real("x")); auto q = m * nan; });
}
