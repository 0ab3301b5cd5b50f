// C07: an image is a width x height array of pixels.
#include "any_image.h"
template <class P> static void reads()
{
    auto im = any_image<P>("px");
    const auto& ci = im;
    int w = im.width(), h = im.height();
    vc_check(im.size() == (size_t)w * (size_t)h, "size");
    vc_check(!im.empty(), "not empty");
    vc_check((bool)im, "not empty");
    vc_check(vc_and(im.resolution().width == w, im.resolution().height == h), "resolution");
    vc_check(vc_and(im.resolution().x == w, im.resolution().y == h), "resolution");
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    size_t i = (size_t)y * (size_t)w + (size_t)x;
    const P v = ci.data()[i];
    vc_check(same_pixel(im(x, y), v), "row by row");
    vc_check(same_pixel(ci(x, y), v), "row by row");
    vc_check(same_pixel(im[i], v), "linear index");
    vc_check(same_pixel(ci[i], v), "linear index");
    vc_check(same_pixel(im.at(x, y), v), "checked access");
    vc_check(same_pixel(ci.at(x, y), v), "checked access");
    vc_check(same_pixel(im.at(i), v), "checked access");
    vc_check(same_pixel(ci.at(i), v), "checked access");
    Pixel p{(float)x, (float)y};
    vc_check(same_pixel(im(p), v), "access by pixel");
    vc_check(same_pixel(ci(p), v), "access by pixel");
    vc_check(same_pixel(im.at(p), v), "access by pixel");
    vc_check(same_pixel(ci.at(p), v), "access by pixel");
}
VC_CONTRACT(REAL, reads_float) { reads<float>(); }
VC_CONTRACT(REAL, reads_rgb) { reads<RGB>(); }
VC_CONTRACT(REAL, reads_vec3) { reads<Vec3<float>>(); }
VC_CONTRACT(REAL, reads_u8) { reads<uint8_t>(); }
// writing one pixel changes that pixel and no other; a copy is independent
template <class P, class F> static void write(F set)
{
    auto im = any_image<P>("px");
    auto old = im;
    int w = im.width(), h = im.height();
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    int a = (int)vc_index("a", w), b = (int)vc_index("b", h);
    P v = any_pixel<P>("v");
    set(im, x, y, v);
    if (vc_and(a == x, b == y)) vc_check(same_pixel(im(a, b), v), "the pixel is written");
    else vc_check(same_pixel(im(a, b), old(a, b)), "no other pixel changes");
    vc_check(vc_and(vc_and(im.width() == w, im.height() == h), im.size() == (size_t)w * (size_t)h), "same size");
    vc_check(same_pixel(old(x, y), ((const P*)old.data())[(size_t)y * (size_t)w + (size_t)x]), "copy");
}
template <class P> static void writes()
{
    int how = (int)vc_range("how", 0, 5);
    write<P>([&](Image<P>& im, int x, int y, const P& v) {
        switch (how) {
        case 0: im(x, y) = v; break;
        case 1: im.at(x, y) = v; break;
        case 2: im[(size_t)(y * im.width() + x)] = v; break;
        case 3: im.at((size_t)(y * im.width() + x)) = v; break;
        case 4: im(Pixel{(float)x, (float)y}) = v; break;
        default: im.at(Pixel{(float)x, (float)y}) = v;
        }
    });
}
VC_CONTRACT(REAL, writes_float) { writes<float>(); }
VC_CONTRACT(REAL, writes_rgb) { writes<RGB>(); }
VC_CONTRACT(REAL, writes_u8) { writes<uint8_t>(); }
// checked access throws exactly for indices outside
VC_CONTRACT(REAL, checked_xy)
{
    auto im = any_image<float>("px");
    const auto& ci = im;
    int x = vc_i32("x"), y = vc_i32("y");
    bool in = vc_and(vc_and(0 <= x, x < im.width()), vc_and(0 <= y, y < im.height()));
    vc_check(vc_iff(throws([&] { (void)im.at(x, y); }), vc_not(in)), "throws outside");
    vc_check(vc_iff(throws([&] { (void)ci.at(x, y); }), vc_not(in)), "throws outside");
}
VC_CONTRACT(REAL, checked_index)
{
    auto im = any_image<float>("px");
    const auto& ci = im;
    size_t i = (size_t)vc_u64("i");
    bool in = i < (size_t)im.width() * (size_t)im.height();
    vc_check(vc_iff(throws([&] { (void)im.at(i); }), vc_not(in)), "throws outside");
    vc_check(vc_iff(throws([&] { (void)ci.at(i); }), vc_not(in)), "throws outside");
}
VC_CONTRACT(REAL, checked_pixel)
{
    auto im = any_image<float>("px");
    const auto& ci = im;
    Pixel p{vc_float("x"), vc_float("y")};
    bool in = vc_and(vc_and(0 <= p.x, p.x < im.width()), vc_and(0 <= p.y, p.y < im.height()));
    vc_check(vc_iff(throws([&] { (void)im.at(p); }), vc_not(in)), "throws outside");
    vc_check(vc_iff(throws([&] { (void)ci.at(p); }), vc_not(in)), "throws outside");
}
VC_CONTRACT(REAL, checked_nan)
{
    auto im = any_image<float>("px");
    const float nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity();
    vc_check(throws([&] { (void)im.at(Pixel{nan, 0.f}); }), "throws at NaN");
    vc_check(throws([&] { (void)im.at(Pixel{0.f, nan}); }), "throws at NaN");
    vc_check(throws([&] { (void)im.at(Pixel{inf, 0.f}); }), "throws at infinity");
    vc_check(throws([&] { (void)im.at(Pixel{0.f, -inf}); }), "throws at infinity");
}
// construction and filling
template <class P> static void built()
{
    int w = (int)vc_range("w", 0, 30000), h = (int)vc_range("h", 0, 30000);
    Image<P> a(w, h), b(Resolution(w, h));
    vc_check(vc_and(a.size() == (size_t)w * (size_t)h, b.size() == (size_t)w * (size_t)h), "size");
    vc_check(vc_iff(a.empty(), vc_or(w == 0, h == 0)), "empty");
    vc_check(a.resolution() == b.resolution(), "resolution");
    vc_assume(vc_and(w > 0, h > 0));
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    vc_check(same_pixel(a(x, y), P{}), "black");
    vc_check(same_pixel(b(x, y), P{}), "black");
}
VC_CONTRACT(REAL, built_float) { built<float>(); }
VC_CONTRACT(REAL, built_rgb) { built<RGB>(); }
VC_CONTRACT(REAL, built_u8) { built<uint8_t>(); }
template <class P> static void filled()
{
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    P v = any_pixel<P>("v"), u = any_pixel<P>("u");
    Image<P> a(w, h, v), b(Resolution(w, h), v);
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    vc_check(vc_and(a.width() == w, b.height() == h), "size");
    vc_check(same_pixel(a(x, y), v), "fill value");
    vc_check(same_pixel(b(x, y), v), "fill value");
    a.fill(u);
    b.reset(u);
    vc_check(same_pixel(a(x, y), u), "fill");
    vc_check(same_pixel(b(x, y), u), "reset");
    vc_check(vc_and(a.width() == w, b.height() == h), "size");
    b.reset();
    vc_check(same_pixel(b(x, y), P{0}), "reset to black");
    a.clear();
    vc_check(vc_and(a.empty(), vc_and(a.width() == 0, a.height() == 0)), "clear");
    vc_check(vc_not((bool)a), "clear");
    vc_check(throws([&] { (void)a.at(0, 0); }), "no pixels left");
}
VC_CONTRACT(REAL, filled_float) { filled<float>(); }
VC_CONTRACT(REAL, filled_rgb) { filled<RGB>(); }
VC_CONTRACT(REAL, filled_u8) { filled<uint8_t>(); }
VC_CONTRACT(REAL, default_image)
{
    Image<float> a;
    vc_check(vc_and(a.empty(), a.size() == 0), "empty");
    vc_check(vc_and(a.width() == 0, a.height() == 0), "no size");
    vc_check(throws([&] { (void)a.at(size_t(0)); }), "no pixels");
    vc_check(a.sensor_bit_depth() == 0, "no bit depth");
    int d = vc_i32("d");
    a.set_sensor_bit_depth(d);
    vc_check(a.sensor_bit_depth() == d, "bit depth");
}
// sums and channels
template <class P> static void sum()
{
    auto a = any_image<P>("a");
    int w = a.width(), h = a.height();
    Image<P> b(w, h);
    fill_any(b, "b");
    auto s = a + b;
    vc_check(vc_and(s.width() == w, s.height() == h), "size");
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    for (int c = 0; c < lanes<P>(); ++c) vc_check(vc_eq(lane(s(x, y), c), lane(a(x, y), c) + lane(b(x, y), c)), "pixel by pixel");
}
VC_CONTRACT(REAL, sum_float) { sum<float>(); }
VC_CONTRACT(REAL, sum_rgb) { sum<RGB>(); }
VC_CONTRACT(REAL, sum_mismatch)
{
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    int v = (int)vc_range("v", 1, 30000), g = (int)vc_range("g", 1, 30000);
    Image<float> a(w, h), b(v, g);
    vc_check(vc_iff(throws([&] { (void)(a + b); }), vc_or(w != v, h != g)), "throws exactly for different sizes");
}
template <class P> static void channel()
{
    auto a = any_image<P>("a");
    int w = a.width(), h = a.height();
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    for (int c = 0; c < lanes<P>(); ++c) {
        auto s = a.get_channel((size_t)c);
        vc_check(vc_and(s.width() == w, s.height() == h), "size");
        vc_check(vc_eq(s(x, y), lane(a(x, y), c)), "the channel of every pixel");
    }
    size_t n = (size_t)vc_u64("n");
    vc_assume(n >= (size_t)lanes<P>());
    vc_check(throws([&] { (void)a.get_channel(n); }), "no such channel");
}
VC_CONTRACT(REAL, channel_rgb) { channel<RGB>(); }
VC_CONTRACT(REAL, channel_float) { channel<float>(); }
VC_CONTRACT(REAL, channel_vec3) { channel<Vec3<float>>(); }
// moving and assigning
template <class P> static void moved()
{
    auto a = any_image<P>("a");
    const Image<P> old = a;
    int w = a.width(), h = a.height();
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    Image<P> b = std::move(a);
    vc_check(vc_and(b.width() == w, b.height() == h), "moved size");
    vc_check(same_pixel(b(x, y), old(x, y)), "moved pixels");
    Image<P> c(3, 2);
    c = b;
    vc_check(vc_and(vc_and(c.width() == w, c.height() == h), c.resolution().x == w), "assigned size");
    vc_check(same_pixel(c(x, y), old(x, y)), "assigned pixels");
    b.clear();
    vc_check(vc_and(c.width() == w, c.resolution().y == h), "assigned size");
    vc_check(same_pixel(c(x, y), old(x, y)), "independent of the source");
}
VC_CONTRACT(REAL, moved_float) { moved<float>(); }
VC_CONTRACT(REAL, moved_rgb) { moved<RGB>(); }
