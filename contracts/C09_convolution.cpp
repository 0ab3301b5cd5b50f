// C09: convolution with a kernel of up to 25 elements. Large kernels go through FFTW, see DESIGN.md.
#include "any_image.h"
template <class P> static double at(const Image<P>& im, int x, int y, int c)
{
    bool in = 0 <= x && x < im.width() && 0 <= y && y < im.height();
    return in ? lane(im(x, y), c) : 0.0;
}
template <class P, int KW, int KH> static void convolved()
{
    auto im = any_image<P>("px");
    Image<P> kernel(KW, KH);
    for (int y = 0; y < KH; ++y)
        for (int x = 0; x < KW; ++x) kernel(x, y) = any_pixel<P>("k");
    const auto old = im;
    const auto k = kernel;
    int w = im.width(), h = im.height();
    im.convolve(kernel);
    vc_check(vc_and(im.width() == w, im.height() == h), "size");
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    for (int c = 0; c < lanes<P>(); ++c) {
        double s = 0;
        for (int j = 0; j < KH; ++j)
            for (int i = 0; i < KW; ++i) s += at(old, x - (i - KW / 2), y - (j - KH / 2), c) * lane(k(i, j), c);
        vc_check(vc_eq(lane(im(x, y), c), s), "weighted sum of the pixels around, zero outside the image");
    }
    vc_check(vc_and(kernel.width() == KW, same_pixel(kernel(0, 0), k(0, 0))), "the kernel is left alone");
}
VC_CONTRACT(REAL, k1x1) { convolved<float, 1, 1>(); }
VC_CONTRACT(REAL, k1x1_rgb) { convolved<RGB, 1, 1>(); }
VC_CONTRACT(REAL, k2x1) { convolved<float, 2, 1>(); }
VC_CONTRACT(REAL, k3x1) { convolved<float, 3, 1>(); }
VC_CONTRACT(REAL, k1x3) { convolved<float, 1, 3>(); }
VC_CONTRACT(REAL, k2x1_rgb) { convolved<RGB, 2, 1>(); }
