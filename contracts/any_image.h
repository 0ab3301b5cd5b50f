// Arbitrary images: any size from 1 x 1 to 30000 x 30000, any pixels.
#pragma once
#include <cstring>
#include "any.h"
#include "huira/images/image.hpp"
namespace vc {
template <class P> constexpr int lanes()
{
    return (int)ImagePixelTraits<P>::channels;
}
template <class P> double lane(const P& p, int c)
{
    if constexpr (std::is_arithmetic_v<P>) return (double)p;
    else if constexpr (is_spectral_bins_v<P>) return (double)p[(size_t)c];
    else return (double)p[c];
}
template <class P> bool same_pixel(const P& a, const P& b)
{
    bool ok = true;
    for (int c = 0; c < lanes<P>(); ++c) ok = vc_and(ok, lane(a, c) == lane(b, c));
    return ok;
}
template <class P> P any_pixel(const char* n)
{
    if constexpr (std::is_integral_v<P>) return (P)vc_range(n, std::numeric_limits<P>::min(), std::numeric_limits<P>::max());
    else if constexpr (std::is_arithmetic_v<P>) return (P)vc_real(n);
    else {
        P p{};
        for (int c = 0; c < lanes<P>(); ++c)
            if constexpr (is_spectral_bins_v<P>) p[(size_t)c] = vc_float(n);
            else p[c] = vc_float(n);
        return p;
    }
}
template <class P> void fill_any(Image<P>& im, const char* n)
{
    constexpr int kind = std::is_same_v<P, uint8_t> ? 0 : std::is_same_v<P, double> ? 2 : std::is_same_v<P, uint64_t> ? 4 : 1;
    std::memcpy((void*)im.data(), vc_array(n, im.size(), kind, lanes<P>()), im.size() * sizeof(P));
}
template <class P> Image<P> any_image(const char* n)
{
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    Image<P> im(w, h);
    fill_any(im, n);
    return im;
}
} // namespace vc
using namespace huira;
using namespace vc;
