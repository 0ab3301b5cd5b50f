// C22: decoding of image files from memory.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <vector>
namespace fs = std::filesystem;
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/io/bmp_io.hpp"
using namespace huira;
namespace {
struct File {
    unsigned char* data;
    size_t size;
    uint32_t offset, dib;
    int32_t w, h;
    uint16_t bits;
    uint32_t compression;
};
template <class T> T get(const File& f, size_t at)
{
    T v;
    std::memcpy(&v, f.data + at, sizeof(T));
    return v;
}
File any_file()
{
    File f;
    f.size = (size_t)vc_range("size", 54, 1LL << 31);
    f.data = (unsigned char*)vc_bytes("file", f.size, 0);
    f.offset = get<uint32_t>(f, 10), f.dib = get<uint32_t>(f, 14), f.w = get<int32_t>(f, 18), f.h = get<int32_t>(f, 22), f.bits = get<uint16_t>(f, 28), f.compression = get<uint32_t>(f, 30);
    return f;
}
}
namespace {
bool valid(const File& f)
{
    if (f.data[0] != 'B' || f.data[1] != 'M' || f.dib < 40 || f.size < 14 + (size_t)f.dib) return false;
    if (f.compression != 0 && f.compression != 3) return false;
    if (f.bits != 24 && f.bits != 32) return false;
    return f.w > 0 && f.h != 0 && f.h != std::numeric_limits<int32_t>::min();
}
size_t rows(const File& f) { return f.h < 0 ? (size_t)-(int64_t)f.h : (size_t)f.h; }
size_t stride(const File& f) { return ((size_t)f.w * (f.bits == 32 ? 4 : 3) + 3) / 4 * 4; }
}
VC_CONTRACT(REAL, bmp_raw)
{
    File f = any_file();
    BMPData d;
    if (vc::throws([&] { d = read_bmp_raw_(f.data, f.size); })) return;
    vc_check(valid(f), "only images are accepted");
    size_t n = f.bits == 32 ? 4 : 3, w = (size_t)f.w, h = rows(f);
    vc_check(d.width == f.w && (size_t)d.height == h && d.resolution.x == d.width && d.resolution.y == d.height, "the size of the image");
    vc_check((size_t)d.channels == n && d.has_alpha == (n == 4), "its channels");
    vc_check(d.raw_data.size() == w * h * n, "all pixels");
}
namespace {
// A file of w by h pixels, otherwise any.
File small_file()
{
    File f;
    f.size = (size_t)vc_range("size", 54, 1LL << 31);
    f.data = (unsigned char*)vc_bytes("file", f.size, 0);
    int w = (int)vc_range("w", 1, 2), h = vc_range("down", 0, 1) ? -2 : 2, bits = vc_range("deep", 0, 1) ? 32 : 24;
    f.data[0] = 'B', f.data[1] = 'M'; // which headers are accepted: bmp_raw
    f.data[14] = 40, f.data[15] = f.data[16] = f.data[17] = 0;
    for (int i = 30; i < 34; ++i) f.data[i] = 0;
    for (int i = 0; i < 4; ++i) f.data[18 + i] = (unsigned char)((uint32_t)w >> 8 * i), f.data[22 + i] = (unsigned char)((uint32_t)h >> 8 * i);
    f.data[28] = (unsigned char)bits, f.data[29] = 0;
    f.w = w, f.h = h, f.bits = (uint16_t)bits;
    f.offset = get<uint32_t>(f, 10), f.dib = 40, f.compression = 0;
    return f;
}
size_t place(const File& f, int x, int y)
{
    return f.offset + (size_t)(f.h > 0 ? f.h - 1 - y : y) * stride(f) + (size_t)(x * (f.bits / 8));
}
bool complete(const File& f) { return valid(f) && f.offset + stride(f) * rows(f) <= f.size; }
}
VC_CONTRACT(REAL, bmp_image)
{
    vc_bounded("images of up to 2 by 2 pixels, in files of any size");
    File f = small_file();
    bool want = vc_range("alpha", 0, 1);
    ImageBundle<RGB> b;
    if (vc::throws([&] { b = read_image_bmp(f.data, f.size, want); })) {
        vc_check(!complete(f), "images are accepted");
        return;
    }
    vc_check(complete(f), "only complete images are accepted");
    vc_check(b.image.width() == f.w && b.image.height() == (int)rows(f), "the size of the image");
    bool alpha = want && f.bits == 32;
    vc_check(b.alpha.width() == (alpha ? f.w : 0) && b.alpha.height() == (alpha ? (int)rows(f) : 0), "alpha if there is any and it is asked for");
    for (int y = 0; y < (int)rows(f); ++y)
        for (int x = 0; x < f.w; ++x) {
            const unsigned char* q = f.data + place(f, x, y);
            RGB c = b.image(x, y);
            vc_check(vc_and(vc_and(vc_eq(c[0] * 255, q[2]), vc_eq(c[1] * 255, q[1])), vc_eq(c[2] * 255, q[0])), "each pixel at its place");
            if (alpha) vc_check(vc_eq(b.alpha(x, y) * 255, q[3]), "and its alpha");
        }
}
VC_CONTRACT(REAL, bmp_mono)
{
    vc_bounded("images of up to 2 by 2 pixels, in files of any size");
    File f = small_file();
    bool want = vc_range("alpha", 0, 1);
    ImageBundle<float> b;
    if (vc::throws([&] { b = read_image_bmp_mono(f.data, f.size, want); })) {
        vc_check(!complete(f), "images are accepted");
        return;
    }
    vc_check(complete(f), "only complete images are accepted");
    vc_check(b.image.width() == f.w && b.image.height() == (int)rows(f), "the size of the image");
    bool alpha = want && f.bits == 32;
    for (int y = 0; y < (int)rows(f); ++y)
        for (int x = 0; x < f.w; ++x) {
            const unsigned char* q = f.data + place(f, x, y);
            vc_check(vc_eq(b.image(x, y) * 765, (double)q[0] + q[1] + q[2]), "each pixel is the mean of its colours");
            if (alpha) vc_check(vc_eq(b.alpha(x, y) * 255, q[3]), "and its alpha");
        }
}
