// C22: decoding of TGA files from memory.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <vector>
namespace fs = std::filesystem;
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/io/tga_io.hpp"
using namespace huira;
namespace {
struct File {
    unsigned char* data;
    size_t size;
    unsigned type, first, length, entry, w, h, depth, id;
    bool down, mapped, gray, rle;
};
unsigned u16(const File& f, size_t at) { return f.data[at] + 256u * f.data[at + 1]; }
void read(File& f)
{
    f.id = f.data[0], f.type = f.data[2], f.first = u16(f, 3), f.length = u16(f, 5), f.entry = f.data[7], f.w = u16(f, 12), f.h = u16(f, 14), f.depth = f.data[16];
    f.down = f.data[17] / 32 % 2;
    f.mapped = f.type == 1 || f.type == 9, f.gray = f.type == 3 || f.type == 11, f.rle = f.type >= 9;
}
bool valid(const File& f)
{
    if (f.type != 1 && f.type != 2 && f.type != 3 && f.type != 9 && f.type != 10 && f.type != 11) return false;
    if (f.mapped) return f.data[1] == 1 && (f.depth == 8 || f.depth == 16) && (f.entry == 24 || f.entry == 32);
    return f.gray ? f.depth == 8 : f.depth == 24 || f.depth == 32;
}
}
VC_CONTRACT(REAL, tga_short)
{
    size_t n = (size_t)vc_range("size", 0, 17);
    unsigned char* p = (unsigned char*)vc_bytes("file", n, 0);
    vc_check(vc::throws([&] { read_tga_raw_(p, n); }), "no header, no image");
}
namespace {
File any_file()
{
    File f;
    f.size = (size_t)vc_range("size", 18, 1LL << 40);
    f.data = (unsigned char*)vc_bytes("file", f.size, 0);
    return f;
}
// Any file with pixels of that kind, decoded without reading or writing out of bounds.
void decoded(int type, int depth, int entry)
{
    File f = any_file();
    f.data[2] = (unsigned char)type, f.data[16] = (unsigned char)depth;
    if (entry) f.data[1] = 1, f.data[7] = (unsigned char)entry;
    read(f);
    TGAData d;
    if (vc::throws([&] { d = read_tga_raw_(f.data, f.size); })) return;
    unsigned n = (f.mapped ? f.entry : f.depth) == 32 ? 4 : 3;
    vc_check((unsigned)d.width == f.w && (unsigned)d.height == f.h && d.resolution.x == d.width && d.resolution.y == d.height, "the size of the image");
    vc_check((unsigned)d.channels == n && d.has_alpha == (n == 4) && d.is_gray == f.gray, "its channels");
    vc_check(d.raw_data.size() == (size_t)f.w * f.h * n, "all pixels");
}
}
VC_CONTRACT(REAL, tga_rejects)
{
    File f = any_file();
    read(f);
    vc_assume(!valid(f));
    vc_check(vc::throws([&] { read_tga_raw_(f.data, f.size); }), "other formats are rejected");
}
VC_CONTRACT(REAL, tga_gray) { decoded(3, 8, 0); }
VC_CONTRACT(REAL, tga_colour) { decoded(2, 24, 0); }
VC_CONTRACT(REAL, tga_alpha) { decoded(2, 32, 0); }
VC_CONTRACT(REAL, tga_map) { decoded(1, 8, 24); }
VC_CONTRACT(REAL, tga_map_wide) { decoded(1, 16, 32); }
VC_CONTRACT(REAL, tga_rle_gray) { decoded(11, 8, 0); }
VC_CONTRACT(REAL, tga_rle_colour) { decoded(10, 24, 0); }
VC_CONTRACT(REAL, tga_rle_map) { decoded(9, 8, 24); }
// ---- what the pixels are, for small images
namespace {
File small_file(int type, int depth, int entry, int w, int h)
{
    File f = any_file();
    const unsigned char head[18] = {(unsigned char)vc_range("id", 0, 1), (unsigned char)(entry != 0), (unsigned char)type, 1, 0, (unsigned char)(entry ? 2 : 0), 0, (unsigned char)entry, 0, 0, 0, 0, (unsigned char)w, 0, (unsigned char)h, 0, (unsigned char)depth, (unsigned char)(vc_range("down", 0, 1) * 32 + vc_range("bits", 0, 1) * 8)};
    for (int i = 0; i < 18; ++i) f.data[i] = head[i];
    read(f);
    return f;
}
size_t map_at(const File& f) { return 18 + f.id; }
size_t pixels_at(const File& f) { return map_at(f) + (f.mapped ? f.length * (f.entry / 8) : 0); }
// The colour whose pixel or index is at that byte: its bytes, or none.
const unsigned char* colour(const File& f, size_t at)
{
    if (!f.mapped) return f.data + at;
    int i = (f.depth == 8 ? (int)f.data[at] : (int)u16(f, at)) - (int)f.first;
    if (i < 0 || i >= (int)f.length) return nullptr;
    return f.data + map_at(f) + (size_t)i * (f.entry / 8);
}
void is_pixel(const File& f, const RGB& c, const unsigned char* q)
{
    if (f.gray) vc_check(vc_and(vc_and(vc_eq(c[0] * 255, q[0]), vc_eq(c[1] * 255, q[0])), vc_eq(c[2] * 255, q[0])), "each gray value at its place");
    else vc_check(vc_and(vc_and(vc_eq(c[0] * 255, q[2]), vc_eq(c[1] * 255, q[1])), vc_eq(c[2] * 255, q[0])), "each pixel at its place");
}
void image(int type, int depth, int entry)
{
    vc_bounded("images of 2 by 2 pixels, in files of any size");
    File f = small_file(type, depth, entry, 2, 2);
    bool want = vc_range("alpha", 0, 1), alpha = want && (f.mapped ? f.entry : f.depth) == 32;
    size_t step = f.depth / 8;
    ImageBundle<RGB> b;
    bool thrown = vc::throws([&] { b = read_image_tga(f.data, f.size, want); });
    bool complete = pixels_at(f) + 4 * step <= f.size;
    vc_check(!complete ? thrown : true, "only complete images are accepted");
    if (!complete) return;
    bool all = true;
    for (size_t i = 0; i < 4; ++i) all = all && colour(f, pixels_at(f) + i * step);
    vc_check(thrown == !all, "images are accepted");
    if (thrown) return;
    vc_check(b.image.width() == 2 && b.image.height() == 2, "the size of the image");
    vc_check(b.alpha.width() == (alpha ? 2 : 0), "alpha if there is any and it is asked for");
    for (int y = 0; y < 2; ++y)
        for (int x = 0; x < 2; ++x) {
            const unsigned char* q = colour(f, pixels_at(f) + (size_t)((f.down ? y : 1 - y) * 2 + x) * step);
            is_pixel(f, b.image(x, y), q);
            if (alpha) vc_check(vc_eq(b.alpha(x, y) * 255, q[3]), "and its alpha");
        }
}
void packets(int type, int depth, int entry)
{
    vc_bounded("images of 3 pixels in two packets, in files of any size");
    File f = small_file(type, depth, entry, 3, 1);
    size_t step = f.depth / 8, at = pixels_at(f), places[3] = {}, n = 0;
    int runs[2] = {(int)vc_range("run", 0, 1), (int)vc_range("run", 0, 1)}, counts[2] = {(int)vc_range("count", 1, 3), (int)vc_range("count", 1, 3)};
    bool complete = true;
    for (int k = 0; k < 2 && n < 3 && complete; ++k) {
        complete = at < f.size;
        if (!complete) break;
        f.data[at++] = (unsigned char)(runs[k] * 128 + counts[k] - 1);
        size_t bytes = step * (runs[k] ? 1 : (size_t)counts[k]);
        complete = at + bytes <= f.size;
        for (int i = 0; i < counts[k] && n < 3; ++i) places[n++] = at + (runs[k] ? 0 : (size_t)i * step);
        at += bytes;
    }
    vc_assume(n == 3 || !complete);
    ImageBundle<RGB> b;
    bool thrown = vc::throws([&] { b = read_image_tga(f.data, f.size, true); });
    vc_check(!complete ? thrown : true, "only complete images are accepted");
    if (!complete) return;
    bool all = true;
    for (size_t p : places) all = all && colour(f, p);
    vc_check(thrown == !all, "images are accepted");
    if (thrown) return;
    for (int x = 0; x < 3; ++x) is_pixel(f, b.image(x, 0), colour(f, places[x]));
}
}
VC_CONTRACT(REAL, image_gray) { image(3, 8, 0); }
VC_CONTRACT(REAL, image_colour) { image(2, 24, 0); }
VC_CONTRACT(REAL, image_alpha) { image(2, 32, 0); }
VC_CONTRACT(REAL, image_map) { image(1, 8, 32); }
VC_CONTRACT(REAL, packets_gray) { packets(11, 8, 0); }
VC_CONTRACT(REAL, packets_colour) { packets(10, 24, 0); }
VC_CONTRACT(REAL, image_map_wide) { image(1, 16, 24); }
VC_CONTRACT(REAL, packets_map) { packets(9, 16, 24); }
VC_CONTRACT(REAL, image_mono)
{
    vc_bounded("images of 2 by 2 pixels, in files of any size");
    File f = small_file(2, 32, 0, 2, 2);
    bool want = vc_range("alpha", 0, 1);
    ImageBundle<float> b;
    bool thrown = vc::throws([&] { b = read_image_tga_mono(f.data, f.size, want); });
    vc_check(thrown == !(pixels_at(f) + 16 <= f.size), "complete images are accepted");
    if (thrown) return;
    for (int y = 0; y < 2; ++y)
        for (int x = 0; x < 2; ++x) {
            const unsigned char* q = f.data + pixels_at(f) + (size_t)((f.down ? y : 1 - y) * 2 + x) * 4;
            vc_check(vc_eq(b.image(x, y) * 765, (double)q[0] + q[1] + q[2]), "each pixel is the mean of its colours");
            if (want) vc_check(vc_eq(b.alpha(x, y) * 255, q[3]), "and its alpha");
        }
}
