// C13: frame buffer planes.
#include "any_image.h"
#include "huira/render/frame_buffer.hpp"
using namespace huira;
namespace huira {
template <> class CameraModel<RGB> {
  public:
    static FrameBuffer<RGB> make(Resolution r) { return FrameBuffer<RGB>(r); }
};
}
namespace {
using FB = FrameBuffer<RGB>;
const float inf = std::numeric_limits<float>::infinity();
const int planes = 7; // depth, albedo, ids, camera normals, world normals, power, response
bool has(const FB& f, int i)
{
    switch (i) {
    case 0: return f.has_depth();
    case 1: return f.has_albedo();
    case 2: return f.has_geometry_ids();
    case 3: return f.has_camera_normals();
    case 4: return f.has_world_normals();
    case 5: return f.has_received_power();
    default: return f.has_sensor_response();
    }
}
void enable(FB& f, int i, bool on)
{
    switch (i) {
    case 0: f.enable_depth(on); break;
    case 1: f.enable_albedo(on); break;
    case 2: f.enable_geometry_ids(on); break;
    case 3: f.enable_camera_normals(on); break;
    case 4: f.enable_world_normals(on); break;
    case 5: f.enable_received_power(on); break;
    default: f.enable_sensor_response(on); break;
    }
}
bool zero(const Vec3<float>& v) { return vc_and(v.x == 0, vc_and(v.y == 0, v.z == 0)); }
bool zero(const RGB& v) { return vc_and(v[0] == 0, vc_and(v[1] == 0, v[2] == 0)); }
// the value a plane starts with, at (x, y)
bool fresh(FB& f, int i, int x, int y)
{
    switch (i) {
    case 0: return f.depth()(x, y) == inf;
    case 1: return zero(f.albedo()(x, y));
    case 2: return f.geometry_ids()(x, y) == 0;
    case 3: return zero(f.camera_normals()(x, y));
    case 4: return zero(f.world_normals()(x, y));
    case 5: return zero(f.received_power()(x, y));
    default: return zero(f.sensor_response()(x, y));
    }
}
void scribble(FB& f, int i)
{
    switch (i) {
    case 0: vc::fill_any(f.depth(), "d"); break;
    case 1: vc::fill_any(f.albedo(), "a"); break;
    case 2: vc::fill_any(f.geometry_ids(), "g"); break;
    case 3: vc::fill_any(f.camera_normals(), "c"); break;
    case 4: vc::fill_any(f.world_normals(), "w"); break;
    case 5: vc::fill_any(f.received_power(), "p"); break;
    default: vc::fill_any(f.sensor_response(), "s"); break;
    }
}
// one number that tells the values of a plane at (x, y) apart
double value(FB& f, int i, int x, int y, int k)
{
    switch (i) {
    case 0: return f.depth()(x, y);
    case 1: return f.albedo()(x, y)[(size_t)k];
    case 2: return (double)f.geometry_ids()(x, y);
    case 3: return f.camera_normals()(x, y)[k];
    case 4: return f.world_normals()(x, y)[k];
    case 5: return f.received_power()(x, y)[(size_t)k];
    default: return f.sensor_response()(x, y)[(size_t)k];
    }
}
struct Any {
    int w = (int)vc_range("w", 1, 30000), h = (int)vc_range("h", 1, 30000);
    FB f = CameraModel<RGB>::make(Resolution{w, h});
    int x = (int)vc_index("x", w), y = (int)vc_index("y", h);
    int plane = (int)vc_range("plane", 0, planes - 1);
};
}
VC_CONTRACT(REAL, empty)
{
    Any a;
    vc_check(vc_and(a.f.width() == a.w, vc_and(a.f.height() == a.h, vc_and(a.f.resolution().width == a.w, a.f.resolution().height == a.h))), "the resolution it was made with");
    for (int i = 0; i < planes; ++i) vc_check(has(a.f, i) == false, "no plane at first");
}
// switching a plane on
static void on(int p)
{
    Any a;
    enable(a.f, p, true);
    for (int i = 0; i < planes; ++i) vc_check(has(a.f, i) == (i == p || (p == 6 && i == 5)), "this plane only; the response brings the power along");
    vc_check(fresh(a.f, p, a.x, a.y), "starts with the documented value");
    if (p == 6) vc_check(fresh(a.f, 5, a.x, a.y), "starts with the documented value");
}
// switching on again keeps what is there; clearing resets it; switching off drops it
static void again(int p)
{
    Any a;
    enable(a.f, p, true);
    scribble(a.f, p);
    double v[3];
    for (int k = 0; k < 3; ++k) v[k] = value(a.f, p, a.x, a.y, k);
    enable(a.f, p, true);
    for (int k = 0; k < 3; ++k) vc_check(value(a.f, p, a.x, a.y, k) == v[k], "enabling again keeps the contents");
    a.f.clear();
    vc_check(has(a.f, p), "clearing keeps the plane");
    vc_check(fresh(a.f, p, a.x, a.y), "clearing restores the first value");
    for (int i = 0; i < planes; ++i)
        if (i != p && !(p == 6 && i == 5)) vc_check(has(a.f, i) == false, "clearing adds no plane");
    enable(a.f, p, false);
    vc_check(has(a.f, p) == false, "disabled");
}
#define PLANE(n) VC_CONTRACT(REAL, on_##n) { on(n); } VC_CONTRACT(REAL, again_##n) { again(n); }
PLANE(0) PLANE(1) PLANE(2) PLANE(3) PLANE(4) PLANE(5) PLANE(6)
// one plane does not disturb another
static void apart(int p)
{
    Any a;
    int q = (p + 1) % planes;
    if (q == 6 || p == 6) q = 0;
    enable(a.f, p, true);
    scribble(a.f, p);
    double v[3];
    for (int k = 0; k < 3; ++k) v[k] = value(a.f, p, a.x, a.y, k);
    enable(a.f, q, true);
    scribble(a.f, q);
    for (int k = 0; k < 3; ++k) vc_check(value(a.f, p, a.x, a.y, k) == v[k], "planes are apart");
    enable(a.f, q, false);
    vc_check(has(a.f, p), "other planes stay enabled");
    for (int k = 0; k < 3; ++k) vc_check(value(a.f, p, a.x, a.y, k) == v[k], "planes are apart");
}
VC_CONTRACT(REAL, apart_0) { apart(0); }
VC_CONTRACT(REAL, apart_1) { apart(1); }
VC_CONTRACT(REAL, apart_2) { apart(2); }
VC_CONTRACT(REAL, apart_3) { apart(3); }
VC_CONTRACT(REAL, apart_4) { apart(4); }
VC_CONTRACT(REAL, apart_6) { apart(6); }
// the received power under its other names
VC_CONTRACT(REAL, power_names)
{
    Any a;
    switch ((int)vc_range("how", 0, 2)) {
    case 0: a.f.enable_received_power(); break;
    case 1: a.f.enable_received_direct_power(); break;
    default: a.f.enable_received_indirect_power(); break;
    }
    vc_check(vc_and(a.f.has_received_power(), vc_and(a.f.has_received_direct_power(), a.f.has_received_indirect_power())), "one power plane");
    vc_check(&a.f.received_power() == &a.f.received_direct_power() && &a.f.received_power() == &a.f.received_indirect_power(), "one power plane");
    vc_check(fresh(a.f, 5, a.x, a.y), "starts with the documented value");
}
