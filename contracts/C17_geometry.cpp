// C17: surfaces: meshes and ellipsoids.
#include <algorithm>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/geometry/ellipsoid.hpp"
#include "huira/geometry/mesh.hpp"
using namespace huira;
// ---- Embree: what the geometries hand over is recorded.
namespace {
struct Buffer {
    RTCFormat format;
    const void* at;
    size_t offset, stride, count;
};
struct Recorded {
    RTCGeometryType type = (RTCGeometryType)-1;
    Buffer vertices{}, indices{};
    RTCBoundsFunction bounds = nullptr;
    RTCIntersectFunctionN intersect = nullptr;
    void* user = nullptr;
    unsigned count = 0;
    bool committed = false, attached = false, scene = false;
    int alive = 0;
} seen;
bool filter[2] = {true, true}; // what the filter of the caller says about each hit
int asked = 0;
int thing[3];
}
extern "C" {
RTCDevice rtcNewDevice(const char*) { return (RTCDevice)&thing[0]; }
void rtcReleaseDevice(RTCDevice) {}
RTCError rtcGetDeviceError(RTCDevice) { return RTC_ERROR_NONE; }
RTCScene rtcNewScene(RTCDevice) { return (RTCScene)&thing[1]; }
void rtcReleaseScene(RTCScene) {}
RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType t)
{
    seen.type = t;
    ++seen.alive;
    return (RTCGeometry)&thing[2];
}
void rtcReleaseGeometry(RTCGeometry) { --seen.alive; }
void rtcSetSharedGeometryBuffer(RTCGeometry, RTCBufferType t, unsigned, RTCFormat f, const void* p, size_t o, size_t s, size_t n)
{
    (t == RTC_BUFFER_TYPE_VERTEX ? seen.vertices : seen.indices) = {f, p, o, s, n};
}
void rtcSetGeometryUserPrimitiveCount(RTCGeometry, unsigned n) { seen.count = n; }
void rtcSetGeometryUserData(RTCGeometry, void* p) { seen.user = p; }
void rtcSetGeometryBoundsFunction(RTCGeometry, RTCBoundsFunction f, void*) { seen.bounds = f; }
void rtcSetGeometryIntersectFunction(RTCGeometry, RTCIntersectFunctionN f) { seen.intersect = f; }
void rtcCommitGeometry(RTCGeometry) { seen.committed = true; }
unsigned rtcAttachGeometry(RTCScene, RTCGeometry) { return seen.attached = seen.committed, 0; }
void rtcCommitScene(RTCScene) { seen.scene = seen.attached; }
void rtcInvokeIntersectFilterFromGeometry(const RTCIntersectFunctionNArguments*, const RTCFilterFunctionNArguments* f)
{
    if (!filter[asked++ & 1]) f->valid[0] = 0;
}
}
namespace {
using V = Vec3<float>;
const double pi = PI<float>();
template <class G> struct Open : G {
    using G::G;
    RTCScene build()
    {
        this->set_device(std::make_shared<EmbreeDevice>());
        return this->blas();
    }
};
// Any mesh: each index buffer with entries less than c is made of its own entries modulo c.
IndexBuffer any_indices(size_t n, size_t c)
{
    IndexBuffer ib(n);
    const uint32_t* a = (const uint32_t*)vc_array("index", n, 3, 1);
    for (size_t i = 0; i < n; ++i) ib[i] = a[i] % (uint32_t)c;
    return ib;
}
VertexBuffer<RGB> any_vertices(size_t c)
{
    VertexBuffer<RGB> vb(c);
    std::memcpy((void*)vb.data(), vc_array("vertex", c, 1, sizeof(Vertex<RGB>) / 4), c * sizeof(Vertex<RGB>));
    return vb;
}
TangentBuffer any_tangents(size_t c)
{
    TangentBuffer tb(c);
    std::memcpy((void*)tb.data(), vc_array("tangent", c, 1, 6), c * sizeof(Tangent));
    return tb;
}
bool mixed(double x, double w, double u, double v, double a, double b, double c) { return vc_eq(x, w * a + u * b + v * c); }
}
VC_CONTRACT(REAL, mesh_rejects)
{
    size_t n = (size_t)vc_range("indices", 1, 3000000), c = (size_t)vc_range("vertices", 0, 1000000);
    IndexBuffer ib(n);
    std::memcpy(ib.data(), vc_array("index", n, 3, 1), n * 4);
    size_t k = (size_t)vc_index("k", (int64_t)n);
    vc_assume(ib[k] >= c);
    vc_witness((int64_t)k), vc_witness((int64_t)k / 4);
    vc_check(vc::throws([&] { Mesh<RGB> m(ib, VertexBuffer<RGB>(c)); }), "an index out of range is rejected");
}
VC_CONTRACT(REAL, mesh_rejects_tangents)
{
    size_t n = (size_t)vc_range("indices", 1, 3000000), c = (size_t)vc_range("vertices", 0, 1000000), t = (size_t)vc_range("tangents", 0, 1000000);
    IndexBuffer ib(n);
    std::memcpy(ib.data(), vc_array("index", n, 3, 1), n * 4);
    size_t k = (size_t)vc_index("k", (int64_t)n);
    vc_assume(vc_or(ib[k] >= c, vc_and(t != 0, t != c)));
    vc_witness((int64_t)k), vc_witness((int64_t)k / 4);
    vc_check(vc::throws([&] { Mesh<RGB> m(ib, VertexBuffer<RGB>(c), TangentBuffer(t)); }), "wrong buffers are rejected");
}
VC_CONTRACT(REAL, mesh_hit)
{
    size_t k = (size_t)vc_range("indices", 3, 3000000), n = k / 3, c = (size_t)vc_range("vertices", 1, 1000000);
    Open<Mesh<RGB>>& m = *new Open<Mesh<RGB>>(any_indices(k, c), any_vertices(c));
    vc_check(m.index_count() == k && m.triangle_count() == n && m.vertex_count() == c && !m.has_tangents(), "sizes");
    HitRecord h;
    h.prim_id = (unsigned)vc_index("triangle", (int64_t)n);
    h.u = vc_float("u"), h.v = vc_float("v");
    double u = h.u, v = h.v, w = 1 - u - v;
    const Vertex<RGB>&a = m.vertex_buffer()[m.index_buffer()[3 * (size_t)h.prim_id]], &b = m.vertex_buffer()[m.index_buffer()[3 * (size_t)h.prim_id + 1]],
                     &d = m.vertex_buffer()[m.index_buffer()[3 * (size_t)h.prim_id + 2]];
    Interaction<RGB> x;
    m.compute_surface_interaction(h, x);
    for (int i = 0; i < 3; ++i) {
        vc_check(mixed(x.position[i], w, u, v, a.position[i], b.position[i], d.position[i]), "position between the vertices");
        vc_check(mixed(x.normal_s[i], w, u, v, a.normal[i], b.normal[i], d.normal[i]), "normal between those of the vertices");
        vc_check(mixed(x.vertex_albedo[(size_t)i], w, u, v, a.albedo[(size_t)i], b.albedo[(size_t)i], d.albedo[(size_t)i]), "albedo between those of the vertices");
        vc_check(x.tangent[i] == 0 && x.bitangent[i] == 0, "no tangents");
    }
    Vec2<float> t = m.compute_uv(h);
    for (int i = 0; i < 2; ++i) {
        vc_check(mixed(x.uv[i], w, u, v, a.uv[i], b.uv[i], d.uv[i]), "texture coordinates between those of the vertices");
        vc_check(vc_eq(t[i], x.uv[i]), "the same on their own");
    }
}
VC_CONTRACT(REAL, mesh_tangents)
{
    size_t k = (size_t)vc_range("indices", 3, 3000000), n = k / 3, c = (size_t)vc_range("vertices", 1, 1000000);
    Mesh<RGB>& m = *new Mesh<RGB>(any_indices(k, c), any_vertices(c), any_tangents(c));
    vc_check(m.has_tangents(), "tangents given");
    HitRecord h;
    h.prim_id = (unsigned)vc_index("triangle", (int64_t)n);
    h.u = vc_float("u"), h.v = vc_float("v");
    double u = h.u, v = h.v, w = 1 - u - v;
    const IndexBuffer& ib = m.index_buffer();
    const Tangent&a = m.tangent_buffer()[ib[3 * (size_t)h.prim_id]], &b = m.tangent_buffer()[ib[3 * (size_t)h.prim_id + 1]],
                 &d = m.tangent_buffer()[ib[3 * (size_t)h.prim_id + 2]];
    Interaction<RGB> x;
    m.compute_surface_interaction(h, x);
    for (int i = 0; i < 3; ++i) {
        vc_check(mixed(x.tangent[i], w, u, v, a.tangent[i], b.tangent[i], d.tangent[i]), "tangent between those of the vertices");
        vc_check(mixed(x.bitangent[i], w, u, v, a.bitangent[i], b.bitangent[i], d.bitangent[i]), "bitangent between those of the vertices");
    }
}
VC_CONTRACT(REAL, mesh_embree)
{
    size_t k = (size_t)vc_range("indices", 0, 3000000), n = k / 3, c = (size_t)vc_range("vertices", 1, 1000000);
    Open<Mesh<RGB>>& m = *new Open<Mesh<RGB>>(any_indices(k, c), any_vertices(c));
    RTCScene s = m.build();
    vc_check(s == (RTCScene)&thing[1] && seen.scene && seen.alive == 0 && seen.type == RTC_GEOMETRY_TYPE_TRIANGLE, "committed triangles");
    vc_check(seen.vertices.format == RTC_FORMAT_FLOAT3 && seen.vertices.count == c && seen.indices.format == RTC_FORMAT_UINT3 && seen.indices.count == n,
             "all vertices and triangles");
    size_t i = (size_t)vc_index("vertex", (int64_t)c);
    vc_check((const char*)seen.vertices.at + seen.vertices.offset + i * seen.vertices.stride == (const char*)&m.vertex_buffer()[i].position,
             "positions of the vertices in place");
    if (n > 0) {
        size_t j = (size_t)vc_index("triangle", (int64_t)n);
        vc_check((const char*)seen.indices.at + seen.indices.offset + j * seen.indices.stride == (const char*)&m.index_buffer()[3 * j], "triangles in place");
    }
    vc_check(m.build() == s, "built once");
}
// ---- ellipsoids
namespace {
struct Ball {
    V r = vc::vec3f("r");
    Open<Ellipsoid<RGB>>* e;
    Ball()
    {
        vc_assume(vc_and(vc_lt(0, r.x), vc_and(vc_lt(0, r.y), vc_lt(0, r.z))));
        e = new Open<Ellipsoid<RGB>>(units::Meter(r.x), units::Meter(r.y), units::Meter(r.z));
    }
};
}
VC_CONTRACT(REAL, ellipsoid_point)
{
    Ball b;
    V r = b.r;
    HitRecord h;
    h.u = vc_float("u"), h.v = vc_float("v");
    vc_assume(vc_and(vc_and(vc_le(0, h.u), vc_le(h.u, 1)), vc_and(vc_le(0, h.v), vc_le(h.v, 1))));
    Interaction<RGB> x;
    b.e->compute_surface_interaction(h, x);
    double px = x.position.x, py = x.position.y, pz = x.position.z;
    vc_check(vc_eq(px * px / ((double)r.x * r.x) + py * py / ((double)r.y * r.y) + pz * pz / ((double)r.z * r.z), 1), "on the ellipsoid");
    double lon = 2 * pi * h.u - pi, lat = pi * h.v;
    vc_check(vc_eq(px, r.x * std::sin(lat) * std::cos(lon)), "longitude");
    vc_check(vc_eq(pz, r.z * std::cos(lat)), "latitude");
    vc_check(vc_eq(x.uv.x, h.u) && vc_eq(x.uv.y, h.v), "texture coordinates");
    Vec2<float> t = b.e->compute_uv(h);
    vc_check(vc_eq(t.x, h.u) && vc_eq(t.y, h.v), "the same on their own");
    V n = x.normal_g;
    vc_check(vc_eq(vc::dot(n, n), 1), "unit normal");
    double gx = px / ((double)r.x * r.x), gy = py / ((double)r.y * r.y), gz = pz / ((double)r.z * r.z);
    vc_check(vc_and(vc_eq(n.x * gy, n.y * gx), vc_and(vc_eq(n.y * gz, n.z * gy), vc_eq(n.z * gx, n.x * gz))), "across the surface");
    vc_check(vc_lt(0, n.x * gx + n.y * gy + n.z * gz), "outwards");
    for (int i = 0; i < 3; ++i) vc_check(vc_eq(x.normal_s[i], n[i]), "shading normal");
    V a = x.tangent, c = x.bitangent;
    vc_check(vc_eq(vc::dot(a, a), 1) && vc_eq(vc::dot(c, c), 1), "unit tangents");
    vc_check(vc_eq(vc::dot(a, n), 0), "tangent to the surface");
}
namespace {
struct Shot {
    RTCRayHit rh{};
    RTCRayQueryContext ctx{};
    int valid = -1;
    RTCIntersectFunctionNArguments args{};
    V o = vc::vec3f("o"), d = vc::vec3f("d");
    double near = vc_float("near"), far = vc_float("far");
    Shot()
    {
        vc_assume(vc_and(vc_le(0, near), vc_le(near, far)));
        vc_assume(vc_or(vc_lt(0, std::abs(d.x)), vc_or(vc_lt(0, std::abs(d.y)), vc_lt(0, std::abs(d.z)))));
        rh.ray.org_x = o.x, rh.ray.org_y = o.y, rh.ray.org_z = o.z;
        rh.ray.dir_x = d.x, rh.ray.dir_y = d.y, rh.ray.dir_z = d.z;
        rh.ray.tnear = (float)near, rh.ray.tfar = (float)far;
        rh.hit.geomID = RTC_INVALID_GEOMETRY_ID;
        ctx.instID[0] = 7;
        args.valid = &valid;
        args.context = &ctx;
        args.rayhit = (RTCRayHitN*)&rh;
        args.N = 1;
        args.geomID = 5;
        args.primID = 0;
    }
};
}
VC_CONTRACT(REAL, ellipsoid_bounds)
{
    Ball b;
    b.e->build();
    vc_check(seen.scene && seen.alive == 0 && seen.type == RTC_GEOMETRY_TYPE_USER && seen.count == 1, "one committed shape");
    RTCBounds box{};
    RTCBoundsFunctionArguments a{};
    a.geometryUserPtr = seen.user;
    a.bounds_o = &box;
    seen.bounds(&a);
    V u = vc::unit3f("u"); // any point of the surface
    vc_check(vc_and(vc_le(box.lower_x, b.r.x * u.x), vc_le(b.r.x * u.x, box.upper_x)), "the box holds x");
    vc_check(vc_and(vc_le(box.lower_y, b.r.y * u.y), vc_le(b.r.y * u.y, box.upper_y)), "the box holds y");
    vc_check(vc_and(vc_le(box.lower_z, b.r.z * u.z), vc_le(b.r.z * u.z, box.upper_z)), "the box holds z");
}
// Distances are those of the unit sphere in coordinates scaled by the radii: roots of t^2 + B t + C, in units of 1/l.
// side: the sign of B; root: the root expected (0 the nearer, 1 the farther, 2 none)
static void hit(int side, int root)
{
    Ball b;
    b.e->build();
    Shot s;
    s.args.geometryUserPtr = seen.user;
    V r = b.r, ir = {1 / r.x, 1 / r.y, 1 / r.z}, o = s.o * ir, d = s.d * ir;
    float l = glm::length(d);
    vc_lemma(vc_lt(0, l), "some direction");
    V u = d / l;
    float B = 2 * glm::dot(o, u), C = glm::dot(o, o) - 1, disc = B * B - 4 * C;
    vc_assume(side ? vc_lt(B, 0) : vc_le(0, B));
    vc_assume(disc >= 0);
    float w = std::sqrt(disc), q = -0.5f * (B + std::copysign(w, B)), t0 = q, t1 = q != 0 ? C / q : 0;
    if (t0 > t1) std::swap(t0, t1);
    vc_lemma(vc_eq(t0, (-(double)B - w) / 2), "nearer root");
    vc_lemma(vc_eq(t1, (-(double)B + w) / 2), "farther root");
    t0 /= l, t1 /= l;
    filter[0] = root == 0 || vc_split(vc_bool("first accepted")), filter[1] = root != 0 && vc_split(vc_bool("second accepted"));
    // the range is tested again by the filter only
    bool first = vc_and(vc_le(s.near, t0), vc_le(t0, s.far)), second = vc_and(vc_le(s.near, t1), vc_le(t1, s.far));
    if (root == 0) vc_assume(first && filter[0]);
    else if (root == 1) vc_assume(second && (!first ? filter[0] : !filter[0] && filter[1]));
    else vc_assume(!first ? !second || !filter[0] : !filter[0] && (!second || !filter[1]));
    V p = o + ((root == 0 ? t0 : t1) * l) * u;
    float z = 0, top = std::max({r.x, r.y, r.z});
    if (root != 2) {
        vc_lemma(vc_lt(0, top), "some size");
        vc_lemma(vc_eq(glm::dot(p, p), 1), "on the unit sphere");
        z = glm::normalize(p).z;
        vc_lemma(vc_and(vc_le(-1, z), vc_le(z, 1)), "latitude");
        vc_lemma(vc_eq(z, p.z), "the same latitude");
    }
    seen.intersect(&s.args);
    const RTCRay& y = s.rh.ray;
    const RTCHit& h = s.rh.hit;
    if (root != 2) {
        float t = root == 0 ? t0 : t1;
        vc_check(h.geomID == 5 && h.primID == 0 && h.instID[0] == 7, "the hit is reported");
        vc_check(vc_eq(y.tfar, t), "at the nearest root accepted");
        vc_check(vc_and(vc_eq(r.x * p.x, s.o.x + t * s.d.x), vc_and(vc_eq(r.y * p.y, s.o.y + t * s.d.y), vc_eq(r.z * p.z, s.o.z + t * s.d.z))), "that point in place");
        vc_check(vc_and(vc_eq(h.Ng_x * r.x, top * p.x), vc_and(vc_eq(h.Ng_y * r.y, top * p.y), vc_eq(h.Ng_z * r.z, top * p.z))), "outward normal");
        vc_check(vc_eq(h.u * 2 * pi - pi, std::atan2(p.y, p.x)), "longitude");
        vc_check(vc_eq(h.v * pi, std::acos(z)), "colatitude");
    } else {
        vc_check(vc_eq(y.tfar, s.far), "no hit leaves the range of the ray");
        if (asked == 0) vc_check(h.geomID == RTC_INVALID_GEOMETRY_ID, "no hit");
    }
}
VC_CONTRACT(REAL, ellipsoid_near_p) { hit(0, 0); }
VC_CONTRACT(REAL, ellipsoid_near_n) { hit(1, 0); }
VC_CONTRACT(REAL, ellipsoid_far_p) { hit(0, 1); }
VC_CONTRACT(REAL, ellipsoid_far_n) { hit(1, 1); }
VC_CONTRACT(REAL, ellipsoid_none_p) { hit(0, 2); }
VC_CONTRACT(REAL, ellipsoid_none_n) { hit(1, 2); }
VC_CONTRACT(REAL, ellipsoid_miss)
{
    Ball b;
    b.e->build();
    Shot s;
    s.args.geometryUserPtr = seen.user;
    V ir = {1 / b.r.x, 1 / b.r.y, 1 / b.r.z}, o = s.o * ir, d = s.d * ir, u = d / glm::length(d);
    float B = 2 * glm::dot(o, u), C = glm::dot(o, o) - 1;
    vc_assume(vc_lt(B * B - 4 * C, 0));
    seen.intersect(&s.args);
    vc_check(s.rh.hit.geomID == RTC_INVALID_GEOMETRY_ID && vc_eq(s.rh.ray.tfar, s.far), "no hit");
}
