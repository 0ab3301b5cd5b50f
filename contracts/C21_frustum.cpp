// C21: clipping of triangles and arcs by the planes of a frustum.
#include <algorithm>
#include <vector>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include <assert.h>
#include <map>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <thread>
#include <variant>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include <condition_variable>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <numeric>
#define private public
#define protected public
#include "huira/huira.hpp"
#undef protected
#undef private
using namespace huira;
namespace {
using V = Vec3<float>;
using F = Frustum<RGB>;
using CV = F::ClipVertex;
CV any_vertex()
{
    CV c;
    c.vertex.position = vc::vec3f("p"), c.vertex.normal = vc::vec3f("n"), c.vertex.uv = Vec2<float>{vc_float("u"), vc_float("v")};
    for (int i = 0; i < 3; ++i) c.vertex.albedo[i] = vc_float("albedo");
    c.tangent.tangent = vc::vec3f("t"), c.tangent.bitangent = vc::vec3f("b");
    return c;
}
bool eq(const V& a, const V& b) { return vc_and(vc_and(vc_eq(a.x, b.x), vc_eq(a.y, b.y)), vc_eq(a.z, b.z)); }
bool same(const Vertex<RGB>& a, const Vertex<RGB>& b)
{
    bool albedo = vc_and(vc_and(vc_eq(a.albedo[0], b.albedo[0]), vc_eq(a.albedo[1], b.albedo[1])), vc_eq(a.albedo[2], b.albedo[2]));
    return vc_and(vc_and(eq(a.position, b.position), eq(a.normal, b.normal)), vc_and(albedo, vc_and(vc_eq(a.uv.x, b.uv.x), vc_eq(a.uv.y, b.uv.y))));
}
bool same(const Tangent& a, const Tangent& b) { return vc_and(eq(a.tangent, b.tangent), eq(a.bitangent, b.bitangent)); }
bool same(const CV& a, const CV& b) { return vc_and(same(a.vertex, b.vertex), same(a.tangent, b.tangent)); }
V mix(const V& a, const V& b, float t) { return a + t * (b - a); }
CV mix(const CV& a, const CV& b, float t)
{
    CV c;
    c.vertex.position = mix(a.vertex.position, b.vertex.position, t), c.vertex.normal = mix(a.vertex.normal, b.vertex.normal, t);
    c.vertex.uv = a.vertex.uv + t * (b.vertex.uv - a.vertex.uv);
    for (int i = 0; i < 3; ++i) c.vertex.albedo[i] = a.vertex.albedo[i] + t * (b.vertex.albedo[i] - a.vertex.albedo[i]);
    c.tangent.tangent = mix(a.tangent.tangent, b.tangent.tangent, t), c.tangent.bitangent = mix(a.tangent.bitangent, b.tangent.bitangent, t);
    return c;
}
void clip(size_t n)
{
    std::vector<CV> in, want;
    for (size_t i = 0; i < n; ++i) in.push_back(any_vertex());
    V normal = vc::vec3f("plane");
    auto side = [&](size_t i) { return glm::dot(normal, in[i].vertex.position); };
    auto out = F::clip_polygon_by_plane_(in, normal);
    for (size_t i = 0; i < n; ++i) {
        size_t j = (i + 1) % n;
        float a = side(i), b = side(j);
        if ((a >= 0) != (b >= 0)) want.push_back(mix(in[i], in[j], a / (a - b)));
        if (b >= 0) want.push_back(in[j]);
    }
    vc_check(out.size() == want.size(), "every vertex inside and every crossing");
    vc_check(out.size() == 0 || out.size() >= 3, "a polygon or nothing");
    bool any = want.empty();
    for (size_t r = 0; r < want.size(); ++r) { // wherever it starts
        bool all = true;
        for (size_t i = 0; i < want.size(); ++i) all = vc_and(all, same(out[(i + r) % want.size()], want[i]));
        any = vc_or(any, all);
    }
    vc_check(any, "in their order, interpolated along the edges");
    for (const CV& c : out) vc_check(vc_le(0, glm::dot(normal, c.vertex.position)), "inside the plane");
}
}
VC_CONTRACT(REAL, clip_3)
{
    vc_bounded("polygons of 3 vertices");
    clip(3);
}
VC_CONTRACT(REAL, clip_4)
{
    vc_bounded("polygons of 4 vertices");
    clip(4);
}
VC_CONTRACT(REAL, clip_5)
{
    vc_bounded("polygons of 5 vertices");
    clip(5);
}
VC_CONTRACT(REAL, clip_6)
{
    vc_bounded("polygons of 6 vertices");
    clip(6);
}
VC_CONTRACT(REAL, clip_7)
{
    vc_bounded("polygons of 7 vertices");
    clip(7);
}
VC_CONTRACT(REAL, clip_none)
{
    vc_check(F::clip_polygon_by_plane_({}, vc::vec3f("plane")).empty(), "nothing of nothing");
}
// ---- directions inside, for any number of planes
VC_CONTRACT(REAL, outside)
{
    size_t n = (size_t)vc_range("planes", 1, 1000000);
    std::vector<V> p(n);
    std::memcpy((void*)p.data(), vc_array("plane", n, 1, 3), n * sizeof(V));
    V d = vc::vec3f("d");
    size_t k = (size_t)vc_index("k", (int64_t)n);
    vc_assume(vc_lt(glm::dot(p[k], d), 0));
    vc_witness((int64_t)k);
    vc_check(!F(p).contains(d), "nothing behind a plane is inside");
}
VC_CONTRACT(REAL, inside)
{
    vc_option("fork-select");
    size_t n = (size_t)vc_range("planes", 0, 1000000);
    const V* a = (const V*)vc_array("plane", n, 1, 3);
    V d = vc::vec3f("d");
    std::vector<V> p(n); // every list of planes with d inside is made of its own planes
    for (size_t i = 0; i < n; ++i) p[i] = glm::dot(a[i], d) < 0 ? -a[i] : a[i];
    vc_check(F(p).contains(d), "what is before all planes is inside");
}
// ---- intervals
namespace {
using I = std::vector<std::pair<float, float>>;
I any_intervals(int n, const char* name)
{
    I v;
    float t = vc_float(name);
    for (int i = 0; i < n; ++i) {
        float a = vc_float(name), b = vc_float(name);
        vc_assume(vc_and(vc_le(t, a), vc_lt(a, b)));
        v.emplace_back(a, b), t = b;
    }
    return v;
}
bool in(const I& v, float t)
{
    bool b = false;
    for (auto& p : v) b = vc_or(b, vc_and(vc_le(p.first, t), vc_le(t, p.second)));
    return b;
}
bool ends(const I& v, float t)
{
    bool b = false;
    for (auto& p : v) b = vc_or(b, vc_or(vc_eq(p.first, t), vc_eq(p.second, t)));
    return b;
}
void intersect(int m, int n)
{
    I a = any_intervals(m, "a"), b = any_intervals(n, "b"), r = F::intersect_intervals_(a, b);
    float t = vc_float("t");
    vc_assume(!ends(a, t));
    vc_assume(!ends(b, t));
    vc_check(in(r, t) == vc_and(in(a, t), in(b, t)), "what is in both");
    for (size_t i = 0; i < r.size(); ++i) vc_check(vc_lt(r[i].first, r[i].second) && (i == 0 || vc_le(r[i - 1].second, r[i].first)), "in order");
}
}
VC_CONTRACT(REAL, intervals_1)
{
    vc_bounded("up to 1 and 2 intervals");
    intersect((int)vc_range("m", 0, 1), (int)vc_range("n", 0, 2));
}
VC_CONTRACT(REAL, intervals_2)
{
    vc_bounded("2 and up to 2 intervals");
    intersect(2, (int)vc_range("n", 0, 2));
}
VC_CONTRACT(REAL, intervals_3)
{
    vc_bounded("3 and 3 intervals");
    intersect(3, 3);
}
// ---- arcs
VC_CONTRACT(REAL, arc_of_line)
{
    vc_bounded("arcs of two samples");
    TrajectoryArc& arc = *new TrajectoryArc({vc::vec3f("p"), vc::vec3f("q")});
    V n = vc::vec3f("plane");
    float t = vc_float("t"), eps = 2e-6f;
    vc_assume(vc_and(vc_lt(eps, t), vc_lt(t, 1 - eps)));
    auto iv = F::arc_intervals_inside_plane_(arc, n);
    float s = glm::dot(n, arc.evaluate(t)), a = glm::dot(n, arc.evaluate(0)), b = glm::dot(n, arc.evaluate(1));
    vc_assume(vc_lt(0, std::abs(s)));
    vc_assume(vc_lt(1e-6, std::abs(a)));
    vc_assume(vc_lt(1e-6, std::abs(b)));
    vc_check(in(iv, t) == (s > 0), "the times before the plane");
}
