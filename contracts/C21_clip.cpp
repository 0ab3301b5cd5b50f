// C21: clipping by all planes of a frustum; clipping by one has its contracts in C21_frustum.cpp.
#include <algorithm>
#include <vector>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include <assert.h>
#include <map>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <thread>
#include <variant>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include <condition_variable>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <numeric>
#define private public
#define protected public
#include "huira/huira.hpp"
#undef protected
#undef private
using namespace huira;
namespace {
using V = Vec3<float>;
using F = Frustum<RGB>;
using CV = F::ClipVertex;
CV any_vertex()
{
    CV c;
    c.vertex.position = vc::vec3f("p"), c.vertex.normal = vc::vec3f("n"), c.vertex.uv = Vec2<float>{vc_float("u"), vc_float("v")};
    for (int i = 0; i < 3; ++i) c.vertex.albedo[i] = vc_float("albedo");
    c.tangent.tangent = vc::vec3f("t"), c.tangent.bitangent = vc::vec3f("b");
    return c;
}
bool eq(const V& a, const V& b) { return vc_and(vc_and(vc_eq(a.x, b.x), vc_eq(a.y, b.y)), vc_eq(a.z, b.z)); }
bool same(const Vertex<RGB>& a, const Vertex<RGB>& b)
{
    bool albedo = vc_and(vc_and(vc_eq(a.albedo[0], b.albedo[0]), vc_eq(a.albedo[1], b.albedo[1])), vc_eq(a.albedo[2], b.albedo[2]));
    return vc_and(vc_and(eq(a.position, b.position), eq(a.normal, b.normal)), vc_and(albedo, vc_and(vc_eq(a.uv.x, b.uv.x), vc_eq(a.uv.y, b.uv.y))));
}
bool same(const Tangent& a, const Tangent& b) { return vc_and(eq(a.tangent, b.tangent), eq(a.bitangent, b.bitangent)); }
bool same(const CV& a, const CV& b) { return vc_and(same(a.vertex, b.vertex), same(a.tangent, b.tangent)); }
using Poly = std::vector<CV>;
using I = std::vector<std::pair<float, float>>;
bool same(const Poly& a, const Poly& b)
{
    bool s = a.size() == b.size();
    for (size_t i = 0; s && i < a.size(); ++i) s = vc_and(s, same(a[i], b[i]));
    return s;
}
// Each call clips what the call before left, by a plane that is not used yet.
struct {
    Poly now;
    std::vector<V> planes;
    bool used[4] = {}, fits = true;
    int calls = 0, left[4] = {};
} cut;
struct {
    const TrajectoryArc* arc;
    std::vector<V> planes;
    bool used[4] = {}, wrong = false;
        I of[4];
} arcs;
}
template <> Poly F::clip_polygon_by_plane_(const Poly& p, const V& n)
{
    cut.fits = vc_and(cut.fits, same(p, cut.now));
    bool found = false;
    for (size_t i = 0; i < cut.planes.size(); ++i)
        if (!found && !cut.used[i] && eq(n, cut.planes[i])) found = cut.used[i] = true;
    cut.fits = cut.fits && found;
    cut.now.clear();
    for (int i = 0; i < cut.left[cut.calls]; ++i) cut.now.push_back(any_vertex());
    ++cut.calls;
    return cut.now;
}
template <> I F::arc_intervals_inside_plane_(const TrajectoryArc& a, const V& n)
{
    arcs.wrong = arcs.wrong || &a != arcs.arc;
    for (size_t i = 0; i < arcs.planes.size(); ++i)
        if (!arcs.used[i] && eq(n, arcs.planes[i])) {
            arcs.used[i] = true;
            return arcs.of[i];
        }
    arcs.wrong = true;
    return {};
}
VC_CONTRACT(REAL, triangle)
{
    vc_bounded("up to 3 planes and 8 vertices");
    F& f = *new F;
    int planes = (int)vc_range("planes", 0, 3);
    for (int i = 0; i < planes; ++i) f.plane_normals_.push_back(V{(float)i, vc_float("plane"), vc_float("plane")}), cut.planes.push_back(f.plane_normals_.back());
    for (int i = 0; i < planes; ++i) {
        int k = (int)vc_range("left", 2, i + 1 < planes ? 3 : 8);
        cut.left[i] = k == 2 ? 0 : k; // the contract of clip_polygon_by_plane_
    }
    Triangle<RGB> t;
    bool tangents = vc_range("tangents", 0, 1);
    if (tangents) t.tangents = std::array<Tangent, 3>{};
    for (int i = 0; i < 3; ++i) {
        CV v = any_vertex();
        if (!tangents) v.tangent = Tangent{};
        t.vertices[i] = v.vertex;
        if (tangents) (*t.tangents)[i] = v.tangent;
        cut.now.push_back(v);
    }
    auto r = f.clip_triangle(t);
    bool gone = false;
    for (int i = 0; i < planes; ++i) gone = gone || cut.left[i] == 0;
    vc_check(cut.fits, "each plane clips what the others left");
    vc_check(gone || cut.calls == planes, "by all planes");
    const Poly& p = cut.now;
    vc_check(r.size() == (gone ? 0 : p.size() - 2), "triangles that fill what is left");
    for (size_t i = 0; i < r.size(); ++i) {
        vc_check(same(r[i].vertices[0], p[0].vertex) && same(r[i].vertices[1], p[i + 1].vertex) && same(r[i].vertices[2], p[i + 2].vertex), "in their orientation");
        vc_check(r[i].tangents.has_value() == tangents, "with tangents if there were any");
        if (tangents) vc_check(same((*r[i].tangents)[0], p[0].tangent) && same((*r[i].tangents)[1], p[i + 1].tangent) && same((*r[i].tangents)[2], p[i + 2].tangent), "those of their vertices");
    }
}
namespace {
bool in(const I& v, float t)
{
    bool b = false;
    for (auto& p : v) b = vc_or(b, vc_and(vc_le(p.first, t), vc_le(t, p.second)));
    return b;
}
}
VC_CONTRACT(REAL, arc)
{
    vc_bounded("up to 3 planes with up to 2 intervals each");
    F& f = *new F;
    TrajectoryArc& a = *new TrajectoryArc({V{1, 0, 0}});
    arcs.arc = &a;
    int planes = (int)vc_range("planes", 0, 3);
    float t = vc_float("t");
    vc_assume(vc_and(vc_lt(0, t), vc_lt(t, 1)));
    bool want = true;
    for (int i = 0; i < planes; ++i) {
        f.plane_normals_.push_back(V{(float)i, vc_float("plane"), vc_float("plane")}), arcs.planes.push_back(f.plane_normals_.back());
        int k = (int)vc_range("pieces", 0, i ? 1 : 2);
        float s = 0;
        for (int j = 0; j < k; ++j) {
            float x = vc_float("x"), y = vc_float("y");
            vc_assume(vc_and(vc_and(vc_le(s, x), vc_lt(x, y)), vc_le(y, 1)));
            vc_assume(!vc_or(vc_eq(t, x), vc_eq(t, y)));
            arcs.of[i].emplace_back(x, y), s = y;
        }
        want = vc_and(want, in(arcs.of[i], t));
    }
    I r = f.clip_arc(a);
    vc_check(!arcs.wrong, "by its own planes");
    vc_check(in(r, t) == want, "the times before all planes");
}
