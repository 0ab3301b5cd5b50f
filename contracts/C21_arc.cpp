// C21: the parts of an arc before a plane. The arc is any with up to four crossings: Frustum is compiled
// with a class in place of TrajectoryArc that does what the contracts of C18 say of arcs, namely that
// crossings are all those there are, in order, and that the sides of the plane are kept between them.
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>
#include "any.h"
#include "huira/core/spectral_bins.hpp"
#include "huira/render/trajectory_arc.hpp"
namespace huira {
struct AnyArc {
    int n = 0;
    float at[4] = {};
    float side[5] = {}; // before the plane, or behind it
    mutable bool of_its_plane = true;
    Vec3<float> normal{};
    void take(const Vec3<float>& p) const { of_its_plane = of_its_plane && vc_and(vc_and(vc_eq(p.x, normal.x), vc_eq(p.y, normal.y)), vc_eq(p.z, normal.z)); }
    std::vector<float> find_plane_crossings(const Vec3<float>& p) const
    {
        take(p);
        return std::vector<float>(at, at + n);
    }
    Vec3<float> evaluate(float t) const
    {
        int i = 0;
        while (i < n && at[i] < t) ++i;
        if (i < n && at[i] == t) return Vec3<float>{0, 0, 0};
        return normal * side[i];
    }
};
}
#define TrajectoryArc AnyArc
#define private public
#include "huira/render/frustum.hpp"
#undef private
#undef TrajectoryArc
using namespace huira;
namespace {
void pieces(int n)
{
    AnyArc& a = *new AnyArc;
    a.n = n;
    a.normal = vc::vec3f("plane");
    vc_assume(vc_lt(0, glm::dot(a.normal, a.normal)));
    float t = vc_float("t"), eps = 2e-6f, last = 0;
    vc_assume(vc_and(vc_lt(eps, t), vc_lt(t, 1 - eps)));
    a.side[0] = vc_float("side");
    vc_assume(vc_lt(0, std::abs(a.side[0])));
    for (int i = 0; i < n; ++i) {
        a.at[i] = vc_float("crossing"), a.side[i + 1] = vc_float("side");
        vc_assume(vc_and(vc_le(last, a.at[i]), vc_le(a.at[i], 1)));
        vc_assume(vc_lt(0, std::abs(a.side[i + 1])));
        vc_assume(vc_lt(eps, std::abs(a.at[i] - t)));
        last = a.at[i];
    }
    float s = 0; // the side at t
    bool found = false;
    for (int i = 0; i <= n; ++i)
        if (!found && (i == n || t < a.at[i])) s = a.side[i], found = true;
    auto iv = Frustum<RGB>::arc_intervals_inside_plane_(a, a.normal);
    bool in = false;
    for (auto& p : iv) in = vc_or(in, vc_and(vc_le(p.first, t), vc_le(t, p.second)));
    vc_check(in == (s > 0), "the times before the plane");
    for (size_t i = 0; i < iv.size(); ++i) vc_check(vc_and(vc_le(iv[i].first, iv[i].second), vc_le(i ? iv[i - 1].second : 0, iv[i].first)), "in order");
    vc_check(vc_le(iv.empty() ? 1 : iv.back().second, 1), "up to the end");
}
}
VC_CONTRACT(REAL, pieces_0) { pieces(0); }
VC_CONTRACT(REAL, pieces_1) { pieces(1); }
VC_CONTRACT(REAL, pieces_2) { pieces(2); }
VC_CONTRACT(REAL, pieces_3)
{
    vc_bounded("arcs with three crossings");
    pieces(3);
}
VC_CONTRACT(REAL, pieces_4)
{
    vc_bounded("arcs with four crossings");
    pieces(4);
}
