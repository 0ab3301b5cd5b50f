// C18: arcs through samples of a trajectory.
#include <algorithm>
#include <numeric>
#include "any.h"
#define private public
#include "huira/render/trajectory_arc.hpp"
#undef private
using namespace huira;
namespace {
using V = Vec3<float>;
std::vector<V> any_samples(int n)
{
    std::vector<V> s;
    for (int i = 0; i < n; ++i) s.push_back(vc::vec3f("p"));
    return s;
}
bool same(const V& a, const V& b) { return vc_and(vc_eq(a.x, b.x), vc_and(vc_eq(a.y, b.y), vc_eq(a.z, b.z))); }
double side(const V& n, const V& p) { return (double)n.x * p.x + (double)n.y * p.y + (double)n.z * p.z; }
void through(int n)
{
    auto p = any_samples(n);
    TrajectoryArc a(p);
    vc_check(a.sample_count() == (size_t)n, "all samples");
    for (int i = 0; i < n; ++i) {
        float t = n == 1 ? vc_float("t") : (float)i / (float)(n - 1);
        vc_check(same(a.evaluate(t), p[(size_t)i]), "through each sample at its time");
    }
}
}
VC_CONTRACT(REAL, none)
{
    vc_check(vc::throws([] { TrajectoryArc a(std::vector<V>{}); }), "no samples are rejected");
}
VC_CONTRACT(REAL, one) { through(1); }
VC_CONTRACT(REAL, two) { through(2); }
VC_CONTRACT(REAL, three) { through(3); }
VC_CONTRACT(REAL, straight)
{
    auto p = any_samples(2);
    float t = vc_float("t");
    V q = TrajectoryArc(p).evaluate(t);
    for (int i = 0; i < 3; ++i) vc_check(vc_eq(q[i], p[0][i] + (double)t * ((double)p[1][i] - p[0][i])), "uniform motion");
    V c = vc::vec3f("c"), v = vc::vec3f("v"), w = vc::vec3f("w");
    q = TrajectoryArc({c, c + v * 0.5f + w * 0.25f, c + v + w}).evaluate(t);
    for (int i = 0; i < 3; ++i) vc_check(vc_eq(q[i], c[i] + (double)t * v[i] + (double)t * t * w[i]), "uniform acceleration");
}
// ---- where the arc meets a plane through the origin
VC_CONTRACT(REAL, crossings_one)
{
    V n = vc::vec3f("n");
    vc_check(TrajectoryArc(any_samples(1)).find_plane_crossings(n).empty(), "a point does not cross");
}
VC_CONTRACT(REAL, crossings_two)
{
    auto p = any_samples(2);
    V n = vc::vec3f("n");
    auto r = TrajectoryArc(p).find_plane_crossings(n);
    double d0 = side(n, p[0]), d1 = side(n, p[1]);
    vc_assume(vc_lt(1e-9, std::abs(d1 - d0)));
    vc_check(r.size() <= 1, "at most once");
    if (d0 < 0 ? d1 >= 0 : (d0 > 0 ? d1 <= 0 : true)) vc_check(r.size() == 1, "from one side to the other");
    if (r.size() == 1) {
        float t = r[0];
        vc_check(vc_and(vc_le(0, t), vc_le(t, 1)), "during the arc");
        if (t > 0 && t < 1) vc_check(vc_eq(d0 + t * (d1 - d0), 0), "in the plane");
    }
}
// Roots of a t^2 + b t + c: nothing else, in order, and all of them in the range.
VC_CONTRACT(REAL, quadratic)
{
    float a = vc_float("a"), b = vc_float("b"), c = vc_float("c"), lo = vc_float("lo"), hi = vc_float("hi");
    vc_assume(vc_lt(lo, hi));
    double disc = (double)b * b - 4.0 * a * c;
    vc_assume(vc_and(vc_lt(1e-9, std::abs(a)), vc_lt(1e-9, disc)));
    auto r = TrajectoryArc::solve_quadratic_(a, b, c, lo, hi);
    vc_check(r.size() <= 2, "at most twice");
    for (float t : r) {
        vc_check(vc_and(vc_le(lo, t), vc_le(t, hi)), "in the range");
        if (t > lo && t < hi) vc_check(vc_eq(c + t * (b + (double)t * a), 0), "a root");
    }
    if (r.size() == 2) vc_check(vc_le(r[0], r[1]), "in order");
}
VC_CONTRACT(REAL, quadratic_all)
{
    float a = vc_float("a"), b = vc_float("b"), c = vc_float("c"), s = vc_float("s"), lo = vc_float("lo"), hi = vc_float("hi");
    vc_assume(vc_lt(lo, hi));
    double disc = (double)b * b - 4.0 * a * c;
    vc_assume(vc_and(vc_lt(1e-9, std::abs(a)), vc_lt(1e-9, disc)));
    vc_assume(vc_and(vc_lt(lo, s), vc_lt(s, hi))); // any root
    vc_assume(vc_eq((double)a * s * s + (double)b * s + c, 0));
    auto r = TrajectoryArc::solve_quadratic_(a, b, c, lo, hi);
    bool found = false;
    for (float t : r) found = vc_or(found, vc_le(std::abs((double)t - s), 1e-10));
    vc_check(found, "every root is found");
}
VC_CONTRACT(REAL, crossings_three)
{
    auto p = any_samples(3);
    V n = vc::vec3f("n");
    TrajectoryArc arc(p);
    float a = glm::dot(n, arc.poly_coeffs_[2]), b = glm::dot(n, arc.poly_coeffs_[1]), c = glm::dot(n, arc.poly_coeffs_[0]), t = vc_float("t");
    vc_check(vc_eq(side(n, arc.evaluate(t)), c + t * (b + (double)t * a)), "distance from the plane over time");
    vc_assume(vc_lt(1e-9, std::abs(a)));
    auto r = arc.find_plane_crossings(n), q = TrajectoryArc::solve_quadratic_(a, b, c, 0.0f, 1.0f);
    vc_check(r.size() == q.size(), "its roots");
    for (size_t i = 0; i < r.size() && i < q.size(); ++i) vc_check(vc_eq(r[i], q[i]), "during the arc");
}
namespace {
void cubic(int kind, int which = 0)
{
    float a = vc_float("a"), b = vc_float("b"), c = vc_float("c"), d = vc_float("d"), lo = vc_float("lo"), hi = vc_float("hi");
    vc_assume(vc_and(vc_lt(lo, hi), vc_le(1e-10, std::abs(a))));
    float p = b / a, q = c / a, r = d / a, A = q - p * p / 3.0f, B = r - p * q / 3.0f + 2.0f * (p * p) * p / 27.0f, disc = -4.0f * A * A * A - 27.0f * B * B;
    vc_assume(kind == 0 ? vc_lt(1e-10f, disc) : vc_lt(disc, -1e-10f));
    if (kind == 0) vc_lemma(vc_lt(A, 0), "three roots need a slope");
    if (kind == 1) vc_assume(vc_lt(A, 0));
    if (kind == 2) vc_assume(vc_lt(0, A));
    if (kind == 3) vc_assume(vc_eq(A, 0));
    if (kind == 0) { // the one of three roots that is in the range: the others are pruned
        float m = 2.0f * std::sqrt(-A / 3.0f), theta = std::acos(3.0f * B / (A * m)) / 3.0f;
        for (int k = 0; k < 3; ++k) {
            float t = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f) + -p / 3.0f;
            if (k != which) vc_assume(vc_or(vc_lt(t, lo - 1e-10f), vc_lt(hi + 1e-10f, t)));
            else vc_assume(vc_and(vc_le(lo, t), vc_le(t, hi)));
        }
    }
    auto v = TrajectoryArc::solve_cubic_(a, b, c, d, lo, hi);
    vc_check(kind == 0 ? v.size() == 1 : v.size() <= 1, "one root");
    for (float t : v) {
        vc_check(vc_and(vc_le(lo, t), vc_le(t, hi)), "in the range");
        if (t > lo && t < hi) vc_check(vc_eq(d + t * (c + t * (b + (double)t * a)), 0), "a root");
    }
}
}
VC_CONTRACT(REAL, cubic_first) { cubic(0, 0); }
VC_CONTRACT(REAL, cubic_second) { cubic(0, 1); }
VC_CONTRACT(REAL, cubic_third) { cubic(0, 2); }
VC_CONTRACT(REAL, cubic_cosh) { cubic(1); }
VC_CONTRACT(REAL, cubic_sinh) { cubic(2); }
VC_CONTRACT(REAL, cubic_cbrt) { cubic(3); }
// ---- four samples and more: a natural cubic spline
namespace {
void spline(int n)
{
    vc_bounded("4, 5 and 7 samples");
    auto p = any_samples(n);
    TrajectoryArc a(p);
    double h = 1.0 / (n - 1);
    auto& s = a.segments_;
    vc_check(s.size() == (size_t)(n - 1), "a piece between each two samples");
    for (int i = 0; i < n; ++i) vc_check(same(a.evaluate((float)i / (float)(n - 1)), p[(size_t)i]), "through each sample at its time");
    for (int c = 0; c < 3; ++c) {
        for (size_t i = 0; i + 1 < s.size(); ++i) {
            vc_check(vc_eq(s[i].a[c] + h * (s[i].b[c] + h * (s[i].c[c] + h * s[i].d[c])), s[i + 1].a[c]), "continuous");
            vc_check(vc_eq(s[i].b[c] + h * (2 * (double)s[i].c[c] + 3 * h * s[i].d[c]), s[i + 1].b[c]), "continuous velocity");
            vc_check(vc_eq(s[i].c[c] + 3 * h * s[i].d[c], s[i + 1].c[c]), "continuous acceleration");
        }
        vc_check(vc_eq(s[0].c[c], 0), "no acceleration at the start");
        vc_check(vc_eq(s.back().c[c] + 3 * h * s.back().d[c], 0), "no acceleration at the end");
    }
    vc_check(same(a.evaluate(-1), p[0]) && same(a.evaluate(2), p.back()), "held outside of the arc");
}
}
VC_CONTRACT(REAL, spline_four) { spline(4); }
VC_CONTRACT(REAL, spline_five) { spline(5); }
VC_CONTRACT(REAL, spline_seven) { spline(7); }
VC_CONTRACT(REAL, spline_piece)
{
    vc_bounded("5 samples");
    auto p = any_samples(5);
    TrajectoryArc a(p);
    float t = vc_float("t");
    vc_assume(vc_and(vc_le(0, t), vc_lt(t, 1)));
    V q = a.evaluate(t);
    int i = t < 0.25f ? 0 : t < 0.5f ? 1 : t < 0.75f ? 2 : 3;
    double u = t - 0.25 * i;
    auto& s = a.segments_[(size_t)i];
    for (int c = 0; c < 3; ++c) vc_check(vc_eq(q[c], s.a[c] + u * (s.b[c] + u * (s.c[c] + u * s.d[c]))), "the piece of its time");
}
VC_CONTRACT(REAL, spline_crossing)
{
    vc_bounded("4 samples of uniform motion");
    V c = vc::vec3f("c"), v = vc::vec3f("v"), n = vc::vec3f("n");
    TrajectoryArc a({c, c + v, c + 2.f * v, c + 3.f * v});
    double d0 = side(n, c), w = 3 * side(n, v);
    vc_assume(vc_lt(1e-3, std::abs(w)));
    for (size_t i = 0; i < 3; ++i) vc_lemma(vc_eq(glm::dot(n, a.segments_[i].d), 0) && vc_eq(glm::dot(n, a.segments_[i].c), 0), "no acceleration");
    auto r = a.find_plane_crossings(n);
    for (float t : r) if (t > 0 && t < 1) vc_check(vc_le(std::abs(d0 + t * w), 1e-5 * std::abs(w)), "in the plane");
    if (d0 < 0 ? d0 + w > 0 : d0 > 0 && d0 + w < 0) vc_check(!r.empty(), "found");
}
VC_CONTRACT(REAL, cubic_three)
{
    float a = vc_float("a"), b = vc_float("b"), c = vc_float("c"), d = vc_float("d"), lo = vc_float("lo"), hi = vc_float("hi");
    vc_assume(vc_and(vc_lt(lo, hi), vc_le(1e-10, std::abs(a))));
    float p = b / a, q = c / a, r = d / a, A = q - p * p / 3.0f, B = r - p * q / 3.0f + 2.0f * (p * p) * p / 27.0f, disc = -4.0f * A * A * A - 27.0f * B * B;
    vc_assume(vc_lt(1e-10f, disc));
    vc_lemma(vc_lt(A, 0), "three roots need a slope");
    float m = 2.0f * std::sqrt(-A / 3.0f), theta = std::acos(3.0f * B / (A * m)) / 3.0f;
    for (int k = 0; k < 3; ++k) {
        float t = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f) + -p / 3.0f;
        vc_assume(vc_and(vc_le(lo, t), vc_le(t, hi)));
    }
    auto v = TrajectoryArc::solve_cubic_(a, b, c, d, lo, hi);
    vc_check(v.size() == 3, "all three");
    if (v.size() == 3) vc_check(vc_and(vc_le(v[0], v[1]), vc_le(v[1], v[2])), "in order");
}
