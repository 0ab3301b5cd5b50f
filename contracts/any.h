// Arbitrary values of huira types, restricted by their type invariant only.
#pragma once
#include <cstring>
#include "huira/core/rotation.hpp"
#include "huira/core/transform.hpp"
#include "vc.h"
namespace vc {
using namespace huira;
inline Vec3<double> vec3(const char* n)
{
    double x = vc_real(n), y = vc_real(n), z = vc_real(n);
    return Vec3<double>{x, y, z};
}
inline Vec3<float> vec3f(const char* n)
{
    float x = vc_float(n), y = vc_float(n), z = vc_float(n);
    return Vec3<float>{x, y, z};
}
inline Vec3<double> unit3(const char* n)
{
    double v[3];
    vc_unit3(n, v);
    return Vec3<double>{v[0], v[1], v[2]};
}
inline Vec3<float> unit3f(const char* n)
{
    double v[3];
    vc_unit3(n, v);
    return Vec3<float>{(float)v[0], (float)v[1], (float)v[2]};
}
inline Mat3<double> so3(const char* n)
{
    double q[4];
    vc_unit4(n, q);
    double w = q[0], x = q[1], y = q[2], z = q[3];
    Mat3<double> m;
    m[0] = Vec3<double>{w * w + x * x - y * y - z * z, 2 * (x * y + w * z), 2 * (x * z - w * y)};
    m[1] = Vec3<double>{2 * (x * y - w * z), w * w - x * x + y * y - z * z, 2 * (y * z + w * x)};
    m[2] = Vec3<double>{2 * (x * z + w * y), 2 * (y * z - w * x), w * w - x * x - y * y + z * z};
    return m;
}
// The Rotation with matrix m, for m in SO(3).
template <class T>
inline Rotation<T> rotation_of(const Mat3<T>& m)
{
    if constexpr (sizeof(Rotation<T>) == sizeof(Mat3<T>)) {
        Rotation<T> r;
        std::memcpy((void*)&r, &m, sizeof(m));
        return r;
    } else {
        return Rotation<T>::from_local_to_parent(m);
    }
}
// Every element of SO(3) is so3(q) for a unit quaternion q.
template <class T>
inline Rotation<T> rotation(const char* n)
{
    Mat3<double> m = so3(n);
    Mat3<T> mt;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            mt[i][j] = (T)m[i][j];
    return rotation_of<T>(mt);
}
template <class T>
inline Transform<T> transform(const char* n)
{
    Transform<T> t;
    for (int i = 0; i < 3; ++i) {
        t.position[i] = (T)vc_real(n);
        t.scale[i] = (T)vc_real(n);
        t.velocity[i] = (T)vc_real(n);
        t.angular_velocity[i] = (T)vc_real(n);
    }
    t.rotation = rotation<T>(n);
    return t;
}
template <class V>
inline double dot(const V& a, const V& b) { return (double)a[0] * b[0] + (double)a[1] * b[1] + (double)a[2] * b[2]; }
template <class V, class W>
inline bool eq3(const V& a, const W& b) { return vc_and(vc_and(vc_eq(a[0], b[0]), vc_eq(a[1], b[1])), vc_eq(a[2], b[2])); }
template <class M>
inline bool orthonormal(const M& m)
{
    bool ok = true;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            ok = vc_and(ok, vc_eq(dot(m[i], m[j]), i == j ? 1.0 : 0.0));
    return ok;
}
template <class M>
inline double det(const M& m)
{
    return (double)m[0][0] * (m[1][1] * m[2][2] - m[2][1] * m[1][2]) - (double)m[1][0] * (m[0][1] * m[2][2] - m[2][1] * m[0][2]) +
           (double)m[2][0] * (m[0][1] * m[1][2] - m[1][1] * m[0][2]);
}
inline bool near(double a, double b, double eps) { return vc_and(vc_le(a - b, eps), vc_le(b - a, eps)); }
template <class F>
inline bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
} // namespace vc
