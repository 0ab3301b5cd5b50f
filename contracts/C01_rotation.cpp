// C01: a Rotation is always a proper rotation, and its constructors, accessors, inverse and product agree.
#include "any.h"
using namespace huira;
using namespace vc;
template <class T> static void is_rotation(const Rotation<T>& R, const char* n)
{
    auto M = R.local_to_parent_matrix();
    vc_check(orthonormal(M), n);
    vc_check(vc_eq(det(M), 1.0), n);
}
template <class A, class B> static bool same_matrix(const A& a, const B& b)
{
    bool ok = true;
    for (int i = 0; i < 3; ++i)
        ok = vc_and(ok, eq3(a[i], b[i]));
    return ok;
}
// Rodrigues' formula, the meaning of "rotate v by angle t about the unit axis k"
static Vec3<double> rodrigues(Vec3<double> k, double t, Vec3<double> v)
{
    double c = std::cos(t), s = std::sin(t), d = dot(k, v);
    Vec3<double> x{k.y * v.z - k.z * v.y, k.z * v.x - k.x * v.z, k.x * v.y - k.y * v.x};
    return Vec3<double>{v.x * c + x.x * s + k.x * d * (1 - c), v.y * c + x.y * s + k.y * d * (1 - c), v.z * c + x.z * s + k.z * d * (1 - c)};
}
VC_CONTRACT(REAL, default_identity)
{
    Rotation<double> R;
    auto v = vec3("v");
    vc_check(eq3(R * v, v), "default is identity");
    Rotation<float> F;
    is_rotation(F, "default is identity");
}
VC_CONTRACT(REAL, from_quaternion)
{
    double q[4];
    vc_unit4("q", q);
    Quaternion<double> Q(q[0], q[1], q[2], q[3]);
    auto R = Rotation<double>::from_local_to_parent(Q);
    is_rotation(R, "orthonormal");
    vc_check(same_matrix(R.local_to_parent_matrix(), [&] {
        double w = q[0], x = q[1], y = q[2], z = q[3];
        Mat3<double> m;
        m[0] = Vec3<double>{w * w + x * x - y * y - z * z, 2 * (x * y + w * z), 2 * (x * z - w * y)};
        m[1] = Vec3<double>{2 * (x * y - w * z), w * w - x * x + y * y - z * z, 2 * (y * z + w * x)};
        m[2] = Vec3<double>{2 * (x * z + w * y), 2 * (y * z - w * x), w * w - x * x - y * y + z * z};
        return m;
    }()), "rotation of the quaternion");
    auto P = Rotation<double>::from_parent_to_local(Q);
    auto v = vec3("v");
    vc_check(eq3(P * (R * v), v), "parent to local is the inverse");
}
VC_CONTRACT(REAL, from_shuster)
{
    double q[4];
    vc_unit4("q", q);
    ShusterQuaternion<double> S{q[0], q[1], q[2], q[3]};
    auto H = to_hamilton(S);
    auto R = Rotation<double>::from_local_to_parent(S), R2 = Rotation<double>::from_local_to_parent(H);
    auto v = vec3("v");
    is_rotation(R, "orthonormal");
    vc_check(eq3(R * v, R2 * v), "both quaternion conventions agree");
    auto P = Rotation<double>::from_parent_to_local(S);
    vc_check(eq3(P * (R * v), v), "parent to local is the inverse");
    auto B = to_shuster(H);
    vc_check(vc_and(vc_and(vc_eq(B.x, S.x), vc_eq(B.y, S.y)), vc_and(vc_eq(B.z, S.z), vc_eq(B.w, S.w))), "quaternion convention round trip");
}
VC_CONTRACT(REAL, from_matrix)
{
    Mat3<double> m;
    for (int i = 0; i < 3; ++i) m[i] = vec3("m");
    bool threw = false;
    Rotation<double> R;
    try { R = Rotation<double>::from_local_to_parent(m); } catch (const std::runtime_error&) { threw = true; }
    double d = det(m);
    vc_check(vc_iff(threw, vc_or(vc_lt(1e-3, d - 1), vc_lt(d - 1, -1e-3))), "rejects non rotations");
    is_rotation(R, "orthonormal");
}
VC_CONTRACT(REAL, nan_matrix)
{
    Mat3<double> m;
    for (int i = 0; i < 3; ++i) m[i] = vec3("m");
    int k = (int)vc_range("k", 0, 8);
    for (int i = 0; i < 9; ++i)
        if (vc_split(i == k)) m[i / 3][i % 3] = std::numeric_limits<double>::quiet_NaN();
    vc_check(throws([&] { Rotation<double>::from_local_to_parent(m); }), "rejects NaN");
}
VC_CONTRACT(REAL, exact_matrix)
{
    auto A = so3("a");
    auto R = Rotation<double>::from_local_to_parent(A);
    vc_check(same_matrix(R.local_to_parent_matrix(), A), "a rotation matrix is kept as it is");
    vc_check(eq3(R.x_axis(), A[0]), "columns are the axes");
    vc_check(eq3(R.y_axis(), A[1]), "columns are the axes");
    vc_check(eq3(R.z_axis(), A[2]), "columns are the axes");
    auto P = Rotation<double>::from_parent_to_local(A);
    auto v = vec3("v");
    vc_check(eq3(P * (R * v), v), "parent to local is the inverse");
    auto B = Rotation<double>::from_basis_vectors(A[0], A[1], A[2]);
    vc_check(same_matrix(B.local_to_parent_matrix(), A), "basis vectors are the columns");
    auto T = R.parent_to_local_matrix();
    bool ok = true;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            ok = vc_and(ok, vc_eq(T[i][j], A[j][i]));
    vc_check(ok, "parent to local matrix is the transpose");
    vc_check(eq3(R * v, Vec3<double>{A[0][0] * v[0] + A[1][0] * v[1] + A[2][0] * v[2], A[0][1] * v[0] + A[1][1] * v[1] + A[2][1] * v[2], A[0][2] * v[0] + A[1][2] * v[1] + A[2][2] * v[2]}),
             "product with a vector");
}
VC_CONTRACT(REAL, axis_angle)
{
    auto u = vec3("u");
    double t = vc_real("t"), len = std::sqrt(u.x * u.x + u.y * u.y + u.z * u.z);
    vc_assume(vc_lt(1e-12, len));
    auto v = vec3("v");
    auto R = Rotation<double>::from_local_to_parent(u, units::Radian(t));
    vc_check(eq3(R * v, rodrigues({u.x / len, u.y / len, u.z / len}, t, v)), "axis angle");
}
VC_CONTRACT(REAL, axis_angle_inverse)
{
    auto u = unit3("u");
    units::Radian t(vc_real("t"));
    auto v = vec3("v");
    auto R = Rotation<double>::from_local_to_parent(u, t), P = Rotation<double>::from_parent_to_local(u, t);
    vc_check(eq3(P * (R * v), v), "parent to local is the inverse");
}
VC_CONTRACT(REAL, zero_axis)
{
    auto R = Rotation<double>::from_local_to_parent(Vec3<double>{0, 0, 0}, units::Radian(vc_real("t")));
    auto v = vec3("v");
    vc_check(eq3(R * v, v), "zero axis is the identity");
}
VC_CONTRACT(REAL, elementary)
{
    double t = vc_real("t");
    auto v = vec3("v");
    units::Radian a(t);
    using R = Rotation<double>;
    vc_check(eq3(R::local_to_parent_x(a) * v, rodrigues({1, 0, 0}, t, v)), "x");
    vc_check(eq3(R::local_to_parent_y(a) * v, rodrigues({0, 1, 0}, t, v)), "y");
    vc_check(eq3(R::local_to_parent_z(a) * v, rodrigues({0, 0, 1}, t, v)), "z");
    vc_check(eq3(R::parent_to_local_x(a) * v, rodrigues({1, 0, 0}, -t, v)), "x");
    vc_check(eq3(R::parent_to_local_y(a) * v, rodrigues({0, 1, 0}, -t, v)), "y");
    vc_check(eq3(R::parent_to_local_z(a) * v, rodrigues({0, 0, 1}, -t, v)), "z");
}
VC_CONTRACT(REAL, compose)
{
    auto A = rotation<double>("a"), B = rotation<double>("b");
    auto C = A * B;
    is_rotation(C, "orthonormal");
    auto v = vec3("v");
    vc_check(eq3(C * v, A * (B * v)), "composition");
}
VC_CONTRACT(REAL, compose_assign)
{
    auto A = rotation<double>("a"), B = rotation<double>("b");
    auto v = vec3("v");
    auto D = A;
    D *= B;
    vc_check(eq3(D * v, A * (B * v)), "composition");
}
VC_CONTRACT(REAL, inverse)
{
    auto A = rotation<double>("a");
    auto v = vec3("v");
    vc_check(eq3(A.inverse() * (A * v), v), "inverse");
    vc_check(eq3(A * (A.inverse() * v), v), "inverse");
    is_rotation(A.inverse(), "orthonormal");
}
// An Euler rotation is the product of the elementary rotations named by the sequence.
static Vec3<double> elem(int ax, double t, Vec3<double> v) { return rodrigues({ax == 0 ? 1. : 0., ax == 1 ? 1. : 0., ax == 2 ? 1. : 0.}, t, v); }
template <int S> static void euler(int fixed)
{
    static const char names[3][3] = {{'x', 'X', '1'}, {'y', 'Y', '2'}, {'z', 'Z', '3'}};
    double t[3] = {vc_real("a"), vc_real("b"), vc_real("c")};
    auto v = vec3("v");
    for (int k = 0; k < 9; ++k) {
        int ax[3] = {fixed, k / 3, k % 3};
        std::string s;
        for (int i = 0; i < 3; ++i) s.push_back(names[ax[i]][(i + k) % 3]);
        units::Radian a(t[0]), b(t[1]), c(t[2]);
        auto E = Rotation<double>::extrinsic_euler_angles(a, b, c, s);
        auto I = Rotation<double>::intrinsic_euler_angles(a, b, c, s);
        vc_check(eq3(E * v, elem(ax[2], t[2], elem(ax[1], t[1], elem(ax[0], t[0], v)))), "extrinsic: about the fixed axes in turn");
        vc_check(eq3(I * v, elem(ax[0], t[0], elem(ax[1], t[1], elem(ax[2], t[2], v)))), "intrinsic: about the moved axes in turn");
    }
}
VC_CONTRACT(REAL, euler_x) { euler<0>(0); }
VC_CONTRACT(REAL, euler_y) { euler<0>(1); }
VC_CONTRACT(REAL, euler_z) { euler<0>(2); }
VC_CONTRACT(REAL, euler_invalid)
{
    units::Radian a(vc_real("a")), b(vc_real("b")), c(vc_real("c"));
    auto bad = [&](const char* s) {
        vc_check(throws([&] { Rotation<double>::extrinsic_euler_angles(a, b, c, s); }), "rejects malformed sequences");
        vc_check(throws([&] { Rotation<double>::intrinsic_euler_angles(a, b, c, s); }), "rejects malformed sequences");
    };
    bad("");
    bad("xy");
    bad("xyzx");
    bad("xwz");
    bad("wyz");
    bad("xy4");
    bad("0yz");
}
VC_CONTRACT(REAL, quat_roundtrip)
{
    vc_option("fork-select");
    auto A = rotation<double>("a");
    auto B = Rotation<double>::from_local_to_parent(A.local_to_parent_quaternion());
    auto v = vec3("v");
    vc_check(eq3(A * v, B * v), "round trip");
}
// With from_quaternion and from_shuster this gives the remaining round trips.
VC_CONTRACT(REAL, quaternions_agree)
{
    vc_option("fork-select");
    auto A = rotation<double>("a");
    auto q = A.local_to_parent_quaternion(), p = A.parent_to_local_quaternion();
    auto s = A.local_to_parent_shuster_quaternion(), r = A.parent_to_local_shuster_quaternion();
    vc_check(vc_eq(p.w, q.w), "inverse quaternion is the conjugate");
    vc_check(vc_eq(p.x, -q.x), "inverse quaternion is the conjugate");
    vc_check(vc_eq(p.y, -q.y), "inverse quaternion is the conjugate");
    vc_check(vc_eq(p.z, -q.z), "inverse quaternion is the conjugate");
    vc_check(vc_and(vc_and(vc_eq(s.x, q.x), vc_eq(s.y, q.y)), vc_and(vc_eq(s.z, q.z), vc_eq(s.w, q.w))), "both quaternion conventions agree");
    vc_check(vc_and(vc_and(vc_eq(r.x, p.x), vc_eq(r.y, p.y)), vc_and(vc_eq(r.z, p.z), vc_eq(r.w, p.w))), "both quaternion conventions agree");
}
VC_CONTRACT(REAL, convert)
{
    auto A = rotation<double>("a");
    auto F = static_cast<Rotation<float>>(A);
    auto v = vec3("v");
    Vec3<float> vf{(float)v.x, (float)v.y, (float)v.z};
    vc_check(eq3(F * vf, A * v), "precision conversion keeps the rotation");
}
VC_CONTRACT(REAL, float_rotation)
{
    auto A = rotation<float>("a"), B = rotation<float>("b");
    auto v = vec3f("v");
    is_rotation(A * B, "orthonormal");
    vc_check(eq3((A * B) * v, A * (B * v)), "composition");
    vc_check(eq3(A.inverse() * (A * v), v), "inverse");
}
