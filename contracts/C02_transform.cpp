// C02: Transform means scale, then rotate, then translate; composition and inverse agree with that on points and on motion.
#include "any.h"
using namespace huira;
using namespace vc;
using D3 = Vec3<double>;
static D3 cross3(const D3& a, const D3& b) { return D3{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static D3 mulv(const Mat3<double>& M, const D3& v)
{
    D3 r;
    for (int i = 0; i < 3; ++i) r[i] = M[0][i] * v[0] + M[1][i] * v[1] + M[2][i] * v[2];
    return r;
}
VC_CONTRACT(REAL, apply)
{
    auto T = transform<double>("t");
    auto x = vec3("x");
    auto M = T.rotation.local_to_parent_matrix();
    D3 sx{T.scale.x * x.x, T.scale.y * x.y, T.scale.z * x.z};
    D3 r = mulv(M, sx);
    vc_check(eq3(T.apply_to_point(x), D3{r.x + T.position.x, r.y + T.position.y, r.z + T.position.z}), "point");
    vc_check(eq3(T.apply_to_direction(x), r), "direction");
    vc_check(eq3(T.apply_to_velocity(x), D3{r.x + T.velocity.x, r.y + T.velocity.y, r.z + T.velocity.z}), "velocity");
    D3 q = mulv(M, x);
    vc_check(eq3(T.apply_to_angular_velocity(x), D3{q.x + T.angular_velocity.x, q.y + T.angular_velocity.y, q.z + T.angular_velocity.z}), "angular velocity");
}
VC_CONTRACT(REAL, default_identity)
{
    Transform<double> T;
    auto x = vec3("x");
    vc_check(eq3(T.apply_to_point(x), x), "default is identity");
    vc_check(eq3(T.apply_to_velocity(x), x), "default is identity");
    vc_check(eq3(T.apply_to_angular_velocity(x), x), "default is identity");
}
VC_CONTRACT(REAL, matrix)
{
    auto T = transform<double>("t");
    auto M = T.to_matrix();
    auto x = vec3("x");
    auto y = M * Vec4<double>{x.x, x.y, x.z, 1.0};
    vc_check(eq3(y, T.apply_to_point(x)), "matrix times point");
    vc_check(vc_eq(y.w, 1.0), "homogeneous coordinate");
}
VC_CONTRACT(REAL, matrix_float)
{
    auto T = transform<float>("t");
    auto M = T.to_matrix();
    auto x = vec3f("x");
    auto y = M * Vec4<float>{x.x, x.y, x.z, 1.0f};
    vc_check(eq3(y, T.apply_to_point(x)), "matrix times point");
}
static Transform<double> uniform(const char* n)
{
    auto T = transform<double>(n);
    double s = vc_real("s");
    T.scale = D3{s, s, s};
    return T;
}
VC_CONTRACT(REAL, compose)
{
    auto A = uniform("a");
    auto B = transform<double>("b");
    auto C = A * B;
    auto x = vec3("x");
    vc_check(eq3(C.apply_to_point(x), A.apply_to_point(B.apply_to_point(x))), "point");
    vc_check(eq3(C.apply_to_direction(x), A.apply_to_direction(B.apply_to_direction(x))), "direction");
    vc_check(eq3(C.angular_velocity, A.apply_to_angular_velocity(B.angular_velocity)), "angular velocity");
}
// position and motion of the child frame's origin, for any scale of the parent
VC_CONTRACT(REAL, compose_origin)
{
    auto A = transform<double>("a"), B = transform<double>("b");
    auto C = A * B;
    vc_check(eq3(C.position, A.apply_to_point(B.position)), "origin");
    D3 r = A.apply_to_direction(B.position), v = A.apply_to_velocity(B.velocity), w = cross3(A.angular_velocity, r);
    vc_check(eq3(C.velocity, D3{v.x + w.x, v.y + w.y, v.z + w.z}), "velocity of the origin");
    vc_check(eq3(C.scale, D3{A.scale.x * B.scale.x, A.scale.y * B.scale.y, A.scale.z * B.scale.z}), "scale");
    vc_check(eq3(C.angular_velocity, A.apply_to_angular_velocity(B.angular_velocity)), "angular velocity");
}
VC_CONTRACT(REAL, associative)
{
    auto A = uniform("a"), B = uniform("b");
    Transform<double> C;
    C.position = vec3("p");
    C.velocity = vec3("u");
    C.angular_velocity = vec3("w");
    auto P = (A * B) * C, Q = A * (B * C);
    vc_check(eq3(P.position, Q.position), "position");
    vc_check(eq3(P.angular_velocity, Q.angular_velocity), "angular velocity");
    vc_check(eq3(P.velocity, Q.velocity), "velocity");
}
VC_CONTRACT(REAL, inverse)
{
    auto T = uniform("t");
    vc_assume(vc_lt(0.0, T.scale.x));
    auto I = T.inverse();
    auto x = vec3("x");
    vc_check(eq3(I.apply_to_point(T.apply_to_point(x)), x), "inverse undoes");
    vc_check(eq3(T.apply_to_point(I.apply_to_point(x)), x), "inverse undoes");
    vc_check(eq3(I.apply_to_direction(T.apply_to_direction(x)), x), "inverse undoes");
}
static void is_identity(const Transform<double>& C)
{
    D3 z{0, 0, 0};
    vc_check(eq3(C.position, z), "position cancels");
    vc_check(eq3(C.velocity, z), "velocity cancels");
    vc_check(eq3(C.angular_velocity, z), "angular velocity cancels");
    vc_check(eq3(C.scale, D3{1, 1, 1}), "scale cancels");
}
VC_CONTRACT(REAL, inverse_left)
{
    auto T = uniform("t");
    vc_assume(vc_lt(0.0, T.scale.x));
    auto I = T.inverse();
    // the inverse rotation is replaced by an equal one of simpler form
    Mat3<double> M = T.rotation.local_to_parent_matrix(), N = I.rotation.local_to_parent_matrix(), Mt;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) Mt[i][j] = M[j][i];
    for (int i = 0; i < 3; ++i) vc_check(eq3(N[i], Mt[i]), "inverse rotation is the transpose");
    I.rotation = rotation_of<double>(Mt);
    is_identity(I * T);
}
VC_CONTRACT(REAL, inverse_right)
{
    auto T = uniform("t");
    vc_assume(vc_lt(0.0, T.scale.x));
    is_identity(T * T.inverse());
}
VC_CONTRACT(REAL, inverse_scale)
{
    auto T = transform<double>("t");
    for (int i = 0; i < 3; ++i) vc_assume(vc_not(vc_eq(T.scale[i], 0.0)));
    auto I = T.inverse();
    for (int i = 0; i < 3; ++i) vc_check(vc_eq(I.scale[i] * T.scale[i], 1.0), "scale");
    auto v = vec3("v");
    vc_check(eq3(I.rotation * (T.rotation * v), v), "rotation");
    vc_check(eq3(I.rotation * T.angular_velocity, -I.angular_velocity), "angular velocity");
}
VC_CONTRACT(REAL, rigid_motion)
{
    auto T = transform<double>("t");
    auto x = vec3("x"), p = vec3("p");
    D3 w = cross3(T.angular_velocity, D3{p.x - T.position.x, p.y - T.position.y, p.z - T.position.z});
    vc_check(eq3(T.velocity_of_point(p), D3{T.velocity.x + w.x, T.velocity.y + w.y, T.velocity.z + w.z}), "velocity of a point");
    vc_check(eq3(T.velocity_of_local_point(x), T.velocity_of_point(T.apply_to_point(x))), "velocity of a local point");
}
VC_CONTRACT(REAL, convert)
{
    auto T = transform<double>("t");
    auto F = static_cast<Transform<float>>(T);
    auto x = vec3("x");
    Vec3<float> xf{(float)x.x, (float)x.y, (float)x.z};
    vc_check(eq3(F.apply_to_point(xf), T.apply_to_point(x)), "precision conversion keeps the transform");
    vc_check(eq3(F.velocity, T.velocity), "precision conversion keeps the transform");
    vc_check(eq3(F.angular_velocity, T.angular_velocity), "precision conversion keeps the transform");
}
VC_CONTRACT(REAL, embree)
{
    vc_option("fork-select");
    auto T = transform<double>("t");
    auto d = T.to_embree();
    auto q = T.rotation.local_to_parent_quaternion();
    vc_check(vc_and(vc_and(vc_eq(d.quaternion_r, q.w), vc_eq(d.quaternion_i, q.x)), vc_and(vc_eq(d.quaternion_j, q.y), vc_eq(d.quaternion_k, q.z))), "rotation");
    vc_check(eq3(D3{d.scale_x, d.scale_y, d.scale_z}, T.scale), "scale");
    vc_check(eq3(D3{d.translation_x, d.translation_y, d.translation_z}, T.position), "translation");
    vc_check(eq3(D3{d.shift_x, d.shift_y, d.shift_z}, D3{0, 0, 0}), "no shift");
    vc_check(eq3(D3{d.skew_xy, d.skew_xz, d.skew_yz}, D3{0, 0, 0}), "no skew");
}
