// C20: what a camera sees: its frustum, the directions and the solid angles of its pixels.
#include <algorithm>
#include <vector>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include <assert.h>
#include <map>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <thread>
#include <variant>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include <condition_variable>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <numeric>
#define protected public
#include "huira/huira.hpp"
#undef protected
using namespace huira;
using V = Vec3<float>;
using D = Vec3<double>;
using Cam = CameraModel<RGB>;
template <> Cam::CameraModel() {} // its own contract is in C20_camera.cpp
namespace {
float positive(const char* n)
{
    float x = vc_float(n);
    vc_assume(vc_lt(0, x));
    return x;
}
Cam& any_camera(int w, int h)
{
    Cam& c = *new Cam;
    c.sensor_ = std::make_unique<SimpleSensor<RGB>>();
    c.sensor_->set_resolution(Resolution{w, h});
    c.aperture_ = std::make_unique<CircularAperture<RGB>>(units::Meter((double)positive("aperture")));
    c.rx_ = (float)w, c.ry_ = (float)h;
    c.fx_ = positive("fx"), c.fy_ = positive("fy"), c.cx_ = vc_float("cx"), c.cy_ = vc_float("cy");
    c.blender_convention_ = vc_range("blender", 0, 1);
    return c;
}
}
namespace {
void sees_its_pixels(int w, int h)
{
    vc_option("no-fdiv"); // rays keep the inverses of their direction, infinite ones included
    Cam& c = any_camera(w, h);
    c.compute_frustum_();
    V p = vc::vec3f("p");
    bool b = c.blender_convention_;
    float z = b ? -p.z : p.z, y = b ? -p.y : p.y;
    vc_assume(vc_and(vc_lt(0, z), vc_le(1e-12, (double)p.x * p.x + (double)p.y * p.y + (double)p.z * p.z)));
    float u = p.x / z * c.fx_ + c.cx_, v = y / z * c.fy_ + c.cy_;
    bool in = u >= 0 && u <= w - 1 && v >= 0 && v <= h - 1;
    vc_check(c.in_fov(p) == in, "sees exactly what is projected to its pixels");
}
}
VC_CONTRACT(REAL, frustum)
{
    vc_bounded("sensors of 3 by 3 pixels");
    sees_its_pixels(3, 3);
}
VC_CONTRACT(REAL, frustum_wide)
{
    vc_bounded("sensors of 4 by 3 pixels");
    sees_its_pixels(4, 3);
}
VC_CONTRACT(REAL, frustum_high)
{
    vc_bounded("sensors of 3 by 5 pixels");
    sees_its_pixels(3, 5);
}
VC_CONTRACT(REAL, behind)
{
    vc_option("no-fdiv");
    vc_bounded("sensors of 3 by 3 pixels");
    Cam& c = any_camera(3, 3);
    c.compute_frustum_();
    V p = vc::vec3f("p");
    vc_assume(c.blender_convention_ ? vc_lt(0, p.z) : vc_lt(p.z, 0));
    vc_check(!c.in_fov(p), "sees nothing behind");
    Pixel q = c.try_project_point(p);
    vc_check(!c.in_fov(V{0, 0, 0}), "does not see the pinhole");
}
VC_CONTRACT(REAL, tangent)
{
    Cam& c = *new Cam;
    D a = D(vc_real("a"), vc_real("a"), vc_real("a")), b = D(vc_real("b"), vc_real("b"), vc_real("b")), n = glm::cross(a, b);
    vc_assume(vc_and(vc_lt(0, glm::dot(a, a)), vc_lt(0, glm::dot(n, n))));
    D t = c.tangent_(a, b);
    vc_check(vc_eq(glm::dot(t, t), 1), "a unit vector");
    vc_check(vc_eq(glm::dot(t, a), 0), "along the sphere");
    vc_check(vc_eq(glm::dot(t, n), 0), "in the plane of both");
    vc_check(vc_lt(0, glm::dot(t, b - a)), "from one to the other");
}
VC_CONTRACT(REAL, triangle)
{
    vc_option("no-fdiv"); // tangents have a direction (tangent)
    vc_option("no-domain"); // the dot product of two unit vectors (tangent) is in [-1, 1]
    Cam& c = *new Cam;
    D a[3];
    for (D& v : a) {
        v = D(vc_real("x"), vc_real("y"), vc_real("z"));
        vc_assume(vc_eq(glm::dot(v, v), 1));
    }
    double sum = 0;
    for (int i = 0; i < 3; ++i) {
        const D &p = a[i], &q = a[(i + 1) % 3], &r = a[(i + 2) % 3];
        D n = glm::cross(p, q), m = glm::cross(p, r);
        vc_assume(vc_and(vc_lt(0, glm::dot(n, n)), vc_lt(0, glm::dot(m, m))));
        sum += std::acos(glm::dot(c.tangent_(p, q), c.tangent_(p, r)));
    }
    vc_check(vc_eq(c.triangle_solid_angle_(a[0], a[1], a[2]), sum - PI<double>()), "Girard's formula");
}
VC_CONTRACT(REAL, solid_angles)
{
    vc_option("no-fdiv");
    vc_option("no-domain"); // acos of dot products of unit vectors
    vc_bounded("sensors of 2 by 2 pixels");
    Cam& c = any_camera(2, 2);
    c.compute_pixel_solid_angles_();
    vc_check(c.pixel_solid_angles_.resolution().x == 2 && c.pixel_solid_angles_.resolution().y == 2, "one for every pixel");
    for (int x = 0; x < 2; ++x)
        for (int y = 0; y < 2; ++y) {
            auto corner = [&](int i, int j) { return glm::normalize(c.template pixel_to_direction_<double>(Pixel{(float)(x + i), (float)(y + j)})); };
            D p = corner(0, 0), q = corner(1, 1);
            vc_check(vc_eq(c.pixel_solid_angles_(x, y), c.triangle_solid_angle_(p, corner(1, 0), q) + c.triangle_solid_angle_(p, q, corner(0, 1))), "of the two triangles between its corners");
            auto r = c.cast_ray(Pixel{(float)x, (float)y});
            vc_check(vc_eq(c.pixel_radiance_to_power(x, y), c.pixel_solid_angles_(x, y) * c.get_projected_aperture_area(r.direction())), "etendue of the pixel");
        }
}
VC_CONTRACT(REAL, field)
{
    vc_option("no-fdiv");
    vc_bounded("sensors of 2 by 3 pixels");
    Cam& c = any_camera(2, 3);
    struct Twice : Distortion<RGB> {
        Pixel distort(Pixel p) const override { return p; }
        Pixel undistort(Pixel p) const override { return Pixel{(p[0] - 1) / 2, p[1] + p[0]}; }
        DistortionCoefficients* get_coefficients() override { return nullptr; }
        const DistortionCoefficients* get_coefficients() const override { return nullptr; }
        std::string get_type_name() const override { return "Twice"; }
    };
    c.distortion_ = std::make_unique<Twice>();
    c.compute_distortion_field_();
    for (int x = 0; x < 2; ++x)
        for (int y = 0; y < 3; ++y) {
            V d = c.template pixel_to_direction_<float>(Pixel{(float)x, (float)y}), f = c.distortion_field_(x, y);
            vc_check(vc_eq(glm::dot(f, f), 1), "unit directions");
            vc_check(vc_and(vc_and(vc_eq(f.x * d.y, f.y * d.x), vc_eq(f.x * d.z, f.z * d.x)), vc_eq(f.y * d.z, f.z * d.y)), "of the pixels");
            vc_check(vc_lt(0, glm::dot(f, d)), "forwards");
        }
}
