// C20: cameras. What is derived from the settings (frustum, solid angles, kernels) has its contracts
// in C20_view.cpp and C12; here the functions that derive it record the settings they see.
#include <algorithm>
#include <vector>
#include "any.h"
#include <filesystem>
namespace fs = std::filesystem;
#include <assert.h>
#include <map>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <thread>
#include <variant>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include <condition_variable>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <numeric>
#define protected public
#include "huira/huira.hpp"
#undef protected
using namespace huira;
namespace {
using V = Vec3<float>;
using Cam = CameraModel<RGB>;
struct Seen {
    float fx, fy, cx, cy, rx, ry;
    bool blender, set = false;
    const void* distortion;
    void take(const Cam& c) { *this = {c.fx_, c.fy_, c.cx_, c.cy_, c.rx_, c.ry_, c.blender_convention_, true, c.distortion_.get()}; }
    bool now(const Cam& c) const
    {
        return vc_and(vc_and(set && distortion == c.distortion_.get() && blender == c.blender_convention_, vc_and(vc_eq(fx, c.fx_), vc_eq(fy, c.fy_))),
            vc_and(vc_and(vc_eq(cx, c.cx_), vc_eq(cy, c.cy_)), vc_and(vc_eq(rx, c.rx_), vc_eq(ry, c.ry_))));
    }
};
Seen frustum, angles, field;
struct Kernel {
    double f = 0, px = 0, py = 0, r = 0, d = 0;
    int radius = 0, banks = 0;
} defocus, airy;
template <IsSpectral T> struct Spot : PSF<T> {
    Spot(int r, int b) { this->cache_.radius = r, this->cache_.banks = b; }
    T evaluate(float, float) override { return T{}; }
};
}
template <> void Cam::compute_frustum_() { frustum.take(*this); }
template <> void Cam::compute_pixel_solid_angles_() { angles.take(*this); }
template <> void Cam::compute_distortion_field_() { field.take(*this); }
template <> void Aperture<RGB>::build_defocus_kernel(units::Diopter d, units::Meter f, units::Meter px, units::Meter py, int banks)
{
    defocus = {f.to_si(), px.to_si(), py.to_si(), get_bounding_radius().to_si(), d.to_si(), 0, banks};
}
template <> std::unique_ptr<PSF<RGB>> CircularAperture<RGB>::make_psf(units::Meter f, units::Meter px, units::Meter py, int radius, int banks)
{
    airy = {f.to_si(), px.to_si(), py.to_si(), get_bounding_radius().to_si(), 0, radius, banks};
    return std::make_unique<Spot<RGB>>(radius, banks);
}
namespace {
// Everything derived is that of the current settings.
void consistent(const Cam& c)
{
    Resolution r = c.sensor_->resolution();
    auto p = c.sensor_->pixel_pitch();
    vc_check(vc_and(vc_eq(c.rx_, (float)r.x), vc_eq(c.ry_, (float)r.y)), "resolution of the sensor");
    vc_check(vc_and(vc_eq(c.fx_ * p.x, c.focal_length_), vc_eq(c.fy_ * p.y, c.focal_length_)), "focal length in pixels");
    vc_check(frustum.now(c), "frustum of the current settings");
    vc_check(angles.now(c), "solid angles of the current settings");
    if (c.distortion_) vc_check(field.now(c), "directions of the current settings");
    vc_check(vc_and(vc_eq(defocus.f, c.focal_length_), vc_and(vc_eq(defocus.px, p.x), vc_eq(defocus.py, p.y))), "defocus of the current lens and sensor");
    vc_check(vc_and(vc_eq(defocus.r, c.aperture_->get_bounding_radius().to_si()), vc_eq(defocus.d, c.get_diopters().to_si())), "defocus of the current aperture and focus");
    if (c.use_aperture_psf_) vc_check(vc_and(vc_and(vc_eq(airy.f, c.focal_length_), vc_eq(airy.r, c.aperture_->get_bounding_radius().to_si())), vc_and(vc_eq(airy.px, p.x), vc_eq(airy.py, p.y))), "diffraction of the current settings");
}
float positive(const char* n)
{
    float x = vc_float(n);
    vc_assume(vc_lt(0, x));
    return x;
}
Resolution any_resolution()
{
    int x = (int)vc_range("rx", 1, 30000), y = (int)vc_range("ry", 1, 30000);
    return Resolution{x, y};
}
// A camera after any history of settings: arbitrary state, nothing derived from it yet.
Cam& any_camera(bool distorted, bool airy_psf)
{
    Cam& c = *new Cam;
    c.configure_sensor_from_pitch(any_resolution(), units::Meter((double)positive("pitch_x")), units::Meter((double)positive("pitch_y")), vc_float("cx"), vc_float("cy"));
    c.set_focal_length(units::Meter((double)positive("f")));
    if (distorted) c.set_brown_conrady_distortion(BrownCoefficients{});
    if (airy_psf) c.use_aperture_psf(8, 4);
    return c;
}
Cam& any_camera() { return any_camera(vc_range("distorted", 0, 1), vc_range("diffraction", 0, 1)); }
}
VC_CONTRACT(REAL, fresh)
{
    Cam& c = *new Cam;
    consistent(c);
    auto r = c.resolution();
    vc_check(vc_and(vc_eq(c.cx_, 0.5 * r.x), vc_eq(c.cy_, 0.5 * r.y)), "centred");
    vc_check(vc_eq(c.focal_length().to_si(), 0.05f), "50 mm");
    vc_check(vc_eq(c.fstop(), 2.8f), "f/2.8");
    vc_check(!c.has_psf() && !c.is_blender_convention(), "nothing else");
}
VC_CONTRACT(REAL, set_focal_length)
{
    Cam& c = any_camera();
    float f = vc_float("g"), before = c.focal_length_;
    if (vc::throws([&] { c.set_focal_length(units::Meter((double)f)); })) {
        vc_check(vc_le(f, 0), "positive focal lengths are accepted");
        vc_check(vc_eq(c.focal_length_, before), "rejected values are not kept");
    } else {
        vc_check(vc_lt(0, f), "only positive focal lengths");
        vc_check(vc_eq(c.focal_length_, f) && vc_eq(c.focal_length().to_si(), f), "the focal length");
    }
    consistent(c);
}
VC_CONTRACT(REAL, set_fstop)
{
    Cam& c = any_camera();
    float n = positive("n");
    c.set_fstop(n);
    vc_check(vc_eq(c.fstop(), n), "the f-number");
    vc_check(vc_eq(c.get_projected_aperture_area(V{0, 0, 1}) * 4.0 * n * n, (double)PI<float>() * c.focal_length_ * c.focal_length_), "of that aperture");
    consistent(c);
}
VC_CONTRACT(REAL, distortion)
{
    Cam& c = any_camera();
    int k = vc_range("model", 0, 3);
    if (k == 0) c.set_brown_conrady_distortion(BrownCoefficients{});
    if (k == 1) c.set_opencv_distortion(OpenCVCoefficients{});
    if (k == 2) c.set_owen_distortion(OwenCoefficients{});
    if (k == 3) c.delete_distortion();
    vc_check((c.distortion_ != nullptr) == (k != 3), "set or deleted");
    consistent(c);
}
VC_CONTRACT(REAL, convention)
{
    Cam& c = any_camera();
    bool b = vc_range("blender", 0, 1);
    c.use_blender_convention(b);
    vc_check(c.is_blender_convention() == b, "the convention");
    consistent(c);
}
VC_CONTRACT(REAL, aperture)
{
    Cam& c = any_camera();
    float d = positive("d");
    c.template set_aperture<CircularAperture<RGB>>(units::Meter((double)d));
    vc_check(vc_eq(c.aperture_->get_bounding_radius().to_si() * 2, d), "the aperture");
    consistent(c);
}
VC_CONTRACT(REAL, sensor)
{
    Cam& c = any_camera();
    c.template set_sensor<SimpleSensor<RGB>>();
    consistent(c);
}
VC_CONTRACT(REAL, from_pitch)
{
    Cam& c = any_camera();
    Resolution r = any_resolution();
    float px = positive("px"), py = positive("py"), cx = vc_float("ux"), cy = vc_float("uy");
    int k = vc_range("given", 0, 2);
    if (k == 0) c.configure_sensor_from_pitch(r, units::Meter((double)px));
    if (k == 1) c.configure_sensor_from_pitch(r, units::Meter((double)px), units::Meter((double)py));
    if (k == 2) c.configure_sensor_from_pitch(r, units::Meter((double)px), units::Meter((double)py), cx, cy);
    auto p = c.sensor_->pixel_pitch();
    vc_check(c.resolution().x == r.x && c.resolution().y == r.y, "the resolution");
    vc_check(vc_eq(p.x, px) && vc_eq(p.y, k ? py : px), "the pitch");
    vc_check(vc_eq(c.cx_, k == 2 ? cx : 0.5 * r.x) && vc_eq(c.cy_, k == 2 ? cy : 0.5 * r.y), "the principal point, centred unless given");
    consistent(c);
}
VC_CONTRACT(REAL, from_size)
{
    Cam& c = any_camera();
    Resolution r = any_resolution();
    float w = positive("w"), h = positive("h"), cx = vc_float("ux"), cy = vc_float("uy");
    int k = vc_range("given", 0, 2);
    if (k == 0) c.configure_sensor_from_size(r, units::Meter((double)w));
    if (k == 1) c.configure_sensor_from_size(r, units::Meter((double)w), units::Meter((double)h));
    if (k == 2) c.configure_sensor_from_size(r, units::Meter((double)w), units::Meter((double)h), cx, cy);
    auto p = c.sensor_->pixel_pitch();
    vc_check(c.resolution().x == r.x && c.resolution().y == r.y, "the resolution");
    vc_check(vc_eq(p.x * r.x, w) && (k ? vc_eq(p.y * r.y, h) : vc_eq(p.y, p.x)), "the size, square pixels unless given");
    vc_check(vc_eq(c.cx_, k == 2 ? cx : 0.5 * r.x) && vc_eq(c.cy_, k == 2 ? cy : 0.5 * r.y), "the principal point, centred unless given");
    consistent(c);
}
VC_CONTRACT(REAL, intrinsics)
{
    Cam& c = any_camera();
    Resolution r = any_resolution();
    float fx = positive("fx"), fy = positive("fy"), cx = vc_float("ux"), cy = vc_float("uy"), f = positive("g");
    if (vc_range("matrix", 0, 1)) c.set_intrinsic_matrix(Mat3<float>{V{fx, 0, 0}, V{0, fy, 0}, V{cx, cy, 1}}, r, units::Meter((double)f));
    else c.set_intrinsics(fx, fy, cx, cy, r, units::Meter((double)f));
    vc_check(c.resolution().x == r.x && c.resolution().y == r.y, "the resolution");
    vc_check(vc_eq(c.fx_, fx) && vc_eq(c.fy_, fy), "the focal lengths in pixels");
    vc_check(vc_eq(c.cx_, cx) && vc_eq(c.cy_, cy), "the principal point");
    vc_check(vc_eq(c.focal_length_, f), "the focal length");
    consistent(c);
}
VC_CONTRACT(REAL, focus)
{
    Cam& c = any_camera();
    float d = vc_float("focus");
    double x = vc_real("diopters");
    if (!vc::throws([&] { c.set_focus_distance(units::Meter((double)d)); })) {
        vc_check(vc_eq(c.get_focus_distance().to_si(), d), "the distance");
        vc_check(vc_eq(c.get_diopters().to_si() * d, 1), "the power is its inverse");
        consistent(c);
    } else vc_check(vc_le(std::abs(d), 1e-12), "only no distance is rejected");
    vc_assume(vc_and(vc_lt(1e-6, std::abs(x)), vc_lt(std::abs(x), 1e6)));
    c.set_diopters(units::Diopter(x));
    vc_check(vc_eq(c.get_diopters().to_si(), x), "the power");
    vc_check(vc_eq(c.get_focus_distance().to_si() * x, 1), "the distance is its inverse");
    consistent(c);
}
VC_CONTRACT(REAL, glare)
{
    Cam& c = *new Cam;
    float a = vc_float("alpha");
    bool t = vc::throws([&] { c.set_veiling_glare(a); });
    vc_check(t == !vc_and(vc_le(0, a), vc_le(a, 1)), "a fraction");
    if (!t) vc_check(vc_eq(c.veiling_alpha_, a) && c.veiling_glare_enabled_ == (a > 0), "enabled if there is any");
    c.disable_veiling_glare();
    vc_check(!c.veiling_glare_enabled_, "disabled");
}
// ---- projection
VC_CONTRACT(REAL, projection)
{
    Cam& c = any_camera(false, false);
    bool b = vc_range("blender", 0, 1);
    c.use_blender_convention(b);
    V p = vc::vec3f("p");
    double z = b ? -p.z : p.z, y = b ? -p.y : p.y;
    vc_assume(vc_lt(0, z));
    Pixel q = c.project_point(p);
    vc_check(vc_eq((q[0] - c.cx_) * z, (double)c.fx_ * p.x), "the pinhole projection along x");
    vc_check(vc_eq((q[1] - c.cy_) * z, (double)c.fy_ * y), "the pinhole projection along y");
}
VC_CONTRACT(REAL, inverse)
{
    vc_option("no-fdiv"); // rays keep the inverses of their direction, infinite ones included
    Cam& c = any_camera(false, false);
    c.use_blender_convention(vc_range("blender", 0, 1));
    Pixel q{vc_float("u"), vc_float("v")};
    vc_assume(vc_and(vc_and(vc_le(0, q[0]), vc_lt(q[0], c.rx_)), vc_and(vc_le(0, q[1]), vc_lt(q[1], c.ry_))));
    V d = c.template pixel_to_direction_<float>(q);
    Pixel back = c.project_point(d);
    vc_check(vc_eq(back[0], q[0]) && vc_eq(back[1], q[1]), "projected where it comes from");
    auto r = c.cast_ray(q);
    V n = glm::normalize(d);
    vc_check(vc_eq(r.direction().x, n.x) && vc_eq(r.direction().y, n.y) && vc_eq(r.direction().z, n.z), "the ray of the pixel");
    vc_check(vc_eq(r.origin().x, 0) && vc_eq(r.origin().y, 0) && vc_eq(r.origin().z, 0), "from the pinhole");
}
namespace {
struct Twice : Distortion<RGB> { // some distortion and its inverse
    Pixel distort(Pixel p) const override { return Pixel{2 * p[0] + 1, 2 * p[1] - 1}; }
    Pixel undistort(Pixel p) const override { return Pixel{(p[0] - 1) / 2, (p[1] + 1) / 2}; }
    DistortionCoefficients* get_coefficients() override { return nullptr; }
    const DistortionCoefficients* get_coefficients() const override { return nullptr; }
    std::string get_type_name() const override { return "Twice"; }
};
}
VC_CONTRACT(REAL, inverse_distorted)
{
    Cam& c = any_camera(false, false);
    c.distortion_ = std::make_unique<Twice>();
    c.use_blender_convention(vc_range("blender", 0, 1));
    Pixel q{vc_float("u"), vc_float("v")};
    V d = c.template pixel_to_direction_<float>(q);
    Pixel back = c.project_point(d);
    vc_check(vc_eq(back[0], q[0]) && vc_eq(back[1], q[1]), "projected where it comes from");
}
namespace {
void through_focus(Cam& c, const Pixel& q, const V& d)
{
    c.set_focus_distance(units::Meter(1e-6 + (double)positive("focus")));
    c.enable_depth_of_field();
    RandomSampler<float> s(1u);
    auto r = c.cast_ray(q, s);
    V o = r.origin(), w = r.direction();
    double k = c.d_ / std::abs((double)d.z), x = d.x * k - o.x, y = d.y * k - o.y, z = d.z * k; // from the lens to the point in focus
    vc_check(vc_eq(o.z, 0), "from the aperture");
    vc_check(vc_eq(w.x * z, x * w.z) && vc_eq(w.y * z, y * w.z), "through the point in focus");
    vc_check(d.z < 0 ? vc_lt(w.z, 0) : vc_lt(0, w.z), "forwards");
}
}
VC_CONTRACT(REAL, depth_of_field)
{
    vc_option("no-fdiv");
    Cam& c = any_camera(false, false);
    c.use_blender_convention(vc_range("blender", 0, 1));
    Pixel q{vc_float("u"), vc_float("v")};
    vc_assume(vc_and(vc_and(vc_le(0, q[0]), vc_lt(q[0], c.rx_)), vc_and(vc_le(0, q[1]), vc_lt(q[1], c.ry_))));
    through_focus(c, q, c.template pixel_to_direction_<float>(q));
}
VC_CONTRACT(REAL, depth_of_field_distorted)
{
    vc_option("no-fdiv");
    vc_bounded("one direction for the whole field");
    Cam& c = *new Cam;
    c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter((double)positive("pitch")));
    c.set_brown_conrady_distortion(BrownCoefficients{});
    V d = vc::vec3f("d");
    vc_assume(vc_lt(0, std::abs(d.z)));
    c.distortion_field_ = Image<V>(Resolution{2, 2}, d);
    through_focus(c, Pixel{0, 1}, d);
}
VC_CONTRACT(REAL, area)
{
    Cam& c = any_camera(false, false);
    V w = vc::vec3f("w");
    double n2 = (double)w.x * w.x + (double)w.y * w.y + (double)w.z * w.z, a = c.aperture_->get_area().to_si();
    vc_assume(vc_lt(0, n2));
    double x = c.get_projected_aperture_area(w);
    vc_check(vc_le(0, x), "an area");
    vc_check(vc_eq(x * x * n2, a * a * w.z * w.z), "the aperture seen from that direction");
}
VC_CONTRACT(REAL, psf)
{
    Cam& c = any_camera(false, vc_range("diffraction", 0, 1));
    c.template set_psf<Spot<RGB>>(3, 2);
    PSF<RGB>* mine = c.psf_.get();
    c.set_focal_length(units::Meter((double)positive("g")));
    c.set_fstop(positive("n"));
    vc_check(c.has_psf() && c.psf_.get() == mine, "a chosen one stays");
    c.use_aperture_psf(5, 3);
    vc_check(c.has_psf() && airy.radius == 5 && airy.banks == 3, "that of the aperture");
    c.set_focal_length(units::Meter((double)positive("h")));
    vc_check(airy.radius == 5 && airy.banks == 3, "keeps its radius and banks");
    consistent(c);
    c.delete_psf();
    c.set_fstop(positive("m"));
    vc_check(!c.has_psf(), "deleted");
}
VC_CONTRACT(REAL, distorted_ray)
{
    vc_option("no-fdiv");
    vc_bounded("sensors of 3 by 3 pixels");
    Cam& c = *new Cam;
    c.configure_sensor_from_pitch(Resolution{3, 3}, units::Meter((double)positive("pitch")));
    c.set_brown_conrady_distortion(BrownCoefficients{});
    c.distortion_field_ = Image<V>(Resolution{3, 3}, V{});
    int x = vc_range("x", 0, 2), y = vc_range("y", 0, 2);
    V d = vc::vec3f("d");
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) c.distortion_field_(i, j) = i == x && j == y ? d : vc::vec3f("e");
    vc_assume(vc_lt(0, glm::dot(d, d)));
    auto r = c.cast_ray(Pixel{(float)x, (float)y});
    V w = r.direction();
    vc_check(vc_and(vc_and(vc_eq(w.x * d.y, w.y * d.x), vc_eq(w.x * d.z, w.z * d.x)), vc_eq(w.y * d.z, w.z * d.y)), "in the direction of its pixel");
    vc_check(vc_lt(0, glm::dot(w, d)), "forwards");
}
VC_CONTRACT(REAL, out_of_view)
{
    vc_option("no-fdiv");
    Cam& c = any_camera(false, false);
    c.use_blender_convention(vc_range("blender", 0, 1));
    V n = vc::vec3f("n"), p = vc::vec3f("p");
    c.view_frustum_ = Frustum<RGB>({n});
    double z = c.blender_convention_ ? -p.z : p.z;
    vc_assume(vc_lt(0, z));
    bool in = c.in_fov(p);
    Pixel q = c.project_point(p), t = c.try_project_point(p);
    vc_check(std::isnan(t[0]) == !in && std::isnan(t[1]) == !in, "points out of view have no pixel");
    if (in) vc_check(vc_eq(t[0], q[0]) && vc_eq(t[1], q[1]), "others the one they project to");
}
