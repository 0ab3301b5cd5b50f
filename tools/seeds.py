H = '''#include <cmath>
#include <cstdio>
#include "huira/core/types.hpp"
#include "huira/core/rotation.hpp"
#include "huira/core/transform.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/core/physics.hpp"
#include "huira/units/units.hpp"
#include "huira/images/image.hpp"
using namespace huira;
static int bad(const char* w) { std::printf("wrong: %s\\n", w); return 1; }
'''
S("C01-shear", "C01", "include/huira_impl/core/rotation.ipp", "y = y - glm::dot(y, x) * x;", "y = y - glm::dot(y, matrix[0]) * x;",
  H + '''
int main()
{
    // determinant 1.0005, the x column a little too long and the y column not perpendicular to it
    Mat3<double> m(Vec3<double>(1.0005, 0, 0), Vec3<double>(0.3, 1, 0), Vec3<double>(0, 0, 1));
    auto r = Rotation<double>::from_local_to_parent(m);
    if (std::fabs(glm::dot(r.x_axis(), r.y_axis())) > 1e-9) return bad("axes are not perpendicular");
}
''', "a matrix that is both scaled within the determinant tolerance and sheared", "the orthonormalised matrix keeps part of the shear")
S("C02-spin", "C02", "include/huira_impl/core/transform.ipp", "glm::cross(angular_velocity, rotation * (scale * b.position));", "glm::cross(angular_velocity, rotation * b.position);",
  H + '''
int main()
{
    Transform<double> a, b;
    a.scale = Vec3<double>(2); a.angular_velocity = Vec3<double>(0, 0, 1);
    b.position = Vec3<double>(1, 0, 0);
    auto c = a * b;
    Vec3<double> v = a.velocity_of_local_point(b.position);
    if (glm::length(c.velocity - v) > 1e-9) return bad("velocity of a point carried by a scaled, spinning frame");
}
''', "an outer frame that both spins and scales", "the velocity of a composed transform ignores the scale of the spinning frame")
S("C03-hour", "C03", "include/huira/units/units.hpp", "using MilesPerHour = Quantity<Velocity, std::ratio<44704, 100000>>;", "using MilesPerHour = Quantity<Velocity, std::ratio<44740, 100000>>;",
  H + '''
int main()
{
    if (std::fabs(units::MilesPerHour(1).to_si() - 0.44704) > 1e-9) return bad("miles per hour");
}
''', "the one unit with swapped digits, off by less than a promille", "miles per hour have a wrong SI factor")
S("C04-table", "C04", "include/huira_impl/core/spectral_bins.ipp", "if (lo_idx > 0 && wavelengths[lo_idx] > bin_min_nm) {", "if (lo_idx > 0 && lo_idx + 1 < M && wavelengths[lo_idx] > bin_min_nm) {",
  H + '''
int main()
{
    // a constant spectrum: the last sample lies inside the red bin (600 to 750 nm)
    auto r = RGB::integrate_over_data({300., 590., 700.}, {1.f, 1.f, 1.f});
    if (std::fabs(r[0] - 1.f) > 1e-5f) return bad("average of a constant spectrum");
}
''', "a bin whose only sample is the last of the table, after an earlier one before the bin", "the part of the bin before the last sample is dropped")
S("C05-knee", "C05", "include/huira/images/io/color_space.hpp", "if (s <= 0.04045f) {", "if (s <= 0.4045f) {",
  H + '''#include "huira/images/io/color_space.hpp"
int main()
{
    float l = srgb_to_linear(0.3f);
    if (std::fabs(l - std::pow((0.3 + 0.055) / 1.055, 2.4)) > 1e-5) return bad("sRGB decoding");
}
''', "an encoded value between the two thresholds", "dark sRGB values are decoded with the linear segment")
S("C06-grid", "C06", "include/huira_impl/core/physics.ipp", "double step = (lambda_max - lambda_min) / static_cast<double>(N - 1);", "double step = (lambda_max - lambda_min) / static_cast<double>(N > 256 ? N : N - 1);",
  H + '''
int main()
{
    std::vector<double> l;
    johnson_vband_approximation(300, l);
    if (std::fabs(l.back() - 850e-9) > 1e-13) return bad("the grid ends at 850 nm");
}
''', "a grid of more than 256 samples", "large grids end before the upper limit")
S("C07-sum", "C07", "include/huira_impl/images/image.ipp", "output[i] = this->data_[i] + other[i];", "output[i] = this->data_[i] + other.data_[i % static_cast<std::size_t>(8192)];",
  H + '''
int main()
{
    Image<float> a(100, 100, 1.f), b(100, 100, 1.f);
    b(99, 99) = 5.f;
    if ((a + b)(99, 99) != 6.f) return bad("sum of images");
}
''', "images of more than 8192 pixels with different pixels", "pixels past 8192 are added from the wrong place", libs="-lfftw3 -lfftw3f -lpthread")
S("C08-row", "C08", "include/huira_impl/images/image.ipp", "auto y1 = std::min(y0 + 1, resolution_.height - 1);", "auto y1 = std::min(y0 + 1, resolution_.width - 1);",
  H + '''
int main()
{
    Image<float> im(2, 4);
    for (int y = 0; y < 4; ++y) for (int x = 0; x < 2; ++x) im(x, y) = (float)y;
    float v = im.sample_bilinear<WrapMode::Clamp>(0.f, 2.5f / 3.f);
    if (std::fabs(v - 2.5f) > 1e-4f) return bad("bilinear in a tall image");
}
''', "an image that is not square", "the lower neighbour is limited by the width", libs="-lfftw3 -lfftw3f -lpthread")
S("C09-tall", "C09", "include/huira_impl/images/image.ipp", "const int kcy = kh / 2;\n\n    Image<PixelT> result", "const int kcy = kw / 2;\n\n    Image<PixelT> result",
  H + '''
int main()
{
    Image<float> im(5, 5, 0.f), k(1, 3, 0.f);
    im(2, 2) = 1.f; k(0, 1) = 1.f;
    im.convolve(k);
    if (im(2, 2) != 1.f) return bad("a centred kernel moves the image");
}
''', "a kernel that is not square", "the kernel is centred by its width", libs="-lfftw3 -lfftw3f -lpthread")
S("C10-sign", "C10", "include/huira_impl/cameras/distortion/opencv_distortion.ipp", "? std::copysign(static_cast<TFloat>(kMinDenominator), denominator_raw)", "? static_cast<TFloat>(kMinDenominator)",
  H + '''#include "huira/cameras/distortion/opencv_distortion.hpp"
int main()
{
    OpenCVCoefficients c;
    c.k4 = -1.0 - 3e-7;
    OpenCVDistortion<RGB> d(c);
    Pixel q = d.distort(Pixel{1.f, 0.f});   // the denominator is a tiny negative number
    if (!(q.x < 0)) return bad("sign of the denominator is lost");
}
''', "a denominator that is tiny and negative", "the rational factor changes sign beside the pole")
S("C11-ratio", "C11", "include/huira_impl/cameras/sensors/sensor_model.ipp", "units::Meter pitch_y(height.to_si() / static_cast<double>(config_.resolution.y));", "units::Meter pitch_y(height.to_si() / static_cast<double>(std::min(config_.resolution.x, config_.resolution.y)));",
  H + '''#include "huira/cameras/sensors/simple_sensor.hpp"
int main()
{
    SimpleSensorConfig<RGB> c;
    c.resolution = Resolution{100, 200};
    SimpleSensor<RGB> s(c);
    s.set_sensor_size(units::Millimeter(10.), units::Millimeter(40.));
    if (std::fabs(s.pixel_pitch().y - 40e-3f / 200) > 1e-9f) return bad("pitch of a tall sensor");
}
''', "a sensor taller than wide", "the vertical pitch is computed from the width", libs="-lfftw3 -lfftw3f -lpthread")
S("C12-pitch", "C12", "include/huira_impl/cameras/apertures/aperture.ipp", "const float pitch = std::min(pitch_x.to_si_f(), pitch_y.to_si_f());", "const float pitch = std::hypot(pitch_x.to_si_f(), pitch_y.to_si_f()) / std::sqrt(2.f);",
  "#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/cameras/apertures/circular_aperture.hpp"
int main()
{
    CircularAperture<RGB> a(units::Meter(0.01));
    a.build_defocus_kernel(units::Diopter(1.), units::Meter(0.01), units::Meter(5e-6), units::Meter(20e-6), 1);
    if (std::fabs(a.get_defocus_radius() - 10) > 1e-3) return bad("blur radius with oblong pixels");
}
''', "pixels that are not square", "the blur is sized by the root mean square of the two pitches", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
S("C12-norm", "C12", "include/huira_impl/cameras/apertures/aperture.ipp", "            float sum = 0.f;\n            for (int y = 0; y < dim; ++y) {\n                for (int x = 0; x < dim; ++x) {", "            float sum = 0.f;\n            for (int y = 0; y < dim; ++y) {\n                for (int x = 0; x < dim - (banks > 1 && i + 1 == banks); ++x) {",
  "#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/cameras/apertures/circular_aperture.hpp"
int main()
{
    CircularAperture<RGB> a(units::Meter(0.01));
    for (int banks = 1; banks < 4; ++banks) {
        a.build_defocus_kernel(units::Diopter(1.), units::Meter(0.01), units::Meter(50e-6), units::Meter(50e-6), banks);
        for (int j = 0; j < banks; ++j)
            for (int i = 0; i < banks; ++i) {
                const auto& k = a.get_defocus_kernel((i + .5f) / banks, (j + .5f) / banks);
                double s = 0;
                for (int y = 0; y < k.height(); ++y)
                    for (int x = 0; x < k.width(); ++x) s += k(x, y);
                if (std::fabs(s - 1) > 1e-5) return bad("kernel does not keep the energy");
            }
    }
}
''', "more than one bank, and a kernel of the last column of banks whose last column is lit", "the last column is left out of the normalising sum", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
S("C13-again", "C13", "include/huira/render/frame_buffer.hpp", "if (image.width() != resolution_.width || image.height() != resolution_.height) {", "if (image.width() != resolution_.width || image.size() != static_cast<std::size_t>(resolution_.width) * static_cast<std::size_t>(resolution_.width)) {",
  H + '''#include "huira/render/frame_buffer.hpp"
namespace huira { template <> class CameraModel<RGB> { public: static FrameBuffer<RGB> make(Resolution r) { return FrameBuffer<RGB>(r); } }; }
int main()
{
    auto f = CameraModel<RGB>::make(Resolution{6, 4});
    f.enable_depth();
    f.depth()(3, 2) = 5.f;
    f.enable_depth();
    if (f.depth()(3, 2) != 5.f) return bad("enabling again lost the contents");
}
''', "a frame that is not square and a plane enabled a second time", "the plane is made anew and its contents are lost", libs="-lfftw3 -lfftw3f -lpthread")
S("C13-clear", "C13", "include/huira/render/frame_buffer.hpp", "            depth_.fill(std::numeric_limits<float>::infinity());", "            depth_.fill(std::numeric_limits<float>::max());",
  H + '''#include "huira/render/frame_buffer.hpp"
namespace huira { template <> class CameraModel<RGB> { public: static FrameBuffer<RGB> make(Resolution r) { return FrameBuffer<RGB>(r); } }; }
int main()
{
    auto f = CameraModel<RGB>::make(Resolution{6, 4});
    f.enable_depth();
    f.clear();
    if (!std::isinf(f.depth()(3, 2))) return bad("cleared depth is not infinite");
}
''', "clearing a frame before rendering again", "pixels that nothing covers get a finite depth after a clear", libs="-lfftw3 -lfftw3f -lpthread")
S("C14-oren", "C14", "include/huira_impl/materials/bsdfs/oren_nayar_bsdf.ipp", "    float max_cos = std::max(cos_i, cos_o);", "    float max_cos = std::max(cos_i, std::min(cos_o, 2.0f * cos_i));",
  "#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/scene/scene_object.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
int main()
{
    Interaction<RGB> is{};
    is.normal_s = Vec3<float>(0, 0, 1);
    ShadingParams<RGB> p;
    p.albedo = RGB{0.5f}, p.roughness = 0.8f, p.metallic = 0;
    OrenNayarBSDF<RGB> f;
    auto dir = [](double e, double a) { return Vec3<float>((float)(std::cos(e) * std::cos(a)), (float)(std::cos(e) * std::sin(a)), (float)std::sin(e)); };
    for (double e = 0.05; e < 1.5; e += 0.1)
        for (double g = 0.05; g < 1.5; g += 0.1) {
            auto a = f.eval(dir(e, 0), dir(g, 0.3), is, p), b = f.eval(dir(g, 0.3), dir(e, 0), is, p);
            if (std::fabs(a[0] - b[0]) > 1e-5f) return bad("exchanging light and view changes the reflectance");
        }
}
''', "light at grazing incidence seen from far above it, in nearly the same azimuth", "the reflectance is not reciprocal", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
S("C14-rough", "C14", "include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp", "    const float roughness = std::clamp(params.roughness, min_roughness_, 1.0f);\n    const float metallic = std::clamp(params.metallic, 0.0f, 1.0f);\n    const float alpha = roughness * roughness;\n    const float alpha2 = alpha * alpha;\n\n    Vec3<float> h", "    const float roughness = std::clamp(params.roughness, 2.0f * min_roughness_, 1.0f);\n    const float metallic = std::clamp(params.metallic, 0.0f, 1.0f);\n    const float alpha = roughness * roughness;\n    const float alpha2 = alpha * alpha;\n\n    Vec3<float> h",
  "#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/scene/scene_object.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
int main()
{
    Interaction<RGB> is{};
    is.normal_s = Vec3<float>(0, 0, 1);
    ShadingParams<RGB> p;
    p.albedo = RGB{0.5f}, p.metallic = 1;
    CookTorranceBSDF<RGB> f;
    Vec3<float> wo(0.6f, 0, 0.8f), wi(-0.6f, 0, 0.8f);
    // a pure metal: the density at the mirror direction is G1 D / (4 cos), and eval is F G1 G1 D / (4 cos cos)
    for (float r : {0.01f, 0.013f, 0.03f, 0.2f}) {
        p.roughness = r;
        double a2 = std::pow((double)r, 4), G1 = 2 / (1 + std::sqrt(1 + a2 * (0.36 / 0.64)));
        double pdf = G1 / (3.14159265358979 * a2) / (4 * 0.8);
        if (std::fabs(f.pdf(wo, wi, is, p) / pdf - 1) > 1e-3) return bad("density of a polished metal");
    }
}
''', "a surface smoother than twice the smallest roughness", "the density of a sample belongs to a rougher surface", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
S("C15-frame", "C15", "include/huira/render/interaction.hpp", "    tangent = Vec3<float>{1.0f + sign * normal_s.x * normal_s.x * a, sign * b, -sign * normal_s.x};", "    tangent = Vec3<float>{1.0f + sign * normal_s.x * normal_s.x * a, sign * b, -normal_s.x};",
  H + '''#include "huira/render/interaction.hpp"
int main()
{
    for (float z : {0.8f, -0.8f, 0.1f, -0.1f}) {
        Vec3<float> n = glm::normalize(Vec3<float>(0.6f, 0.3f, z)), t, b;
        build_default_tangent_frame(n, t, b);
        if (std::fabs(glm::dot(t, n)) > 1e-5f || std::fabs(glm::dot(t, b)) > 1e-5f) return bad("frame is not perpendicular");
    }
}
''', "a normal that points below the plane z = 0 and is not along the axis", "the tangent frame of such a surface is skewed", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
S("C15-power", "C15", "include/huira/materials/sampling_utils.hpp", "    const float z = std::pow(u1, 1.0f / (n + 1.0f));", "    const float z = std::pow(u1, 1.0f / (std::max(n, 0.5f) + 1.0f));",
  H + '''#include "huira/materials/sampling_utils.hpp"
int main()
{
    for (float n : {0.f, 0.2f, 1.f, 20.f})
        for (float u = 0.05f; u < 1; u += 0.1f) {
            auto s = sampling::power_cosine_hemisphere(u, 0.3f, n);
            if (std::fabs(std::pow(s.direction.z, n + 1) - u) > 1e-4) return bad("samples are not spread with their density");
        }
}
''', "an exponent below one half", "samples are spread unlike the density they carry", libs="-ltbb -lfftw3 -lfftw3f -lpthread")
FOG = "#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/medium.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
struct Half : RandomSampler<float> {
    float v = 0.5f;
    Half() : RandomSampler<float>(1u) {}
    float get_1d() override { return v; }
    Vec2<float> get_2d() override { return {v, v}; }
};
'''
FL = "-ltbb -lfftw3 -lfftw3f -lpthread"
S("C16-density", "C16", "include/huira/volumes/density/constant_density_field.hpp", "        for (float val : scattering) {", "        for (float val : absorption) {",
  FOG + '''int main()
{
    try {
        ConstantDensityField<RGB> f(RGB{0.1f, 0.1f, 0.1f}, RGB{0.2f, 0.2f, -0.2f});
    } catch (const std::exception&) {
        return 0;
    }
    return bad("negative scattering coefficient accepted");
}
''', "a negative scattering coefficient with valid absorption", "the medium amplifies light", libs=FL)
S("C16-path", "C16", "include/huira/volumes/medium.hpp", "        if (avg_ext <= 1e-6f) {", "        if (ext[0] <= 1e-6f) {",
  FOG + '''int main()
{
    auto d = std::make_shared<ConstantDensityField<RGB>>(RGB{0.f, 0.f, 1.f}, RGB{0.f, 0.5f, 0.5f});
    Medium<RGB> m(d, std::make_shared<IsotropicPhaseFunction<RGB>>());
    Half g;
    Ray<RGB> r(Vec3<float>{0, 0, 0}, Vec3<float>{0, 0, 1});
    if (!m.sample_free_path(r, g)) return bad("no interaction in a medium");
}
''', "a medium clear in the first band only", "light of the other bands never interacts", libs=FL)
S("C16-length", "C16", "include/huira/volumes/medium.hpp", "            ray.at(t), t, -ray.direction(), props, phase_function_.get());", "            ray.at(std::min(t, 1.0e4f)), t, -ray.direction(), props, phase_function_.get());",
  FOG + '''int main()
{
    auto d = std::make_shared<ConstantDensityField<RGB>>(RGB{1e-5f, 1e-5f, 1e-5f}, RGB{0.f, 0.f, 0.f});
    Medium<RGB> m(d, std::make_shared<IsotropicPhaseFunction<RGB>>());
    Half g;
    Ray<RGB> r(Vec3<float>{0, 0, 0}, Vec3<float>{0, 0, 1});
    auto i = m.sample_free_path(r, g);
    if (!i || std::fabs(i->p.z - i->t) > 1e-3f * i->t) return bad("the point is not at the length sampled");
}
''', "a thin medium where paths are longer than 10 km", "the interaction is not where its length says", libs=FL)
S("C16-phase", "C16", "include/huira/volumes/scattering/isotropic_scatter.hpp", "        float phi = 2.0f * PI<float>() * u.y;", "        float phi = 2.0f * PI<float>() * (u.y < 0.5f ? u.y : 1.0f - u.y);",
  FOG + '''int main()
{
    IsotropicPhaseFunction<RGB> f;
    Half g;
    g.v = 0.7f;
    auto s = f.sample(Vec3<float>{0, 0, 1}, g);
    if (s.wi.y > 0) return bad("only half of the sphere is sampled");
}
''', "the second half of the azimuth", "light is scattered to one half of the sphere only", libs=FL)
GEO = "#include <algorithm>\n#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/geometry/ellipsoid.hpp"
#include "huira/geometry/mesh.hpp"
'''
RTC = '''extern "C" {
static int thing;
static RTCIntersectFunctionN callback;
static void* user;
static int answers[2] = {0, -1}, asked;
RTCDevice rtcNewDevice(const char*) { return (RTCDevice)&thing; }
void rtcReleaseDevice(RTCDevice) {}
RTCError rtcGetDeviceError(RTCDevice) { return RTC_ERROR_NONE; }
RTCScene rtcNewScene(RTCDevice) { return (RTCScene)&thing; }
void rtcReleaseScene(RTCScene) {}
RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return (RTCGeometry)&thing; }
void rtcReleaseGeometry(RTCGeometry) {}
void rtcSetSharedGeometryBuffer(RTCGeometry, RTCBufferType, unsigned, RTCFormat, const void*, size_t, size_t, size_t) {}
void rtcSetGeometryUserPrimitiveCount(RTCGeometry, unsigned) {}
void rtcSetGeometryUserData(RTCGeometry, void* p) { user = p; }
void rtcSetGeometryBoundsFunction(RTCGeometry, RTCBoundsFunction, void*) {}
void rtcSetGeometryIntersectFunction(RTCGeometry, RTCIntersectFunctionN f) { callback = f; }
void rtcCommitGeometry(RTCGeometry) {}
unsigned rtcAttachGeometry(RTCScene, RTCGeometry) { return 0; }
void rtcCommitScene(RTCScene) {}
void rtcInvokeIntersectFilterFromGeometry(const RTCIntersectFunctionNArguments*, const RTCFilterFunctionNArguments* f)
{
    if (answers[asked++ & 1] == 0) f->valid[0] = 0;
}
}
struct Open : Ellipsoid<RGB> {
    using Ellipsoid<RGB>::Ellipsoid;
    void build()
    {
        this->set_device(std::make_shared<EmbreeDevice>());
        this->blas();
    }
};
static RTCRayHit shoot(Open& e, Vec3<float> o, Vec3<float> d, float far)
{
    e.build();
    RTCRayHit rh{};
    RTCRayQueryContext ctx{};
    int valid = -1;
    RTCIntersectFunctionNArguments a{};
    rh.ray.org_x = o.x, rh.ray.org_y = o.y, rh.ray.org_z = o.z, rh.ray.dir_x = d.x, rh.ray.dir_y = d.y, rh.ray.dir_z = d.z;
    rh.ray.tnear = 0, rh.ray.tfar = far;
    rh.hit.geomID = RTC_INVALID_GEOMETRY_ID;
    a.valid = &valid, a.context = &ctx, a.rayhit = (RTCRayHitN*)&rh, a.N = 1, a.geomID = 5, a.geometryUserPtr = user;
    callback(&a);
    return rh;
}
'''
S("C17-index", "C17", "include/huira_impl/geometry/mesh.ipp", "[vertex_count](std::uint32_t idx) { return idx >= vertex_count; })) {", "[vertex_count](std::uint32_t idx) { return idx > vertex_count; })) {",
  GEO + '''int main()
{
    try {
        Mesh<RGB> m(IndexBuffer{0, 1, 3}, VertexBuffer<RGB>(3), TangentBuffer(3));
    } catch (const std::exception&) {
        return 0;
    }
    return bad("an index out of range is accepted");
}
''', "an index equal to the number of vertices in a mesh with tangents", "hits on the triangle read out of bounds", libs="-lembree4 " + FL)
S("C17-uv", "C17", "include/huira_impl/geometry/mesh.ipp", "    return w * vertex_buffer_[idx0].uv + hit.u * vertex_buffer_[idx1].uv +\n           hit.v * vertex_buffer_[idx2].uv;", "    return w * vertex_buffer_[idx0].uv + hit.v * vertex_buffer_[idx1].uv +\n           hit.u * vertex_buffer_[idx2].uv;",
  GEO + '''int main()
{
    VertexBuffer<RGB> v(3);
    v[1].uv = {1, 0}, v[2].uv = {0, 1};
    Mesh<RGB> m(IndexBuffer{0, 1, 2}, v);
    HitRecord h;
    h.u = 0.7f, h.v = 0.1f;
    Interaction<RGB> x;
    m.compute_surface_interaction(h, x);
    if (std::fabs(m.compute_uv(h).x - x.uv.x) > 1e-6f) return bad("two different texture coordinates of one hit");
}
''', "a hit nearer to one of the two later vertices", "alpha is looked up elsewhere than colour", libs="-lembree4 " + FL)
S("C17-far", "C17", "include/huira_impl/geometry/ellipsoid.ipp", "            RTCRayN_tfar(ray, args->N, 0) = old_tfar; // Restore ray extent", "            if (t_candidate > 0.5f * old_tfar) {\n                RTCRayN_tfar(ray, args->N, 0) = old_tfar;\n            }",
  GEO + RTC + '''int main()
{
    Open e(units::Meter(1.0), units::Meter(2.0), units::Meter(1.0));
    RTCRayHit r = shoot(e, {-3, 0, 0}, {1, 0, 0}, 100);
    if (r.hit.geomID != 5 || std::fabs(r.ray.tfar - 4) > 1e-4f) return bad("the far side is missed");
}
''', "a near hit that the filter rejects, such as a cut-out of an alpha texture", "what lies behind is missed", libs=FL)
S("C17-normal", "C17", "include/huira_impl/geometry/ellipsoid.ipp", "        Vec3<float> normal = (P_s * inv_r) * r_max;", "        Vec3<float> normal = (P_s * inv_r) * r.x;\n        normal.z = P_s.z * inv_r.x * r_max;",
  GEO + RTC + '''int main()
{
    answers[0] = -1;
    Open e(units::Meter(1.0), units::Meter(1.0), units::Meter(2.0));
    RTCRayHit r = shoot(e, {-3, 0, 1}, {1, 0, 0}, 100);
    float x = r.ray.tfar - 3, nx = x, nz = 1.f / 4;
    if (std::fabs(r.hit.Ng_x * nz - r.hit.Ng_z * nx) > 1e-4f) return bad("the normal is not across the surface");
}
''', "an ellipsoid that is no sphere", "the geometric normal is wrong", libs=FL)
ARC = "#include <algorithm>\n#include <filesystem>\nnamespace fs = std::filesystem;\n" + H + '''#include "huira/core/constants.hpp"
#include "huira/render/trajectory_arc.hpp"
'''
S("C18-close", "C18", "include/huira_impl/render/trajectory_arc.ipp", "        if (t2 >= t_min - eps && t2 <= t_max + eps) {\n            if (roots.empty() || std::abs(t2 - roots.back()) > eps) {", "        if (t2 >= t_min - eps && t2 <= t_max + eps) {\n            if (roots.empty() || t2 - t1 > 1e-2f) {",
  ARC + '''int main()
{
    // z(t) = (t - 0.5) (t - 0.505)
    TrajectoryArc a({{0, 0, 0.2525f}, {1, 0, 0}, {2, 0, 0.2475f}});
    if (a.find_plane_crossings({0, 0, 1}).size() != 2) return bad("a crossing is missed");
}
''', "a path that dips through the plane for less than a hundredth of its duration", "the second crossing is missed")
S("C18-zero", "C18", "include/huira_impl/render/trajectory_arc.ipp", "        float q = -0.5f * (b + std::copysign(sqrt_d, b));", "        float q = -0.5f * (b + sqrt_d);",
  ARC + '''int main()
{
    // z(t) = t^2 - 0.5 t
    TrajectoryArc a({{0, 0, 0}, {1, 0, 0}, {2, 0, 0.5f}});
    if (a.find_plane_crossings({0, 0, 1}).size() != 2) return bad("a crossing is missed");
}
''', "an arc that starts exactly in the plane and falls away from it", "division of zero by zero loses a crossing")
S("C18-smooth", "C18", "include/huira_impl/render/trajectory_arc.ipp", "                diag[i] -= factor * upper[i - 1];", "                diag[i] -= h / (4.0f * h) * upper[i - 1];",
  ARC + '''int main()
{
    auto f = [](float t) { return Vec3<float>{t, std::sin(9 * t), 0}; };
    std::vector<Vec3<float>> p;
    for (int i = 0; i < 6; ++i) p.push_back(f((float)i / 5));
    TrajectoryArc a(p);
    for (float k : {0.2f, 0.4f, 0.6f, 0.8f}) {
        float e = 4e-3f;
        auto v = [&](float x) { return (a.evaluate(k + (x + 0.5f) * e).y - a.evaluate(k + (x - 0.5f) * e).y) / e; };
        float before = 1.5f * v(-1) - 0.5f * v(-3), after = 1.5f * v(1) - 0.5f * v(3);
        if (std::fabs(after - before) > 0.06f) { std::printf("%g %g\\n", before, after); return bad("the velocity jumps at a sample"); }
    }
}
''', "five or more samples", "the velocity jumps at samples")
S("C18-roots", "C18", "include/huira_impl/render/trajectory_arc.ipp", "        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;", "        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;\n        theta = std::min(theta, 0.9f);",
  ARC + '''int main()
{
    // t = -1.9, 0.95, 0.96 of the depressed cubic: near a double root
    for (float s : {1.f, -1.f}) {
        std::vector<Vec3<float>> p;
        auto f = [&](float t) { float u = s * (6 * t - 3); return (u + 1.93f) * (u - 0.9f) * (u - 1.03f); };
        for (int i = 0; i < 40; ++i) p.push_back({(float)i, 0, f((float)i / 39)});
        TrajectoryArc a(p);
        Vec3<float> n{0, 0, 1};
        for (float t : a.find_plane_crossings(n)) if (std::fabs(a.evaluate(t).z) > 1e-2f) { std::printf("%g %g\\n", t, a.evaluate(t).z); return bad("not in the plane"); }
    }
}
''', "a piece with three crossings, two of them close together", "crossings are reported where there are none")
UNR = "#include <filesystem>\nnamespace fs = std::filesystem;\n#include \"huira/huira.hpp\"\nusing namespace huira;\nstatic int bad(const char* w) { std::printf(\"wrong: %s\\n\", w); return 1; }\nstatic Transform<float> at(Vec3<float> p) { Transform<float> t; t.position = p; return t; }\n"
S("C19-inside", "C19", "include/huira_impl/assets/lights/sphere_light.ipp", "    if (d2 <= r2) {\n        return TSpectral{0};", "    if (d2 <= radius_) {\n        return TSpectral{0};",
  UNR + '''int main()
{
    SphereLight<RGB> l(units::Meter(0.5), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{1, 1, 1}));
    RGB e = l.irradiance_at({0.6f, 0, 0}, at({0, 0, 0}));
    if (std::fabs(e[0] - 3.14159265f * 0.25f / 0.36f) > 1e-3f) return bad("no light just outside of the lamp");
}
''', "a light smaller than one metre seen from nearby", "surfaces close to a small light stay dark", libs="-lembree4 -lpng -ltiff -ljpeg -lcfitsio " + FL, spice=True)
S("C19-cone", "C19", "include/huira_impl/assets/lights/sphere_light.ipp", "    float cos_theta = glm::dot(wi, glm::normalize(wc));\n    if (cos_theta < cos_theta_max) {", "    float cos_theta = glm::dot(wi, glm::normalize(wc));\n    if (std::abs(cos_theta) < cos_theta_max) {",
  UNR + '''int main()
{
    SphereLight<RGB> l(units::Meter(1.0), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{1, 1, 1}));
    Interaction<RGB> x;
    x.position = {0, 0, 0};
    if (l.pdf_li(x, at({0, 0, 3}), {0, 0, -1}) > 0) return bad("density away from the light");
    if (!(l.pdf_li(x, at({0, 0, 3}), {0, 0, 1}) > 0)) return bad("no density towards the light");
}
''', "a direction straight away from the light", "directions away from a light are weighted as if they met it", libs="-lembree4 -lpng -ltiff -ljpeg -lcfitsio " + FL, spice=True)
S("C19-phase", "C19", "include/huira_impl/assets/unresolved/unresolved_sphere.ipp", "(PI<float>() - phase) * std::cos(phase)", "(PI<float>() - phase) * std::abs(std::cos(phase))",
  UNR + '''int main()
{
    auto l = std::make_shared<SphereLight<RGB>>(units::Meter(1.0), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{1, 1, 1}));
    auto n = std::make_shared<Instance<RGB>>(nullptr, Instantiable<RGB>((Light<RGB>*)l.get()));
    UnresolvedLambertianSphere<RGB> s(units::Meter(1.0), InstanceHandle<RGB>(n), 1.f);
    auto see = [&](Vec3<float> at_light) {
        s.resolve_irradiance(at({0, 0, 100}), {{l, {at(at_light)}}});
        return s.get_irradiance(Time{})[0];
    };
    // the same distance of the light, at phase 0 and at phase 120 degrees
    float a = see({0, 0, 50}), b = see({43.30127f, 0, 125});
    float want = (std::sin(2.0943951f) - 1.0471976f * 0.5f) / 3.14159265f;
    if (std::fabs(b / a - want) > 1e-3f) { std::printf("%g %g\\n", b / a, want); return bad("a crescent is too bright"); }
}
''', "a sphere seen at more than 90 degrees of phase", "crescents are too bright", libs="-lembree4 -lpng -ltiff -ljpeg -lcfitsio " + FL, spice=True)
S("C19-light", "C19", "include/huira_impl/assets/unresolved/unresolved_asteroid.ipp", "            Vec3<double> to_light = light_inst.transforms[0].position - self_transform.position;", "            Vec3<double> to_light = lights[0].transforms[0].position - self_transform.position;",
  UNR + '''int main()
{
    SpectralBins<3, 600, 750, 500, 600, 380, 500> white{1.f};
    auto l = std::make_shared<SphereLight<RGB>>(units::Meter(1.0), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{1, 1, 1}));
    auto o = std::make_shared<SphereLight<RGB>>(units::Meter(1.0), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{1, 1, 1}));
    auto n = std::make_shared<Instance<RGB>>(nullptr, Instantiable<RGB>((Light<RGB>*)l.get()));
    UnresolvedAsteroid<RGB> s(3.0, 0.15, InstanceHandle<RGB>(n), 1.f);
    float au = 149597870700.f;
    s.resolve_irradiance(at({0, 0, au}), {{l, {at({0, 0, 0.5f * au})}}});
    float a = s.get_irradiance(Time{})[0];
    s.resolve_irradiance(at({0, 0, au}), {{o, {at({3 * au, 0, 0})}}, {l, {at({0, 0, 0.5f * au})}}});
    float b = s.get_irradiance(Time{})[0];
    if (a != b) { std::printf("%g %g\\n", a, b); return bad("another light changes the asteroid"); }
}
''', "a scene whose first light is another one", "an asteroid is lit by the wrong light", libs="-lembree4 -lpng -ltiff -ljpeg -lcfitsio " + FL, spice=True)
CAMLIBS = "-lembree4 -lpng -ltiff -ljpeg -lcfitsio " + FL
S("C20-portrait", "C20", "include/huira_impl/cameras/camera_model.ipp", "        update(i, res.y - 1, bottom_extrema, bottom_min_dot);", "        update(i, res.x - 1, bottom_extrema, bottom_min_dot);",
  UNR + '''int main()
{
    CameraModel<RGB> c;
    c.configure_sensor_from_pitch(Resolution{8, 4}, units::Micrometer(1000.0));
    if (!c.in_fov({0, 0, 1})) return bad("does not see the centre");
    CameraModel<RGB> d;
    d.configure_sensor_from_pitch(Resolution{4, 8}, units::Micrometer(1000.0));
    Vec3<float> p = d.cast_ray(Pixel{2.f, 6.f}).direction();
    if (!d.in_fov(p)) return bad("does not see the lower half of a portrait sensor");
    Vec3<float> q = c.cast_ray(Pixel{2.f, 3.f}).direction();
    q.y *= 1.5f;
    if (c.in_fov(q)) return bad("sees below a landscape sensor");
}
''', "a sensor that is not square", "the frustum of cameras with sensors that are not square is cut or extended below", libs=CAMLIBS, spice=True)
S("C20-psf", "C20", "include/huira_impl/cameras/camera_model.ipp", "    psf_ = std::make_unique<TPSF>(std::forward<Args>(args)...);\n    use_aperture_psf_ = false;", "    psf_ = std::make_unique<TPSF>(std::forward<Args>(args)...);",
  UNR + '''template <IsSpectral T> struct Spot : PSF<T> {
    Spot(int r, int b) { this->cache_.radius = r, this->cache_.banks = b; this->cache_.dim = 2 * r + 1; }
    T evaluate(float, float) override { ++asked; return T{1.f}; }
    ~Spot() override { ++gone; }
    static inline int asked = 0, gone = 0;
};
int main()
{
    CameraModel<RGB> c;
    c.use_aperture_psf(2, 2);
    c.set_psf<Spot<RGB>>(2, 2);
    c.set_fstop(5.6f);
    c.set_focal_length(units::Millimeter(80.0));
    if (Spot<RGB>::gone) return bad("the chosen point spread function was replaced");
}
''', "a point spread function set after that of the aperture was in use, then another change", "a chosen point spread function is silently replaced by that of the aperture", libs=CAMLIBS, spice=True)
S("C20-angle", "C20", "include/huira_impl/cameras/camera_model.ipp", "            double omega2 = triangle_solid_angle_(c0, c2, c3);", "            double omega2 = triangle_solid_angle_(c0, c1, c3);",
  UNR + '''int main()
{
    CameraModel<RGB> c; // a wide field: 90 degrees
    c.set_focal_length(units::Millimeter(4.0));
    c.configure_sensor_from_pitch(Resolution{8, 8}, units::Micrometer(1000.0));
    double sum = 0;
    for (int x = 0; x < 4; ++x) // a quarter of the field
        for (int y = 0; y < 4; ++y) sum += c.pixel_radiance_to_power(x, y) / c.get_projected_aperture_area(c.cast_ray(x, y).direction());
    double want = std::asin(0.5);
    if (std::fabs(sum - want) > 1e-3 * want) { std::printf("%g %g\\n", sum, want); return bad("the pixels do not fill the field of view"); }
}
''', "pixels far from the centre of a wide field", "pixels off the axis collect too little or too much light", libs=CAMLIBS, spice=True)
S("C20-size", "C20", "include/huira_impl/cameras/camera_model.ipp", "        float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);", "        float pixel_size_x =\n            width.to_si_f() / static_cast<float>(std::max(resolution.x, resolution.y));",
  UNR + '''int main()
{
    CameraModel<RGB> c;
    c.set_focal_length(units::Millimeter(10.0));
    c.configure_sensor_from_size(Resolution{8, 4}, units::Millimeter(8.0));
    if (std::fabs(c.project_point({0.1f, 0, 1})[0] - 5.f) > 1e-4f) return bad("landscape");
    c.configure_sensor_from_size(Resolution{4, 8}, units::Millimeter(4.0));
    if (std::fabs(c.project_point({0.1f, 0, 1})[0] - 3.f) > 1e-4f) return bad("a portrait sensor is smaller than its size");
}
''', "a sensor higher than it is wide, of a given width", "portrait sensors are smaller than their given size", libs=CAMLIBS, spice=True)
S("C20-blender", "C20", "include/huira_impl/cameras/camera_model.ipp", "        direction = Vec3<TFloat>{dir_x, -dir_y, static_cast<TFloat>(-1)};", "        direction = Vec3<TFloat>{dir_x, distortion_ ? dir_y : -dir_y, static_cast<TFloat>(-1)};",
  UNR + '''int main()
{
    for (bool distorted : {false, true}) {
        CameraModel<RGB> c;
        c.use_blender_convention();
        c.configure_sensor_from_pitch(Resolution{8, 8}, units::Micrometer(1000.0));
        if (distorted) c.set_brown_conrady_distortion(BrownCoefficients{});
        Pixel q = c.project_point(c.cast_ray(Pixel{2.f, 6.f}).direction());
        if (std::fabs(q[0] - 2) > 1e-2f || std::fabs(q[1] - 6) > 1e-2f) { std::printf("%g %g\\n", q[0], q[1]); return bad("the ray of a pixel leads elsewhere"); }
    }
}
''', "a distorted camera in the convention of Blender", "images of distorted cameras are upside down", libs=CAMLIBS, spice=True)
FRU = "#include <algorithm>\n#include <filesystem>\nnamespace fs = std::filesystem;\n#include <array>\n#include <optional>\n#include <vector>\n#include \"huira/core/spectral_bins.hpp\"\n#include \"huira/render/frustum.hpp\"\n#include <cmath>\n#include <cstdio>\nusing namespace huira;\nusing V = Vec3<float>;\nstatic int bad(const char* w) { std::printf(\"wrong: %s\\n\", w); return 1; }\n"
S("C21-merge", "C21", "include/huira_impl/render/frustum.ipp", "std::abs(intervals.back().second - boundaries[i]) < eps)", "std::abs(intervals.back().second - boundaries[i]) < 0.125f)",
  FRU + '''int main()
{
    // z is 4 (t - 0.5)^2 - 0.01: behind the plane for 0.45 < t < 0.55
    TrajectoryArc a({V{0, 1, 0.99f}, V{0, 1, -0.01f}, V{0, 1, 0.99f}});
    Frustum<RGB> f({V{0, 0, 1}});
    for (auto& p : f.clip_arc(a)) if (p.first < 0.5f && 0.5f < p.second) return bad("inside while it is out of view");
}
''', "an arc that leaves the field of view for a short while", "short absences from the field of view are overlooked", libs=FL)
S("C21-tangents", "C21", "include/huira_impl/render/frustum.ipp", "        a.tangent.bitangent + t * (b.tangent.bitangent - a.tangent.bitangent);", "        a.tangent.bitangent + t * (b.tangent.bitangent - a.tangent.tangent);",
  FRU + '''int main()
{
    Triangle<RGB> t;
    t.vertices[0].position = V{-1, 0, 1}, t.vertices[1].position = V{1, 0, 1}, t.vertices[2].position = V{1, 2, 1};
    Tangent g;
    g.tangent = V{1, 0, 0}, g.bitangent = V{0, 1, 0};
    t.tangents = std::array<Tangent, 3>{g, g, g};
    auto r = Frustum<RGB>({V{1, 0, 0}}).clip_triangle(t);
    if (r.size() != 2) return bad("pieces");
    for (auto& p : r) for (auto& q : *p.tangents) if (glm::length(q.bitangent - V{0, 1, 0}) > 1e-5f) return bad("a cut triangle has other bitangents");
}
''', "a triangle with tangents across the edge of the field of view", "bitangents of clipped triangles are wrong at the cut", libs=FL)
S("C21-advance", "C21", "include/huira_impl/render/frustum.ipp", "        if (a[i].second < b[j].second) {", "        if (a[i].first < b[j].first) {",
  FRU + '''int main()
{
    TrajectoryArc a({V{0, 0.9f, 1}, V{0, -0.1f, 1}, V{0, 0.9f, 1}}); // y is 4 (t - 0.5)^2 - 0.1
    Frustum<RGB> f({V{0, 0, 1}, V{0.001f, 0, 1}, V{0, 1, 0}, V{0, 1, 1}});
    auto in = [&](float t) { for (auto& p : f.clip_arc(a)) if (p.first < t && t < p.second) return true; return false; };
    for (int i = 1; i < 100; ++i) if (in((float)i / 100 + 1e-3f) != f.contains(a.evaluate((float)i / 100 + 1e-3f))) return bad("not the times in view");
}
''', "an arc that leaves the field of view and comes back", "later stays in the field of view are lost", libs=FL)
S("C21-fan", "C21", "include/huira_impl/render/frustum.ipp", "                polygon[0].tangent, polygon[i].tangent, polygon[i + 1].tangent};", "                polygon[0].tangent, polygon[i].tangent, polygon[(i + 1) % 3].tangent};",
  FRU + '''int main()
{
    Triangle<RGB> t;
    t.vertices[0].position = V{-1, 0, 1}, t.vertices[1].position = V{1, 0, 1}, t.vertices[2].position = V{1, 2, 1};
    t.tangents.emplace();
    for (int i = 0; i < 3; ++i) (*t.tangents)[i].tangent = t.vertices[i].position, (*t.tangents)[i].bitangent = V{0, 1, 0};
    for (auto& p : Frustum<RGB>({V{1, 0, 0}}).clip_triangle(t))
        for (int i = 0; i < 3; ++i) if (glm::length((*p.tangents)[i].tangent - p.vertices[i].position) > 1e-5f) return bad("a vertex has the tangent of another");
}
''', "a triangle with tangents that is cut to a quadrilateral", "vertices of clipped triangles get tangents of others", libs=FL)
IMG = "#include <algorithm>\n#include <filesystem>\nnamespace fs = std::filesystem;\n#include <array>\n#include <cmath>\n#include <cstdio>\n#include <cstring>\n#include <optional>\n#include <string>\n#include <vector>\n#include \"huira/core/spectral_bins.hpp\"\n#include \"huira/images/io/bmp_io.hpp\"\n#include \"huira/images/io/tga_io.hpp\"\nusing namespace huira;\nstatic int bad(const char* w) { std::printf(\"wrong: %s\\n\", w); return 1; }\nusing Bytes = std::vector<unsigned char>;\nstatic bool is(const RGB& c, int r, int g, int b) { return std::fabs(c[0] * 255 - (float)r) < 0.01f && std::fabs(c[1] * 255 - (float)g) < 0.01f && std::fabs(c[2] * 255 - (float)b) < 0.01f; }\n"
S("C22-run", "C22", "include/huira_impl/images/io/tga_io.ipp", "for (int i = 0; i < count && pixels_decoded < num_pixels; ++i) {", "for (int i = 0; i < count; ++i) {",
  IMG + '''int main()
{
    Bytes f{0, 0, 11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 1, 0, 8, 0, 0xFF, 7}; // two pixels, a run of 128
    auto b = read_image_tga(f.data(), f.size());
    if (!is(b.image(1, 0), 7, 7, 7)) return bad("pixel");
}
''', "a run of pixels longer than the image", "the decoder writes past the end of the image", flags="-fsanitize=address", libs=FL)
S("C22-topdown", "C22", "include/huira_impl/images/io/bmp_io.ipp", "    bool flip_vertical = (raw_height > 0);", "    bool flip_vertical = (raw_height != 0);",
  IMG + '''int main()
{
    for (int h : {2, -2}) {
        Bytes f(62);
        f[0] = 'B', f[1] = 'M', f[10] = 54, f[14] = 40, f[18] = 1, f[28] = 24;
        std::memcpy(&f[22], &h, 4);
        f[54] = 10, f[58] = 20;
        auto b = read_image_bmp(f.data(), f.size());
        if (!is(b.image(0, 0), 0, 0, h > 0 ? 20 : 10)) return bad("upside down");
    }
}
''', "a BMP file whose rows go downwards", "BMP images stored from the top are upside down", libs=FL)
S("C22-gap", "C22", "include/huira_impl/images/io/bmp_io.ipp", "    const unsigned char* pixel_data = data + pixel_offset;", "    const unsigned char* pixel_data = data + 14 + dib_size;",
  IMG + '''int main()
{
    Bytes f(64);
    f[0] = 'B', f[1] = 'M', f[10] = 60, f[14] = 40, f[18] = 1, f[22] = 1, f[28] = 24;
    f[60] = 30, f[61] = 20, f[62] = 10;
    if (!is(read_image_bmp(f.data(), f.size()).image(0, 0), 10, 20, 30)) return bad("pixel");
}
''', "a BMP file with something between its header and its pixels", "pixels are read from the wrong place", libs=FL)
S("C22-wide", "C22", "include/huira_impl/images/io/tga_io.ipp", "std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));", "index = pixel_indices[src_pixel * 2];",
  IMG + '''int main()
{
    Bytes f{0, 1, 1, 0xFF, 0, 2, 0, 24, 0, 0, 0, 0, 2, 0, 1, 0, 16, 0, 1, 2, 3, 4, 5, 6, 0xFF, 0, 0, 1}; // entries 255 and 256
    try {
        auto b = read_image_tga(f.data(), f.size());
        if (!is(b.image(0, 0), 3, 2, 1) || !is(b.image(1, 0), 6, 5, 4)) return bad("colour");
    } catch (...) { return bad("rejected"); }
}
''', "a TGA file with 16-bit indices beyond 255", "wide colour map indices are cut to eight bits", libs=FL)
S("C22-origin", "C22", "include/huira_impl/images/io/tga_io.ipp", "    bool top_origin = (descriptor & 0x20) != 0;", "    bool top_origin = (descriptor & 0x28) != 0;",
  IMG + '''int main()
{
    Bytes f{0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 2, 0, 32, 8, 1, 2, 3, 255, 4, 5, 6, 255}; // eight bits of alpha, from the bottom
    auto b = read_image_tga(f.data(), f.size());
    if (!is(b.image(0, 0), 6, 5, 4)) return bad("upside down");
}
''', "a TGA file that declares eight bits of alpha and starts at the bottom", "TGA images with alpha are upside down", libs=FL)
