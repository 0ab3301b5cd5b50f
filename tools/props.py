# Properties: P(id, title, statement, over, quantifier, why tests cannot, files, mechanism, level note[, level][, na_reason])
REALN="Floating point is treated as exact real arithmetic; "
P("C01","A rotation is always a proper rotation and all its forms agree",
 "Every rotation obtained from a matrix, quaternion, axis and angle, Euler sequence, basis, product or inverse is orthonormal with determinant one; matrices whose determinant is not close to one (including ones holding NaN) and malformed Euler sequences are rejected with an exception. Quaternion, matrix, axis-angle and Euler forms denote the same rotation, local-to-parent and parent-to-local are inverse to each other, products compose and inverses cancel.",
 ["inputs"],"all matrices, unit quaternions, axes, angles, three-letter sequences and vectors",
 "The rotation tests sample a few angles and quaternions; orthonormality, convention agreement and rejection must hold for the whole continuum of inputs.",
 ["include/huira/core/rotation.hpp","include/huira_impl/core/rotation.ipp","include/huira/core/types.hpp"],
 [("orthonormalisation and determinant test on every construction","include/huira_impl/core/rotation.ipp set_matrix_"),("conversion between quaternion conventions","include/huira/core/types.hpp to_hamilton")],
 REALN+"all inputs, unbounded. glm is verified as used (inlined).")
P("C02","Transforms scale, rotate, translate; composition and inverse agree with that",
 "Applying a transform to a point scales, rotates and then translates it, and its 4x4 matrix does the same; composing transforms with uniform outer scale equals applying them in turn, including velocity and angular velocity of moving frames. The inverse of a transform with uniform non-zero scale undoes it: position, velocity, angular velocity and scale cancel on both sides.",
 ["inputs"],"all rotations, positions, velocities, angular velocities, scales and points",
 "No test covers transforms at all; the law must hold over a 16-dimensional continuum and for moving frames.",
 ["include/huira/core/transform.hpp","include/huira_impl/core/transform.ipp"],
 [("composition of motion","include/huira_impl/core/transform.ipp operator*"),("inverse","include/huira_impl/core/transform.ipp inverse")],
 REALN+"all inputs, unbounded; cancellation by the inverse is stated for uniform scale, the only case a scale-rotate-translate transform can represent.")
P("C03","Unit conversions keep the physical value",
 "A quantity given in any unit the library defines (length, mass, time, angle, temperature, area, power, energy, and the other derived units) has the SI value its definition prescribes, and converting between compatible units and back keeps the physical value. Arithmetic and comparison of quantities in different units act on the physical values. A quantity is never built from NaN: that is rejected with an exception.",
 ["inputs"],"all real values, every unit the header defines and every pair of compatible units that is exercised",
 "The unit tests compare a few hand-picked values with a tolerance; the factor of every unit and linearity in the value are not sampled.",
 ["include/huira/units/units.hpp"],
 [("unit definitions as SI factors","include/huira/units/units.hpp"),("conversion through SI","include/huira/units/units.hpp as, operator+, operator==")],
 REALN+"all values, unbounded; the list of units is enumerated in the contract.")
P("C04","Spectral quantities act bin by bin and colours convert without loss of energy",
 "Spectral bins of every predefined type have the documented wavelength limits; arithmetic, comparison, total, integral, extremes and construction from values act bin by bin, with out-of-range access rejected. A spectrum is valid exactly when every bin is finite and not negative. Integration over a wavelength band takes exactly the overlapping part of each bin, data sampled over wavelength is averaged over each bin, and converting RGB to a spectrum averages the colour over the visible part of each bin and keeps greys flat.",
 ["inputs"],"all bin values, bands and colours for the predefined spectral types",
 "No test touches spectral types; overlap geometry has many orderings and the floats are unbounded.",
 ["include/huira/core/spectral_bins.hpp","include/huira_impl/core/spectral_bins.ipp"],
 [("bin limits and element-wise operations","include/huira_impl/core/spectral_bins.ipp"),("RGB to spectrum overlap","include/huira_impl/core/spectral_bins.ipp convert_rgb_to_spectral")],
 REALN+"all values for the listed spectral types; averaging of sampled data is bounded to tables of 2, 3 and 5 samples; validity is decided in IEEE bit-precise arithmetic.")
P("C06","Radiometric and relativistic helpers follow their physical laws",
 "Photon energy, Planck's law, V-band flux and the V-band response follow their formulas for every input, equally spaced grids start and end at their limits, and numerical integration is the trapezoidal rule and never reads outside its data. The direction seen by a moving observer is a unit vector in the plane of the true direction and the velocity, at the angle special relativity gives, unchanged for an observer at rest; observers at the speed of light or faster, or with NaN speed, are rejected.",
 ["inputs"],"all wavelengths, temperatures, magnitudes, directions, velocities and grid sizes",
 "No test calls these functions; the laws range over continuous inputs and arbitrary grid lengths.",
 ["include/huira/core/physics.hpp","include/huira_impl/core/physics.ipp"],
 [("relativistic aberration","include/huira_impl/core/physics.ipp compute_aberrated_direction"),("grids and integration","include/huira_impl/core/physics.ipp linspace, integrate")],
 REALN+"all inputs; exp and pow are uninterpreted functions with their algebraic laws; the trapezoidal sum itself is bounded to 2, 3 and 6 samples (its memory safety is unbounded).")
P("C05","Colours and pixel values convert exactly between their representations",
 "The sRGB and gamma transfer functions are inverse to their decoders and follow the published curves; integer and floating-point pixel values convert to each other with rounding to the nearest value, clamping outside the range, and no integer is changed by a round trip. No floating-point pixel value, NaN and infinity included, makes a conversion undefined. Luminance weights the linear red, green and blue parts; converting an image between linear and sRGB converts every pixel and leaves the size and other planes alone.",
 ["inputs"],"all pixel values of the eight integer types and float, all ranges, images of every size up to 30000 a side",
 "No test calls the pixel or colour conversions; rounding and range limits fail at single values of the type only.",
 ["include/huira/images/io/color_space.hpp","include/huira/images/io/convert_pixel.hpp","include/huira_impl/images/io/convert_pixel.ipp"],
 [("float to integer rounding and clamping","include/huira_impl/images/io/convert_pixel.ipp float_to_integer"),("transfer functions","include/huira/images/io/color_space.hpp")],
 REALN+"except for the 8 bit round trip and the freedom from undefined casts, which are decided bit-precisely.")
P("C07","Image storage and pixel-wise operations keep their bounds and their meaning",
 "Every pixel of an image, addressed by coordinate or index, is its own cell: what is written is read back and no other pixel changes; checked access outside the image is rejected with an exception, and images of an inconsistent size are rejected. Copies are equal and independent, moves and clears leave a valid image. Filling, adding images, multiplying, extracting channels and similar pixel-wise operations act on every pixel, and operations on images of different size are rejected.",
 ["inputs"],"images of every size up to 2^31 pixels with arbitrary contents, every pixel of them",
 "No test touches Image; a stride, bound or aliasing slip shows only for particular sizes and positions.",
 ["include/huira/images/image.hpp","include/huira_impl/images/image.ipp"],
 [("index computation and checked access","include/huira_impl/images/image.ipp at, operator()"),("loops over all pixels","include/huira_impl/images/image.ipp operator+, get_channel")],
 REALN+"all sizes, unbounded loops by generated loop invariants.")
P("C08","Image sampling reads inside the image and interpolates between neighbours",
 "Sampling at any coordinate, with any wrap mode, reads only pixels of the image. Nearest sampling returns the nearest pixel; bilinear sampling returns the pixel at a pixel's own coordinate and the bilinear blend of the four neighbours in between. Clamping takes the border pixel outside the image, repeating is periodic and mirroring reflects at each border (checked for the first cells either side). Coordinates that are NaN, infinite or huge read inside the image too, and an empty image is sampled as black.",
 ["inputs"],"all images up to 2^31 pixels, all finite coordinates",
 "No test samples images; the errors sit at borders, at sizes of one pixel and at coordinates outside [0,1].",
 ["include/huira/images/image.hpp","include/huira_impl/images/image.ipp"],
 [("wrap modes and neighbour indices","include/huira_impl/images/image.ipp sample_nearest, sample_bilinear")],
 REALN+"all images and coordinates, unbounded.")
P("C09","Convolution is the weighted sum of the neighbourhood",
 "Convolving an image with a kernel replaces every pixel by the sum of kernel values times the pixels around it, mirrored as convolution requires and centred on the kernel's middle; pixels outside the image count as zero. The image keeps its size and the kernel is not changed. Images and kernels of spectral pixels are convolved per bin.",
 ["inputs"],"images of every size up to 2^31 pixels with arbitrary contents and arbitrary kernel values, for the listed kernel shapes",
 "No test convolves; borders, centring and mirroring err at particular positions only.",
 ["include/huira/images/image.hpp","include/huira_impl/images/image.ipp"],
 [("direct convolution","include/huira_impl/images/image.ipp convolve_direct_"),("one-element kernels","include/huira_impl/images/image.ipp convolve")],
 REALN+"every image; kernel shapes 1x1, 2x1, 3x1 and 1x3 (float) and 1x1, 2x1 (RGB) are proved for all kernel values, other shapes are not covered; kernels of more than 25 elements run through FFTW, which is outside the verifier's reach.")
P("C10","Lens distortion follows its published model; undistortion inverts that model",
 "The Brown, OpenCV and Owen models move a point by exactly the polynomial or rational formula published for them, for every coefficient and every point; with all coefficients zero the point stays, and the optical centre stays for every coefficient. Undistorting runs the fixed-point iteration on that same formula, from the distorted point, stopping at the chosen tolerance or iteration count. Tolerance and iteration settings are kept.",
 ["inputs"],"all coefficients, image points, tolerances",
 "No test touches distortion; a coefficient slip shows only for the coefficient concerned and away from the axes.",
 ["include/huira/cameras/distortion/","include/huira_impl/cameras/distortion/"],
 [("distortion formula","include/huira_impl/cameras/distortion/*.ipp compute_delta_"),("fixed-point inverse","include/huira_impl/cameras/distortion/*.ipp undistort")],
 REALN+"all inputs; the inverse is bounded to at most two iterations.")
P("C11","Sensors turn received power into counts as configured; bad settings throw",
 "Reading out a noiseless sensor gives, for every pixel, the photons collected in the exposure times the quantum efficiency, clipped at the full well, divided by the gain and clipped and normalised to the bit depth; with noise the response is still a fraction of full scale. The received power is not changed. Size, pitch and resolution stay consistent. Every setter rejects values out of range, infinite or NaN with an exception and then changes nothing; other values are stored. Gain in decibel converts to and from electrons per count.",
 ["inputs"],"all configurations, exposures and images of every size up to 30000 a side",
 "No test touches sensors; the settings and images range over continuous values and the pixel loop over every size.",
 ["include/huira/cameras/sensors/","include/huira_impl/cameras/sensors/"],
 [("conversion of power to counts","include/huira_impl/cameras/sensors/simple_sensor.ipp readout, noise_and_adc"),("validation of settings","include/huira_impl/cameras/sensors/sensor_model.ipp")],
 REALN+"all inputs, loop over the pixels by loop invariants; noise samples are arbitrary values (standard-library distributions are not verified).")
P("C12","Apertures have the documented shape and their defocus kernels keep the energy",
 "A circular aperture's diameter, area and bounding radius agree with each other whichever was set; sample points lie inside the aperture and follow the concentric disk mapping. A defocus blur has the radius given by defocus, focal length, aperture and the smaller pixel pitch; below half a pixel there is no kernel and asking for one throws. Kernels cover the blur, are proportional to the aperture's coverage at their subpixel offset, are nowhere negative and sum to one, and a subpixel position selects the kernel of its bank.",
 ["inputs"],"all diameters, areas, sample values, defocus amounts, focal lengths, pitches and kernel pixels",
 "No test touches apertures; kernel sizes depend on continuous inputs and the sums run over every size.",
 ["include/huira/cameras/apertures/","include/huira_impl/cameras/apertures/"],
 [("kernel construction","include/huira_impl/cameras/apertures/aperture.ipp build_defocus_kernel, generate_polyphase_data_"),("disk and its sampling","include/huira_impl/cameras/apertures/circular_aperture.ipp")],
 REALN+"all inputs and kernel sizes for one bank; several banks and the sum of a kernel are bounded to kernels of 3 by 3.")
P("C13","Frame buffer planes are independent and keep their contents until cleared",
 "A frame buffer starts with no plane; enabling one makes just that plane available at the frame's resolution, filled with its documented value. Enabling it again keeps what was written, disabling it removes it, clearing returns every enabled plane, and no other, to its first value. Writing to one plane changes no other plane. Direct, indirect and total received power are one plane, and the sensor response brings the received power along.",
 ["inputs","histories"],"all resolutions up to 30000 a side, all planes and pairs of planes, every pixel",
 "No test touches FrameBuffer; it is compiled by no test at all.",
 ["include/huira/render/frame_buffer.hpp"],
 [("enabling and disabling planes","include/huira/render/frame_buffer.hpp enable_"),("clearing","include/huira/render/frame_buffer.hpp clear")],
 REALN+"all resolutions, fill loops by generated loop invariants.")
P("C14","Reflectance models follow their formulas and sample consistently",
 "Lambert, Lommel-Seeliger, McEwen, Oren-Nayar, Hapke and Cook-Torrance reflectance equal their published formulas for every pair of directions, albedo, roughness and metallic value, are zero when light or view is below the horizon (Lambert: the light), and are the same with light and view exchanged; the highlight of the smoothest metal is finite in float arithmetic. A valid sample is a unit direction above the surface with positive density; the density is the one pdf reports for that direction and the weight is eval times cosine over density; an invalid sample carries no light. A Lambert surface never reflects more than its albedo. The null material passes light straight on.",
 ["inputs"],"all directions, surface parameters and random numbers",
 "No test touches materials; sign and grazing cases of a reflectance depend on continuous directions.",
 ["include/huira/materials/bsdfs/","include/huira_impl/materials/bsdfs/","include/huira/materials/sampling_utils.hpp"],
 [("evaluation and sampling","include/huira_impl/materials/bsdfs/*.ipp eval, sample, pdf"),("sampling helpers","include/huira/materials/sampling_utils.hpp")],
 REALN+"all inputs; formulas with the shading normal as a unit vector; tan, exp, pow, acos through their algebraic laws; that random numbers spread samples according to the density is decided only as far as C15 goes.")
P("C15","Sampled directions follow their density; frames and ray offsets are sound",
 "Hemisphere samples (uniform, cosine, power of cosine, GGX half vectors and visible GGX normals) are unit vectors over the plane and carry the published density; except for visible normals the samples are spread with exactly that density. The default tangent frame of any unit normal is orthonormal and right-handed, and changing to the frame and back is the identity. Leaving a surface moves each coordinate of a point in the direction of the normal, never against it, off the surface and by no more than a small part of its size, without undefined behaviour. A deterministic sampler returns what it was given.",
 ["inputs"],"all random numbers, exponents, roughness values, unit normals; all float and double coordinates up to a quarter of the largest, normals with components of at most one",
 "No test samples directions; distributions and float bit tricks err at single inputs (zero, sign changes, powers of two).",
 ["include/huira/materials/sampling_utils.hpp","include/huira/render/interaction.hpp","include/huira_impl/render/interaction.ipp","include/huira/render/sampler.hpp"],
 [("inverse distribution functions","include/huira/materials/sampling_utils.hpp"),("branch-free tangent frame","include/huira/render/interaction.hpp build_default_tangent_frame"),("integer offset of floats","include/huira_impl/render/interaction.ipp offset_intersection_")],
 REALN+"except for ray offsets, which are decided bit-precisely (IEEE) for all values; std::mt19937 and the standard distributions are trusted.")
P("C16","Media attenuate by the Beer-Lambert law and their stack tells where a ray is",
 "A constant density field accepts exactly non-negative coefficients and has them everywhere; extinction is their sum. The transmittance of a length of a medium is exp(-extinction times length) in every band, is one for no length, lies in (0, 1], and multiplies over consecutive lengths. A free path is sampled exactly when there is extinction; its length is exponentially distributed with the mean extinction, and its point lies on the ray at that length. The isotropic phase function is 1/(4 pi) and is sampled evenly over the sphere. The stack of media names, after any history of crossings, the medium entered last of those not left, up to eight at once.",
 ["inputs","histories"],"all coefficients, rays, lengths and random numbers; all histories of entering and leaving up to eight volumes",
 "No test touches media; wrong nesting only shows when volumes overlap, wrong attenuation when bands differ.",
 ["include/huira/volumes/medium.hpp","include/huira/volumes/medium_stack.hpp","include/huira/volumes/density/constant_density_field.hpp","include/huira/volumes/scattering/isotropic_scatter.hpp","include/huira/geometry/ray.hpp"],
 [("Beer-Lambert law and inverse exponential sampling","include/huira/volumes/medium.hpp"),("toggling of primitives in order of entry","include/huira/volumes/medium_stack.hpp toggle")],
 REALN+"the states of the stack are enumerated up to symmetry of the primitives (its capacity is eight).")
P("C17","Surfaces: hits on meshes and ellipsoids are found and described as they are",
 "A mesh rejects indices out of range and tangents that do not match its vertices, for buffers of any length. A hit on any of its triangles has position, normal, albedo, texture coordinates and tangents interpolated between the three vertices, without reading out of bounds; Embree is given every vertex and triangle where it is. A ray meets an ellipsoid exactly at the nearest root within its range that the filter of the caller accepts, also when it starts on or inside of the surface; the point, outward normal, longitude and colatitude reported are those of the hit; otherwise the range is left as it was. The bounds hold the whole ellipsoid. Points described from these coordinates lie on the ellipsoid, with unit outward normal and unit tangents along the surface, for all sizes.",
 ["inputs"],"all index, vertex and tangent buffers, all triangles and barycentric coordinates; all radii, rays, ranges and filter answers",
 "No test touches geometry. Errors show at single triangles, extreme radii, grazing rays or rejected first hits.",
 ["include/huira/geometry/mesh.hpp","include/huira_impl/geometry/mesh.ipp","include/huira/geometry/ellipsoid.hpp","include/huira_impl/geometry/ellipsoid.ipp","include/huira/geometry/vertex.hpp","include/huira/geometry/geometry.hpp"],
 [("checked buffers and interpolation","include/huira_impl/geometry/mesh.ipp"),("ray-ellipsoid intersection in scaled coordinates","include/huira_impl/geometry/ellipsoid.ipp intersect_callback"),("surface parametrisation","include/huira_impl/geometry/ellipsoid.ipp compute_surface_interaction")],
 REALN+"Embree is replaced by functions that record what they are given; its traversal is external.")
P("C18","Arcs through sampled positions pass through them and meet planes when they do",
 "An arc needs at least one sample. It passes through every sample at its evenly spaced time; two samples are joined by uniform motion, three by uniform acceleration, more by a natural spline whose velocity and acceleration are continuous. The times at which an arc is said to cross a plane through the origin lie within the arc and are in order, and there the arc is in the plane; every simple crossing of up to three samples is found, as is every root of the cubic of a piece, whether it has one or three. A point never crosses.",
 ["inputs"],"all samples, planes, times, and coefficients of the polynomials",
 "No test touches arcs. A wrong or missed root shows only for some signs of the coefficients of a cubic.",
 ["include/huira/render/trajectory_arc.hpp","include/huira_impl/render/trajectory_arc.ipp"],
 [("polynomial and spline through the samples","include/huira_impl/render/trajectory_arc.ipp build_cubic_spline_"),("roots of quadratics and cubics","include/huira_impl/render/trajectory_arc.ipp solve_cubic_")],
 REALN+"double roots (discriminants up to 1e-9, 1e-10 for cubics) are not claimed. The spline is bounded: 4, 5 and 7 samples.")
P("C19","Lights give off their power; unresolved bodies reflect what their albedo says",
 "A spherical light of a given power, total or per band, emits exactly that; outside, its irradiance is the power spread over the sphere at that distance, inside there is none. Its samples are unit directions evenly spread over the cone it fills, with its radiance, the distance of its near side, and one over the solid angle as density, which is the density told for any direction towards it; there is none for others. Unresolved emitters follow the inverse-square law; a Lambertian sphere reflects its albedo of the light that meets it, by the phase function; asteroids follow the H-G magnitude system in astronomical units. Each is lit by its own light, which must be in view. Negative powers, radii that are not positive, albedos beyond one and parameters that are not finite are rejected.",
 ["inputs"],"all powers, radii, positions, directions, random numbers, albedos and H-G parameters",
 "No test touches lights. A wrong factor, unit or fallback shows only when an image is measured.",
 ["include/huira/assets/lights/sphere_light.hpp","include/huira_impl/assets/lights/sphere_light.ipp","include/huira/assets/unresolved/unresolved_object.hpp","include/huira_impl/assets/unresolved/unresolved_object.ipp","include/huira_impl/assets/unresolved/unresolved_emitter.ipp","include/huira_impl/assets/unresolved/unresolved_sphere.ipp","include/huira_impl/assets/unresolved/unresolved_asteroid.ipp"],
 [("emission, cone sampling and its density","include/huira_impl/assets/lights/sphere_light.ipp"),("phase functions and distances","include/huira_impl/assets/unresolved/unresolved_sphere.ipp resolve_irradiance")],
 REALN+"CSPICE is absent: its functions are declared, never called. Negative powers per band are accepted by SphereLight and not claimed.")
P("C20","Cameras project points to pixels and cast their rays, after any settings",
 "After any sequence of settings (sensor, pitch or size, intrinsics, focal length, f-number, aperture, focus, distortion, convention) a camera has what was set, rejects focal lengths that are not positive without keeping them, and everything it derives is that of its current settings: focal lengths in pixels, frustum, pixel directions, solid angles, defocus and diffraction kernels. Points project by the pinhole model, in both conventions; the ray of a pixel starts at the pinhole and leads to the points that project to it, with and without distortion. With depth of field rays start on the aperture and meet in the plane in focus. The field of view holds exactly the points in front that project onto the sensor. The solid angle of a pixel is that between the directions of its corners, and turns radiance to power with the projected area of the aperture. The f-number is the focal length over the diameter.",
 ["inputs","histories"],"all settings, in every state of a camera; all points, pixels and lens samples",
 "No test touches cameras. Stale derived state shows only after a particular order of settings.",
 ["include/huira/cameras/camera_model.hpp","include/huira_impl/cameras/camera_model.ipp","include/huira/render/frustum.hpp","include/huira_impl/render/frustum.ipp"],
 [("settings and what is derived from them","include/huira_impl/cameras/camera_model.ipp compute_intrinsics_, update_kernels_"),("projection and its inverse","include/huira_impl/cameras/camera_model.ipp project_point, pixel_to_direction_, cast_ray"),("view frustum and solid angles","include/huira_impl/cameras/camera_model.ipp compute_frustum_, compute_pixel_solid_angles_")],
 REALN+"the frustum is decided for sensors of 3 by 3 pixels without distortion, solid angles and direction fields for 2 by 2 and 2 by 3 (bounded). Kernels are decided by C12; here it is decided that they are built from the current settings.")
P("C21","A frustum keeps exactly what lies before all of its planes",
 "A direction is inside exactly if it is behind none of the planes, however many there are; without planes everything is. Clipping a polygon by a plane keeps every vertex before the plane and adds every point where an edge crosses it, in their order, with position, normal, albedo, texture coordinates and tangents interpolated between the ends of that edge; the rest is a polygon before the plane or nothing. Clipping a triangle clips by each plane what the others left, and returns triangles in the same orientation that fill it, with tangents exactly if it had them. The times of an arc inside are those at which it is before all planes: between crossings by the side it is on, and for several planes the times common to all.",
 ["inputs"],"all planes, triangles, polygons of up to seven vertices, arcs, lists of intervals",
 "No test touches clipping. A wrong interpolation or interval shows only for triangles and arcs that cross the edge of the field of view.",
 ["include/huira/render/frustum.hpp","include/huira_impl/render/frustum.ipp","include/huira/render/trajectory_arc.hpp"],
 [("clipping of polygons and triangles","include/huira_impl/render/frustum.ipp clip_polygon_by_plane_, lerp_clip_vertex_, clip_triangle"),("intervals of arcs","include/huira_impl/render/frustum.ipp arc_intervals_inside_plane_, intersect_intervals_, clip_arc")],
 REALN+"containment is unbounded; polygons have up to 7 vertices, lists up to 3 intervals, arcs up to 4 crossings (bounded). Crossings within 2e-6 of an end or of the time asked for are not claimed.")
P("C22","BMP and TGA files of any content are decoded in bounds, as their format says",
 "Whatever the bytes and their number, the readers of BMP and TGA read only the data they are given and write only the image: sizes, offsets, run lengths and colour map indices from the file are checked before use, without overflow. Headers that are not those of a supported image are rejected; so are files that end before their last pixel and indices that are not in the colour map. Accepted files give an image of the size in the header, with each pixel at its place: rows upwards or downwards, padded to four bytes (BMP); plain, run-length encoded, gray, true colour or by colour map (TGA); red, green, blue and alpha are the bytes over 255, alpha only if there is any and it is asked for, gray images the mean of the colours.",
 ["inputs"],"all files: BMP up to 2 GB, TGA of any size",
 "Tests cannot sample hostile headers; no test reads BMP or TGA files.",
 ["include/huira/images/io/bmp_io.hpp","include/huira_impl/images/io/bmp_io.ipp","include/huira/images/io/tga_io.hpp","include/huira_impl/images/io/tga_io.ipp","include/huira_impl/images/io/convert_pixel.ipp"],
 [("checks of the header against the data","include/huira_impl/images/io/bmp_io.ipp read_bmp_raw_"),("packets and colour maps","include/huira_impl/images/io/tga_io.ipp read_tga_raw_")],
 REALN+"memory safety and acceptance are unbounded; the contents of pixels are decided for images of 2 by 2 and 3 by 1 pixels in files of any size (bounded). Masks of BMP bit fields are not claimed.")
