#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: `python3 tools/props.py > properties.jsonl`"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["pytracer/" + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": "pytracer/" + w} for n, w in mech],
                          "observe_at": observe or [],
                          "hook_needed": hook}})


NT = "The existing tests never exercise this package beyond importing it. "

p("P01", "A reported ray-shape hit is the true nearest hit on the surface",
  "For every sphere, disk, cylinder and triangle (full or partial, reversed or not), placed by any invertible transform, and every ray with any parametric range, intersection reports a hit exactly when the ray meets the surface inside that range, and the reported parameter is the smallest such one. The reported point lies on the ray and on the surface, with its (u,v) mapping back to that point and u, v in [0,1].",
  ["inputs"], "all shapes x parameters x transforms x rays x ranges",
  NT + "Hits depend on continuous inputs (root selection, clipping by zmin/zmax/phimax, range ends, unnormalised directions).",
  ["shape/__init__.py", "shape/sphere.py", "shape/disk.py", "shape/cylinder.py", "shape/triangle.py"],
  [("quadric root selection and partial-surface rejection", "shape/sphere.py:Sphere.intersect"),
   ("plane hit and annulus/sweep rejection", "shape/disk.py:Disk.intersect"),
   ("cylinder quadratic", "shape/cylinder.py:Cylinder.intersect"),
   ("barycentric test", "shape/triangle.py:Triangle.intersect")],
  ["return value of shape intersection"])

p("P02", "Shadow-ray predicates agree with full intersection",
  "For every shape, primitive and acceleration structure and every ray, the boolean occlusion predicate answers true exactly when the full intersection query reports a hit for the same ray and range, and asking either question changes neither the scene nor (for the predicate) the ray.",
  ["inputs"], "all shapes/primitives/aggregates x rays x parametric ranges",
  NT + "Two separately written code paths must agree on every ray.",
  ["shape/__init__.py", "shape/sphere.py", "shape/disk.py", "shape/cylinder.py", "shape/triangle.py", "aggregate/primitive.py", "aggregate/aggregate.py", "aggregate/accelerator/bvh.py"],
  [("predicate versions", "shape/*:intersect_p"), ("aggregate traversal", "aggregate/accelerator/bvh.py:BVH.intersect_p")],
  ["intersect / intersect_p results"])

p("P03", "Acceleration structures answer exactly like exhaustive search",
  "For every collection of primitives and every ray, the bounding volume hierarchy (every split strategy and leaf size), the uniform grid and the simple list aggregate return the same nearest hit (parameter and primitive) and the same occlusion answer as testing every primitive in turn, and shorten the ray to that hit. Building the structure terminates for every input collection, including coincident, flat and single-primitive ones, and no primitive is lost.",
  ["inputs", "configurations"], "all primitive collections x build options x rays",
  NT + "Traversal order, node pruning, degenerate splits and axis-parallel rays each need particular scenes.",
  ["aggregate/accelerator/bvh.py", "aggregate/aggregate.py", "aggregate/primitive.py"],
  [("recursive build and flattening", "aggregate/accelerator/bvh.py:BVH"), ("slab test with precomputed inverse direction", "aggregate/accelerator/bvh.py:BVH.intersect"),
   ("voxel walk", "aggregate/aggregate.py:GridAccel"), ("list scan", "aggregate/aggregate.py:SimpleAggregate")],
  ["aggregate.intersect / intersect_p"])

p("P04", "World bounds contain the geometry under every transform",
  "For every shape, primitive, instance, volume and scene under every affine transform (rotations, negative and non-uniform scales included), the world-space bound contains every point of its surface or region; for moving instances it contains the geometry at every time of the motion (to within a thousandth of the motion's size). Object-space bounds contain the shape and world-space bounds of an aggregate contain those of its members.",
  ["inputs"], "all shapes x transforms x surface points x times",
  "Tests transform a few axis-aligned boxes; a bound must hold for every surface point under every rotation.",
  ["shape/__init__.py", "shape/sphere.py", "shape/disk.py", "shape/cylinder.py", "shape/triangle.py", "transform/__init__.py", "aggregate/primitive.py", "volume/volume.py", "scene/scene.py"],
  [("world_bound", "shape/__init__.py:Shape.world_bound"), ("motion_bounds", "transform/__init__.py:AnimatedTransform.motion_bounds")],
  ["world_bound()/object_bound()"])

p("P05", "Transforms form a consistent algebra over points, vectors, normals",
  "For every transform built from translations, scales, rotations, look-at and projections: the stored inverse undoes it, composition equals successive application, inverse of a product is the reversed product of inverses, and transforming never modifies its argument. Points, vectors and normals transform so that normals stay perpendicular to transformed tangents and a transformed ray traces the transformed points at the same parameters; look-at maps the camera origin, forward and up directions onto the requested position, target direction and up half-plane. A transform made from given matrices keeps a copy of its own and leaves the caller's arrays as they were. A transform reports being the identity, scaling or swapping handedness exactly when its matrix does.",
  ["inputs"], "all compositions of the constructors x all arguments",
  "Tests check the constructors on ~10 sampled vectors and never compose rotations with non-uniform scale for normals or check look-at's viewing direction.",
  ["transform/__init__.py"],
  [("matrix/inverse pairs", "transform/__init__.py:Transform"), ("look_at", "transform/__init__.py:Transform.look_at")],
  ["Transform.__call__", "Transform.m", "Transform.m_inv"])

p("P06", "Animated transforms interpolate rigidly between their keyframes",
  "For every pair of orientation-preserving keyframe transforms and every time, the animated transform equals the first keyframe at or before the start time, the second at or after the end time, and in between is the composition of linearly interpolated translation, constant-speed shortest-arc rotation and linearly interpolated stretch; with rigid keyframes every intermediate transform is rigid. Decomposition into translation, rotation and stretch recomposes to the original matrix.",
  ["inputs"], "all keyframe pairs x times",
  "Tests check decomposition of a few matrices and the endpoints; intermediate poses for general rotations are never checked.",
  ["transform/__init__.py", "transform/quat.py"],
  [("decompose/interpolate", "transform/__init__.py:AnimatedTransform"), ("slerp", "transform/quat.py:slerp")],
  ["AnimatedTransform.interpolate", "AnimatedTransform.__call__"])

p("P07", "Quaternions and rotations convert losslessly",
  "For every rotation (any axis and angle, including half-turns), converting the rotation to a quaternion yields a unit quaternion, and converting that back yields the same rotation; every unit quaternion converts to a proper rotation whose inverse is its transpose. Spherical interpolation of unit quaternions gives unit quaternions, meets its end points and moves at constant angular speed.",
  ["inputs"], "all rotations / unit quaternions / interpolation parameters",
  "Tests only compare two conversion functions with each other and check result types.",
  ["transform/quat.py"],
  [("matrix to quaternion, four branches", "transform/quat.py:from_transform"), ("quaternion to matrix", "transform/quat.py:to_transform"), ("slerp", "transform/quat.py:slerp")],
  ["quat functions"])

p("P08", "Axis-aligned boxes behave as sets of points",
  "For all boxes, points and rays: a union contains exactly the tight hull of its arguments, overlap and containment tests agree with interval arithmetic, equality and inequality are exact complements, and expansion, lerp, offset, extent, area, volume and bounding sphere agree with the box's corners. The ray-box test answers true exactly when some point of the ray's parametric range lies in the box and returns that sub-range; operations returning new boxes never alias or modify their arguments, and a box never shares the corners it was made from.",
  ["inputs"], "all boxes x points x rays including axis-parallel rays and rays with finite ranges",
  "Tests cover a handful of boxes and rays starting outside along random directions.",
  ["geometry/__init__.py"],
  [("BBox", "geometry/__init__.py:BBox")], ["BBox methods"])

p("P09", "Vector geometry: local frames, spherical coordinates, rays",
  "For every non-zero direction the constructed coordinate system is orthonormal and of consistent handedness; spherical coordinates round-trip with theta in [0,pi] and phi in [0,2pi]; face-forward returns the normal or its negation in the direction's hemisphere. Point/vector/normal arithmetic keeps the documented result types, copies are independent of their sources, and ray copies and children preserve range, time, depth (child depth is one more) and differentials as documented.",
  ["inputs"], "all directions, points, rays",
  "Tests sample a few directions; degenerate axes and aliasing between copies are not checked.",
  ["geometry/__init__.py", "geometry/utility.py"],
  [("coordinate_system", "geometry/utility.py:coordinate_system"), ("Ray", "geometry/__init__.py:Ray"), ("RayDifferential", "geometry/__init__.py:RayDifferential")],
  ["geometry functions"])

p("P10", "Hit differential geometry matches the surface's true derivatives",
  "At every reported hit on every shape the position derivatives with respect to u and v equal the true derivatives of the parametric surface in world space, under length-preserving placements the normal derivatives equal the true derivatives of the outward unit normal, and the normal is unit length and perpendicular to the surface, flipped exactly when the shape's orientation reversal and the handedness of its transform disagree. With ray differentials the screen-space derivatives of position and (u,v) equal the true first-order footprint.",
  ["inputs"], "all shapes x parameters x transforms x hits",
  NT + "Derivatives are only observable by comparing with finite differences at many hits.",
  ["geometry/diffgeom.py", "shape/sphere.py", "shape/disk.py", "shape/cylinder.py", "shape/triangle.py"],
  [("DifferentialGeometry", "geometry/diffgeom.py:DifferentialGeometry"), ("Weingarten equations", "shape/sphere.py:Sphere.intersect")],
  ["DifferentialGeometry fields"])

p("P11", "BxDF sampling, densities and values are mutually consistent",
  "For every reflection and transmission model, every parameter setting and every outgoing direction, the density returned with a sampled direction equals the density query for that pair, the value returned equals direct evaluation, and samples actually follow the reported density, which integrates to at most one over directions. Hence averaging value*cos/density over samples converges to the model's reflectance integral, and so do the reflectances a BSDF estimates with its own sample patterns.",
  ["inputs"], "all models x parameters x direction pairs x random numbers",
  NT + "Needs statistics over many samples against numerical quadrature.",
  ["reflection/bdf/bdf.py", "reflection/bdf/torrance.py", "reflection/bdf/fresnelblend.py", "reflection/bdf/orennayar.py", "reflection/bdf/measured.py", "montecarlo/utility.py"],
  [("BDF.sample_f/pdf", "reflection/bdf/bdf.py:BDF"), ("Blinn/Anisotropic distributions", "reflection/bdf/torrance.py")],
  ["f, sample_f, pdf"])

p("P12", "Reflection models are reciprocal, non-negative and conserve energy",
  "For every reflection model with physically valid parameters, values are finite and non-negative for all direction pairs off the tangent plane, follow the model's published formula, and swapping the two directions leaves a reflection model's value unchanged. No more energy is scattered than received: each analytic model's directional reflectance never exceeds one, and the fluxes an ideal mirror and glass pair reflect and transmit add up to the incident flux. On a surface, reflection models are black across it and transmission models on the same side.",
  ["inputs"], "all models x parameters x direction pairs, grazing and back-facing included",
  NT + "A universally quantified inequality over directions and parameters.",
  ["reflection/bdf/bdf.py", "reflection/bdf/torrance.py", "reflection/bdf/fresnelblend.py", "reflection/bdf/orennayar.py", "reflection/fresnel.py"],
  [("model evaluations", "reflection/bdf/*"), ("Fresnel terms", "reflection/fresnel.py")], ["f(wo,wi)", "rho"])

p("P13", "Fresnel reflectance and ideal specular directions obey optics laws",
  "For every pair of media and every incidence angle the dielectric Fresnel reflectance matches the Fresnel equations (in [0,1], the normal-incidence value, one at grazing and under total internal reflection, equal from both sides along the refracted pair) and the conductor approximation stays in [0,1] matching its published formula. Ideal reflection mirrors the direction about the normal and ideal transmission follows Snell's law on entering and leaving, with radiance scaled by the squared index ratio, vanishing exactly under total internal reflection.",
  ["inputs"], "all index pairs x angles x wavelengths",
  NT + "Needs independent evaluation of the equations over the whole angle range.",
  ["reflection/fresnel.py", "reflection/utility.py", "reflection/bdf/bdf.py"],
  [("fr_diel/fr_cond", "reflection/utility.py"), ("SpecularReflection/SpecularTransmission", "reflection/bdf/bdf.py")],
  ["Fresnel call", "sample_f of specular models"])

p("P14", "A BSDF combines its lobes exactly",
  "World/local direction conversions of a BSDF are inverse rotations for every shading frame; the value of a BSDF is the sum over the lobes matching the request and the geometric side (decided by the geometric normal), and its density is the average of the matching lobes' densities. Sampling picks only matching lobes, each with equal chance, reports the picked lobe's type, and returns exactly the combined value and density for non-specular picks.",
  ["inputs"], "all lobe sets x flag masks x frames x directions",
  NT + "The combination logic depends on flags, counts and both normals together.",
  ["reflection/bsdf.py", "reflection/utility.py"],
  [("BSDF", "reflection/bsdf.py:BSDF"), ("BDFType", "reflection/utility.py:BDFType")], ["BSDF.f/pdf/sample_f"])

p("P15", "Monte Carlo warps produce the distributions they claim",
  "Each warping function (disk, concentric disk, hemisphere, cosine hemisphere, sphere, cone, triangle) maps every pair of numbers in [0,1) into its domain with the area or solid-angle distribution stated by its density function, that density integrates to one over the domain, and the mapping is one-to-one. The concentric disk map is continuous. Power and balance heuristics lie in [0,1] and sum to one over any pair of strategies of which at least one has positive density.",
  ["inputs"], "all (u1,u2) in the unit square and all parameters",
  NT + "Distributional statements over the whole unit square.",
  ["montecarlo/utility.py"],
  [("warps", "montecarlo/utility.py")], ["warp results and *_pdf functions"])

p("P16", "Tabulated distributions sample in proportion to their tables",
  "For every non-negative table, one- and two-dimensional piecewise-constant sampling returns points whose distribution is proportional to the table, never lands in a zero-weight cell, reports exactly the density of the returned point (equal to the density query), and that density integrates to one. Sampling is monotone and covers [0,1); all-zero tables fall back to a uniform distribution without failing.",
  ["inputs"], "all tables x all u",
  NT + "Needs inversion checked over the full range of tables, including zero cells and ends.",
  ["montecarlo/distribution.py"],
  [("Distribution1D", "montecarlo/distribution.py:Distribution1D"), ("Distribution2D", "montecarlo/distribution.py:Distribution2D")], ["sample_cont/sample_dis/pdf"])

p("P17", "Stratified samples fill every stratum exactly once, inside the pixel",
  "For every resolution, samples-per-pixel split and seed, stratified patterns put exactly one sample in each stratum (one per cell in 2D, one per row and column for Latin hypercube patterns) with all values in [0,1), jittered or centred, and shuffling only permutes. Every camera sample's image position lies in its own pixel, lens and time samples lie in their ranges, and the integrators' requested sample arrays are delivered with the requested sizes.",
  ["inputs", "configurations"], "all resolutions, sample counts, jitter settings, seeds",
  NT + "Exactly-once structure over random outcomes.",
  ["sampler/utility.py", "sampler/sample.py", "sampler/sampler/__init__.py", "sampler/sampler/stratified.py"],
  [("stratified_sample_*", "sampler/utility.py"), ("StratifiedSampler.get_more_samples", "sampler/sampler/stratified.py")], ["sample stream"])

p("P18", "Samplers visit every pixel exactly once, alone or split into tiles",
  "For every image window and samples-per-pixel setting a sampler emits exactly the configured number of samples for each pixel of its window, in finitely many batches, then reports exhaustion, and its size bounds are never exceeded. Splitting it into any number of sub-samplers partitions the window: every pixel belongs to exactly one sub-sampler and none fall outside, and each sub-sampler keeps the strata, jitter and shutter interval of the whole.",
  ["inputs", "configurations", "schedules"], "all windows x spp x tile counts x orders of draining tiles",
  NT + "Exactly-once coverage for all window shapes and tile counts.",
  ["sampler/sampler/__init__.py", "sampler/sampler/stratified.py"],
  [("compute_subwindow", "sampler/sampler/__init__.py:Sampler.compute_subwindow"), ("get_subsampler", "sampler/sampler/stratified.py")], ["sample stream"])

p("P19", "Film pixels are the filter-weighted average of the samples",
  "For every filter, resolution, crop window and set of samples, each stored pixel equals the sum of filter-weighted sample colours (weights from the film's tabulated filter) divided by the sum of weights over exactly the samples whose filter support covers it, plus scaled splats, clamped at zero; constant radiance therefore reconstructs exactly. The result is independent of the order in which samples arrive and of their arrival from concurrent threads, samples outside the support touch no pixel, and the declared sample extent covers every sample position able to affect the image.",
  ["inputs", "schedules"], "all sample streams x filters x crops x thread interleavings",
  NT + "Conservation over arbitrary sample sets and interleavings.",
  ["film/film.py", "filter/filter.py"],
  [("add_sample", "film/film.py:ImageFilm.add_sample"), ("splat", "film/film.py:ImageFilm.splat"), ("write_image", "film/film.py:ImageFilm.write_image")], ["film.pixels", "written image"])

p("P20", "Reconstruction filters are even and vanish at their support",
  "Each filter value depends on position exactly by its published formula: symmetric in x and y, maximal at the centre, separable where specified, non-negative for box, triangle and Gaussian filters, and falling to zero at the support boundary where the formula says so. Filter objects keep the widths they were given and their reciprocals.",
  ["inputs"], "all filter parameters x positions in the support",
  NT + "A formula over continuous positions and parameters.",
  ["filter/filter.py"], [("Filter classes", "filter/filter.py")], ["filter call"])

p("P21", "Cameras map raster samples to the right world rays",
  "For every camera type, placement, resolution, screen window and field of view, the ray generated for a raster position passes through exactly the world point that projects to that raster position, starts where the camera model says, has the right direction, range and shutter time, and carries the camera motion at that time. With a lens, all rays for one raster position meet in the point of perfect focus on the focal plane and start on the lens disk.",
  ["inputs"], "all cameras x raster positions x lens and time samples",
  NT + "Needs an independent projection oracle.",
  ["camera/camera.py", "camera/projective.py", "camera/environment.py"],
  [("screen/raster transforms", "camera/projective.py:ProjectiveCamera"), ("generate_ray", "camera/projective.py")], ["generate_ray"])

p("P22", "Camera ray differentials are the neighbouring pixels' rays",
  "For every camera and sample the differential ray's main ray equals the plain ray, and its x and y offset rays equal the rays generated one raster unit to the right and one raster unit down with the same lens and time samples, in world space. Generating differentials leaves the sample unchanged and transforming a differential ray transforms the offset rays too; scaling scales their offsets about the main ray linearly.",
  ["inputs"], "all cameras x samples x transforms",
  NT + "Needs comparison of pairs of generated rays.",
  ["camera/camera.py", "camera/projective.py", "camera/environment.py", "geometry/__init__.py", "transform/__init__.py"],
  [("generate_ray_differential", "camera/projective.py")], ["generate_ray_differential"])

p("P23", "Lights emit with the right falloff, shape and visibility segment",
  "For every light type and shaded point, the radiance arriving is non-negative, falls off with inverse squared distance for positional lights, follows the cone/texture profile in the light's own frame, and is unaffected by distance for distant and infinite lights; an environment map is scaled by the light's radiance; a light whose picture cannot be read shines as if it had none. Frames of positional lights may be scaled. The incident direction is unit length toward the light and the visibility test covers exactly the open segment between the point and the light sample, so an occluder strictly between blocks it and one outside does not.",
  ["inputs"], "all lights x placements x shaded points x occluders",
  NT + "Universally quantified over continuous geometry.",
  ["light/light.py", "light/utility.py"],
  [("sample_l", "light/light.py"), ("VisibilityTester", "light/utility.py:VisibilityTester")], ["sample_l results", "VisibilityTester.unoccluded"])

p("P24", "Light sampling densities and emission sampling agree",
  "For area and environment lights the density returned with a sampled direction equals the density query for that direction, and averaging emitted radiance over density converges to the direct integral of arriving radiance. Emission sampling starts rays on the light in the emitting hemisphere with the stated density. Total power equals the integral of emission for point, distant and area lights and constant environments; for spot lights it lies between the emission of the inner and the outer cone.",
  ["inputs"], "all lights x shaded points x random numbers",
  NT + "Needs statistics against quadrature.",
  ["light/light.py", "light/utility.py"],
  [("pdf/sample_l/sample_r", "light/light.py"), ("ShapeSet", "light/utility.py:ShapeSet")], ["sample_l/pdf/sample_r"])

p("P25", "Sampling a shape draws uniform points on the shape with its area",
  "For every sphere, disk, cylinder and triangle under every transform, the area equals the true surface area in its documented space, sampled points lie on the surface with the outward normal there (the one a ray finds, whatever the texture coordinates), and are uniformly distributed over it with density one over the area (quadrics in object space, triangles in world space). Under rigid or mirrored placements, densities from a reference point equal the solid-angle density of the sampled surface: sampling from a point is consistent with its density query.",
  ["inputs"], "all shapes x parameters x random numbers x reference points",
  NT + "Distributional statements.",
  ["shape/__init__.py", "shape/sphere.py", "shape/disk.py", "shape/cylinder.py", "shape/triangle.py"],
  [("sample/pdf/sample_p/pdf_p/area", "shape/*")], ["shape.sample results"])

p("P26", "Direct lighting estimates converge to the true lighting integral",
  "For every combination of light, surface material and occluder, direct lighting estimated by sampling all lights or one light is an unbiased estimate of the analytic lighting integral: a matte surface under a point, distant, area or environment light gets the closed-form irradiance, occluded light contributes nothing, and combining light and surface sampling never counts energy twice. Estimates are finite and non-negative for every sample.",
  ["inputs"], "all scenes x sample sequences",
  NT + "Unbiasedness is a statement over all random numbers, needing many samples against closed forms.",
  ["integrator/utility.py", "integrator/surface/direct.py"],
  [("estimate_direct / uniform_sample_*", "integrator/utility.py")], ["integrator li"])

p("P27", "Path, Whitted and direct integrators transport light correctly",
  "In a closed environment of uniform emission and albedo, path tracing returns the analytic multiple-bounce radiance up to its depth bound, mirror and glass surfaces return the reflected and refracted environment exactly, recursion depth never exceeds the configured maximum, and emission seen directly or through specular bounces is counted exactly once. Absorbing media between surfaces dim the light of every edge of a path exactly once. All integrators agree on scenes with only direct light.",
  ["inputs", "configurations"], "all scenes x depth limits x sample sequences",
  NT + "Global energy balance needs whole-system executions.",
  ["integrator/integrator.py", "integrator/surface/surface.py", "integrator/surface/path.py", "integrator/surface/whitted.py", "integrator/surface/direct.py", "integrator/utility.py"],
  [("li", "integrator/surface/*.py"), ("specular recursion", "integrator/utility.py")], ["integrator.li"])

p("P28", "Rendering deposits every sample once and writes the right image",
  "For every scene, sampler, camera and film configuration a render evaluates each camera sample exactly once and adds it to the film at its own image position with the radiance computed for its ray, in which invalid (NaN, infinite, negative) radiance is replaced by black; the sampler is shown every batch of samples with each sample's own ray, radiance and intersection, and a batch it turns down does not reach the film; rays that hit nothing show the scene's background lights; in the visible-object mode a sample is white where its ray hits anything and black elsewhere. Rendering terminates, is deterministic for a fixed random seed, returns and stores the finished image.",
  ["inputs", "configurations", "fault_sequences"], "all configurations and integrator faults",
  "The one rendering test is excluded from the suite.",
  ["renderer/renderer.py", "film/film.py"],
  [("SamplerRenderer/SamplerRendererTask", "renderer/renderer.py")], ["film calls", "image"])

p("P29", "Spectrum and colour arithmetic is consistent across representations",
  "For all spectra, arithmetic is component-wise and never modifies its operands, colour conversions RGB to XYZ and back are inverse linear maps, luminance is the linear Y functional, and black/NaN tests match components. Resampling tabulated data onto a spectrum's bins equals the exact average of the piecewise-linear curve over each bin whatever the order of the input, and leaves the input arrays untouched.",
  ["inputs"], "all spectra, wavelengths tables, permutations",
  "Tests cover a few random spectra and only the sampled averaging on fixed shapes.",
  ["spectral/spectrum.py", "spectral/__init__.py", "data/spectral.py"],
  [("RGBSpectrum/SampledSpectrum", "spectral/spectrum.py")], ["spectrum values"])

p("P30", "Texture mappings and procedural textures are well-defined functions",
  "For every mapping and hit, texture coordinates follow the mapping's formula and their screen-space derivatives equal true first-order changes; noise is continuous, zero at lattice points, bounded and repeatable; constant, scale, mix, bilinear and UV textures evaluate their formula for all inputs; checkerboards alternate by cell parity, with anti-aliased values between the two cell values; dots are disks inside their cells; fractal sums add their octaves; marble stays within its colours. Evaluating a texture never modifies the hit.",
  ["inputs"], "all mappings x hits x parameters",
  NT + "Continuous function identities.",
  ["texture/texture/__init__.py", "texture/texturemap/__init__.py", "texture/utility.py", "data/noise.py"],
  [("TextureMapping2D", "texture/texturemap/__init__.py"), ("noise", "texture/utility.py")], ["texture call"])

p("P31", "Image pyramids and image textures filter without inventing values",
  "For every image, wrap mode and lookup, pyramid levels halve in size down to one texel, each level and each filtered lookup of a constant image returns that constant, lookups stay within the range of the image values, zero-width lookups interpolate the texels with wrap mode applied for coordinates outside [0,1], wider lookups average the texels under their footprint (a pyramid set to filter isotropically takes a width of twice the largest derivative), and the orientation of rows and columns is preserved for non-square images. Zero-width lookups outside the image under the black mode return black. An image texture returns its file's texels scaled and gamma-converted, whatever was loaded before, and a constant for a file that cannot be read.",
  ["inputs"], "all images x resolutions x wrap modes x lookups",
  NT + "Resampling correctness over all sizes and coordinates.",
  ["texture/utility.py", "texture/texture/image.py"],
  [("MIPMap", "texture/utility.py:MIPMap"), ("ImageTexture", "texture/texture/image.py")], ["MIPMap.look_up"])

p("P32", "Participating media: densities, extents and optical thickness",
  "For every volume region and ray, a region's coefficients are its parameters inside the region and zero outside in its own frame, extinction equals absorption plus scattering, the ray-region interval is exactly the part of the ray inside, and optical thickness equals the integral of extinction over that interval: additive over consecutive segments, independent of the ray's direction of travel and, where it is estimated in steps, that integral on average over the sampling offset whatever the step. Aggregates sum their members; transmittance lies in [0,1]. Named measured media have the published absorption and reduced scattering.",
  ["inputs"], "all regions x transforms x rays",
  NT + "Integral identities over rays.",
  ["volume/volume.py", "volume/utility.py", "data/volume.py"],
  [("VolumeRegion", "volume/volume.py")], ["sigma_*/tau/intersect_p"])

p("P33", "Phase functions are normalised and reciprocal",
  "Every phase function integrates to one over the sphere for every admissible asymmetry, is non-negative and depends only on the angle between the directions; the Henyey-Greenstein function has the mean cosine its asymmetry parameter promises, with forward scattering for positive asymmetry.",
  ["inputs"], "all asymmetries x direction pairs",
  NT + "Needs quadrature over the sphere for each parameter.",
  ["volume/utility.py", "volume/bssrdf.py"],
  [("phase_*", "volume/utility.py")], ["phase functions"])

p("P34", "Triangle meshes index, place and interpolate vertices faithfully",
  "For every mesh each triangle refers to exactly its three indexed vertices, transformed once to world space, with per-vertex texture coordinates, normals and tangents interpolated barycentrically at hits; out-of-range or malformed input is rejected or ignored as documented rather than mis-rendered. Refinement yields one triangle per index triple, in order, and its bounds and area are those of its vertices.",
  ["inputs"], "all vertex/index/attribute arrays",
  NT + "Index arithmetic for every triangle of every mesh.",
  ["shape/triangle.py"],
  [("TriangleMesh/Triangle/create_triangle_mesh", "shape/triangle.py")], ["refine/intersect/get_shading_geometry"])

p("P35", "Loop subdivision refines manifold meshes correctly",
  "For every manifold control mesh (open or closed, any valence), each subdivision level splits every triangle into four, preserves the Euler characteristic, orientation and boundary topology, and the refined vertices are those of Loop's rules pushed to the limit surface; affine maps of the control mesh map the result identically, flat regions stay flat, and closed meshes stay closed. Vertices never leave the convex hull of the control mesh, and vertex normals are those of Loop's tangent masks on the control mesh's outward side.",
  ["inputs"], "all manifold meshes x levels",
  NT + "Topology bookkeeping only fails on particular connectivity.",
  ["shape/loopsubdiv.py"],
  [("LoopSubdiv.refine", "shape/loopsubdiv.py:LoopSubdiv")], ["refined mesh"])

p("P36", "Materials build the scattering lobes their parameters describe",
  "For every material and every texture value at the hit, the resulting scattering function is exactly the sum of the documented lobes with the documented colours (black ones contribute nothing) in the shading frame: negative colours and roughness count as zero, Oren-Nayar angles are clamped to 0..90 degrees, dielectric lobes have air on the normal's side, glass carries its index of refraction, and for physical parameters no more energy leaves than arrives. Measured materials evaluate the data of their own file. Mixing two materials blends their scattering linearly, and bump mapping perturbs the shading normal by the displacement's true gradient while staying in the geometric normal's hemisphere.",
  ["inputs"], "all materials x parameter textures x hits",
  NT + "Combinatorial parameter space.",
  ["material/material.py"],
  [("get_bsdf", "material/material.py"), ("bump", "material/material.py:Material.bump")], ["BSDF from get_bsdf"])

p("P37", "Primitives, instances and scenes answer as their parts would",
  "For every shape wrapped as a primitive, instanced under a static or moving transform, refined or nested in aggregates, intersecting the wrapper equals intersecting the world-placed shape directly: same hit, world-space geometry, material, light and identity; misses leave the ray and the hit record unchanged and hits shorten the ray. Full refinement yields only intersectable primitives that together cover the original, and area-light emission reaches the query through the wrapper.",
  ["inputs"], "all shapes x transforms x nesting x rays",
  NT + "Composition of transforms and delegation.",
  ["aggregate/primitive.py", "aggregate/intersection.py", "scene/scene.py"],
  [("GeometricPrimitive/TransformedPrimitive", "aggregate/primitive.py"), ("Intersection", "aggregate/intersection.py")], ["primitive.intersect"])

p("P38", "Image files round-trip and reading or writing has no side effects",
  "For every image, writing and reading back gives the same picture up to the documented normalisation and 8-bit quantisation, with rows and columns preserved for non-square, greyscale and colour images; writing never modifies the caller's array, and updating a crop of an existing image changes exactly the cropped pixels. Images whose sides are not powers of two are resampled on reading to the next power of two, and normalisation scales all channels by one common factor that takes the brightest value to full intensity.",
  ["inputs"], "all images, sizes, crops",
  NT + "Never exercised by the suite.",
  ["utility/imageio.py"],
  [("read_image/write_image", "utility/imageio.py")], ["files and arrays"])

p("P39", "The scene-description interface keeps scoped state consistent",
  "For every history of scene-description calls, calls made before initialisation or after clean-up, and a second initialisation, are refused and change nothing; transform calls multiply the current transforms (all key times alike) by exactly the named transform and look-at places the camera at the eye; properly nested attribute and transform begin/end pairs restore exactly the state saved at begin at any depth (an unmatched end is ignored); named coordinate systems recall the transforms in force when they were recorded, whatever happened later, and unknown names are refused; option calls record exactly their own option; a new initialisation starts from defaults with nothing left over. Typed parameters come back per type in the order they were added.",
  ["histories"], "all call sequences",
  "The package could not even be imported on the pinned commit and no test touches it; aliasing between saved and current state only shows in particular call histories.",
  ["interface/__init__.py", "interface/api.py", "interface/option.py", "interface/parameter.py"],
  [("system_init/world_begin/...", "interface/api.py")], ["interface state"])

p("P40", "Helper mathematics: rounding, powers of two, interpolation, clamping, comparison",
  "For all inputs the numeric helpers compute what they name: floor/ceil/round conversions, linear interpolation endpoints and monotonicity, clamping into its range for scalars and spectra, power-of-two tests and next power of two, and tolerance comparisons symmetric about their reference. Helpers return new values and never modify arguments.",
  ["inputs"], "all numbers",
  "Tests only reach these through other packages.",
  ["utility/utility.py"], [("helpers", "utility/utility.py")], ["helper results"])

p("P41", "Ray differentials survive specular reflection and refraction",
  "For every hit by a ray with differentials on a smooth surface, whichever side is hit and whichever way the surface is oriented, the single ray followed for specular reflection or refraction starts at the hit, is one generation deeper, keeps the time and excludes the surface it leaves, and its auxiliary rays agree to first order with the reflections or refractions of the incoming auxiliary rays at their own hits. The estimate returned is the radiance found along that ray times the lobe's factor; under total internal reflection nothing is followed; without incoming differentials none are invented and the incoming ray is left unchanged.",
  ["inputs"], "all surfaces x orientations x incident directions x relative indices x footprints",
  NT + "First-order agreement must hold for every curvature, side and index; a wrong differential only shows as a subtly wrong texture blur.",
  ["integrator/utility.py", "geometry/diffgeom.py"],
  [("specular_reflect", "integrator/utility.py:specular_reflect"), ("specular_transmit", "integrator/utility.py:specular_transmit")], ["renderer.li (the ray handed over)"])

p("P42", "Queries are pure: answers depend only on the question",
  "Every question the library answers about a scene object - intersections, refinements (subdivision included), bounds, areas, surface samples, transforms at a time, light samples, densities and power, lobe and material values (measured ones included), textures, media, camera rays, tables, filters, spectrum arithmetic, radiance with a replayed generator - gives bit for bit the same answer whenever it is asked: again, after any other questions in any order, after the caller overwrote the answers and arguments of earlier questions (boxes, points, rays, spectra it was handed are its own), and by several threads at once. Asking changes no argument except the ray that a hit shortens and the record it fills, draws no random numbers other than from the generator passed, and leaves process-wide settings alone.",
  ["histories", "schedules", "inputs"], "all objects x all sequences of questions x thread schedules",
  NT + "Hidden state, aliasing and memoisation only show after particular sequences of questions.",
  ["shape/__init__.py", "aggregate/aggregate.py", "aggregate/accelerator/bvh.py", "scene/scene.py", "light/light.py", "transform/__init__.py", "geometry/__init__.py", "material/material.py", "volume/volume.py", "camera/projective.py", "texture/utility.py", "montecarlo/distribution.py", "integrator/utility.py"],
  [("Aggregate.world_bound", "aggregate/aggregate.py:world_bound"), ("AnimatedTransform.interpolate", "transform/__init__.py:AnimatedTransform"), ("Light.sample_l", "light/light.py")], ["every public query method"])

p("P43", "Transport is linear in the lights and blind to frame and structure",
  "For every scene, ray and replayed generator, radiance scales with the brightness of the lights (every kind, however dim, through paths of any depth; channel by channel unless importance tables depend on colour), is the sum of the radiances under any partition of the lights for the integrators that visit every light (between mirrors and glass, for every integrator), does not depend on the order of the lights and is not changed by a light that emits nothing; it is the same when the whole world - shapes, lights and ray - is moved, mirrored or resized (brightness of point-like lights growing with the square), when primitives are reordered, held in another accelerator, divided or placed through instances, and at any time in a still world.",
  ["inputs", "configurations"], "all scenes x rigid motions, mirrors and sizes x groupings of lights x arrangements of primitives",
  NT + "A metamorphic law over whole scenes: no single expected value exists that a test could list.",
  ["integrator/surface/path.py", "integrator/surface/whitted.py", "integrator/surface/direct.py", "integrator/utility.py", "light/light.py", "aggregate/primitive.py", "shape/triangle.py"],
  [("li", "integrator/surface/path.py:PathIntegrator.li"), ("estimate_direct", "integrator/utility.py:estimate_direct"), ("InfiniteAreaLight", "light/light.py:InfiniteAreaLight")], ["renderer.li"])

p("P44", "The finished picture shows the scene where the camera sees it",
  "For every scene of supported shapes (plain, meshed with or without vertex normals, instanced, nested, moving, in any accelerator) with diffuse, glossy, metal, coated, mixed, textured, mirror, glass, partly clear or emitting surfaces, lit by lamps or by emitting shapes and mapped surroundings, possibly in absorbing fog, the image file a render writes - whole or in tiles, with any crop window, filter and camera - holds in every pixel, relative to its brightest one, the radiance that the laws of geometry, reflection, refraction, shadowing and falloff give along that pixel's own sample rays at their shutter time, to the integrator's depth limit.",
  ["inputs", "configurations"], "all scenes x cameras x integrators without random light or lobe choice x film settings",
  NT + "Only the composition of every stage, judged from outside, shows that the stages agree on spaces, orientations, units and times.",
  ["renderer/renderer.py", "integrator/surface/whitted.py", "integrator/surface/direct.py", "integrator/surface/path.py", "integrator/utility.py", "camera/projective.py", "camera/environment.py", "film/__init__.py", "sampler/__init__.py", "shape/triangle.py", "aggregate/primitive.py", "light/light.py", "material/material.py"],
  [("SamplerRenderer.render", "renderer/renderer.py:SamplerRenderer.render"), ("write_image", "film/__init__.py")], ["the image file"])

p("P45", "Answers do not depend on the units of length or of light",
  "For every shape, mesh, instance, motion, accelerator, camera, lamp and lit world: when all lengths are multiplied by a factor between a thousandth and a thousand (absorption per length divided by it, intensities of point-like lamps multiplied by its square; worlds with emitting shapes by at least one) and the brightness of all lamps by another, from a trillionth to a trillion, every answer is the original one in the new units. Hits, misses, occlusion, texture coordinates, normals, directions, footprints and densities over directions stay; distances, points, bounds and position derivatives are multiplied by the factor, areas by its square; radiance with a replayed generator and power follow the brightness. No fixed tolerance, offset or cut-off shows: a light however far or dim counts.",
  ["inputs", "configurations"], "all worlds x unit factors x rays",
  NT + "A fixed epsilon looks right at the size of a test scene; only comparing a world with its twin in other units shows it.",
  ["shape/__init__.py", "shape/sphere.py", "shape/cylinder.py", "shape/disk.py", "shape/triangle.py", "aggregate/aggregate.py", "aggregate/primitive.py", "camera/projective.py", "light/light.py", "light/utility.py", "integrator/utility.py", "spectral/spectrum.py", "utility/utility.py", "integrator/surface/path.py", "integrator/surface/whitted.py", "integrator/surface/direct.py"],
  [("relative ray offsets", "shape/sphere.py:Sphere.intersect"), ("black test", "spectral/spectrum.py:is_black"), ("visibility segments", "light/utility.py:VisibilityTester")], ["intersections", "radiance"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(json.dumps(x))
