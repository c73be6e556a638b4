"""Writes /verif/properties.jsonl from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [],
            hook_needed=None,
        ),
    ))


prop("C01", "Coordinate system operations compose as exact rigid motions",
     "Every chain of shifts and rotations of a coordinate system (global or local, about any pivot given in any coordinate system) yields exactly the origin and axes obtained by composing the corresponding rigid motions, so the axes always stay a right-handed orthonormal triad. Converting vectors to and from global coordinates are mutually inverse. No operation changes the coordinate system it is applied to.",
     ["histories", "inputs"], "All sequences of shiftGlobal/shiftLocal/rotateGlobal/rotateLocal with any shift, rotation, pivot and pivot coordinate system, and all vectors.",
     "The tests apply a few short fixed-shape chains to random values; the guarantee is about every chain, pivot and pivot frame.",
     ["batoid/coordSys.py"],
     [("CoordSys.shiftGlobal/shiftLocal/rotateGlobal/rotateLocal", "batoid/coordSys.py"), ("CoordSys.toGlobal/toLocal", "batoid/coordSys.py")],
     [("origin, rot", "position of the origin and rotation matrix in global coordinates", "batoid/coordSys.py")],
     ["CoordSys.origin, .rot, .xhat/.yhat/.zhat, toGlobal, toLocal"])

prop("C02", "Coordinate transforms are exact, invertible and path independent",
     "Expressing points or rays in another coordinate system equals the rigid change of coordinates between the two systems: forward followed by reverse is the identity, going through any chain of intermediate systems ends in the same place as going directly, and the array and the ray versions agree. Transforming rays changes only positions, velocities and the coordinate system they carry; times, wavelengths, fluxes and flags are untouched, and the global position and direction of every ray stay what they were.",
     ["inputs", "histories"], "All pairs and chains of coordinate systems, all ray and point arrays of any size.",
     "Tests sample a few hundred random pairs with one or two hops; no test follows a chain of transforms together with the ray state that must not change.",
     ["batoid/coordTransform.py", "batoid/trace.py", "src/batoid.cpp", "batoid/rayVector.py"],
     [("CoordTransform", "batoid/coordTransform.py"), ("applyForwardTransform, applyReverseTransform", "src/batoid.cpp"), ("RayVector.toCoordSys", "batoid/rayVector.py")],
     [("RayVector.coordSys", "system in which the ray arrays are expressed", "batoid/rayVector.py")],
     ["applyForward, applyReverse, applyForwardArray, applyReverseArray, RayVector.toCoordSys"])

prop("C03", "Results do not depend on the choice of coordinate frame",
     "Moving an entire optical system and the rays sent through it by one rigid motion changes nothing but that motion: the local positions, velocities, optical path lengths, fluxes and flags at every surface are the same. The coordinate system in which input rays are expressed does not matter either.",
     ["inputs", "configurations"], "All optical systems, rigid motions, rays, and coordinate systems in which the rays are handed over.",
     "Tests move one or two shipped telescopes by fixed amounts; frame mistakes cancel for axis-aligned systems.",
     ["batoid/optic.py", "src/batoid.cpp", "batoid/trace.py"],
     [("coordinate transformation at each surface", "src/batoid.cpp intersect/reflect/refract/rSplit/refractScreen"), ("withGlobalShift, withGlobalRotation, withLocalShift, withLocalRotation", "batoid/optic.py")],
     None, ["Optic.trace, traceFull"])

prop("C04", "Surface height follows the documented formula everywhere",
     "For every surface type the sag at (x, y) equals the documented formula for its parameters (plane, tilted plane, paraboloid, sphere, quadric, asphere, annular Zernike series, bicubic table, sum of surfaces). Evaluating arrays of any shape, memory layout or numeric type gives the same values as evaluating point by point.",
     ["inputs", "configurations"], "All parameters in the domain of each surface, all points where the formula is real, all array shapes/layouts/dtypes.",
     "Tests check a handful of parameter ranges and mostly scalar or one-dimensional float input.",
     ["batoid/surface.py", "src/plane.cpp", "src/tilted.cpp", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "src/table.cpp", "src/sum.cpp", "pysrc/surface.cpp"],
     [("sag", "src/*.cpp"), ("Surface.sag", "batoid/surface.py")], None, ["Surface.sag"])

prop("C05", "Surface normals are unit vectors perpendicular to the surface",
     "At every point of every surface the reported normal has length one, a positive z component, and is perpendicular to the surface, i.e. it is proportional to (-dz/dx, -dz/dy, 1) of the sag. (For tilted planes the code reports a different vector; this is a recorded finding.)",
     ["inputs", "configurations"], "All surfaces, parameters, points inside the domain, array shapes.",
     "Tests compare with finite differences at random points for some surfaces; special points (vertex, symmetry axes, cell boundaries) and mixed sums are not covered.",
     ["batoid/surface.py", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "src/table.cpp", "src/sum.cpp", "src/tilted.cpp"],
     [("normal", "src/*.cpp"), ("Surface.normal", "batoid/surface.py")], None, ["Surface.normal"])

prop("C06", "Ray-surface intersection lands on both the ray and the surface",
     "After intersecting, each ray either is marked failed (and vignetted), or lies on the surface, on its original line, with unchanged velocity and with its time advanced by exactly the travel time. If a ray was constructed to meet a surface that the code intersects in closed form at a single point, that point is found, whether the ray starts before, after or on the surface. Rays that cannot meet the surface are marked failed instead of being given a position.",
     ["inputs", "configurations"], "All surfaces, rays (any direction, start point, medium speed), coordinate systems of ray and surface.",
     "Tests aim rays down the axis from one side, and check failure on a few hand-made misses.",
     ["src/plane.cpp", "src/paraboloid.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/surface.cpp", "src/sum.cpp", "src/bicubic.cpp", "src/polynomialSurface.cpp", "src/tilted.cpp", "src/batoid.cpp"],
     [("timeToIntersect", "src/*.cpp"), ("intersect", "src/batoid.cpp")],
     [("failed, vignetted", "per-ray flags", "batoid/rayVector.py")], ["Surface.intersect, RayVector"])

prop("C07", "Reflection obeys the law of reflection",
     "After reflecting, the ray sits where an intersection puts it, its velocity is the incoming velocity mirrored in the local tangent plane (same speed, same tangential part, opposite normal part), and its time, wavelength and flux follow from the travel and the coating. Reflecting twice at the same point restores the velocity.",
     ["inputs", "configurations"], "All surfaces, rays, coordinate systems, coatings.",
     "Tests check a single relation (dot products) for random rays mostly near normal incidence.",
     ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
     [("reflect", "src/batoid.cpp")], None, ["Surface.reflect, Mirror.interact"])

prop("C08", "Refraction obeys Snell's law",
     "After refracting between media of index n1 and n2 (each evaluated at that ray's wavelength), the ray has speed 1/n2, stays in the plane of incidence on the far side of the surface, and n1 sin(i1) = n2 sin(i2); equal indices leave it undeflected. Rays beyond the critical angle end up failed or without a finite velocity, never with a plausible direction. The law holds for rays crossing the surface in either direction.",
     ["inputs", "configurations"], "All surfaces, media (including dispersive), per-ray wavelengths, incidence angles, crossing directions.",
     "Tests check the sine ratio for rays travelling in +z with constant indices; mixed wavelengths, steep angles and both directions on each surface are not covered.",
     ["src/batoid.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py", "src/medium.cpp"],
     [("refract", "src/batoid.cpp"), ("Medium.getN", "src/medium.cpp")], None, ["Surface.refract, RefractiveInterface.interact"])

prop("C09", "Splitting rays and coatings keep account of the flux",
     "Splitting at an interface returns the refracted and the reflected rays that refraction and reflection alone would give, with fluxes multiplied by the coating's transmission and reflection respectively. Passing a coating to intersection or refraction multiplies flux by its transmission, to reflection by its reflection, and nothing else changes. Without a coating flux never changes.",
     ["inputs", "configurations"], "All surfaces, media, coatings, rays including totally reflected and failed ones.",
     "Tests use a few fixed coefficients on one or two surfaces.",
     ["src/batoid.cpp", "src/coating.cpp", "batoid/coating.py", "batoid/trace.py", "batoid/optic.py"],
     [("rSplit and coating handling", "src/batoid.cpp"), ("SimpleCoating", "src/coating.cpp")], [("flux", "per-ray flux", "batoid/rayVector.py")],
     ["Surface.rSplit, intersect/reflect/refract with coating, Coating.getCoefs"])

prop("C10", "Phase screens add their OPD and deflect by its gradient",
     "Crossing an OPD screen adds the screen height at the crossing point to the ray's optical path and changes the tangential direction cosines by the tangential gradient of the screen, keeping the speed and the sense of travel through the surface. A zero or constant screen does not deflect, and rays for which no real direction exists are marked failed.",
     ["inputs", "configurations"], "All intersection surfaces, screens, rays and coordinate systems, both directions of travel.",
     "Tests use planar intersection surfaces and a few wedge/Zernike screens with paraxial rays.",
     ["src/batoid.cpp", "batoid/optic.py", "batoid/trace.py", "src/surface.cpp"],
     [("refractScreen", "src/batoid.cpp"), ("OPDScreen", "batoid/optic.py")], None, ["Surface.refractScreen, OPDScreen.interact"])

prop("C11", "Equivalent descriptions of a surface are interchangeable",
     "Surfaces that describe the same shape behave the same: sphere and quadric with zero conic, paraboloid and quadric with conic -1, quadric and asphere without coefficients, plane and degenerate members of every family, a sum and the single surface with the added parameters, a Zernike or fine bicubic representation of a polynomial and the polynomial itself. Sag, normal, intersection, reflection and refraction agree, as does adding surfaces in any order.",
     ["inputs", "configurations"], "All parameter values of the equivalent pairs, all rays that meet them.",
     "Tests compare a couple of pairs for sag or near-axis rays.",
     ["batoid/surface.py", "src/sphere.cpp", "src/quadric.cpp", "src/paraboloid.cpp", "src/asphere.cpp", "src/sum.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp"],
     [("sag, normal, timeToIntersect of each surface", "src/*.cpp")], None, ["Surface methods"])

prop("C12", "A ray bundle behaves like independent value arrays",
     "Under any sequence of copying, indexing, slicing, propagating, changing coordinate systems, concatenating, obscuring and pickling, a ray bundle holds exactly the per-ray values that a plain array model of these operations predicts. Derived objects own their data: changing a copy, slice or concatenation never changes its source, and the arrays used to construct a bundle are never modified.",
     ["histories"], "All histories of the listed operations over bundles of any size.",
     "Tests exercise each operation in isolation from a freshly built bundle.",
     ["batoid/rayVector.py", "src/rayVector.cpp", "src/dualView.cpp"],
     [("RayVector", "batoid/rayVector.py"), ("propagateInPlace, positionAtTime, ==", "src/rayVector.cpp")],
     [("x..failed, coordSys", "the ray arrays", "batoid/rayVector.py")], ["RayVector public attributes and methods"])

prop("C13", "Ray phases and amplitudes are those of plane waves",
     "The wave vector of a ray points along its velocity with magnitude 2 pi n / wavelength, its phase at (r, t) is k.(r - r0) - omega (t - t0), its amplitude is exp(i phase), and the summed amplitude is the flux-weighted sum over the rays that have not failed and, unless asked otherwise, are not vignetted. In particular the phase is constant along a ray at the time it gets there, so propagating rays changes no phase or amplitude.",
     ["inputs"], "All rays, media, points, times and vignetting patterns.",
     "Tests check a few fixed points with all rays valid.",
     ["batoid/rayVector.py", "src/rayVector.cpp"],
     [("phase, amplitude, sumAmplitude", "src/rayVector.cpp"), ("k, omega", "batoid/rayVector.py")], None, ["RayVector.k, omega, phase, amplitude, sumAmplitude"])

prop("C14", "Ray factories produce the documented bundles",
     "Every ray factory yields rays with the requested wavelength, flux, direction and speed 1/n, starting with zero time on one wavefront that lies the requested distance, along the direction of propagation, before the origin of the rays' coordinate system, whose lines cross the stop surface at exactly the documented sample points (parallelogram grid, fan, hexapolar rings, rings and spokes with quadrature weights, given points, random points inside the region). Values taken from an optic equal passing them explicitly.",
     ["inputs", "configurations"], "All combinations of the geometric arguments, stop surfaces, media, directions and projections.",
     "Tests cover common argument combinations with an axis-aligned planar stop.",
     ["batoid/rayVector.py", "src/batoid.cpp", "batoid/utils.py"],
     [("asGrid, asFan, asPolar, asSpokes, fromStop, fromFieldAngles, _finish", "batoid/rayVector.py"), ("finishParallel", "src/batoid.cpp")], None,
     ["RayVector.asGrid/asFan/asPolar/asSpokes/fromStop/fromFieldAngles"])

prop("C15", "Rays are traced independently of each other and of threading",
     "Tracing a bundle gives each ray the same result it would get alone: splitting, permuting, duplicating or concatenating bundles permutes the results accordingly. The number of threads does not change any result, and repeating a computation reproduces it exactly.",
     ["schedules", "inputs"], "All bundles and partitions, all surface operations, thread counts from one to many.",
     "Tests never compare thread counts and rarely compare different bundlings of the same rays.",
     ["src/batoid.cpp", "src/rayVector.cpp", "batoid/trace.py", "batoid/global_vars.py"],
     [("OpenMP parallel loops", "src/batoid.cpp, src/rayVector.cpp"), ("_batoid_max_threads", "batoid/global_vars.py")], None, ["trace functions, RayVector methods"])

prop("C16", "Failed and vignetted rays stay that way",
     "The failed and vignetted flags only ever go from false to true during tracing: a failed ray is also vignetted, keeps its time, flux and wavelength, and never contributes again. Vignetting never changes the geometry: vignetted rays are traced on exactly as if they were not.",
     ["histories", "inputs"], "All sequences of surface operations and obscurations applied to bundles with any initial flags.",
     "Tests check the flags after single operations.",
     ["src/batoid.cpp", "batoid/trace.py", "batoid/optic.py"],
     [("failed/vignetted handling in each loop", "src/batoid.cpp")], [("failed, vignetted", "per-ray flags", "batoid/rayVector.py")],
     ["RayVector.failed, .vignetted after each operation"])

prop("C17", "Refractive indices follow the documented dispersion formulas",
     "Every medium returns, for any vacuum wavelength in metres, the index given by its documented formula: constant, linear interpolation in its table (and no number outside the table), Sellmeier, Sumita, or the air formula for its pressure, temperature and humidity. Arrays of any shape or type give the same values as single wavelengths, and the shipped glass data load to media that agree with their own tables.",
     ["inputs", "configurations"], "All media parameters, wavelengths, array shapes and dtypes.",
     "Tests compare with a few tabulated values.",
     ["batoid/medium.py", "src/medium.cpp", "pysrc/medium.cpp"],
     [("getN", "src/medium.cpp")], None, ["Medium.getN"])

prop("C18", "Obscurations cover exactly their documented regions",
     "A point is obscured if and only if it lies in the region the obscuration describes: circle, annulus, rotated rectangle, half-infinite ray, polygon, and any nesting of negation, union and intersection. Obscuring rays vignettes exactly those whose local x, y lie in the region, independent of z, velocity and previous state, and the grid and array evaluations agree with the point-wise one.",
     ["inputs", "configurations"], "All obscuration parameters and nestings, all points away from the boundary by more than rounding.",
     "Tests compare each primitive with its formula for random points and do not build deep combinations.",
     ["batoid/obscuration.py", "src/obscuration.cpp", "pysrc/obscuration.cpp"],
     [("contains", "src/obscuration.cpp"), ("obscure", "src/batoid.cpp")], None, ["Obscuration.contains, .obscure, ObscPolygon.containsGrid"])

prop("C19", "Tracing a system equals applying its elements one by one",
     "Tracing rays through any optical system gives the result of an independent element-by-element ray tracer: in order (or backwards if reversed), each not-skipped element acts in its own coordinate system as a mirror, refracting interface with its media, screen or pass-through, and then vignettes by its obscuration. The rays end in the coordinate system of the last element, and are modified in place and returned.",
     ["configurations", "inputs"], "All nested optical systems built from the supported elements, with tilts, decentres, media, obscurations and skips; all rays.",
     "Tests trace a few shipped telescopes and compare against stored results or batoid itself.",
     ["batoid/optic.py", "src/batoid.cpp", "batoid/trace.py"],
     [("Interface.trace, CompoundOptic.trace, interact", "batoid/optic.py")], [("skip, inMedium, outMedium, coordSys, obscuration", "element attributes", "batoid/optic.py")],
     ["Optic.trace"])

prop("C20", "Full and path traces agree with step-by-step tracing",
     "A full trace records, for every element in order, the rays entering and leaving it; each element's input is the previous element's output and the last output equals the plain trace. The input rays are left unmodified. Tracing along an explicit path of names visits those elements in that order, reflecting where the path turns around, and the exported global ray vertices are the recorded positions with the count of points before vignetting.",
     ["configurations", "inputs"], "All nested systems, rays, directions, and valid paths including ghost paths with several reversals.",
     "Tests trace one or two ghost paths of shipped telescopes.",
     ["batoid/optic.py"],
     [("traceFull, trace(path=...)", "batoid/optic.py"), ("getGlobalRays", "batoid/optic.py")], None, ["Optic.traceFull, CompoundOptic.trace(path=)"])

prop("C21", "Split tracing enumerates every path with the right flux",
     "Split tracing returns exactly one bundle for every path of transmissions and reflections through the system whose rays survive vignetting and the flux threshold, each labelled by its path, carrying the geometry of tracing along that path and the product of the coating coefficients along it as flux. Rays leaving forward and backward are returned separately, and no ray below the threshold or vignetted is returned.",
     ["configurations", "inputs"], "All systems of coated interfaces, mirrors and baffles; all rays; thresholds; both directions.",
     "Tests look at total flux and number of paths for one or two systems.",
     ["batoid/optic.py", "batoid/coating.py", "src/batoid.cpp"],
     [("Interface.traceSplit, CompoundOptic.traceSplit", "batoid/optic.py"), ("rSplit of the element classes", "batoid/optic.py")], [("path", "names of the interfaces visited", "batoid/optic.py")],
     ["Optic.traceSplit"])

prop("C22", "Light paths are reversible",
     "Reversing the rays that leave a system of mirrors and refracting surfaces and tracing them backwards returns every ray that was not lost along its original line with reversed direction, with the same optical path length between any two points.",
     ["configurations", "inputs"], "All systems without screens, all rays that get through.",
     "Tests do this for a few shipped telescopes on axis.",
     ["batoid/optic.py", "src/batoid.cpp"],
     [("trace(reverse=True)", "batoid/optic.py")], None, ["Optic.trace"])

prop("C23", "Modifying an optic copies it and changes only what was named",
     "Each with... method returns a new system in which exactly the named element (and everything inside it) is shifted, rotated, perturbed, replaced, inserted before or removed; every other element, attribute and setting keeps its value. The original system is unchanged. This holds after any sequence of modifications and for names given in full or in part. (Inserting or removing below the top level is silently ignored; this is a recorded finding.)",
     ["histories", "configurations"], "All histories of with... calls on nested systems, with names that are prefixes of each other, attached settings, coatings and stop surfaces.",
     "Tests apply single modifications to shipped telescopes.",
     ["batoid/optic.py"],
     [("withGlobalShift, withLocalShift, withGlobalRotation, withLocalRotation, with*Optic, withSurface, withPerturbedSurface, withInsertedOptic, withRemovedOptic", "batoid/optic.py")],
     [("items, coordSys, surface, obscuration, media, coatings, skip, stopSurface", "element attributes", "batoid/optic.py")], ["with... methods, attributes of the results"])

prop("C24", "Elements are found by any unambiguous name",
     "Looking up a full dotted name returns that very element, a partial name returns the element it unambiguously denotes, and unknown or ambiguous partial names raise an error rather than returning another element. The dictionary of all elements lists every element exactly under its full name, and lookups after modifications refer to the modified system.",
     ["configurations", "histories"], "All nested systems with repeated, prefix-related or compound names, before and after modifications.",
     "Tests look up names in shipped telescopes, whose names are nearly all unique.",
     ["batoid/optic.py"],
     [("itemDict, __getitem__, _names", "batoid/optic.py")], None, ["CompoundOptic[...], itemDict"])

prop("C25", "Objects survive pickling, copying and printing, and compare by value",
     "Pickling, deep-copying and evaluating the printed form of any medium, surface, obscuration, coating, coordinate system, transform, ray bundle, lattice or optic yields an equal object that behaves the same. Objects compare equal exactly when their type and defining values are equal, equal objects have equal hashes, and changing any one defining value makes them unequal. (An optic's value is its class, name, coordinate system, media, surface, screen, obscuration and items; printed forms carry eight digits of array entries and the values just named; ray bundles are mutable and not hashable.)",
     ["inputs", "configurations"], "All objects of every public type with any parameters (printed forms up to the digits that are printed).",
     "Tests round-trip a few instances per type and compare fixed unequal examples.",
     ["batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/coating.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/rayVector.py", "batoid/lattice.py", "batoid/optic.py"],
     [("__getstate__/__setstate__, __eq__, __hash__, __repr__", "batoid/*.py")], None, ["pickle, copy, repr, ==, hash"])

prop("C26", "Parsed descriptions equal the systems they describe",
     "Building a system from a description yields the same optic as constructing it by hand: nested coordinate systems accumulate in the written order, media are inherited and overridden as written, lenses put their medium between their surfaces, clear apertures are negated obscurations, and extra attributes are kept. Parsing leaves the description unmodified, and every shipped description loads and traces.",
     ["configurations", "programs"], "All valid descriptions of nested systems, and all shipped data files.",
     "Tests only load shipped files.",
     ["batoid/parse.py", "batoid/optic.py", "batoid/data"],
     [("parse_optic, parse_surface, parse_obscuration, parse_coordSys, parse_medium", "batoid/parse.py"), ("Optic.fromYaml", "batoid/optic.py")], None, ["parse functions, Optic.fromYaml"])

prop("C27", "Sky projections are unit-length, invertible and consistent",
     "Each of the six projections maps field angles to unit direction cosines pointing down, maps zero to straight down with positive components for positive angles, follows its defining geometry, and is inverted by its counterpart. Scalars and arrays of any shape agree, including at the projection centre.",
     ["inputs"], "All field angles in the domain of each projection, scalars and arrays containing the centre.",
     "Tests check round trips for random small angles.",
     ["batoid/utils.py"],
     [("fieldToDirCos, dirCosToField and the projection pairs", "batoid/utils.py")], None, ["fieldToDirCos, dirCosToField, hexapolar"])

prop("C28", "Wavefronts and their Zernike fits measure optical path differences",
     "The wavefront of a system is the optical path difference in waves, on the reference sphere around the chief or mean ray, of the rays of a grid over the pupil, masked exactly where rays are vignetted, on a lattice with the spacing of that grid. The Zernike coefficients by least squares and by quadrature are those of that wavefront: the fit residual is orthogonal to the basis, a wavefront made of known Zernike terms returns those terms, and both methods agree on unobscured pupils.",
     ["configurations", "inputs"], "All focusing systems with a stop, field angles, wavelengths, grid sizes (even and odd), reference choices.",
     "Tests compare a few telescopes with stored Zemax values.",
     ["batoid/analysis.py", "batoid/lattice.py"],
     [("wavefront, zernike, zernikeGQ", "batoid/analysis.py")], None, ["analysis.wavefront, zernike, zernikeGQ"])

prop("C29", "Point spread functions are the intensities of the traced wave",
     "The Huygens PSF at each output point is the squared modulus of the sum of the traced rays' plane waves there, on the requested lattice centred on the chief or mean ray. The FFT PSF is the squared modulus of the Fourier transform of the padded pupil function, so its total obeys Parseval's theorem, and its lattice is reciprocal to the pupil's, so both methods put the same image at the same place.",
     ["configurations", "inputs"], "All focusing systems, field angles, grid sizes (even and odd), padding and output sizes, lattice vectors.",
     "Tests compare the two PSFs for one telescope at one even grid size.",
     ["batoid/analysis.py", "batoid/lattice.py", "src/rayVector.cpp"],
     [("huygensPSF, fftPSF, _reciprocalLatticeVectors", "batoid/analysis.py"), ("sumAmplitude", "src/rayVector.cpp")], None, ["analysis.huygensPSF, fftPSF"])

prop("C30", "Lattice coordinates follow the documented centring",
     "The coordinates of every lattice point are the combination of the primitive vectors with integer offsets counted from the central element (half the size, rounded down) in every dimension, for any number of dimensions and any mix of even and odd sizes. Wrong numbers of primitive vectors are rejected.",
     ["inputs"], "All shapes in one to several dimensions, all primitive vectors.",
     "Tests check a few square shapes.",
     ["batoid/lattice.py", "batoid/analysis.py"],
     [("primitiveToLattice, Lattice.coords", "batoid/lattice.py")], None, ["Lattice.coords"])

prop("C31", "First-order optical quantities are the derivatives they claim to be",
     "The derivative of focal-plane position with respect to field angle equals the finite difference of traced spot centroids and is inverse to the derivative of field angle with respect to position; the focal length is the square root of its determinant; the pupil-to-wavevector derivative is the least-squares linear map of the traced rays; the exit pupil is where the traced chief rays cross the optic axis, and the spot diagram lists the unvignetted rays relative to the chosen reference.",
     ["configurations", "inputs"], "All focusing systems with a stop, field angles, projections, wavelengths, references.",
     "Tests check consistency for shipped telescopes at fixed fields.",
     ["batoid/analysis.py", "batoid/utils.py"],
     [("drdth, dthdr, dkdu, focalLength, exitPupilPos, spot", "batoid/analysis.py"), ("bilinear_fit", "batoid/utils.py")], None, ["analysis.drdth, dthdr, dkdu, focalLength, exitPupilPos, spot"])

prop("C32", "Transverse and double Zernike analyses reproduce their definitions",
     "The transverse-aberration Zernike analyses are the least-squares fits of the traced ray displacements, relative to the chosen reference, to the Zernike basis or its gradients over the pupil. The double Zernike coefficients are the field-Zernike projections of the pupil Zernike coefficients: they reproduce the pupil coefficients at any field point when enough terms are used.",
     ["configurations", "inputs"], "All focusing systems with a stop, field radii, numbers of terms, annular fractions, references.",
     "Tests compare one telescope with itself at a few points.",
     ["batoid/analysis.py"],
     [("zernikeTA, zernikeXYAberrations, doubleZernike", "batoid/analysis.py")], None, ["analysis.zernikeTA, zernikeXYAberrations, doubleZernike"])

prop("C33", "Inputs are never modified and results never alias them",
     "Apart from the ray bundle that a documented in-place operation works on, no call changes any argument or object handed to it: arrays, lists, surfaces, media, coordinate systems, optics, descriptions and rays given to full tracing keep their values (plain and split tracing work in place on their rays). Later changes to arrays used to construct an object do not change the object, and analysis results for a system do not depend on what was computed with it before.",
     ["histories", "inputs"], "All public constructors, factories, surface operations, tracing and analysis calls, in any order on shared objects.",
     "Tests rarely look at inputs after a call.",
     ["batoid/rayVector.py", "batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/optic.py", "batoid/analysis.py", "batoid/utils.py"],
     [("copies in constructors", "batoid/*.py"), ("rv.copy() before tracing", "batoid/optic.py, batoid/analysis.py")], None, ["arguments and objects before and after calls"])

prop("C34", "Drawn outlines lie on the optics they depict",
     "The points that an optic hands to a 2D or 3D plot, and the slices and meshes it returns, lie on that optic's surface in global coordinates, between its inner and outer radius and along the documented sections. Drawn ray paths consist of the traced ray positions in global coordinates and stop where the ray is vignetted.",
     ["configurations", "inputs"], "All interfaces with circular or annular apertures, coordinate systems, nested systems, and traced rays.",
     "Tests only check that drawing does not raise.",
     ["batoid/optic.py"],
     [("draw3d, draw2d, getXZSlice, get3dmesh, drawTrace2d, drawTrace3d, getGlobalRays", "batoid/optic.py")], None, ["calls received by a recording axis object"])

prop("C35", "The Rubin app shows sky, telescope and rays as its controls say",
     "After any sequence of control changes the app is consistent: altitude/azimuth and right ascension/declination are the same direction at the sidereal time of the shown Julian date, changing one control changes only what follows from it, the telescope points in that direction, and everything drawn (stars, constellations, telescope mesh, elevation bearings, coordinate axes, focal plane outlines, rays, spot diagram, wavefront image) is that of the current state, shown exactly when switched on. The conversions between horizontal and equatorial coordinates are mutually inverse for any place and time.",
     ["histories", "inputs"], "All sequences of control events (ra, dec, alt, az, Julian date, rotator, field angle, detector offset, perturbation, switches) and all directions, places and times.",
     "No test imports the app.",
     ["batoid/app.py"],
     [("lst, eq_to_az, az_to_eq", "batoid/app.py"), ("RubinCSApp.handle_*, update_*", "batoid/app.py")],
     [("ra, dec, alt, az, jd, rtp, thx, thy, z_offset, show_*", "values of the controls", "batoid/app.py")], ["values of the controls, coordinates and visibility of the scatters, spot and wavefront images"])

prop("C36", "Zernike pyramid plots show every coefficient in its place",
     "A Zernike pyramid has exactly one plot per coefficient, titled with its Noll index, below the plots of lower radial order and at a horizontal position proportional to its azimuthal order; it shows the given values at the given positions with the requested colour limits (divided by the radial order unless asked otherwise), map and marker size. A given figure is drawn on and returned, the callback sees all plots, and the inputs are left unmodified. (The plots always include the second order, Noll indices 4 and 5.)",
     ["inputs"], "All ranges of Noll indices that include 4 and 5, any number of points, any limits, sizes, figures and callbacks.",
     "Tests draw two figures and look at neither.",
     ["batoid/plotUtils.py"],
     [("zernikePyramid", "batoid/plotUtils.py")], None, ["the returned figure's axes and collections"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
