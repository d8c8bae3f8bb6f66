#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand, results committed)"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files.split(), mech=mech, note=note, na=na, observe=observe))


W = "tinygfx/g3d/world_objects.py"
PR = "tinygfx/g3d/primitives.py"
OPS = "tinygfx/g3d/operations.py"
CSG = "tinygfx/g3d/csg.py"
REN = "tinygfx/g3d/renderers.py"
GO = "tinygfx/g3d/materials/gooch.py"
MAT = "pyrayt/materials.py"
RT = "pyrayt/_pyrayt.py"
COMP = "pyrayt/components.py"
UT = "pyrayt/utils.py"

prop("C01", "Ray/solid intersections are exactly the part of the ray inside the solid",
     """For every sphere, cuboid, cylinder and paraboloid, wherever it is moved, rotated or scaled, and every ray, the two
     reported distances delimit exactly the part of the ray's line that lies inside the solid, in the units of the ray's direction
     vector. Both are reported as infinite when the line misses the solid, distances behind the origin are reported as negative
     numbers, and every reported surface identity is that solid's.""",
     "inputs configurations",
     """every solid size 0.05..20, ray origin within +-10, direction components zero or 0.001..2 in size, and placement among
     none, move, scale 0.25..4, one rotation by any angle, and listed sequences""",
     """The tests fire a handful of axis-parallel rays at unit shapes; wrong roots, wrong clipping by caps or wrong coordinates
     only show for particular oblique rays.""",
     f"{PR} {W} {OPS}",
     [("quadratic roots of the sphere, cylinder and paraboloid", f"{PR}: Sphere.intersect, Cylinder.intersect, Paraboloid.intersect"),
      ("slab method of the cuboid", f"{PR}: Cube.intersect"), ("change to object coordinates", f"{W}: TracerSurface.intersect")])
prop("C02", "A bounded plane is hit exactly where the ray crosses its rectangle",
     """For every rectangular plane of any width and length under any placement, and every ray not parallel to it, the ray hits it
     exactly when the point where the line crosses the plane lies within the rectangle, and the distance leads to that point.
     Rays parallel to the plane never hit it.""",
     "inputs configurations", "as for the solids: widths and lengths 0.05..20, any ray origin, direction and placement",
     "The tests use a few rays; skew rays, rectangular (not square) planes and rotated planes are not sampled.",
     f"{PR} {W}", [("boundary clipping and plane hit", f"{PR}: Plane.intersect")])
prop("C03", "Surface normals are unit length, perpendicular and outward",
     """At every point of the surface of a sphere, cuboid, cylinder, paraboloid or plane, under any move, rotation and (also
     non-uniform) scale, the reported normal is a unit vector perpendicular to the surface there, and for a closed solid it points
     outward. Inverting the normals negates it exactly and resetting restores it.""",
     "inputs configurations", "every surface point away from the edges, every size 0.05..20, every listed placement",
     "The tests look at a few points of unit shapes; normals under non-uniform scale followed by rotation are not sampled.",
     f"{PR} {W}", [("object space normals", f"{PR}: normal() of each primitive"), ("transposed inverse transform", f"{W}: get_world_normals")])
prop("C04", "World transforms compose, and the object transform is always their inverse",
     """After any sequence of moves, rotations, scales and explicit transforms an object's world transform is the product of the
     individual maps in the order of the calls, the position and the orientation are the images of the origin and of the z-axis (the
     latter normalised), and object coordinates are the inverse image of world coordinates. Matrices handed out are copies: changing
     them does not change the object.""",
     "inputs histories", "sequences of up to four moves, scales and rotations with any arguments, arbitrary invertible affine matrices, and points within +-10",
     "The tests check single calls with a few numbers; order, composition and stale caches need arbitrary sequences.",
     f"{W}", [("matrix bookkeeping", f"{W}: WorldObject._append_world_transform, _world_matrix_update_handler")])
prop("C05", "Bounding boxes hold all of a solid or composite, wherever its parts go",
     """The axis-aligned bounding box that a sphere, cuboid, cylinder, paraboloid, plane or CSG composite reports holds every point of it. This stays
     true after any sequence of moves, rotations and scales of the object, of a composite's parts and of the parts' parts, in any order.""",
     "inputs configurations histories", "every listed solid and placement, composites up to two deep with up to three moves of parts and whole, any sizes and positions",
     "The tests look at a few boxes; missing corners and stale boxes need particular shapes, rotations and histories of moves.",
     f"{W} {CSG} {PR}", [("boxes of solids", f"{W}: TracerSurface; {PR}: bounding_points"), ("boxes of composites", f"{CSG}: CSGSurface")])
prop("C06", "Ray hits of a CSG composite delimit exactly the boolean combination",
     """For every ray, the finite hits that a union, intersection or difference reports, in ascending order, are the alternating entries and exits of
     exactly the set combination of its parts, with infinity for the remaining places; a ray that misses the combination gets infinities only. This holds
     however the parts lie to each other (apart, touching, overlapping, enclosed), for composites of composites, in front of and behind the ray's origin, and for
     each ray of a batch.""",
     "inputs configurations", "two to four solids nested up to three deep in any position, one or two rays along axes and listed oblique directions from anywhere",
     "The tests combine two spheres or cubes in a few positions; order of hits, ties, enclosure and culling depend on all of them.",
     f"{CSG} {PR} {W}", [("merging sorted hits", f"{CSG}: array_csg"), ("culling, sorting and scattering", f"{CSG}: CSGSurface.intersect")])
prop("C07", "CSG hits name the right part, with normals pointing out of the composite",
     """Every finite hit of a composite names the part on whose surface it lies, one of those the composite lists (each part once, with its own id). The named
     part's normal there points out of the composite - also where material was cut away and in nested differences - or into it after the
     composite's normals were inverted an odd number of times since the last reset.""",
     "inputs configurations histories", "composites of up to three parts nested up to two deep, any positions, rays along x, up to three inversions and resets",
     "The tests check hits, hardly the surfaces and normals that go with them; nesting and inversion histories are not sampled.",
     f"{CSG} {W}", [("surface bookkeeping", f"{CSG}: CSGSurface.intersect, surface_ids"), ("normal inversion", f"{CSG}: CSGSurface.invert_normals, reset_normals")])
prop("C08", "A moved CSG composite moves rigidly with all its parts",
     """Moving, rotating or scaling a composite moves each of its parts, however deep, by that same map, so a ray moved along with it hits the same part at the same
     distances. When its parts are moved instead, before, between or after moves of the whole, the hits are those of the combination of the
     parts where they now are.""",
     "inputs configurations histories", "composites of two or three parts, up to three moves, rotations, scales of parts and whole, any ray origin",
     "The tests move one composite once; stale bounding boxes and parts left behind need histories of moves.",
     f"{CSG} {W}", [("moving the parts", f"{CSG}: CSGSurface._append_world_transform"), ("notifying the composite", f"{W}: Intersectable.attach_to")])
prop("C09", "Reflection follows the law of reflection",
     """Reflecting any vector off any unit normal keeps its length and its tangential component and reverses its component along the
     normal, for one vector, many vectors with one normal, and many vectors with many normals alike. Reflecting twice restores the
     vector and the sign of the normal does not matter.""",
     "inputs", "any vectors within +-10 and any unit normals, all three call forms",
     "The tests reflect a few axis-parallel vectors.", f"{OPS}", [("vector reflection", f"{OPS}: reflect")])
prop("C10", "Refraction obeys Snell's law with total internal reflection",
     """For any direction, unit normal and indices, the refracted direction is a unit vector in the plane of incidence satisfying
     Snell's law, on the far side of the surface, and the index returned is the entered medium's (the surrounding medium's when the
     ray leaves along the normal). When Snell's law has no solution the ray is reflected specularly and keeps its index, and
     the arrays passed in are not modified.""",
     "inputs", "any direction of length 0.1..10, any unit normal, indices 0.5..5, one or two rays at a time",
     "The tests refract a few angles; the critical angle, the normal flip and mixed batches are not covered.",
     f"{OPS}", [("vector form of Snell's law", f"{OPS}: refract")])
prop("C11", "Materials turn rays as mirrors, absorbers and dielectrics should",
     """A mirror reflects a ray about the surface normal, an absorber stops it, and a dielectric refracts it using the ray's current
     index and the material's index at the ray's own wavelength; position, wavelength, generation, intensity and identity are left
     alone, and only refraction changes the ray's index. This holds for every ray of a batch independently.""",
     "inputs configurations", "any ray, surface normal, index and wavelength; batches of two rays",
     "The tests use one or two rays per material with fixed wavelengths.",
     f"{MAT} {OPS}", [("trace() of each material", f"{MAT}: _ReflectingMaterial, _AbsorbingMaterial, BasicRefractor, SellmeierRefractor")])
prop("C15", "A pinned block gives every object its placement back",
     """Whatever moves, rotations and scales happen inside a pin block, on leaving it - normally or by an exception - every pinned
     object, with all members of a pinned group and all parts of a pinned composite, has the world and object transforms and the position
     it had at the block's start, and is hit by the same rays. Objects that are not pinned keep what the block did to them, and
     blocks can be nested or used again. (Objects pinned together are not parts of one another.)""",
     "inputs histories", "objects of every kind, up to three moves, rotations and scales before and inside the block",
     "The tests pin one object with one move; members, composites, exceptions, nesting and reuse are histories.",
     f"{UT} {W} {CSG}", [("saving and restoring", f"{UT}: pin"), ("moving members and parts", f"{W}: ObjectGroup; {CSG}: CSGSurface")])
prop("C17", "Each ray source emits its documented pattern, placed and tuned as asked",
     """Line, circle, cone and wedge sources emit exactly the requested number of rays with the documented starts and directions
     (evenly spread over spacing, diameter or angle), mapped by the source's placement, with unit directions, the source's wavelength, full
     intensity, vacuum index, generation zero and distinct ids. Every call answers from the present placement and wavelength and hands out rays
     independent of those handed out before or by other sources.""",
     "inputs configurations histories", "one to five rays, any spacing, angle, wavelength and placement",
     "The tests look at one default source each; other counts, angles, placements and repeated calls are not covered.",
     f"{COMP}", [("patterns", f"{COMP}: LineOfRays, CircleOfRays, ConeOfRays, WedgeOfRays"), ("placement and normalisation", f"{COMP}: Source.generate_rays")])
prop("C18", "Lamps emit from their rectangle into their cone with Lambert intensity",
     """Every ray of a lamp starts on the lamp's rectangle (width along y, length along z), uniformly over it, has a unit direction
     within the maximum angle of the lamp's axis, uniformly over that solid angle, and an intensity of 100 times the cosine of its angle to the axis,
     all in the frame of the lamp's rigid placement, whatever the random draws. A static lamp asked again for the same number of rays repeats its
     sample, following the lamp's present placement and wavelength; different counts and lamps have samples of their own.""",
     "inputs configurations histories", "any draw in [0,1), any width, length and maximum angle up to 90 degrees, moves and rotations",
     "The tests sample a few draws; bounds must hold for all of them, and caching is a matter of histories.",
     f"{COMP}", [("random starts and directions", f"{COMP}: Lamp"), ("cache of samples", f"{COMP}: StaticLamp")])
prop("C22", "Glass indices, Abbe numbers and the catalogue follow the Sellmeier equation",
     """The index of a glass at every wavelength is the square root given by the Sellmeier equation with its coefficients, for a
     number and for each element of an array, and a basic material's index is constant. The Abbe number is (nd-1)/(nF-nC) at the
     Fraunhofer lines, and every catalogue glass has its published coefficients.""",
     "inputs configurations", "any coefficients in the physical range and wavelengths 0.3..2.5 um; every glass of the catalogue",
     "The tests check a few glasses at single wavelengths.", f"{MAT}", [("Sellmeier equation", f"{MAT}: SellmeierRefractor.index_at")])
prop("C23", "Wavelength colours are continuous, in range and clipped",
     """For every wavelength the colour returned has its red, green and blue between 0 and 1, without jumps, and equals the piecewise
     linear interpolation between the spectral colours raised to gamma; wavelengths outside 0.38-0.75 um get the colour of the nearest limit. A float gives the same
     colour as an array holding it, and each colour depends on its own wavelength only.""",
     "inputs", "every wavelength 0.2..1.2 um, gamma 0.3..3, arrays of one to three",
     "The tests sample a few wavelengths.", f"{UT}", [("piecewise interpolation", f"{UT}: wavelength_to_rgb")])
prop("C24", "The lensmaker's equation gives the thick-lens focal length",
     """For all radii (also infinite), thicknesses and indices for which a focal length exists, the value returned is the paraxial
     focal length of the thick lens in air. Exchanging and negating the radii (turning the lens round) does not change it.""",
     "inputs", "radii 0.01..1000 of either sign or infinite, thickness 0..50, index 1.01..4", "The test checks one lens.", f"{UT}",
     [("lensmaker's formula", f"{UT}: lensmakers_equation")])
prop("C25", "Quadratic root helpers and row-wise dot products are exact",
     """The two-root solver returns both real roots of every quadratic (the single root of a linear one) and infinities when there
     is none, and the smallest-positive-root solver returns the smallest root that is not negative, or infinity. The element-wise
     dot product equals the column (or row) dot products for every shape.""",
     "inputs", "coefficients within +-10, exactly zero or not close to zero", "The tests solve a few polynomials.",
     f"{OPS}", [("root formulas", f"{OPS}: binomial_root, smallest_positive_root, element_wise_dot")])
prop("C27", "Gooch shading blends warm to cool by the angle to the light",
     """For every surface point, normal and light the shaded colour is the documented blend between the warm and the cool colour,
     weighted by (1+cosine)/2 of the angle between the normal and the direction to the light (averaged over several lights); the
     built-in materials keep every channel between 0 and 1. It depends on its own point and normal only, whatever else is in the batch.""",
     "inputs configurations", "any point within +-10, unit normal, light position, one or two points and lights",
     "The tests shade one or two points.", f"{GO}", [("warm-cool blend", f"{GO}: GoochMaterial.shade")])
prop("C28", "Ray sets keep their fields separate and their slices consistent",
     """Writing one field of a ray set (rays, generation, intensity, wavelength, index or id) changes that field only, and reading
     returns what was written; a new set has the documented defaults. Copies are independent, and masks and concatenations keep every
     ray's position, direction and metadata together.""",
     "inputs histories", "sets of 1..3 rays, every field, any values, every mask", "The tests write a few constants.",
     f"{RT}", [("views into one array", f"{RT}: RaySet")])
prop("C29", "Two-dimensional disks and rectangles contain exactly their points",
     """A disk contains exactly the points at most its radius from the origin, and a rectangle exactly the points within half its
     lengths along each axis, for one point and for each of many points. A disk made from a diameter has half of it as radius.""",
     "inputs", "any point within +-20 and any size 0.05..20, one to three points", "The tests sample a few points.",
     f"{PR}", [("point tests", f"{PR}: Disk.point_in_shape, Rectangle.point_in_shape")])

prop("C26", "Rendered images show the nearest object in front of each pixel",
     """A camera has one ray per pixel, from its place in the frame along the camera axis, wherever the camera is moved, turned or scaled.
     A shaded image shows for every pixel the surface met first ahead of the camera at its hit point and is clear where nothing is
     ahead; an edge image inks the pixels next to a change of visible surface. The draw function shows each object, flat ones too, from outside in its own place of the frame.""",
     "inputs configurations", "images of one to 25 pixels, any camera placement, one or two objects at any position, and any list of distances an object can report",
     "The tests check only the shape of a rendered image.",
     f"{REN}", [("camera rays", f"{W}: OrthographicCamera.generate_rays"), ("nearest visible surface", f"{REN}: ShadedRenderer._st_propagate, EdgeRender._st_propagate"), ("outlines", f"{REN}: EdgeRender._st_interact"), ("views", f"{REN}: draw")])

prop("C30", "Rays are treated one by one, and what is passed in is left alone",
     """A ray gets the same hits, surfaces, normals, reflection, refraction and material interaction in a batch as alone, whatever the other
     rays of the batch are. Intersection, normals, reflection and refraction leave the arrays passed to them unchanged and give the same answer when asked again.
     Sources traced together give each ray the segments it has when its source is traced by itself, and tracing again gives the same result.""",
     "inputs histories", "batches of two or three rays mixing special and arbitrary directions; every primitive, composites, an aperture and a prism; mirror and glass systems",
     "The tests use batches of equal or axis-parallel rays; leaks between columns need a special ray next to an ordinary one.",
     f"{PR} {OPS} {CSG} {W} {MAT} {RT}", [("intersection per column", f"{PR}: every intersect"), ("hits put back by mask", f"{CSG}: CSGSurface.intersect"), ("tracer masks", f"{RT}: RayTracer._st_interact")])

prop("C12", "Each traced ray ends on the nearest surface ahead of it",
     """For every ray and every set of components in any order, the traced segment starts at the ray's origin and ends on the nearest
     surface strictly ahead of it, and names that surface. Surfaces behind the ray never count, a ray with nothing ahead gets no
     segment, and each ray of a batch gets its own result whatever the others hit.""",
     "inputs configurations", """one to three rays with any origin within +-10 along listed directions; one to four planes, spheres, cuboids or composites of any
     size and position, in any order""",
     "The tests trace axis-parallel rays at one or two components; which of several surfaces wins depends on their arrangement.",
     f"{RT}", [("minimum over components and hits", f"{RT}: RayTracer._st_propagate")])
prop("C13", "Rays chain from surface to surface and end exactly when they should",
     """Every row of a trace starts where the ray's previous row ended (displaced along the new direction by the tracer's ray offset), in the
     direction and with the intensity, wavelength and index the previous surface's material gave it, under the same ray id and the next
     generation number from 0 on. A ray has no further row exactly when it was absorbed, meets nothing, its intensity fell below the
     tracer's threshold, or it has had as many rows as the generation limit allows.""",
     "inputs configurations histories", """one to three rays, up to three planes or a sphere (mirrors, absorbers, refractors, user materials that
     change intensity or wavelength) at any position; generation limits 1..4""",
     "The tests count rows of a few systems; mixing up rays when some of them end, or a limit off by one, needs particular arrangements.",
     f"{RT}", [("interaction and bookkeeping", f"{RT}: RayTracer._st_interact, _RayTraceDataframe.insert"), ("material interaction", f"{MAT}: trace")])
prop("C14", "A trace depends only on the current system, not on what was run before",
     """Whatever was traced, reset, moved, retuned or loaded before, a trace of deterministic sources gives the rows a new tracer with
     the same sources, components, ray count and generation limit would give, and it changes neither sources and components nor tables
     returned earlier. Every ray has an id of its own, counted source by source, and the source id is the position of the
     source that emitted it; the components can be read back as they were loaded.""",
     "inputs histories", "one to three sources, up to three planes, sequences of up to four calls (trace, reset, counts, limits, components, moves, a second tracer)",
     "The tests run each tracer once.", f"{RT}",
     [("run initialisation", f"{RT}: RayTracer.reset, _st_initialize, load_components, calculate_source_ids")])

prop("C16", "Transforming a group transforms exactly its current members, each alike",
     """Moving, rotating or scaling a group applies the same map to the group and to every object currently in it, to any depth of groups
     within groups, after each member's own earlier transforms. Objects added later, removed before, or not in the group stay where they
     are, and transforming a single member affects that member alone; members keep the order of the list they are in. What members
     do follows: a source emits from where its group took it, and a solid is hit there.""",
     "inputs histories", """listed histories of up to seven steps (add, remove, move, scale 0.25..4, rotate about an axis by any angle) on groups of up to
     three levels holding solids, composites, sources and cameras; points within +-10; no object twice in one group""",
     "The tests move a group of fixed objects once; members with earlier transforms, nested groups and changes of membership in between are not sampled.",
     f"{W} {CSG} {COMP}", [("group transforms", f"{W}: ObjectGroup"), ("single object transforms", f"{W}: WorldObject")])

prop("C19", "A lens fills exactly the space between its two surfaces within its aperture",
     """A thick, biconvex or plano-convex lens, for any radii of curvature of either documented sign or infinite, thickness and circular,
     rectangular or elliptical aperture, is hit by rays exactly where they enter and leave the space within the aperture between its
     first surface (vertex at minus half the thickness on the x axis) and second surface (vertex at plus half). All its surfaces are
     made of the lens's material and their normals point outward.""",
     "inputs configurations", """apertures 0.2..2, thicknesses 0.05..2, radii 4..40 (any where one surface is curved, listed pairs or one of them any where both are);
     rays along the optical axis through any point, and oblique rays for listed lenses""",
     "The tests trace a few symmetric lenses with one circular aperture; unequal radii, planar sides, rectangular and elliptical apertures are not sampled.",
     f"{COMP} {CSG}", [("lens builders", f"{COMP}: thick_lens, biconvex_lens, plano_convex_lens, _lens_full_thickness"), ("aperture shapes and orientation", f"{COMP}: _create_aperture, _lens")])
prop("C20", "A mirror has the documented shape, and exactly its mirror surface reflects",
     """Plane, spherical and parabolic mirrors of any radius or focal length, thickness, aperture and off-axis displacement are hit by rays exactly where
     they enter and leave the space within the aperture between the mirror surface and the back: a plane at x=0, a sphere through the origin
     centred at (r,0,0), a paraboloid with its focus at the origin. The back and the sides of curved mirrors absorb and the front is made of the mirror's material,
     with normals such that rays along the axis of a parabolic mirror go through its focus.""",
     "inputs configurations", """apertures 0.2..2 (circle, rectangle, ellipse), radii 4..40 or infinite, focal lengths 0.5..20, thicknesses 0.05..2 (plane: also 0), displacements within 1
     (listed ones for curved mirrors); rays along the axis through any point, oblique rays for listed mirrors""",
     "No test builds a mirror component.", f"{COMP} {CSG}", [("mirror builders", f"{COMP}: plane_mirror, spherical_mirror, parabolic_mirror, _mirror"), ("zero-thickness cuboid", f"{PR}: Cube.intersect")])
prop("C21", "Prisms, baffles and apertures have the documented shape",
     """An equilateral prism is hit by rays exactly where they enter and leave the triangular bar of its side length and width, centred at the origin with its
     base parallel to the XY plane, its width along y and its apex up, and is made of its material. A baffle stops rays exactly within its aperture shape in the YZ plane,
     and an aperture stops rays exactly within its size but outside its opening, for circles, rectangles and ellipses alike.""",
     "inputs configurations", "sides and widths 0.1..5, sizes 0.2..2, any ray origin within +-5, listed ray directions",
     "No test builds these components.", f"{COMP} {CSG}", [("builders", f"{COMP}: equilateral_prism, baffle, aperture, _create_aperture")])

prop("C31", "A plotted trace shows every segment where it was traced",
     """Showing a tracer draws the components and, once it has traced, one arrow for every row of its table and no other: from the segment's start to its end, in the chosen
     view (x against y, or x against z) and in the units of the axis. Arrows coloured by wavelength have the colour of their row's wavelength; coloured by source,
     all rays of one source share a colour that differs from the other sources'. Showing changes no results, and nothing is left to show after a reset.""",
     "inputs histories", "one to three sources of one or two rays from anywhere within +-6, any wavelengths, a mirror and an absorber, generation limits 1 to 3, both views, every colouring",
     "No test shows a trace.", f"{RT} {UT} {REN}", [("arrows of the rows", f"{RT}: RayTracer.show"), ("colours", f"{UT}: wavelength_to_rgb")])
prop("C32", "Points, vectors, rays and colours keep their components apart",
     """A point has the components it was given and a fourth of one, a vector a fourth of zero, and a colour is opaque unless said otherwise. Writing one component, by name or position,
     or one half of a ray changes that alone, in that object alone. Normalising a point or vector gives its first three components unit length in the same direction, and each ray of a bundle
     is the column of its number.""",
     "inputs", "any components within +-20, vectors to normalise at least 0.1 long, bundles of one to three rays, points, vectors and rays under listed placements",
     "The tests read a few constants back.", f"{PR} tinygfx/g3d/materials/color.py", [("coordinates", f"{PR}: HomogeneousCoordinate, Point, Vector, Ray, bundle_of_rays, bundle_rays"), ("colours", "tinygfx/g3d/materials/color.py: RGBAColor")])

LEVEL = "model_checking"
NOTE = ("Solver verdict over all real values within the stated bounds, on the code executed symbolically from /repo's current source; "
        "arithmetic is exact real arithmetic, so effects of floating-point rounding are outside; the numpy shim is validated against "
        "real numpy by replaying solver models on the untouched code.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"./run.py {p['id']} --tier quick", thorough_cmd=f"./run.py {p['id']} --tier thorough",
                           technique="symbolic execution of the Python source, SMT (z3, nonlinear real arithmetic)", level=LEVEL,
                           level_note=p["note"] or NOTE))
    m = dict(version=1, setup_cmd="./run.py --selftest", checks=checks,
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
             notes="No hooks in /repo: the checks load the unmodified source with a numpy stand-in whose numbers are symbolic.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
