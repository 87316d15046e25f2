#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": ["src/" + f for f in files], "state": state or [],
              "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}})

add("C01", "NURBS curve evaluation equals the rational B-spline definition",
 "For every degree from 1 up, every clamped non-decreasing knot vector given over any range (it is rescaled to [0,1]), positive weights and control points, evaluating the curve at any parameter in [0,1] (ends and knots included) gives the point of the textbook rational B-spline, so it starts and ends at the first and last control points. The helper that makes uniform knots yields equally spaced clamped knots and the one that makes equal weights yields weight 1 for every control point. The knot-span lookup returns the non-empty span holding the parameter (the last one at 1, and the end spans for values outside [0,1]).",
 ["inputs", "configurations"], "all degrees, knot vectors with repeated interior knots, positive weights, control points and parameters, and all orders of the setter calls on new or reused curve objects",
 "The tests evaluate a handful of hand-made curves (segments, circle arcs) at degrees 1 to 3 with simple knots.",
 ["NurbsCurve.cpp", "NurbsFactory.cpp"], [("de Boor recursion", "NurbsCurve::evaluate"), ("knot rescaling and span search", "NurbsCurve::set_knots, find_knot_span")], ["NurbsCurve::evaluate", "NurbsCurve::find_knot_span"])

add("C02", "Refining a NURBS curve never changes its shape",
 "Any sequence of knot insertions at parameters strictly between 0 and 1 (where the knot is still repeated less often than the degree) and degree elevations (offered for degrees 1 and 2; refused without change from degree 3) leaves the point at every parameter unchanged, for every clamped curve with positive weights and interior knots of multiplicity at most its degree. Each insertion adds exactly that knot and one control point, and each elevation raises the degree and every distinct knot's multiplicity by one, leaving a consistent definition that can be refined further.",
 ["inputs", "histories"], "all curves in the stated domain and all sequences of refinements",
 "Tests insert one or two knots and elevate simple curves once; mixed sequences, repeated knots and rational curves are not reached.",
 ["NurbsCurve.cpp"], [("Boehm knot insertion in homogeneous coordinates", "NurbsCurve::insert_knot"), ("direct degree elevation", "NurbsCurve::degree_elevation")], ["NurbsCurve::insert_knot", "NurbsCurve::degree_elevation", "NurbsCurve::evaluate"])

add("C03", "NURBS surface evaluation equals the tensor-product rational definition",
 "For all degrees from 1 up in each direction, clamped knot vectors, positive weights and control grids of any (different) sizes, evaluating the surface at (u,v) in [0,1]x[0,1] gives the tensor-product rational B-spline point, with u running fastest in the control grid; corners interpolate the corner control points. Uniform-knot and equal-weight helpers give equally spaced clamped knots and weight 1 everywhere whatever the surface held before, and transforming a surface or a solid moves every evaluated point by that affine map.",
 ["inputs", "configurations"], "all degrees, grid sizes, knots, weights, control points, parameters and affine transforms",
 "Tests evaluate a few small surfaces, mostly square and with equal degrees.",
 ["NurbsSurface.cpp", "NurbsSolid.cpp"], [("tensor de Boor", "NurbsSurface::evaluate"), ("control point transform", "NurbsSurface::apply_transform")], ["NurbsSurface::evaluate"])

add("C04", "Refining a NURBS surface in u or v never changes its shape",
 "Any sequence of knot insertions at parameters strictly between 0 and 1 (where the knot is still repeated less often than the degree) and degree elevations (degrees 1 and 2) in either direction leaves every evaluated point of the surface unchanged, for grids of any sizes, degrees from 1 up, positive weights and interior knots of multiplicity at most the degree. Only the refined direction's degree, knots and control point count change.",
 ["inputs", "histories"], "all surfaces in the stated domain and all interleavings of u and v refinements",
 "Tests refine single small surfaces once.",
 ["NurbsSurface.cpp", "NurbsCurve.cpp"], [("iso-curve extraction and reassembly", "NurbsSurface::create_u_curves .. from_v_curves")], ["NurbsSurface::insert_knot_u/v", "NurbsSurface::degree_elevation_u/v"])

add("C05", "Extrude, ruled and revolve build exactly the swept surface",
 "Extruding a curve C by d gives C(u)+v*d, ruling two compatible curves gives (1-v)C1(u)+v*C2(u) for curves with equal weights (for rational curves: the same in homogeneous coordinates), and revolving a profile gives at every v the exact circle through C(v) about the z axis, starting at the profile point with a full clockwise turn (seen from +z). The result is marked closed along a direction exactly when its first and last rows coincide by construction (closed input curves, full turn), whatever the output surface held before.",
 ["inputs"], "all valid input curves (any degree, rational or not, open or closed), directions and previous content of the output object",
 "Tests build one or two surfaces of each kind and mostly save them.",
 ["NurbsExtrude.cpp", "NurbsRuled.cpp", "NurbsRevolve.cpp"], [("two-row surface", "NurbsExtrude::extrude, NurbsRuled::create_ruled"), ("9-point rational circle per control point", "NurbsRevolve::revolve")], ["NurbsSurface::evaluate", "NurbsSurface::is_closed_u/v"])

add("C06", "NURBS primitives lie on their shape; solids are closed and face outward",
 "For all positive sizes, every point of the NURBS circle, disk, sphere, torus, cylinder, box, triangle and quad primitives lies on the analytic shape of the requested dimensions and the whole shape is covered. Meshing the box, cylinder, sphere and torus solids gives a watertight surface once coincident vertices are merged, oriented outward, with a volume that converges to the analytic one. Two primitives made in one object leave only the last one.",
 ["inputs"], "all positive radii, heights and sizes and all parameters",
 "Tests build each primitive with one size and save it.",
 ["NurbsFactory.cpp", "NurbsUtil.cpp"], [("hand-written control nets", "NurbsFactory")], ["NurbsSurface::evaluate", "NurbsUtil::to_mesh"])

add("C07", "Sampling NURBS to polylines and meshes samples the whole shape",
 "A curve's polyline starts at parameter 0, ends exactly at the curve's end, and its points follow the curve in order with even parameter steps; a surface's mesh is the regular grid of surface points over the full parameter square, joined into quads without gaps or overlaps, wrapping onto the first row or column where the surface is marked closed. Appending keeps the mesh's earlier content, meshing a solid appends all its surfaces, turning a mesh into NURBS gives one flat patch per existing triangle, and the control mesh and height-field surfaces have the given control points, for any grid sizes.",
 ["inputs", "configurations"], "all curves, surfaces, segment counts, closed flags and grid sizes, square or not",
 "Tests only mesh a few surfaces with default segments.",
 ["NurbsUtil.cpp", "NurbsCurve.cpp"], [("grid sampling", "NurbsUtil::to_mesh"), ("polyline sampling", "NurbsCurve::to_polyline"), ("height field", "NurbsUtil::create_from_z")], ["NurbsUtil", "NurbsCurve::to_polyline"])

add("C08", "A mesh behaves as an indexed list of vertices and triangles",
 "After any sequence of adding and moving vertices, adding, removing and flipping triangles, appending other meshes (or itself) and clearing, every vertex and triangle read back equals what a plain list model holds, with ids assigned in order of creation. Removing a triangle marks only that one removed, appending a mesh appends its vertices and its existing triangles re-based, and neighbour queries never name a triangle that does not share the edge (naming none is a valid answer). Both complete triangle storage kernels (linked triangles and TIN) give the same answers for the same calls.",
 ["histories"], "all sequences of container operations with valid ids",
 "Tests run short fixed sequences on one kernel and look at counts.",
 ["Mesh.cpp", "MeshKernelLinkedTriangles.cpp", "MeshKernelTIN.cpp"], [("vertex and triangle arrays", "MeshKernelLinkedTriangles, MeshKernelTIN"), ("append", "Mesh::add_mesh")], ["Mesh", "MeshKernel"])

add("C09", "Local mesh edits keep the surface, its area and its orientation",
 "Splitting a triangle at an inner vertex replaces it by three triangles covering it with the same orientation, splitting an edge shared by two triangles replaces them by four covering both, and flipping a triangle reverses it; quads and pentagons become two and three triangles covering the polygon with its orientation. All other triangles stay as they were, a closed mesh stays closed, and edits can be chained in any order.",
 ["inputs", "histories"], "all meshes, triangles, split positions and sequences of edits",
 "Tests check triangle counts of one or two edits.",
 ["Mesh.cpp"], [("triangle and edge splits", "Mesh::split_triangle_with_vertex, split_edge_with_vertex"), ("flip, quads, pentagons", "Mesh::flip_triangle, add_quad, add_pentagon")], ["Mesh"])

add("C10", "Copies are complete, independent and release their memory",
 "Copying or assigning a mesh, face, solid, smooth mesh, NURBS curve, surface or solid gives an object with the same content (as far as it can be read back); later changes to either one never show in the other, assignment replaces the previous content, and self-assignment changes nothing. Adding an object's own parts to it, or giving it its own data back, works as with copies of them. Building, copying, assigning and destroying these objects in any order returns all their memory.",
 ["histories"], "all sequences of construction, copy, assignment, mutation and destruction",
 "Tests never compare copies after mutating, never self-assign and cannot see leaks.",
 ["Mesh.cpp", "Face.cpp", "Solid.cpp", "SmoothMesh.cpp", "NurbsSolid.cpp"], [("copy constructors and assignment operators", "Mesh, Face, Solid, SmoothMesh")], ["Mesh", "Face", "Solid", "SmoothMesh", "NurbsSolid"])

add("C11", "Factory meshes are closed, outward, on their shape and of the right size",
 "For all positive sizes and all segment counts from 1 up, the tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, spheres and torus meshes are watertight and consistently oriented outward once coincident vertices are merged, and have no degenerate triangle. Every vertex lies on the requested shape, the volumes of box, platonic solids and prisms equal their closed formulas, and those of cylinders, spheres and torus approach the analytic volume as segments grow.",
 ["inputs"], "all sizes and segment counts",
 "Tests build each shape once and check a few measurements.",
 ["MeshFactory.cpp"], [("shape generators", "MeshFactory")], ["MeshFactory", "MeshMeasurements"])

add("C12", "Mesh measurements agree with their geometric definitions",
 "For every mesh, surface is the summed triangle area and volume the signed enclosed volume of its existing triangles; on closed meshes the volume does not depend on position, flips sign with orientation and scales cubically. The checks for isolated vertices, duplicated vertices, short edges, degenerate triangles, outward orientation and closedness answer as their definitions say, ignoring removed triangles, and the overall clean check is their conjunction.",
 ["inputs"], "all meshes, with removed triangles, isolated and duplicated vertices",
 "Tests measure a few factory shapes.",
 ["MeshMeasurements.cpp"], [("sums and scans over triangles", "MeshMeasurements")], ["MeshMeasurements"])

add("C13", "Vertex merging and cleanup never change the surface",
 "Merging vertices joins each vertex with one within the tolerance and never with a farther one (when clusters are separated), keeps every existing triangle in order, referring to the merged vertices; coincident vertices of a split-up closed mesh become a closed mesh again. Removing empty triangles removes exactly those with two corners closer than the tolerance. Running either twice changes nothing more.",
 ["inputs"], "all meshes with vertex clusters and all tolerances",
 "Tests merge a couple of fixed meshes and compare counts.",
 ["MeshUtil.cpp"], [("vertex clustering", "MeshUtil::merge_vertices"), ("cleanup", "MeshUtil::remove_empty_triangles")], ["MeshUtil"])

add("C14", "Tessellation refines every triangle without moving the surface",
 "Tessellating a mesh with n segments (n from 1 up) yields n*n triangles for every existing triangle, together covering exactly that triangle with its orientation and without gap or overlap, so area and volume are kept and a closed mesh stays closed. The input is not modified and earlier content of the output is replaced.",
 ["inputs"], "all meshes and segment counts",
 "Tests tessellate a fixed shape.",
 ["MeshTessellate.cpp"], [("barycentric grid", "MeshTessellate::compute")], ["MeshTessellate::compute"])

add("C15", "Boolean splitting sorts the triangles of two meshes without loss",
 "Splitting two meshes against each other gives pieces that together cover exactly the surface of each input, with its orientation and area; the triangles of one mesh that do not touch the other stay whole. The inputs are not modified and earlier content of the outputs does not matter.",
 ["inputs"], "all pairs of meshes, disjoint, touching or crossing",
 "Tests split one pair of shapes and save the result.",
 ["MeshBoolean.cpp", "Mesh.cpp"], [("triangle splitting by planes", "Mesh::split_triangle, MeshBoolean::split_meshes")], ["MeshBoolean::split_meshes"])

add("C16", "Curved triangle patches follow their Bezier definition",
 "A quadratic rational Bezier triangle evaluates to its Bernstein form for all control points and positive weights (interpolating its corners, and flat with straight mid control points), the Bernstein helpers are the Bernstein polynomials, and meshing a patch with n segments gives n*n triangles covering the whole patch with the orientation of its corners. Smooth factory solids are closed and outward for all positive sizes, their flat ones equal the flat shapes and the sphere stays within its patch accuracy of the radius; transforming a patch or smooth mesh transforms the points it evaluates to. A cubic patch given corners and normals has the control points of the point-normal triangle.",
 ["inputs"], "all control points, positive weights, parameters, segment counts, sizes and transforms",
 "Tests evaluate one patch and save the factory shapes.",
 ["QuadBezierTriangle.cpp", "BezierUtil.cpp", "SmoothMesh.cpp", "SmoothMeshFactory.cpp"], [("Bernstein form", "QuadBezierTriangle::eval"), ("patch grid", "QuadBezierTriangle::add_to_mesh"), ("octant patches", "SmoothMeshFactory")], ["QuadBezierTriangle", "SmoothMesh", "SmoothMeshFactory"])

add("C17", "Transforms are the maps they name; rotations agree and preserve shape",
 "Translation, scale and every rotation form (angle-axis, matrix, quaternion, Euler angles) act as the stated map on all points; rotations preserve lengths, angles and orientation, leave their axis fixed, compose and invert correctly, and the angle-axis, matrix and quaternion forms of one rotation agree with each other, for all unit axes and angles in degrees; rotations and scales that were never set are the identity. Euler angles turn by yaw about y, then pitch about x, then roll about z. Applying a transform to a list of points, a mesh, a surface or a solid applies it to each point once and to nothing else.",
 ["inputs"], "all angles, axes, points and transforms",
 "Tests rotate a few points by special angles about coordinate axes.",
 ["Transform.cpp", "Mesh.cpp", "NurbsSurface.cpp", "NurbsSolid.cpp"], [("rotation matrices", "RotationMatrix, RotationQuaternion, RotationEulerAngles"), ("bulk application", "Transform::apply_all, Mesh::apply_transform")], ["Transform"])

add("C18", "Geometric predicates and constructions give the exact answer away from ties",
 "For all segments, triangles, planes and lines, the intersection, containment, cutting and projection operations return true exactly when exact arithmetic says so (cases within rounding of a tie, and parallel or degenerate ones, excepted), and the point or line they return lies on both operands. Two segments are intersected in a common plane, containment in a triangle is asked for points of its plane, and segments meet planes strictly between their ends. Plane distances are signed by the side, projection lands on the plane along its normal, and triangle area and normal follow the right-hand rule.",
 ["inputs"], "all generic and integer-coordinate configurations of points, segments, triangles and planes",
 "Tests try a few hand-placed configurations.",
 ["Geometry.cpp"], [("segment, triangle and plane predicates", "Segment3, Triangle3, Plane3")], ["Segment3", "Triangle3", "Plane3"])

add("C19", "Vector algebra, bounding boxes and random axes obey their laws",
 "Point operations satisfy the laws of vector algebra for all finite coordinates whose squares neither overflow nor underflow (in-place and pure forms agree, products have their defining identities, normalising gives unit length along the same direction). Two bounding boxes intersect exactly when their point sets' coordinate ranges overlap on all three axes (touching counts) and an empty box intersects nothing. A random axis is a unit vector, the same for the same seed, and axes of different seeds spread over the sphere.",
 ["inputs"], "all points, sets of points and seeds",
 "Tests check single sums and products.",
 ["Geometry.cpp", "GeometryUtil.cpp"], [("operators", "Point3"), ("interval overlap", "BoundingBox3"), ("axis generator", "GeometryUtil::compute_random_axis")], ["Point3", "BoundingBox3", "GeometryUtil"])

add("C20", "OBJ files read back as the mesh that was written",
 "Saving any mesh to OBJ and loading it gives the same vertices in order (to the six significant digits written) and the same existing triangles in order and orientation; a mesh that has a colour is written with it on every vertex; loading replaces what the target mesh held. A writer that puts several meshes and polylines in one file gives each its own valid one-based vertex references, complete lines, and starts numbering afresh for every opened file. Loading accepts polygons of three or more corners given as v, v/t, v//n or v/t/n references and negative (relative) references are resolved or refused, never misread; references to vertices that do not exist are refused. None of this depends on the program's locale.",
 ["inputs", "histories"], "all meshes (with removed triangles), sequences of writes to one file, and face syntaxes",
 "Tests write fixed shapes and compare sizes after reload.",
 ["OBJFile.cpp"], [("text writer and line parser", "OBJWriter, OBJFile::load")], ["OBJFile", "OBJWriter"])

add("C21", "STL files read back as the triangles that were written",
 "Saving any mesh to STL writes a well-formed binary file (80-byte header, exact facet count, 50 bytes per existing triangle, facet normal zero or the right-hand unit normal) and loading it gives the same triangles in order and orientation with coordinates rounded to single precision. Loading replaces what the target mesh held, whatever that was, and saving and loading again is stable.",
 ["inputs"], "all meshes, with removed and degenerate triangles",
 "Tests save one shape and reload it once.",
 ["STLFile.cpp"], [("binary facet records", "STLFile::save, STLFile::load")], ["STLFile"])

add("C22", "BMP files read back as the image that was written",
 "Writing any image of 1, 3 or 4 planes and any width and height from 1 up gives a well-formed BMP (sizes, offsets and row padding as the format says, colour channels and row order right), and reading it back gives the same size and pixels (4-plane images lose only the fourth plane). Reading replaces what the target image held, and any well-formed 8-bit grey, 24-bit or 32-bit uncompressed bottom-up BMP, whatever its header length and pixel offset, is read with the right pixels.",
 ["inputs"], "all image sizes (row paddings 0 to 3), plane counts and pixel values",
 "Tests write and read one or two images of round sizes.",
 ["ImageIoBmp.cpp", "Image.h"], [("headers and row padding", "ImageIoBmp::write, ImageIoBmp::read")], ["ImageIoBmp"])

add("C23", "Loading any file is safe: it is read or refused, never a crash",
 "Loading an arbitrary byte sequence, a truncated or corrupted file, a missing file or a directory with the STL, OBJ and BMP loaders never crashes, hangs, reads or writes out of bounds or asks for memory far beyond the file's size. They return failure for files that are truncated or inconsistent with their header, and after a success the result is a valid object whose triangles only reference existing vertices and data read from the file.",
 ["inputs", "fault_sequences"], "all byte sequences, and all truncations and byte corruptions of valid files",
 "Tests only load files the library has just written.",
 ["STLFile.cpp", "OBJFile.cpp", "ImageIoBmp.cpp"], [("input checks", "STLFile::load, OBJFile::load, ImageIoBmp::read")], ["STLFile::load", "OBJFile::load", "ImageIoBmp::read"])

add("C24", "Saving reports success only when the whole file was written",
 "When saving a mesh to STL or OBJ or an image to BMP returns success, the file on disk is complete and reads back; when the target cannot be opened or the disk fills up at any byte, or the image has a number of planes the format cannot hold, saving returns failure (an image without pixels may be refused). A failed or repeated save never crashes and never modifies the object being saved.",
 ["fault_sequences", "crash_points"], "all meshes and images and a write failure at any byte offset",
 "Tests only write to a healthy disk and seldom look at the result.",
 ["STLFile.cpp", "OBJFile.cpp", "ImageIoBmp.cpp"], [("stream state", "STLFile::save, OBJFile::save, ImageIoBmp::write")], ["STLFile::save", "OBJFile::save", "ImageIoBmp::write"])

add("C25", "STEP output is a well-formed file describing exactly the given surfaces",
 "Writing any sequence of NURBS surfaces and solids and closing gives one well-formed STEP exchange file: header and data sections opened and closed once, every entity id defined once, every reference resolved and to the kind of entity its place is for, every surface on one face that is reached once (shell, solid, shape) from the product's shape. Reading the surfaces back from it gives the same degrees, control points in order, knots with their multiplicities, weights and closed flags (numbers to the six digits written), one surface per written surface in the same order, whatever the program's locale.",
 ["inputs", "histories"], "all valid surfaces, rational or not, with repeated knots, and all sequences of writes and reopenings",
 "Tests write files and never parse them.",
 ["StepFile.cpp"], [("entity writer", "StepWriter::write")], ["StepWriter"])

add("C26", "Rendering never writes outside the image and leaves the rest untouched",
 "Drawing meshes, triangles, lines, polylines and pixels with any camera, any finite geometry (in front of, across, at or behind the camera, far off screen, degenerate) and any image size never reads or writes outside the pixel buffer, takes a time bounded by the image size, and only changes pixels within two pixels of the drawn shape. Clearing sets every pixel to the background colour, and geometry wholly behind the camera or outside the view changes nothing.",
 ["inputs", "histories"], "all scenes, cameras, image sizes and drawing sequences",
 "Tests render a few shapes placed in view.",
 ["Renderer.cpp", "RendererCamera.cpp"], [("clipping and scan conversion", "Renderer::draw_trapeze, draw_line, draw_pixel")], ["Renderer", "pixel buffer"])

add("C27", "The nearest surface wins in the rendered image, whatever the order",
 "For triangles in front of the camera, every pixel well inside (two pixels or more) a projected visible triangle shows the colour of the nearest one at that pixel, and pixels outside all of them keep the background; drawing the same opaque triangles in any order gives the same image where depths differ. Triangles seen from behind are not drawn unless two-sided drawing is asked for, and the returned visibility says whether a face was drawn facing the camera. Lines and polylines are drawn along their projection and are hidden by nearer triangles, and so are the three edges of each drawn triangle when a mesh is drawn with its edges, and only then.",
 ["inputs", "histories"], "all sets of triangles in view and all drawing orders",
 "Tests look at one rendered picture by eye.",
 ["Renderer.cpp"], [("1/z depth buffer", "Renderer::draw_horizontal_line")], ["pixel buffer"])

add("C28", "Projection and lighting follow the camera and light definitions",
 "A point in front of the camera is drawn at the pixel given by the pinhole projection for the camera's position, look-ahead, yaw, pitch, roll and zoom, nearer points having greater inverse depth, so that rotating camera and scene together changes nothing. Shading is the sum of the ambient and diffuse terms (diffuse proportional to the cosine between normal and light direction, never negative, and to the length of the direction given), applied per colour channel of the given colour, or of the mesh's own, and saturated to its range (white when no colour is given; black without any light, each colour channel counting as a fraction of 256). Pixels and lines keep the colour given.",
 ["inputs", "configurations"], "all camera settings, points, light sets, normals and colours",
 "Tests use one camera and one light.",
 ["RendererCamera.cpp", "RendererLight.cpp", "Renderer.cpp"], [("camera transform", "RendererCamera::local_ref, project"), ("light terms", "RendererLight::apply")], ["RendererCamera::project", "Renderer::draw_pixel", "Renderer::draw_triangle_1color"])

add("C29", "Image operations and height fields treat every pixel, for any size",
 "Pixel access addresses each (x, y, plane) separately; conversion to grey gives one plane with the average of the colour planes, scaling multiplies and saturates to 0..255, conversion to numbers (row by row) and the generated Sierpinsky and Mandelbrot images cover every pixel, for all sizes including non-square and empty ones. Height-field and grid meshes have one vertex per sample at its place and two triangles per cell, all facing up, so an image's height field shows each pixel at its own coordinates.",
 ["inputs"], "all image sizes, plane counts, pixel values and scales",
 "Tests use square images of one size.",
 ["Image.h", "ImageUtil.cpp", "ImageGenerator.cpp", "MeshUtil.cpp"], [("pixel loops", "Image, ImageUtil, ImageGenerator"), ("grid meshing", "MeshUtil::create_from_z, create_from_grid")], ["Image", "ImageUtil", "MeshUtil"])

add("C30", "Results never depend on what the output object held before",
 "Every operation that fills an output mesh, curve, surface, solid, smooth mesh, image or list gives the same result whether the object is new or was used for anything before (a mesh keeps the display colour set on it), and never alters its inputs. Repeating any operation with the same inputs gives the identical result, whatever was asked for in between and in whatever order, and operations on separate objects (renderers and file writers included) do not affect each other, also when they run in several threads at the same time. Clearing a mesh, smooth mesh, curve, surface or solid leaves it as empty and as good as a new one.",
 ["histories"], "all operations with output parameters, after any history of the output object",
 "Tests use a new object for every call.",
 ["MeshFactory.cpp", "NurbsFactory.cpp", "SmoothMeshFactory.cpp", "NurbsExtrude.cpp", "NurbsUtil.cpp", "MeshUtil.cpp"], [("clearing of outputs", "clear() at the start of each producer")], ["all producers"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
