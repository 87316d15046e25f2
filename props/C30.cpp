// C30: results never depend on what the output held before, inputs stay as they are, operations repeat identically and do not disturb other objects.
#include <memory>
#include <functional>
#include <sstream>
#include <fstream>
#include "MeshFactory.h"
#include "StepFile.h"
#include "Renderer.h"
#include "nurbs_common.hpp"
#include "transform_common.hpp"
#include "mesh_common.hpp"
#include "bmp_common.hpp"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
#include "NurbsExtrude.h"
#include "NurbsRevolve.h"
#include "NurbsRuled.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "QuadBezierTriangle.h"
#include "MeshUtil.h"
#include "MeshBoolean.h"
#include "MeshTessellate.h"
#include "MeshMeasurements.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "GeometryUtil.h"
#include "STLFile.h"
#include "OBJFile.h"
#include <thread>
#include <atomic>
#include <chrono>
enum Kind { MESH, CURVE, SURFACE, SOLID, SMOOTH, IMAGE, POINTS, NUMBERS, SPLIT, NKINDS };
static const char* kindName[] = {"mesh", "curve", "surface", "solid", "smooth mesh", "image", "points", "numbers", "split meshes"};
struct Obj { Mesh m; NurbsCurve c; NurbsSurface s; NurbsSolid so; SmoothMesh sm; Image im; vector<Point3> pl; vector<double> d; Mesh b[4]; };
// ---- full observable state, bit exact ----
struct Ser { string t; void d(double x) { char b[40]; snprintf(b, sizeof b, "%a ", x); t += b; } void p(const Point3& q) { d(q.x()); d(q.y()); d(q.z()); t += "; "; } void i(long v) { t += to_string(v) + " "; } void nl() { t += "\n"; } };
static void ser(Ser& o, const Mesh& m) { MeshState s = state_of(m); o.t += "mesh "; o.i(s.v.size()); o.nl(); for (auto& p : s.v) { o.p(p); o.nl(); } map<int, int> id{{-1, -1}}; for (size_t i = 0; i < s.t.size(); i++) if (!s.un[i]) { int k = (int)id.size() - 1; id[(int)i] = k; } for (size_t i = 0; i < s.t.size(); i++) if (!s.un[i]) { o.i(s.t[i].a); o.i(s.t[i].b); o.i(s.t[i].c); int a, b, c; m.get_near_triangles((int)i, a, b, c); multiset<int> n; for (int k : {a, b, c}) n.insert(id.count(k) ? id[k] : -99); for (int k : n) o.i(k); o.nl(); } }
static void ser(Ser& o, const NurbsCurve& c) { o.t += "curve "; o.i(c.degree()); o.i(c.nb_points()); o.nl(); for (double k : c.knots()) o.d(k); o.nl(); for (double k : c.weights()) o.d(k); o.nl(); for (auto& p : c.points()) o.p(p); o.nl(); if (c.nb_points() > 0) { o.i(c.is_closed()); for (double u : {0., 0.3, 0.5, 1.}) { Point3 p; c.evaluate(u, p); o.p(p); } o.nl(); } }
static void ser(Ser& o, const NurbsSurface& c) { o.t += "surface "; o.i(c.degree_u()); o.i(c.degree_v()); o.i(c.nb_points_u()); o.i(c.nb_points_v()); o.i(c.is_closed_u()); o.i(c.is_closed_v()); o.nl(); for (double k : c.knots_u()) o.d(k); o.nl(); for (double k : c.knots_v()) o.d(k); o.nl(); for (double k : c.weights()) o.d(k); o.nl(); for (auto& p : c.points()) o.p(p); o.nl(); if (!c.points().empty()) { for (double u : {0., 0.3, 1.}) for (double v : {0., 0.6, 1.}) { Point3 p; c.evaluate(u, v, p); o.p(p); } o.nl(); } }
static void ser(Ser& o, const NurbsSolid& c) { o.t += "solid "; o.i(c.surfaces().size()); o.nl(); for (auto& s : c.surfaces()) ser(o, s); }
static void ser(Ser& o, const SmoothMesh& c) { o.t += "smooth "; o.i(c.nb_triangles()); o.nl(); for (int i = 0; i < c.nb_triangles(); i++) { for (int a = 0; a <= 3; a++) for (int b = 0; b + a <= 3; b++) o.p(c.triangle(i).eval(a / 3., b / 3.)); o.nl(); } }
static void ser(Ser& o, const Image& c) { o.t += "image "; o.i(c.width()); o.i(c.height()); o.i(c.planes()); o.nl(); for (auto b : bytes_of(c)) o.i(b); o.nl(); }
static string ser(const Obj& x, int kind)
{
    Ser o; switch (kind) { case MESH: ser(o, x.m); break; case CURVE: ser(o, x.c); break; case SURFACE: ser(o, x.s); break; case SOLID: ser(o, x.so); break; case SMOOTH: ser(o, x.sm); break; case IMAGE: ser(o, x.im); break; case POINTS: for (auto& p : x.pl) { o.p(p); o.nl(); } break; case NUMBERS: for (double p : x.d) { o.d(p); o.nl(); } break; default: for (auto& m : x.b) ser(o, m); } return o.t;
}
static string diff(const string& a, const string& b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t l0 = a.rfind('\n', i ? i - 1 : 0); l0 = l0 == string::npos || i == 0 ? 0 : l0 + 1; auto line = [&](const string& s) { size_t e = s.find('\n', l0); return s.substr(min(l0, s.size()), min<size_t>(160, e == string::npos ? 160 : e - l0)); }; return "'" + line(b) + "' instead of '" + line(a) + "'";
}
static void gen_curve_obj(pbt::Source& s, NurbsCurve& c) { if (s.chance(1, 4)) NurbsFactory::create_circle(s.uniform(0.5, 3), c); else gen_curve(s, c, 1, 4, 4, 0); }
struct Op { string name; int kind; function<bool(Obj&)> run; function<string()> inputs = [] { return string(); }; };
template <class T> static function<string()> watch(shared_ptr<T> p) { return [p] { Ser o; ser(o, *p); return o.t; }; }
static Op gen_op(pbt::Source& s, pbt::Ctx& c, int kind)
{
    Op o; o.kind = kind; double r = s.uniform(0.3, 4), q = s.uniform(0.1, 2), t = s.uniform(0.5, 2); int n = s.irange(1, 4);
    auto surf = [&]() { auto p = make_shared<NurbsSurface>(); gen_surface(s, *p, 1, 3, 2, 0); if (s.boolean()) p->set_closed_u(s.boolean()); if (s.boolean()) p->set_closed_v(s.boolean()); return p; };
    auto mesh = [&]() { auto p = make_shared<Mesh>(); if (s.boolean()) gen_closed(s, *p); else gen_open(s, *p); unlink_some(s, *p); return p; };
    auto solid = [&]() { auto p = make_shared<NurbsSolid>(); switch (s.choice(4)) { case 0: NurbsFactory::create_box(r, q, t, *p); break; case 1: NurbsFactory::create_cylinder(r, q, *p); break; case 2: NurbsFactory::create_sphere(r, *p); break; default: NurbsFactory::create_torus(r + q, q, *p); } return p; };
    auto image = [&]() { auto p = make_shared<Image>(s.irange(1, 9), s.irange(1, 9), s.pick({1, 3, 4})); fill(s, *p); return p; };
    auto grid = [&](int& w, int& h) { w = s.irange(4, 7); h = s.irange(4, 7); auto p = make_shared<vector<double>>(); for (int i = 0; i < w * h; i++) p->push_back(s.real(-2, 2)); return p; };
#define IS(NAME, ...) { o.name = NAME; o.run = [=](Obj& x) -> bool { __VA_ARGS__; return true; }; break; }
#define ISR(NAME, E) { o.name = NAME; o.run = [=](Obj& x) -> bool { return E; }; break; }
    switch (kind) {
    case MESH: switch (s.choice(19)) {
        case 0: IS("MeshFactory::create_tetrahedron", MeshFactory::create_tetrahedron(r, x.m)) case 1: IS("MeshFactory::create_box", MeshFactory::create_box(r, q, t, x.m)) case 2: IS("MeshFactory::create_octahedron", MeshFactory::create_octahedron(r, x.m)) case 3: IS("MeshFactory::create_dodecahedron", MeshFactory::create_dodecahedron(r, x.m)) case 4: IS("MeshFactory::create_icosahedron", MeshFactory::create_icosahedron(r, x.m))
        case 5: IS("MeshFactory::create_cylinder", MeshFactory::create_cylinder(r, q, n + 2, x.m)) case 6: IS("MeshFactory::create_sphere_geodesic", MeshFactory::create_sphere_geodesic(r, n, x.m)) case 7: IS("MeshFactory::create_sphere_uv", MeshFactory::create_sphere_uv(r, n, x.m)) case 8: IS("MeshFactory::create_torus", MeshFactory::create_torus(r + q, q, n, x.m))
        case 9: { auto p = surf(); o.inputs = watch(p); IS("NurbsUtil::to_mesh(surface)", NurbsUtil::to_mesh(*p, x.m, n)) } case 10: { auto p = solid(); o.inputs = watch(p); IS("NurbsUtil::to_mesh(solid)", NurbsUtil::to_mesh(*p, x.m, n)) } case 11: { auto p = surf(); o.inputs = watch(p); IS("NurbsUtil::to_controlpoints_mesh", NurbsUtil::to_controlpoints_mesh(*p, x.m)) }
        case 12: { int w, h; auto p = grid(w, h); o.inputs = [p] { Ser a; for (double d : *p) a.d(d); return a.t; }; IS("MeshUtil::create_from_z", MeshUtil::create_from_z(*p, w, h, x.m)) } case 13: { int w, h; auto p = grid(w, h); auto v = make_shared<vector<Point3>>(); for (double d : *p) v->push_back(Point3(d, d * 2, r)); o.inputs = [v] { Ser a; for (auto& d : *v) a.p(d); return a.t; }; IS("MeshUtil::create_from_grid", MeshUtil::create_from_grid(*v, w, h, x.m)) }
        case 14: { auto p = mesh(); o.inputs = watch(p); IS("MeshTessellate::compute", MeshTessellate mt; mt.compute(*p, n, x.m)) } case 15: { auto p = mesh(); o.inputs = watch(p); IS("mesh assignment", x.m = *p) }
        case 16: case 17: { auto p = mesh(); bool stl = s.boolean(); string f = c.scratch + pbt::fmt("in%llu.%s", (unsigned long long)s.choice(1000), stl ? "stl" : "obj"); o.inputs = watch(p); if (stl) STLFile::save(f, *p); else OBJFile::save(f, *p); if (stl) ISR("STLFile::load", STLFile::load(f, x.m)) else ISR("OBJFile::load", OBJFile::load(f, x.m)) }
        default: { auto p = mesh(); o.inputs = watch(p); IS("merge_vertices of a copy", x.m = *p; MeshUtil::merge_vertices(x.m, 0.01)) } } break;
    case CURVE: switch (s.choice(3)) { case 0: { auto p = make_shared<vector<Point3>>(gen_points(s, s.irange(5, 9), 3)); o.inputs = [p] { Ser a; for (auto& d : *p) a.p(d); return a.t; }; IS("create_curve_from_points", NurbsFactory::create_curve_from_points(*p, n, x.c)) } case 1: IS("create_circle", NurbsFactory::create_circle(r, x.c)) default: { auto p = make_shared<NurbsCurve>(); gen_curve_obj(s, *p); o.inputs = watch(p); IS("curve assignment", x.c = *p) } } break;
    case SURFACE: switch (s.choice(10)) {
        case 0: IS("NurbsFactory::create_triangle", NurbsFactory::create_triangle(Point3(r, 0, 0), Point3(q, t, 0), Point3(0, 0, t), x.s)) case 1: IS("NurbsFactory::create_quad", NurbsFactory::create_quad(Point3(r, 0, 0), Point3(q, t, 0), Point3(0, 0, t), Point3(-1, -r, q), x.s)) case 2: IS("NurbsFactory::create_disk", NurbsFactory::create_disk(r, x.s)) case 3: IS("NurbsFactory::create_sphere", NurbsFactory::create_sphere(r, x.s)) case 4: IS("NurbsFactory::create_torus", NurbsFactory::create_torus(r + q, q, x.s))
        case 5: { auto p = make_shared<NurbsCurve>(); gen_curve_obj(s, *p); o.inputs = watch(p); ISR("NurbsExtrude::extrude", NurbsExtrude().extrude(*p, Point3(q, r, t), x.s)) } case 6: { auto p = make_shared<NurbsCurve>(); gen_curve_obj(s, *p); o.inputs = watch(p); ISR("NurbsRevolve::revolve", NurbsRevolve().revolve(*p, x.s)) }
        case 7: { auto p = make_shared<NurbsCurve>(); gen_curve_obj(s, *p); auto p2 = make_shared<NurbsCurve>(); { *p2 = *p; for (auto& v : p2->points()) v += Point3(q, r, t); } auto w1 = watch(p), w2 = watch(p2); o.inputs = [=] { return w1() + w2(); }; ISR("NurbsRuled::create_ruled", NurbsRuled().create_ruled(*p, *p2, x.s)) }
        case 8: { int w, h; auto p = grid(w, h); o.inputs = [p] { Ser a; for (double d : *p) a.d(d); return a.t; }; IS("NurbsUtil::create_from_z", NurbsUtil::create_from_z(*p, w, h, min(n, 3), x.s)) } default: { auto p = surf(); o.inputs = watch(p); IS("surface assignment", x.s = *p) } } break;
    case SOLID: switch (s.choice(6)) { case 0: IS("NurbsFactory::create_box", NurbsFactory::create_box(r, q, t, x.so)) case 1: IS("NurbsFactory::create_cylinder", NurbsFactory::create_cylinder(r, q, x.so)) case 2: IS("NurbsFactory::create_sphere(solid)", NurbsFactory::create_sphere(r, x.so)) case 3: IS("NurbsFactory::create_torus(solid)", NurbsFactory::create_torus(r + q, q, x.so)) case 4: { auto p = mesh(); o.inputs = watch(p); IS("NurbsUtil::create_from_mesh", NurbsUtil::create_from_mesh(*p, x.so)) } default: { auto p = solid(); o.inputs = watch(p); IS("solid assignment", x.so = *p) } } break;
    case SMOOTH: switch (s.choice(7)) { case 0: IS("SmoothMeshFactory::create_tetrahedron", SmoothMeshFactory::create_tetrahedron(r, x.sm)) case 1: IS("SmoothMeshFactory::create_box", SmoothMeshFactory::create_box(r, q, t, x.sm)) case 2: IS("SmoothMeshFactory::create_octahedron", SmoothMeshFactory::create_octahedron(r, x.sm)) case 3: IS("SmoothMeshFactory::create_dodecahedron", SmoothMeshFactory::create_dodecahedron(r, x.sm)) case 4: IS("SmoothMeshFactory::create_icosahedron", SmoothMeshFactory::create_icosahedron(r, x.sm)) case 5: IS("SmoothMeshFactory::create_sphere", SmoothMeshFactory::create_sphere(r, x.sm))
        default: { auto p = make_shared<SmoothMesh>(); SmoothMeshFactory::create_box(r, q, t, *p); o.inputs = watch(p); IS("smooth mesh assignment", x.sm = *p) } } break;
    case IMAGE: switch (s.choice(5)) { case 0: { auto p = image(); o.inputs = watch(p); IS("ImageUtil::convert_to_bw", ImageUtil::convert_to_bw(*p, x.im)) } case 1: IS("ImageGenerator::Shierpinsky", ImageGenerator::Shierpinsky(x.im, n + 3, n * 2)) case 2: IS("ImageGenerator::Mandelbrot", ImageGenerator::Mandelbrot(x.im, n + 3, n * 2, 30)) case 3: { auto p = image(); string f = c.scratch + pbt::fmt("i%llu.bmp", (unsigned long long)s.choice(1000)); ImageIoBmp::write(f, p.get()); o.inputs = watch(p); ISR("ImageIoBmp::read", ImageIoBmp::read(f, &x.im)) } default: { auto p = image(); o.inputs = watch(p); IS("image assignment", x.im = *p) } } break;
    case POINTS: { auto p = make_shared<NurbsCurve>(); gen_curve_obj(s, *p); o.inputs = watch(p); IS("NurbsCurve::to_polyline", p->to_polyline(x.pl)) }
    case NUMBERS: { auto p = image(); o.inputs = watch(p); IS("Image::to_double", p->to_double(x.d)) }
    default: { auto a = make_shared<Mesh>(), b = make_shared<Mesh>(); gen_closed(s, *a); if (s.boolean()) gen_closed(s, *b); else { *b = *a; Translation tr(Point3(q, r * 0.1, t * 0.3)); b->apply_transform(tr); } auto w1 = watch(a), w2 = watch(b); o.inputs = [=] { return w1() + w2(); }; IS("MeshBoolean::split_meshes", MeshBoolean mb; mb.split_meshes(*a, *b, x.b[0], x.b[1], x.b[2], x.b[3])) }
    }
    return o;
}
static int gen_kind(pbt::Source& s) { return s.pick({(int)MESH, (int)MESH, (int)MESH, (int)CURVE, (int)SURFACE, (int)SURFACE, (int)SOLID, (int)SMOOTH, (int)IMAGE, (int)POINTS, (int)NUMBERS, (int)SPLIT}); }
static void disturb(pbt::Source& s, Obj& x, int kind)
{
    if (s.boolean()) return;
    switch (kind) {
    case MESH: x.m.set_color(0x123); unlink_some(s, x.m); x.m.add_triangle(Point3(9, 9, 9), Point3(8, 8, 9), Point3(7, 8, 8)); break; case CURVE: if (s.boolean()) x.c.insert_knot(0.25); x.c.set_degree(s.irange(0, 7)); break;
    case SURFACE: x.s.set_closed_u(s.boolean()); x.s.set_closed_v(s.boolean()); if (s.boolean()) for (auto& w : x.s.weights()) w = 3; if (s.boolean()) x.s.set_degree(s.irange(0, 6), s.irange(0, 6)); break; case SOLID: { NurbsSurface n; NurbsFactory::create_disk(3, n); n.set_closed_u(true); x.so.add_surface(n); break; } case SMOOTH: x.sm.add_flat_triangle(Point3(1, 2, 3), Point3(3, 4, 5), Point3(6, 6, 7)); break;
    case IMAGE: x.im.resize(s.irange(0, 20), s.irange(0, 20), s.irange(1, 4)); fill(s, x.im); break; case POINTS: x.pl.resize(s.choice(100), Point3(5, 5, 5)); break; case NUMBERS: x.d.resize(s.choice(100), 7.); break; default: for (auto& m : x.b) { m.add_triangle(Point3(9, 9, 9), Point3(8, 8, 9), Point3(7, 8, 8)); m.set_color(3); } }
}
PROP(used_outputs, 12000, 240000, 100, "the output object was used before")
{
    int kind = gen_kind(s); Op o = gen_op(s, c, kind); NOTE("%s", o.name.c_str()); string in0 = o.inputs(); Obj fresh; bool r0 = o.run(fresh); string want = ser(fresh, kind); CHECK(o.inputs() == in0, "inputs", "%s changed its input: %s", o.name.c_str(), diff(in0, o.inputs()).c_str());
    Obj used; int n = s.irange(0, 3); vector<string> hist; for (int i = 0; i < n; i++) { Op p = gen_op(s, c, kind); NOTE("output used before by %s", p.name.c_str()); p.run(used); disturb(s, used, kind); hist.push_back(p.name); }
    if (s.chance(1, 4)) { NOTE("and by %s", o.name.c_str()); o.run(used); }
    // other objects are worked on in between
    if (s.boolean()) { int k2 = gen_kind(s); Op p = gen_op(s, c, k2); Obj other; p.run(other); NOTE("after %s on other objects", p.name.c_str()); CHECK(ser(fresh, kind) == want, "other", "%s on other objects changed the result of %s: %s", p.name.c_str(), o.name.c_str(), diff(want, ser(fresh, kind)).c_str()); }
    bool r1 = o.run(used); CHECK(r1 == r0, "returned", "%s returned %d on a used object, %d on a new one", o.name.c_str(), r1, r0); string got = ser(used, kind); CHECK(got == want, "used", "%s on a used %s: %s", o.name.c_str(), kindName[kind], diff(want, got).c_str()); CHECK(o.inputs() == in0, "inputs-again", "%s changed its input: %s", o.name.c_str(), diff(in0, o.inputs()).c_str());
    Obj again; bool r2 = o.run(again); got = ser(again, kind); CHECK(r2 == r0 && got == want, "repeat", "%s repeated: %s", o.name.c_str(), diff(want, got).c_str()); CHECK(ser(fresh, kind) == want, "independent", "the first result changed: %s", diff(want, ser(fresh, kind)).c_str());
    LABEL("%s", o.name.c_str()); c.nontrivial = n > 0;
}
// in-place operations with recorded arguments
struct Mut { string name; function<void(Obj&)> run; };
static Mut gen_mut(pbt::Source& s, int kind, Obj& cur)
{
    Mut o; double r = s.uniform(0.1, 0.9); GenTransform g = gen_transform(s);
#define MU(NAME, ...) { o.name = NAME; o.run = [=](Obj& x) { __VA_ARGS__; }; break; }
    switch (kind) {
    case MESH: { int nt = cur.m.nb_triangles(), nv = cur.m.nb_vertices(); vector<int> alive; for (int i = 0; i < nt; i++) if (!cur.m.is_triangle_unlinked(i)) alive.push_back(i); int t = alive.empty() ? -1 : alive[s.choice(alive.size())]; int v = nv ? (int)s.choice(nv) : -1; Point3 p = gen_point(s, 3);
        switch (s.choice(10)) { case 0: MU("add_vertex", x.m.add_vertex(p)) case 1: MU("add_triangle", x.m.add_triangle(p, p + Point3(1, 0, r), p + Point3(0, 1, 0))) case 2: if (t < 0) MU("nothing", ) MU("unlink_triangle", x.m.unlink_triangle(t)) case 3: if (t < 0) MU("nothing", ) MU("flip_triangle", x.m.flip_triangle(t)) case 4: if (t < 0) MU("nothing", ) MU("split_triangle_with_vertex", x.m.split_triangle_with_vertex(t, p)) case 5: MU("apply_transform", x.m.apply_transform(*g.t)) case 6: MU("merge_vertices", MeshUtil::merge_vertices(x.m, r)) case 7: { auto e = make_shared<Mesh>(); gen_open(s, *e); MU("add_mesh", x.m.add_mesh(*e)) } case 8: if (v < 0) MU("nothing", ) MU("set_vertex", x.m.set_vertex(v, p)) default: MU("measurements", if (x.m.nb_triangles()) { MeshMeasurements::volume(x.m); MeshMeasurements::is_closed(x.m); MeshMeasurements::has_no_duplicated_vertices(x.m); MeshMeasurements::has_no_short_edges(x.m); }) } break; }
    case CURVE: switch (s.choice(3)) { case 0: MU("insert_knot", x.c.insert_knot(r)) case 1: MU("degree_elevation", x.c.degree_elevation()) default: MU("points", for (auto& p : x.c.points()) p += Point3(1, 2, 3)) } break;
    case SURFACE: switch (s.choice(6)) { case 0: MU("insert_knot_u", x.s.insert_knot_u(r)) case 1: MU("insert_knot_v", x.s.insert_knot_v(r)) case 2: MU("degree_elevation_u", x.s.degree_elevation_u()) case 3: MU("degree_elevation_v", x.s.degree_elevation_v()) case 4: MU("apply_transform", x.s.apply_transform(*g.t)) default: { bool a = s.boolean(), b = s.boolean(); MU("set_closed", x.s.set_closed_u(a); x.s.set_closed_v(b)) } } break;
    case SOLID: switch (s.choice(2)) { case 0: MU("apply_transform", x.so.apply_transform(*g.t)) default: MU("add_surface", NurbsSurface n; NurbsFactory::create_disk(r, n); x.so.add_surface(n)) } break;
    case SMOOTH: { Point3 p = gen_point(s, 3); switch (s.choice(5)) { case 0: MU("apply_transform", x.sm.apply_transform(*g.t)) case 1: MU("add_flat_triangle", x.sm.add_flat_triangle(p, p + Point3(1, 0, r), p + Point3(0, 1, 0))) case 2: MU("add_flat_quad", x.sm.add_flat_quad(p, p + Point3(1, 0, r), p + Point3(1, 1, 0), p + Point3(0, 1, 0))) case 3: { auto e = make_shared<SmoothMesh>(); SmoothMeshFactory::create_tetrahedron(r, *e); MU("add_mesh", x.sm.add_mesh(*e)) } default: MU("add_to_mesh", Mesh m; x.sm.add_to_mesh(m, 3)) } break; }
    default: { double k = s.pick({0.5, 2., 1.3}); switch (s.choice(2)) { case 0: MU("scale", ImageUtil::scale(x.im, k)) default: MU("set a pixel", if (x.im.size()) x.im(0, 0, 0) ^= 77) } break; }
    }
    return o;
}
PROP(separate_objects, 12000, 240000, 100, "two or more changes with other objects worked on in between")
{
    int kind = s.pick({(int)MESH, (int)MESH, (int)CURVE, (int)SURFACE, (int)SOLID, (int)SMOOTH, (int)IMAGE}); Op o = gen_op(s, c, kind); Obj base; o.run(base); NOTE("%s", o.name.c_str()); string s0 = ser(base, kind); Obj alone = base, mixed = base, side; Obj kept = base; int n = s.irange(1, 4), between = 0; bool sideUsed = false;
    for (int i = 0; i < n; i++) {
        Mut m = gen_mut(s, kind, alone); NOTE("%s", m.name.c_str()); m.run(alone);
        if (s.boolean()) { between++; if (s.boolean() || !sideUsed) { int k2 = s.boolean() ? kind : gen_kind(s); Op p = gen_op(s, c, k2); NOTE("  meanwhile %s on another object", p.name.c_str()); p.run(side); if (k2 == kind) sideUsed = true; } else { Mut p = gen_mut(s, kind, side); NOTE("  meanwhile %s of another object", p.name.c_str()); p.run(side); } if (s.boolean()) { ser(side, kind); ser(base, kind); } }
        m.run(mixed);
    }
    string a = ser(alone, kind), b = ser(mixed, kind); CHECK(a == b, "mixed", "the same changes with other objects worked on in between: %s", diff(a, b).c_str()); CHECK(ser(base, kind) == s0 && ser(kept, kind) == s0, "copy", "changing copies changed the original: %s", diff(s0, ser(base, kind)).c_str());
    // assignment over a used object
    side = alone; CHECK(ser(side, kind) == a, "assigned", "assigned to a used object: %s", diff(a, ser(side, kind)).c_str()); LABEL("%s", kindName[kind]); c.nontrivial = n >= 2 && between > 0;
}
PROP(cleared, 12000, 240000, 100, "the object held something before it was cleared")
{
    int kind = s.pick({(int)MESH, (int)CURVE, (int)SURFACE, (int)SOLID, (int)SMOOTH}); Obj used; static const Obj none; string empty = ser(none, kind); CHECK(none.m.nb_vertices() == 0 && none.m.nb_triangles() == 0 && none.m.empty() && none.c.nb_points() == 0 && none.c.points().empty() && none.s.points().empty() && none.s.nb_points_u() == 0 && none.s.nb_points_v() == 0 && none.so.surfaces().empty() && none.sm.nb_triangles() == 0 && none.im.size() == 0, "new", "a new object holds something"); CHECK(!none.s.is_closed_u() && !none.s.is_closed_v(), "new", "a new surface is closed"); int n = s.irange(1, 3); for (int i = 0; i < n; i++) { Op p = gen_op(s, c, kind); NOTE("%s", p.name.c_str()); p.run(used); if (i + 1 < n) disturb(s, used, kind); else if (s.chance(1, 4)) ser(used, kind); } Obj kept = used; string before = ser(kept, kind); bool held = before != empty; disturb(s, used, kind);
    auto clear = [&](Obj& x) { switch (kind) { case MESH: x.m.clear(); break; case CURVE: x.c.clear(); break; case SURFACE: x.s.clear(); break; case SOLID: x.so.clear(); break; default: x.sm.clear(); } }; clear(used); NOTE("clear"); string got = ser(used, kind); CHECK(got == empty, "not-empty", "a cleared %s: %s", kindName[kind], diff(empty, got).c_str()); CHECK(ser(kept, kind) == before, "copy", "clearing changed a copy");
    if (s.boolean()) { clear(used); CHECK(ser(used, kind) == empty, "twice", "cleared twice: %s", diff(empty, ser(used, kind)).c_str()); }
    // and is as good as new
    Op o = gen_op(s, c, kind); NOTE("%s", o.name.c_str()); Obj fresh; o.run(fresh); o.run(used); string want = ser(fresh, kind); got = ser(used, kind); CHECK(got == want, "after", "%s on a cleared %s: %s", o.name.c_str(), kindName[kind], diff(want, got).c_str()); Mut m = gen_mut(s, kind, fresh); m.run(fresh); m.run(used); CHECK(ser(used, kind) == ser(fresh, kind), "after", "%s, then %s on a cleared %s: %s", o.name.c_str(), m.name.c_str(), kindName[kind], diff(ser(fresh, kind), ser(used, kind)).c_str()); LABEL("%s", kindName[kind]); c.nontrivial = held;
}

// queries in any order, of one object or several in turns, give the same answers bit by bit
struct Query { int obj; double u, v; };
PROP(queries, 60000, 1200000, 100, "an interior knot is asked for, in two orders, and another object in between")
{
    int n = s.irange(1, 3); vector<NurbsCurve> cs(n); vector<NurbsSurface> ss(n); vector<int> kind; vector<Query> q; bool knot = false;
    for (int i = 0; i < n; i++) {
        int k = s.irange(0, 1); kind.push_back(k); vector<double> a, b{0.}; int extra = s.chance(1, 3) ? 1 : 0;
        if (k == 0) { gen_curve(s, cs[i], 1, 5, 6, extra); a = cs[i].knots(); } else { gen_surface(s, ss[i], 1, 3, 3, extra); a = ss[i].knots_u(); b = ss[i].knots_v(); }
        auto param = [&](const vector<double>& kn) { if (s.boolean()) { double u = kn[s.choice(kn.size())]; if (u >= 0 && u <= 1) { knot |= u > 0 && u < 1; return u; } } return s.chance(1, 4) ? s.pick({0., 1., 0.5}) : s.unit_closed(); };
        int m = s.irange(1, 8); for (int j = 0; j < m; j++) q.push_back({i, param(a), k ? param(b) : 0.}); NOTE("object %d is a %s", i, k ? "surface" : "curve"); }
    auto ask = [&](const Query& x) { Point3 p; if (kind[x.obj] == 0) cs[x.obj].evaluate(x.u, p); else ss[x.obj].evaluate(x.u, x.v, p); return p; };
    vector<Point3> first; for (auto& x : q) { first.push_back(ask(x)); NOTE("object %d at %.17g %.17g: %s", x.obj, x.u, x.v, ps(first.back()).c_str()); }
    for (int round = 0; round < 2; round++) { vector<int> ord; for (size_t i = 0; i < q.size(); i++) ord.push_back((int)i); for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[s.irange(0, i)]); for (int i : ord) { Point3 p = ask(q[i]); CHECK(same_bits(p, first[i]), "order", "object %d at %.17g %.17g is %s, asked for before it was %s", q[i].obj, q[i].u, q[i].v, ps(p).c_str(), ps(first[i]).c_str()); } }
    c.nontrivial = knot && n > 1;
}
// work on separate objects, done at the same time by several threads
PROP(threads, 4000, 80000, 20, "always: two or more threads run at the same time")
{
    int n = s.irange(2, 4), reps = 6; vector<Op> ops; vector<int> kinds; bool same = s.boolean(); for (int i = 0; i < n; i++) { int k = i && same ? kinds[0] : gen_kind(s); ops.push_back(gen_op(s, c, k)); kinds.push_back(k); NOTE("thread %d: %s", i, ops[i].name.c_str()); }
    vector<string> want; vector<char> ret; for (int i = 0; i < n; i++) { Obj x; ret.push_back(ops[i].run(x)); want.push_back(ser(x, kinds[i])); }
    // a failing case is repeated more often when it is replayed, because the threads seldom meet at the same place
    int rounds = s.replaying() ? 400 : 1; auto t0 = std::chrono::steady_clock::now(); vector<string> bad(n);
    for (int round = 0; round < rounds; round++) {
    std::atomic<int> ready{0}; std::atomic<bool> any{false}; vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { for (int r = 0; r < reps && bad[i].empty() && !any; r++) { ready++; while (ready < n * (r + 1) && !any) std::this_thread::yield(); Obj x; bool ok = ops[i].run(x); string got = ser(x, kinds[i]); if (ok != (bool)ret[i]) bad[i] = "returned another value"; else if (got != want[i]) bad[i] = diff(want[i], got); if (!bad[i].empty()) any = true; } });
    for (auto& t : th) t.join();
    bool failed = false; for (auto& b : bad) failed |= !b.empty(); if (failed || std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(1500)) break;
    }
    for (int i = 0; i < n; i++) CHECK(bad[i].empty(), "threads", "%s while other threads work on other objects: %s", ops[i].name.c_str(), bad[i].c_str());
    c.nontrivial = true;
}
// renderers and file writers working side by side, one step of one and then one of another, or in several threads
struct Worker {
    int kind = 0; string file; int w = 0, h = 0; vector<pair<string, std::function<void(Worker&)>>> script; // kind 0: renderer, 1: OBJ writer, 2: STEP writer
    vector<int> pix; unique_ptr<Renderer> r; unique_ptr<OBJWriter> o; unique_ptr<StepWriter> st;
    void start() { if (kind == 0) { pix.assign((size_t)w * h, 0x123456); r.reset(new Renderer(pix.data(), w, h)); r->clear(); } else if (kind == 1) { o.reset(new OBJWriter()); o->open(file); } else { st.reset(new StepWriter()); st->open(file); } }
    string finish() { string t; if (kind == 0) { r.reset(); t.assign((const char*)pix.data(), pix.size() * sizeof(int)); return t; } if (kind == 1) { o->close(); o.reset(); } else { st->close(); st.reset(); } std::ifstream f(file, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); }
};
static shared_ptr<Worker> gen_worker(pbt::Source& s, pbt::Ctx& c, int kind, int number, const Point3 common[3])
{
    auto w = make_shared<Worker>(); w->kind = kind; w->file = c.scratch + pbt::fmt("w%d.%s", number, kind == 1 ? "obj" : "stp"); w->w = s.irange(8, 60); w->h = s.irange(8, 60); int n = s.irange(1, 6); string all;
    if (kind == 0) { double a = s.uniform(5, 12), zoom = s.uniform(20, 80); w->script.push_back({"camera", [a, zoom](Worker& x) { x.r->set_camera(0, 0, -a, a, 0, 0, 0, zoom); }}); }
    for (int i = 0; i < n; i++) {
        Point3 p = gen_point(s, 2.), q = gen_point(s, 2.), t = gen_point(s, 2.); int col = s.boolean() ? (int)s.choice(1 << 24) : 0x808080; if (s.chance(1, 3)) { p = common[0]; q = common[1]; t = common[2]; } double f = s.uniform(0.2, 1.);
        auto m = make_shared<Mesh>(); MeshFactory::create_box(1 + f, 1, f, *m); if (s.boolean()) m->set_color(col); auto k = make_shared<NurbsSurface>(); NurbsFactory::create_quad(p, q, t, p + q, *k); auto so = make_shared<NurbsSolid>(); NurbsFactory::create_box(f, 1, 2, *so);
        auto add = [&](const char* name, std::function<void(Worker&)> g) { w->script.push_back({name, g}); all += string(" ") + name; };
        if (kind == 1) { if (s.boolean()) add("mesh", [m](Worker& x) { x.o->write(*m); }); else add("polyline", [p, q, t](Worker& x) { x.o->write(vector<Point3>{p, q, t}); }); }
        else if (kind == 2) { if (s.boolean()) add("surface", [k](Worker& x) { x.st->write(*k); }); else add("solid", [so](Worker& x) { x.st->write(*so); }); }
        else switch (s.choice(9)) {
            case 0: add("ambient", [col, f](Worker& x) { x.r->add_ambient_light(col, f); }); break; case 1: add("diffuse", [col, f, p](Worker& x) { x.r->add_diffuse_light(col, f, p); }); break; case 2: add("background", [col](Worker& x) { x.r->set_background(col); x.r->clear(); }); break;
            case 3: { double y = s.uniform(-20, 20), pi = s.uniform(-20, 20), ro = s.uniform(-20, 20), a = s.uniform(5, 12), z = s.uniform(20, 80); add("camera", [=](Worker& x) { x.r->set_camera(0.5, 0, -a, a, y, pi, ro, z); }); break; }
            case 4: add("line", [p, q, col](Worker& x) { x.r->draw_line(p, q, col); }); break; case 5: add("polyline", [p, q, t, col](Worker& x) { x.r->draw_polyline({p, q, t}, col); }); break; case 6: add("triangle", [p, q, t, col](Worker& x) { x.r->draw_triangle_1color(p, q, t, col, true); }); break;
            case 7: add("pixel", [p, col](Worker& x) { x.r->draw_pixel(p, col); }); break; default: { bool e = s.boolean(); add("mesh", [m, e](Worker& x) { x.r->draw_mesh(*m, e); }); } }
    }
    NOTE("%s:%s", kind == 0 ? "renderer" : kind == 1 ? "OBJ writer" : "STEP writer", all.c_str()); return w;
}
PROP(workers, 6000, 120000, 20, "two or more workers of the same kind side by side")
{
    int n = s.irange(2, 3), k0 = (int)s.choice(3); vector<shared_ptr<Worker>> ws; bool threaded = s.chance(1, 4); Point3 common[3]; for (auto& x : common) x = gen_point(s, 2.); /* what several of them are given */ for (int i = 0; i < n; i++) ws.push_back(gen_worker(s, c, s.chance(3, 4) ? k0 : (int)s.choice(3), i, common)); vector<string> alone, both(n);
    for (auto& w : ws) { w->start(); for (auto& f : w->script) f.second(*w); alone.push_back(w->finish()); }
    int rounds = threaded ? (s.replaying() ? 300 : 2) : 1; auto t0 = std::chrono::steady_clock::now();
    for (int round = 0; round < rounds; round++) {
        if (threaded) { std::atomic<int> ready{0}; vector<std::thread> th; for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) std::this_thread::yield(); auto& w = *ws[i]; w.start(); for (auto& f : w.script) f.second(w); both[i] = w.finish(); }); for (auto& t : th) t.join(); }
        else { vector<size_t> at(n, 0); vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); if (s.boolean()) std::reverse(order.begin(), order.end()); for (int i : order) ws[i]->start(); for (bool more = true; more;) { more = false; int i = (int)s.choice(n); for (int j = 0; j < n && at[i] >= ws[i]->script.size(); j++) i = (i + 1) % n; if (at[i] < ws[i]->script.size()) { ws[i]->script[at[i]].second(*ws[i]); at[i]++; more = true; } } for (int i : order) both[i] = ws[i]->finish(); }
        for (int i = 0; i < n; i++) CHECK(alone[i] == both[i], ws[i]->kind == 0 ? "image" : "file", "worker %d makes another %s while others work%s", i, ws[i]->kind == 0 ? "image" : "file", threaded ? " in other threads" : " in between");
        if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(1500)) break;
    }
    int same = 0; for (auto& w : ws) same += w->kind == k0; c.nontrivial = same >= 2; LABEL("%s%s", k0 == 0 ? "renderer" : k0 == 1 ? "OBJ" : "STEP", threaded ? " threads" : "");
}
