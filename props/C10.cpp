// C10: copies are complete, independent and release their memory.
#include "mesh_common.hpp"
#include "nurbs_common.hpp"
#include "Face.h"
#include "Solid.h"
#include "SmoothMesh.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "SmoothMeshFactory.h"
typedef vector<double> Digest; // everything that can be read from an object
static void put(Digest& d, const Point3& p) { d.push_back(p.x()); d.push_back(p.y()); d.push_back(p.z()); }
// the order and the content of the existing triangles; removed ones need not be copied
static Digest digest(const Mesh& m) { Digest d; Soup s = soup_of(m); d.push_back((double)s.v.size()); for (auto& p : s.v) put(d, p); d.push_back((double)s.t.size()); for (auto& t : s.t) { Tri x = canon(t); d.push_back(x.a); d.push_back(x.b); d.push_back(x.c); } d.push_back(m.get_color()); return d; }
static Digest digest(const QuadBezierTriangle& q) { Digest d; for (double a : {0., 0.25, 0.5, 1.}) for (double b : {0., 0.25, 0.5, 1.}) if (a + b <= 1) put(d, q.eval(a, b)); return d; }
static Digest digest(const SmoothMesh& m) { Digest d; d.push_back(m.nb_triangles()); for (int i = 0; i < m.nb_triangles(); i++) { Digest e = digest(m.triangle(i)); d.insert(d.end(), e.begin(), e.end()); } return d; }
static Digest digest(const NurbsCurve& k) { Digest d; d.push_back(k.degree()); d.push_back((double)k.knots().size()); for (double x : k.knots()) d.push_back(x); for (double x : k.weights()) d.push_back(x); d.push_back(k.nb_points()); for (auto& p : k.points()) put(d, p); return d; }
static Digest digest(const NurbsSurface& k) { Digest d; for (int x : {k.degree_u(), k.degree_v(), k.nb_points_u(), k.nb_points_v(), (int)k.is_closed_u(), (int)k.is_closed_v()}) d.push_back(x); d.push_back((double)k.knots_u().size()); for (double x : k.knots_u()) d.push_back(x); for (double x : k.knots_v()) d.push_back(x); for (double x : k.weights()) d.push_back(x); for (auto& p : k.points()) put(d, p); return d; }
static Digest digest(const NurbsSolid& k) { Digest d; d.push_back((double)k.surfaces().size()); for (auto& x : k.surfaces()) { Digest e = digest(x); d.insert(d.end(), e.begin(), e.end()); } return d; }
static Digest digest(Face& f) { return digest(f.mesh()); }
static Digest digest(Solid& f) { return digest(f.mesh()); }

// decisions are drawn before the run, so that nothing but the objects themselves allocates memory during it
struct Op { int what, i, j, a, b; };
struct Rnd { uint64_t x; explicit Rnd(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 1) {} uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; } int choice(int n) { return (int)((next() >> 20) % (uint64_t)n); } double real() { return (next() >> 40) / 1024. - 8192; } };
static Point3 pt(Rnd& r) { double a = r.real(), b = r.real(), c = r.real(); return Point3(a, b, c); }

// a curved triangle with its own control points and weights
static QuadBezierTriangle curved(Rnd& r) { QuadBezierTriangle q; Point3 a = pt(r), b = pt(r), d = pt(r); q.set_points(a, b, d); if (r.choice(4)) { Point3 e = pt(r), f = pt(r), g = pt(r); q.set_control_points(e, f, g); } if (r.choice(4)) { double w[6]; for (double& x : w) x = 0.25 * (1 + r.choice(20)); q.set_weights(w[0], w[1], w[2], w[3], w[4], w[5]); } return q; }

// per type: fill with new content; modify a little
static int g_many = 0; // when set, new content has about as many elements
static void modify(Mesh& m, Rnd& r)
{
    switch (r.choice(6)) {
    case 0: m.add_triangle(pt(r), pt(r), pt(r)); break;
    case 1: if (m.nb_vertices()) m.set_vertex(r.choice(m.nb_vertices()), pt(r)); break;
    case 2: if (m.nb_triangles()) m.unlink_triangle(r.choice(m.nb_triangles())); break;
    case 3: m.set_color(r.choice(3) ? r.choice(0x1000000) : r.choice(2) ? (int)r.next() : -1 - r.choice(3)); break;
    case 4: m.apply_transform(Translation(pt(r))); break;
    default: for (int i = 0; i < 20; i++) m.add_vertex(pt(r)); break;
    }
}
static void fill(Mesh& m, Rnd& r) { if (g_many) { m.clear(); int n = g_many / 2 + r.choice(g_many); for (int i = 0; i < n; i++) m.add_vertex(pt(r)); if (r.choice(4)) for (int i = 0; i + 2 < n; i++) m.add_triangle(i, i + 1, i + 2); return; } switch (r.choice(4)) { case 0: m.clear(); break; case 1: MeshFactory::create_box(1 + r.choice(4), 2, 3, m); break; case 2: m.clear(); for (int i = 0; i < 5; i++) m.add_triangle(pt(r), pt(r), pt(r)); m.unlink_triangle(r.choice(5)); break; default: MeshFactory::create_sphere_uv(2, 1, m); } }
static void fill(Face& f, Rnd& r) { fill(f.mesh(), r); f.set_color(r.choice(100)); }
static void modify(Face& f, Rnd& r) { modify(f.mesh(), r); }
static void fill(Solid& f, Rnd& r) { fill(f.mesh(), r); }
static void modify(Solid& f, Rnd& r) { if (r.choice(3) == 0) { Mesh m; fill(m, r); f.add_face(Face(m)); } else modify(f.mesh(), r); }
static void fill(SmoothMesh& m, Rnd& r) { if (g_many) { m.clear(); int n = (g_many / 2 + r.choice(g_many)) / 8; bool bent = r.choice(2); for (int i = 0; i < n; i++) if (bent) m.add_triangle(curved(r)); else m.add_flat_triangle(pt(r), pt(r), pt(r)); return; } switch (r.choice(4)) { case 0: m.clear(); break; case 3: m.clear(); for (int i = 0, n = 1 + r.choice(20); i < n; i++) m.add_triangle(curved(r)); break; case 1: SmoothMeshFactory::create_sphere(1 + r.choice(5), m); break; default: SmoothMeshFactory::create_box(1 + r.choice(3), 2, 3, m); } }
static void modify(SmoothMesh& m, Rnd& r) { switch (r.choice(4)) { case 3: m.add_triangle(curved(r)); break; case 0: m.add_flat_triangle(pt(r), pt(r), pt(r)); break; case 1: m.apply_transform(Translation(pt(r))); break; default: { SmoothMesh x; fill(x, r); m.add_mesh(x); } } }
static void fill(NurbsCurve& k, Rnd& r) { if (g_many) { int p = 1 + r.choice(3), n = p + 1 + g_many / 2 + r.choice(g_many); vector<Point3> v; for (int i = 0; i < n; i++) v.push_back(pt(r)); k.set_degree(p); k.set_points(v); k.set_uniform(); k.set_equals_weights(); return; } if (r.choice(2)) { NurbsFactory::create_circle(1 + r.choice(5), k); return; } int p = 1 + r.choice(3), n = p + 1 + r.choice(4); vector<Point3> v; for (int i = 0; i < n; i++) v.push_back(pt(r)); k.set_degree(p); k.set_points(v); k.set_uniform(); k.set_equals_weights(); }
static void modify(NurbsCurve& k, Rnd& r) { if (k.nb_points() == 0) return; switch (r.choice(4)) { case 0: k.points()[r.choice(k.nb_points())] = pt(r); break; case 1: k.insert_knot(0.25 + r.choice(100) / 256.); break; case 2: k.degree_elevation(); break; default: { vector<double> w = k.weights(); w[r.choice((int)w.size())] = 1 + r.choice(4); k.set_weights(w); } } }
static void fill(NurbsSurface& k, Rnd& r) { if (g_many) { int p = 1 + r.choice(3), q = 1 + r.choice(3), nu = p + 1 + r.choice(g_many), nv = q + 1 + r.choice(6); if (r.choice(2)) { std::swap(nu, nv); std::swap(p, q); } vector<Point3> v; for (int i = 0; i < nu * nv; i++) v.push_back(pt(r)); k.set_degree(p, q); k.set_points(v, nu, nv); k.set_uniform_u(); k.set_uniform_v(); k.set_equals_weights(); k.set_closed_u(r.choice(2)); k.set_closed_v(r.choice(2)); return; } switch (r.choice(3)) { case 0: NurbsFactory::create_torus(3, 1, k); break; case 1: NurbsFactory::create_sphere(1 + r.choice(4), k); break; default: NurbsFactory::create_quad(pt(r), pt(r), pt(r), pt(r), k); } }
static void modify(NurbsSurface& k, Rnd& r) { if (k.points().empty()) return; switch (r.choice(5)) { case 0: k.points()[r.choice((int)k.points().size())] = pt(r); break; case 1: k.insert_knot_u(0.25 + r.choice(100) / 256.); break; case 2: k.degree_elevation_v(); break; case 3: k.set_closed_u(!k.is_closed_u()); break; default: k.apply_transform(Translation(pt(r))); } }
static void fill(NurbsSolid& k, Rnd& r) { if (g_many) { int n = 1 + g_many / 40 + r.choice(1 + g_many / 40), was = g_many; g_many = 0; k.clear(); for (int i = 0; i < n; i++) { NurbsSurface x; fill(x, r); k.add_surface(x); } g_many = was; return; } switch (r.choice(3)) { case 0: k.clear(); break; case 1: NurbsFactory::create_box(1 + r.choice(4), 2, 3, k); break; default: NurbsFactory::create_cylinder(1, 1 + r.choice(3), k); } }
static void modify(NurbsSolid& k, Rnd& r) { if (k.surfaces().empty() || r.choice(2)) { NurbsSurface x; fill(x, r); k.add_surface(x); return; } modify(k.surfaces()[r.choice((int)k.surfaces().size())], r); }

template <class T> static void run_ops(pbt::Ctx& c, const vector<Op>& ops, const char* type)
{
    T* obj[4] = {}; Digest ref[4]; string bad; int at = 0;
    struct Guard { T** o; ~Guard() { for (int i = 0; i < 4; i++) delete o[i]; } } guard{obj};
    for (auto& op : ops) {
        at++; int i = op.i, j = op.j; Rnd r((uint64_t)op.a * 1000003 + op.b); const char* name = "";
        if (!obj[i] && op.what != 1) { obj[i] = new T; fill(*obj[i], r); ref[i] = digest(*obj[i]); name = "create"; }
        else switch (op.what) {
        case 0: fill(*obj[i], r); ref[i] = digest(*obj[i]); name = "refill"; break;
        case 1: if (!obj[j] || i == j) continue; delete obj[i]; obj[i] = nullptr; obj[i] = new T(*obj[j]); ref[i] = ref[j]; name = "copy"; break;
        case 2: if (!obj[j]) continue; { T& back = (*obj[i] = *obj[j]); if (&back != obj[i]) c.fail("assign-result", pbt::fmt("%s: assignment does not return the assigned object (step %d)", type, at)); } ref[i] = Digest(ref[j]); name = i == j ? "self-assign" : "assign"; break;
        case 3: modify(*obj[i], r); ref[i] = digest(*obj[i]); name = "modify"; break;
        case 4: delete obj[i]; obj[i] = nullptr; name = "destroy"; break;
        case 5: { T tmp(*obj[i]); modify(tmp, r); name = "modify a copy"; break; }
        case 6: { T tmp; fill(tmp, r); tmp = *obj[i]; if (digest(tmp) != ref[i]) c.fail("assign-content", pbt::fmt("%s: assigned object differs (step %d)", type, at)); modify(tmp, r); name = "assign and modify"; break; }
        }
        for (int k = 0; k < 4; k++) if (obj[k] && digest(*obj[k]) != ref[k]) c.fail("content", pbt::fmt("%s: after %s on object %d (other %d) at step %d, object %d does not have the expected content", type, name, i, j, at, k));
    }
}
template <class T> static void run_type(pbt::Ctx& c, const vector<Op>& ops, const char* type)
{
    size_t before = pbt::live_bytes(); run_ops<T>(c, ops, type); size_t after = pbt::live_bytes();
    for (int again = 0; after != before && again < 2; again++) { before = pbt::live_bytes(); run_ops<T>(c, ops, type); after = pbt::live_bytes(); } // memory kept once, for later calls, is no leak
    CHECK(after == before, "memory", "%s: %zu bytes in use before, %zu after all objects are gone", type, before, after);
}
PROP(copies, 60000, 1200000, 500, "at least one copy or assignment between two objects, followed by a modification")
{
    int type = (int)s.choice(7); vector<Op> ops; int n = s.sized(2, 24); bool cp = false, nt = false;
    for (int k = 0; k < n; k++) { Op o; o.what = s.weighted({1, 3, 4, 4, 1, 1, 2}); o.i = (int)s.choice(4); o.j = (int)s.choice(4); o.a = (int)s.choice(1000); o.b = (int)s.choice(1000); if (cp && o.what == 3) nt = true; if ((o.what == 1 || o.what == 2) && o.i != o.j) cp = true; ops.push_back(o); }
    static const char* names[] = {"Mesh", "Face", "Solid", "SmoothMesh", "NurbsCurve", "NurbsSurface", "NurbsSolid"}; static const char* on[] = {"refill", "copy-construct", "assign", "modify", "destroy", "modify-a-copy", "assign-and-modify"};
    if (c.verbose) { string t; for (auto& o : ops) t += pbt::fmt(" %s(%d,%d)", on[o.what], o.i, o.j); NOTE("%s:%s", names[type], t.c_str()); }
    switch (type) { case 0: run_type<Mesh>(c, ops, names[0]); break; case 1: run_type<Face>(c, ops, names[1]); break; case 2: run_type<Solid>(c, ops, names[2]); break; case 3: run_type<SmoothMesh>(c, ops, names[3]); break; case 4: run_type<NurbsCurve>(c, ops, names[4]); break; case 5: run_type<NurbsSurface>(c, ops, names[5]); break; default: run_type<NurbsSolid>(c, ops, names[6]); }
    c.nontrivial = nt;
}
// the same with large content
PROP(large_copies, 3000, 60000, 5, "at least one copy or assignment between two objects, followed by a modification")
{
    int type = (int)s.choice(7); vector<Op> ops; g_many = (int)pow(10., s.uniform(2, 4)); struct Reset { ~Reset() { g_many = 0; } } reset; int n = s.sized(2, 9); bool cp = false, nt = false;
    for (int k = 0; k < n; k++) { Op o; o.what = s.weighted({1, 3, 4, 4, 1, 1, 2}); o.i = (int)s.choice(4); o.j = (int)s.choice(4); o.a = (int)s.choice(1000); o.b = (int)s.choice(1000); if (cp && o.what == 3) nt = true; if ((o.what == 1 || o.what == 2) && o.i != o.j) cp = true; ops.push_back(o); }
    static const char* names[] = {"Mesh", "Face", "Solid", "SmoothMesh", "NurbsCurve", "NurbsSurface", "NurbsSolid"}; static const char* on[] = {"refill", "copy-construct", "assign", "modify", "destroy", "modify-a-copy", "assign-and-modify"};
    if (c.verbose) { string t; for (auto& o : ops) t += pbt::fmt(" %s(%d,%d)", on[o.what], o.i, o.j); NOTE("%d elements, %s:%s", g_many, names[type], t.c_str()); }
    switch (type) { case 0: run_type<Mesh>(c, ops, names[0]); break; case 1: run_type<Face>(c, ops, names[1]); break; case 2: run_type<Solid>(c, ops, names[2]); break; case 3: run_type<SmoothMesh>(c, ops, names[3]); break; case 4: run_type<NurbsCurve>(c, ops, names[4]); break; case 5: run_type<NurbsSurface>(c, ops, names[5]); break; default: run_type<NurbsSolid>(c, ops, names[6]); }
    c.nontrivial = nt;
}
// a face or solid built from a mesh holds that mesh; returning objects by value keeps their content
static Mesh make_mesh(Rnd& r) { Mesh m; fill(m, r); Mesh k = m; modify(m, r); return k; }
PROP(conversions, 20000, 400000, 500, "always: a mesh goes through every container")
{
    uint64_t seed = s.choice(100000); size_t before = 0, after = 1;
    for (int again = 0; after != before && again < 3; again++) { before = pbt::live_bytes(); { Rnd r(seed), r2(seed); Mesh m = make_mesh(r); Mesh e; fill(e, r2); Digest d = digest(m); if (d != digest(e)) c.fail("by-value", "a mesh returned by value differs");
      Face f(m); Solid so(m); if (digest(f) != d || digest(so) != d) c.fail("from-mesh", "a face or solid made from a mesh differs from it");
      modify(m, r); if (digest(f) != d || digest(so) != d) c.fail("from-mesh", "changing the mesh changed the face or solid made from it");
      vector<Mesh> vm; for (int i = 0; i < 5; i++) { Mesh x; fill(x, r2); vm.push_back(x); } vector<Mesh> vc = vm; for (auto& x : vm) modify(x, r); Rnd r3(seed); { Mesh x; fill(x, r3); } for (int i = 0; i < 5; i++) { Mesh x; fill(x, r3); if (digest(x) != digest(vc[i])) c.fail("vector", "meshes kept in a vector changed"); } }
    after = pbt::live_bytes(); }
    CHECK(after == before, "memory", "%zu bytes before, %zu after", before, after); c.nontrivial = true;
}
// adding an object's own parts to it, or giving it its own data back, works as with copies of them; so does taking data
// from an object that is then changed
PROP(own_parts, 30000, 600000, 500, "the object has parts of its own")
{
    int type = (int)s.choice(6), n = 1 + (int)s.choice(12); bool many = s.choice(8) == 0; g_many = many ? (int)pow(10., s.uniform(1, 3)) : 0; struct Reset { ~Reset() { g_many = 0; } } reset; Rnd r(s.choice(1000000)); Digest dx, dy; bool nt = false; const char* what = "";
    switch (type) {
    case 0: { Mesh x; fill(x, r); g_many = 0; for (int k = 0; k < (many ? 2 : n % 4); k++) modify(x, r); Mesh y = x; int rep = 1 + n % 3; for (int k = 0; k < rep; k++) { x.add_mesh(x); Mesh t = y; y.add_mesh(t); } nt = x.nb_vertices() > 0; dx = digest(x); dy = digest(y); what = "a mesh added to itself"; break; }
    case 1: { SmoothMesh x; fill(x, r); SmoothMesh y = x; nt = x.nb_triangles() > 0; for (int k = 0; k < n; k++) { if (x.nb_triangles() && r.choice(4)) { int i = r.choice(x.nb_triangles()); QuadBezierTriangle t = y.triangle(i); x.add_triangle(x.triangle(i)); y.add_triangle(t); } else if (x.nb_triangles() < 20000) { x.add_mesh(x); SmoothMesh t = y; y.add_mesh(t); } } dx = digest(x); dy = digest(y); what = "a smooth mesh given its own triangles"; break; }
    case 2: { NurbsSolid x; fill(x, r); NurbsSolid y = x; nt = !x.surfaces().empty(); for (int k = 0; k < n && nt; k++) { int i = r.choice((int)x.surfaces().size()); if (r.choice(3)) { NurbsSurface t = y.surfaces()[i]; x.add_surface(x.surfaces()[i]); y.add_surface(t); } else { int j = r.choice((int)x.surfaces().size()); NurbsSurface t = y.surfaces()[j]; x.surfaces()[i] = x.surfaces()[j]; y.surfaces()[i] = t; } } dx = digest(x); dy = digest(y); what = "a solid given its own surfaces"; break; }
    case 3: { NurbsCurve x; fill(x, r); g_many = 0; NurbsCurve y = x; nt = x.nb_points() > 0; for (int k = 0; k < n && nt; k++) switch (r.choice(3)) { case 0: x.set_points(x.points()); break; case 1: x.set_knots(x.knots()); break; default: x.set_weights(x.weights()); } dx = digest(x); dy = digest(y); what = "a curve given its own points, knots or weights"; break; }
    case 4: { NurbsSurface x; fill(x, r); g_many = 0; NurbsSurface y = x; nt = !x.points().empty(); for (int k = 0; k < n && nt; k++) switch (r.choice(5)) { case 0: x.set_points(x.points(), x.nb_points_u(), x.nb_points_v()); break; case 1: x.set_knots_u(x.knots_u()); break; case 2: x.set_knots_v(x.knots_v()); break; case 3: x.set_degree(x.degree_u(), x.degree_v()); break; default: x.set_weights(x.weights()); } dx = digest(x); dy = digest(y); what = "a surface given its own points, knots or weights"; break; }
    default: { Solid x; fill(x, r); g_many = 0; Solid y(x); nt = x.mesh().nb_vertices() > 0; for (int k = 0; k < n; k++) switch (r.choice(3)) { case 0: x = x; break; case 1: x.mesh() = x.mesh(); break; default: { x.add_face(Face(x.mesh())); y.add_face(Face(y.mesh())); } } dx = digest(x); dy = digest(y); what = "a solid given its own mesh"; break; }
    }
    if (c.verbose) NOTE("%s, %d times", what, n);
    CHECK(dx == dy, "own-parts", "%s differs from the same done with copies (%zu and %zu numbers read back)", what, dx.size(), dy.size());
    c.nontrivial = nt;
}
