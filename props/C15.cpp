// C15: boolean splitting sorts the triangles of two meshes without loss.
#include "mesh_common.hpp"
#include "MeshBoolean.h"
struct T3 { Point3 p[3]; };
static vector<T3> tris(const Soup& s) { vector<T3> r; for (auto& t : s.t) r.push_back(T3{{s.v[t.a], s.v[t.b], s.v[t.c]}}); return r; }
static V3 nrm(const T3& t) { return cross(v3(t.p[1]) - v3(t.p[0]), v3(t.p[2]) - v3(t.p[0])); }
static ld area(const vector<T3>& v) { ld a = 0; for (auto& t : v) a += len(nrm(t)) / 2; return a; }
// how many of the triangles hold the point q, facing along N (only clearly inside / clearly outside is answered)
static int cover(const vector<T3>& v, V3 q, V3 N, double e, bool& tie)
{
    int k = 0;
    for (auto& t : v) { V3 n = nrm(t); ld l = len(n); if (l < 1e-9L * e * e) continue; n = n * (1 / l); if (dot(n, N) < 1 - 1e-6L) continue; if (fabsl(dot(n, q - v3(t.p[0]))) > 1e-7L * e) continue; bool in = true; for (int i = 0; i < 3; i++) { V3 d = v3(t.p[(i + 1) % 3]) - v3(t.p[i]); ld s = dot(n, cross(d, q - v3(t.p[i]))) / len(d); if (fabsl(s) < 1e-5L * e) tie = true; if (s < 0) in = false; } k += in; }
    return k;
}
static bool same_tri(const T3& a, const T3& b) { for (int k = 0; k < 3; k++) if (same_bits(a.p[0], b.p[k]) && same_bits(a.p[1], b.p[(k + 1) % 3]) && same_bits(a.p[2], b.p[(k + 2) % 3])) return true; return false; }
// exact separation: some axis among the two normals and the edge cross products separates the two triangles clearly
static bool apart(const T3& a, const T3& b, double e)
{
    for (int k = 0; k < 3; k++) { auto g = [&](const Point3& p) { return k == 0 ? p.x() : k == 1 ? p.y() : p.z(); }; double a0 = min(g(a.p[0]), min(g(a.p[1]), g(a.p[2]))), a1 = max(g(a.p[0]), max(g(a.p[1]), g(a.p[2]))), b0 = min(g(b.p[0]), min(g(b.p[1]), g(b.p[2]))), b1 = max(g(b.p[0]), max(g(b.p[1]), g(b.p[2]))); if (a1 < b0 - 1e-6 * e || b1 < a0 - 1e-6 * e) return true; }
    vector<V3> ax = {nrm(a), nrm(b), {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ax.push_back(cross(v3(a.p[(i + 1) % 3]) - v3(a.p[i]), v3(b.p[(j + 1) % 3]) - v3(b.p[j])));
    for (auto x : ax) { ld l = len(x); if (l < 1e-9L) continue; x = x * (1 / l); ld a0 = 1e30L, a1 = -1e30L, b0 = 1e30L, b1 = -1e30L; for (int i = 0; i < 3; i++) { ld p = dot(x, v3(a.p[i])), q = dot(x, v3(b.p[i])); a0 = min(a0, p); a1 = max(a1, p); b0 = min(b0, q); b1 = max(b1, q); } if (a1 < b0 - 1e-6L * e || b1 < a0 - 1e-6L * e) return true; }
    return false;
}
static void check_side(pbt::Ctx& c, pbt::Source& s, const vector<T3>& in, const vector<T3>& out, const vector<T3>& other, double e, const char* name, int& whole)
{
    ld A = area(in), B = area(out); CHECK(fabsl(A - B) <= 1e-8L * (A + e * e), "area", "%s: area %Lg, pieces %Lg", name, A, B);
    for (auto& t : in) { bool ap = true; for (auto& o : other) ap = ap && apart(t, o, e); if (!ap) continue; whole++; int k = 0, k0 = 0; for (auto& o : out) k += same_tri(t, o); for (auto& o : in) k0 += same_tri(t, o); CHECK(k == k0, "whole", "%s: a triangle that does not touch the other mesh appears %d times in the output, %d in the input", name, k, k0); }
    for (int r = 0; r < 6 && !in.empty(); r++) { const T3& t = in[s.choice(in.size())]; V3 n = nrm(t); ld l = len(n); if (l < 1e-6L * e * e) continue; n = n * (1 / l); double a = s.uniform(0.05, 1), b = s.uniform(0.05, 1), d = s.uniform(0.05, 1), w = a + b + d; V3 q = v3(t.p[0]) * (a / w) + v3(t.p[1]) * (b / w) + v3(t.p[2]) * (d / w); bool tie = false; int k0 = cover(in, q, n, e, tie), k1 = cover(out, q, n, e, tie); if (tie) continue; CHECK(k0 == k1, "cover", "%s: a point of the surface is covered %d times by the input and %d times by the pieces", name, k0, k1); }
}
static string gen_any(pbt::Source& s, Mesh& m) { if (s.chance(1, 3)) { m.clear(); int n = s.irange(1, 5); for (int i = 0; i < n; i++) m.add_triangle(gen_point(s, 2.), gen_point(s, 2.), gen_point(s, 2.)); return pbt::fmt("%d free triangles", n); } if (s.boolean()) return gen_open(s, m); Mesh x; int k = (int)s.choice(3); if (k == 0) MeshFactory::create_tetrahedron(1.5, m); else if (k == 1) MeshFactory::create_box(2, 2, 2, m); else MeshFactory::create_octahedron(1.5, m); Point3 d = gen_point(s, 1.5); m.apply_transform(Translation(d)); if (s.boolean()) m.apply_transform(RotationAngleAxis(s.uniform(0, 360), Point3(0, 0, 1))); return "solid"; }
PROP(split, 100000, 2000000, 200, "the two meshes touch and at least one triangle is cut, or a removed triangle precedes the others")
{
    Mesh A, B; string wa = gen_any(s, A), wb = gen_any(s, B);
    if (s.chance(1, 3)) { Soup q = soup_of(A); int n = s.irange(1, 6); B.clear(); wb = pbt::fmt("%d triangles through those of A", n); for (int i = 0; i < n; i++) { Tri t = q.t[s.choice(q.t.size())]; double u = s.pick({0.25, 0.5, 1. / 3}), v = s.pick({0.25, 1. / 3}); Point3 z = q.v[t.a] * (1 - u - v) + q.v[t.b] * u + q.v[t.c] * v, p0 = z + gen_point(s, 1.), p2 = q.v[s.pick({t.a, t.b, t.c})], p1 = z * 2 - p0; if (s.boolean()) B.add_triangle(p0, p1, p2); else B.add_triangle(p1, p2, p0); } if (s.boolean()) { Mesh x(A); A = B; B = x; std::swap(wa, wb); } } if (s.boolean()) unlink_some(s, A, 2); if (s.boolean()) unlink_some(s, B, 2); Mesh o[4]; for (auto& x : o) if (s.chance(1, 3)) { if (s.boolean()) MeshFactory::create_box(1, 2, 3, x); else MeshFactory::create_octahedron(1, x); }
    NOTE("A: %s, %d triangles; B: %s, %d triangles", wa.c_str(), A.nb_triangles(), wb.c_str(), B.nb_triangles()); MeshState a = state_of(A), b = state_of(B); MeshBoolean mb; mb.split_meshes(A, B, o[0], o[1], o[2], o[3]);
    CHECK(diff_state(state_of(A), a).empty() && diff_state(state_of(B), b).empty(), "input", "an input changed"); for (auto& x : o) CHECK(indices_valid(soup_of(x)), "indices", "bad index");
    vector<T3> ta = tris(soup_of(A)), tb = tris(soup_of(B)), oa = tris(soup_of(o[0])), ob = tris(soup_of(o[1])), ia = tris(soup_of(o[2])), ib = tris(soup_of(o[3])); size_t na = oa.size() + ia.size(), nb = ob.size() + ib.size(); oa.insert(oa.end(), ia.begin(), ia.end()); ob.insert(ob.end(), ib.begin(), ib.end()); double e = 1; for (auto& v : {a.v, b.v}) for (auto& p : v) e = max(e, maxabs(p)); int whole = 0;
    for (auto& v : {oa, ob}) for (auto& t : v) for (auto& p : t.p) CHECK(finite3(p), "finite", "corner %s", ps(p).c_str());
    check_side(c, s, ta, oa, tb, e, "A", whole); check_side(c, s, tb, ob, ta, e, "B", whole); c.nontrivial = na != ta.size() || nb != tb.size() || (a.t.size() != ta.size() && whole > 0); if (na != ta.size() || nb != tb.size()) LABEL("cut");
}
// splitting one triangle by another keeps the mesh's surface
PROP(one, 100000, 2000000, 500, "the triangle was cut")
{
    Mesh m; string w = gen_any(s, m); MeshState a = state_of(m); vector<int> live; for (size_t i = 0; i < a.t.size(); i++) live.push_back((int)i); int i = s.pick(live); vector<T3> before = tris(soup_of(m)); Point3 p[3]; for (auto& x : p) x = gen_point(s, 3.);
    if (s.boolean()) { // put a corner of the splitter inside the triangle, or its plane through a corner
        Tri t = a.t[i]; double u = s.pick({0.25, 0.5, 1. / 3, 0.}), v = s.pick({0.25, 0.5, 1. / 3, 0.}); Point3 q = a.v[t.a] * (1 - u - v) + a.v[t.b] * u + a.v[t.c] * v; p[0] = q + gen_point(s, 1.); p[1] = q * 2 - p[0]; if (s.boolean()) { p[2] = s.boolean() ? a.v[s.pick({t.a, t.b, t.c})] : q + (a.v[t.b] - a.v[t.a]) * s.pick({1., -2., 0.5}); for (int k = (int)s.choice(3); k > 0; k--) { Point3 x = p[0]; p[0] = p[1]; p[1] = p[2]; p[2] = x; } } /* one corner in the plane of the triangle, the opposite side passes through it */ }
    NOTE("%s: split triangle %d by %s %s %s", w.c_str(), i, ps(p[0]).c_str(), ps(p[1]).c_str(), ps(p[2]).c_str()); m.split_triangle(i, Triangle3(p[0], p[1], p[2])); Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad index"); vector<T3> after = tris(so); double e = 1; for (auto& q : a.v) e = max(e, maxabs(q));
    int dummy = 0; check_side(c, s, before, after, {T3{{p[0], p[1], p[2]}}}, e, "mesh", dummy); MeshState r = state_of(m); for (size_t k = 0; k < a.t.size(); k++) if ((int)k != i) CHECK(r.un[k] == a.un[k], "other", "triangle %zu changed", k); c.nontrivial = r.t.size() > a.t.size();
}

// meshes of some hundred triangles: every triangle is compared with every other one
PROP(many, 240, 4800, 2, "some triangles are near the other mesh and some are clear of it")
{
    Mesh A, B; for (Mesh* m : {&A, &B}) {
        int k = (int)s.choice(m == &B ? 6 : 4); double r = s.uniform(0.5, 2); m->clear();
        if (k >= 4) { Soup q = soup_of(A); int n = s.irange(20, 150); for (int i = 0; i < n; i++) { Tri t = q.t[s.choice(q.t.size())]; double u = s.pick({0.25, 0.5, 1. / 3}), v = s.pick({0.25, 1. / 3}); Point3 z = q.v[t.a] * (1 - u - v) + q.v[t.b] * u + q.v[t.c] * v, p0 = z + gen_point(s, 0.5); m->add_triangle(p0, z * 2 - p0, s.boolean() ? p0 + gen_point(s, 0.2) : q.v[s.pick({t.a, t.b, t.c})]); } continue; } // triangles through the middle of those of A
        if (k == 0) MeshFactory::create_sphere_geodesic(r, s.irange(1, 2), *m); else if (k == 1) MeshFactory::create_cylinder(2 * r, r, s.irange(4, 14), *m); else if (k == 2) MeshFactory::create_torus(r, r * 0.3, s.irange(6, 14), *m);
        else { int n = s.irange(5, 14); vector<Point3> p; for (int i = 0; i < n * n; i++) p.push_back(Point3((i % n) * 4. / n - 2 + s.real(-0.1, 0.1), (i / n) * 4. / n - 2 + s.real(-0.1, 0.1), s.real(-0.5, 0.5))); for (auto& q : p) m->add_vertex(q); for (int y = 0; y + 1 < n; y++) for (int x = 0; x + 1 < n; x++) { m->add_triangle(y * n + x, y * n + x + 1, y * n + n + x + 1); m->add_triangle(y * n + x, y * n + n + x + 1, y * n + n + x); } }
        m->apply_transform(RotationAngleAxis(s.uniform(0, 360), gen_point(s, 1.) + Point3(2, 0, 0))); m->apply_transform(Translation(gen_point(s, 1.))); if (s.boolean()) for (int i = (int)s.choice(7); i < m->nb_triangles(); i += 7) m->unlink_triangle(i); }
    Mesh o[4]; NOTE("A: %d triangles; B: %d triangles", A.nb_triangles(), B.nb_triangles()); MeshState a = state_of(A), b = state_of(B); MeshBoolean mb; mb.split_meshes(A, B, o[0], o[1], o[2], o[3]); CHECK(diff_state(state_of(A), a).empty() && diff_state(state_of(B), b).empty(), "input", "an input changed"); for (auto& x : o) CHECK(indices_valid(soup_of(x)), "indices", "bad index");
    vector<T3> ta = tris(soup_of(A)), tb = tris(soup_of(B)), oa = tris(soup_of(o[0])), ob = tris(soup_of(o[1])), ia = tris(soup_of(o[2])), ib = tris(soup_of(o[3])); oa.insert(oa.end(), ia.begin(), ia.end()); ob.insert(ob.end(), ib.begin(), ib.end()); double e = 1; for (auto& v : {a.v, b.v}) for (auto& p : v) e = max(e, maxabs(p)); int whole = 0;
    for (auto& v : {oa, ob}) for (auto& t : v) for (auto& p : t.p) CHECK(finite3(p), "finite", "corner %s", ps(p).c_str());
    check_side(c, s, ta, oa, tb, e, "A", whole); check_side(c, s, tb, ob, ta, e, "B", whole); bool cut = oa.size() != ta.size() || ob.size() != tb.size(); c.nontrivial = whole > 0 && whole < (int)(ta.size() + tb.size()); LABEL("%s", cut ? "cut" : "not cut");
}
