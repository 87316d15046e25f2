// C12: mesh measurements agree with their geometric definitions.
#include "mesh_common.hpp"
#include "MeshMeasurements.h"
static double extent_of(const Soup& so) { double m = 0; for (auto& p : so.v) m = max(m, maxabs(p)); return m; }
static Mesh copy_scaled(const Mesh& a, double k, Point3 d) { Mesh m; Soup so = soup_of(a); for (auto& p : so.v) m.add_vertex(p * k + d); for (auto& t : so.t) m.add_triangle(t.a, t.b, t.c); return m; }
PROP(values, 60000, 1200000, 500, "at least three triangles, one of them removed")
{
    Mesh m; string w = s.boolean() ? gen_closed(s, m) : gen_open(s, m); int before = m.nb_triangles(); if (s.boolean()) unlink_some(s, m); if (s.chance(1, 8)) m.flip_triangle((int)s.choice(before)); NOTE("%s, %d triangles", w.c_str(), before);
    if (s.chance(1, 3)) { double k = pow(10., s.uniform(-12, 12)); for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); m.set_vertex(i, p * k); } NOTE("scaled by %g", k); }
    Soup so = soup_of(m); double e = extent_of(so); ld A = soup_area(so), V = soup_volume(so), absV = 0; for (auto& t : so.t) absV += len(v3(so.v[t.a])) * len(tri_area_vec(so, t)) + e * e * e * 1e-3L;
    double a = MeshMeasurements::surface(m), v = MeshMeasurements::volume(m);
    CHECK(fabsl(a - A) <= 1e-11L * (A + (ld)e * e), "surface", "%s: surface %.17g, triangle areas sum to %.17Lg", w.c_str(), a, A); CHECK(fabsl(v - V) <= 1e-11L * absV + 1e-300L, "volume", "%s: volume %.17g, expected %.17Lg", w.c_str(), v, V);
    if (fabsl(V) > 1e-9L * absV) CHECK(MeshMeasurements::is_oriented_outside(m) == (V > 0), "oriented", "volume %Lg but is_oriented_outside is %d", V, (int)MeshMeasurements::is_oriented_outside(m));
    c.nontrivial = before >= 3 && (int)so.t.size() < before;
}
PROP(closed_invariance, 20000, 400000, 250, "always: a closed mesh moved and scaled")
{
    Mesh m; string w = gen_closed(s, m); Soup so = soup_of(m); double e = extent_of(so), k = s.pick({1., 2., 0.5, 10., 0.1, pow(10., s.uniform(-12, 12))}); Point3 d = gen_point(s, 1.) * (e * s.pick({0., 1., 10.})); NOTE("%s scaled by %g", w.c_str(), k);
    double v = MeshMeasurements::volume(m), a = MeshMeasurements::surface(m); double tol = 1e-10 * e * e * e * 1000; CHECK(v > 0, "positive", "volume %g of an outward mesh", v);
    Mesh x = copy_scaled(m, 1, d); CHECK(nearv(MeshMeasurements::volume(x), v, tol), "translation", "volume %.17g, moved by %s %.17g", v, ps(d).c_str(), MeshMeasurements::volume(x)); CHECK(nearv(MeshMeasurements::surface(x), a, 1e-9 * a), "translation", "surface");
    Mesh y = copy_scaled(m, k, Point3(0, 0, 0)); CHECK(nearv(MeshMeasurements::volume(y), v * k * k * k, tol * k * k * k), "scaling", "volume %.17g, scaled by %g: %.17g", v, k, MeshMeasurements::volume(y)); CHECK(nearv(MeshMeasurements::surface(y), a * k * k, 1e-9 * a * k * k), "scaling", "surface");
    int n = m.nb_triangles(); for (int i = 0; i < n; i++) m.flip_triangle(i); CHECK(nearv(MeshMeasurements::volume(m), -v, 1e-12 * e * e * e * 1000), "reversed", "volume %.17g, reversed %.17g", v, MeshMeasurements::volume(m)); CHECK(!MeshMeasurements::is_oriented_outside(m) && nearv(MeshMeasurements::surface(m), a, 1e-12 * a), "reversed", "reversed mesh is oriented outside");
    c.nontrivial = true;
}
// each check against its definition; all defects are far from the threshold of 1e-9
PROP(checks, 60000, 1200000, 500, "at least one defect was planted, or a defect only in removed triangles")
{
    Mesh m; string w = s.boolean() ? gen_closed(s, m, false) : gen_open(s, m); Soup base = soup_of(m); double e = extent_of(base); string planted; int nDef = (int)s.choice(4); vector<int> drop;
    for (int k = 0; k < nDef; k++) {
        int nv = m.nb_vertices(), nt = m.nb_triangles();
        switch (s.choice(6)) {
        case 0: m.add_vertex(gen_point(s, e)); planted += " isolated"; break;
        case 1: { Point3 p; m.get_vertex((int)s.choice(nv), p); int v = m.add_vertex(p + Point3(s.pick({0., 1e-11, 5e-10, 3e-9, 2e-8, 1e-6}), 0, 0)); if (s.boolean()) m.add_triangle(v, (int)s.choice(nv), (int)s.choice(nv)); planted += " duplicate"; break; }
        case 2: { int a = (int)s.choice(nv), b = (int)s.choice(nv); m.add_triangle(a, a, b); planted += " degenerate"; break; }
        case 3: { Point3 p; int a = (int)s.choice(nv); m.get_vertex(a, p); int v = m.add_vertex(p + Point3(0, s.pick({1e-11, 5e-10, 3e-9, 2e-8, 1e-6}), 0)); m.add_triangle(a, v, (int)s.choice(nv)); planted += " short"; break; }
        case 4: { if (!nt) break; int i = (int)s.choice(nt); m.unlink_triangle(i); planted += " removed"; break; }
        default: { Point3 p(1, 2, 3); int a = m.add_vertex(p), b = m.add_vertex(p + Point3(1, 0, 0)), d = m.add_vertex(p + Point3(3, 0, 0)); m.add_triangle(a, b, d); planted += " flat"; break; }
        }
        if (m.nb_triangles() > nt && s.chance(1, 3)) { m.unlink_triangle(m.nb_triangles() - 1); planted += "(removed)"; }
    }
    NOTE("%s:%s", w.c_str(), planted.c_str()); Soup so = soup_of(m); int nv = (int)so.v.size(); vector<char> used(nv, 0);
    bool deg = false, degTie = false, sh = false, shTie = false, dup = false, dupTie = false;
    for (auto& t : so.t) {
        used[t.a] = used[t.b] = used[t.c] = 1; Point3 A = so.v[t.a], B = so.v[t.b], C = so.v[t.c];
        double l[3] = {dist(A, B), dist(B, C), dist(C, A)}; for (double x : l) { if (x < 9e-10) sh = true; else if (x < 1.1e-9) shTie = true; }
        ld ar = len(tri_area_vec(so, t)); if (t.a == t.b || t.b == t.c || t.a == t.c || (maxabs(A - Point3(1, 2, 3)) == 0 && maxabs(B - Point3(2, 2, 3)) == 0 && maxabs(C - Point3(4, 2, 3)) == 0)) deg = true; else if (ar <= 1e-9L * ((ld)l[0] + l[1] + l[2]) * ((ld)l[0] + l[1] + l[2])) degTie = true;
    }
    for (int i = 0; i < nv; i++) for (int j = 0; j < i; j++) { double x = dist(so.v[i], so.v[j]); if (x < 9e-10) dup = true; else if (x < 1.1e-9) dupTie = true; }
    bool iso = find(used.begin(), used.end(), 0) != used.end();
    if (deg || !degTie) CHECK(MeshMeasurements::has_no_degenerated_triangles(m) == !deg, "degenerate", "%s:%s: has_no_degenerated_triangles is %d", w.c_str(), planted.c_str(), (int)!!MeshMeasurements::has_no_degenerated_triangles(m));
    if (sh || !shTie) CHECK(MeshMeasurements::has_no_short_edges(m) == !sh, "short", "%s:%s: has_no_short_edges is %d", w.c_str(), planted.c_str(), (int)MeshMeasurements::has_no_short_edges(m));
    if (dup || !dupTie) CHECK(MeshMeasurements::has_no_duplicated_vertices(m) == !dup, "duplicate", "%s:%s: has_no_duplicated_vertices is %d", w.c_str(), planted.c_str(), (int)MeshMeasurements::has_no_duplicated_vertices(m));
    CHECK(MeshMeasurements::has_no_isolated_vertices(m) == !iso, "isolated", "%s:%s: has_no_isolated_vertices is %d", w.c_str(), planted.c_str(), (int)MeshMeasurements::has_no_isolated_vertices(m));
    bool all = MeshMeasurements::has_no_degenerated_triangles(m) && MeshMeasurements::is_oriented_outside(m) && MeshMeasurements::is_closed(m) && MeshMeasurements::has_no_self_intersections(m) && MeshMeasurements::has_no_isolated_vertices(m) && MeshMeasurements::has_no_duplicated_vertices(m) && MeshMeasurements::has_no_short_edges(m);
    CHECK(MeshMeasurements::is_clean(m) == all, "clean", "%s:%s: is_clean is %d, its parts give %d", w.c_str(), planted.c_str(), (int)MeshMeasurements::is_clean(m), (int)all);
    c.nontrivial = !planted.empty();
}
// open meshes are not closed
PROP(open, 30000, 600000, 500, "always: a triangle is missing")
{
    Mesh m; string w = gen_closed(s, m); int k = s.irange(1, 3), nt = m.nb_triangles(); set<int> gone; for (int i = 0; i < k; i++) { int t = (int)s.choice(nt); m.unlink_triangle(t); gone.insert(t); } if ((int)gone.size() == nt) return; NOTE("%s without %zu triangles", w.c_str(), gone.size());
    CHECK(!MeshMeasurements::is_closed(m), "open", "%s without %zu of %d triangles is called closed", w.c_str(), gone.size(), nt); CHECK(!MeshMeasurements::is_clean(m), "open-clean", "an open mesh is called clean"); c.nontrivial = true;
}
PROP(closed, 2000, 40000, 500, "always: every edge is shared by two triangles")
{
    Mesh m; if (s.chance(1, 8)) { CHECK(MeshMeasurements::is_closed(m), "empty-closed", "an empty mesh is not closed"); bool parts = MeshMeasurements::has_no_degenerated_triangles(m) && MeshMeasurements::is_oriented_outside(m) && MeshMeasurements::has_no_self_intersections(m) && MeshMeasurements::has_no_isolated_vertices(m) && MeshMeasurements::has_no_duplicated_vertices(m) && MeshMeasurements::has_no_short_edges(m); CHECK(MeshMeasurements::has_no_degenerated_triangles(m) && MeshMeasurements::has_no_isolated_vertices(m) && MeshMeasurements::has_no_duplicated_vertices(m) && MeshMeasurements::has_no_short_edges(m), "empty", "an empty mesh has a defect"); CHECK(MeshMeasurements::is_clean(m) == parts, "empty-clean", "is_clean of an empty mesh is %d, its parts give %d", (int)MeshMeasurements::is_clean(m), (int)parts); CHECK(MeshMeasurements::surface(m) == 0 && MeshMeasurements::volume(m) == 0, "empty", "an empty mesh has a size"); int n = s.irange(1, 4); for (int i = 0; i < n; i++) m.add_vertex(gen_point(s, 5.)); CHECK(!MeshMeasurements::has_no_isolated_vertices(m) && !MeshMeasurements::is_clean(m), "isolated", "vertices without triangles are not called isolated"); return; } string w = gen_closed(s, m); c.nontrivial = true;
    CHECK(MeshMeasurements::is_closed(m), "closed-mesh-called-open", "a mesh with every edge shared by two triangles is not called closed");
}
// large meshes with at most one defect somewhere
PROP(many, 240, 4800, 4, "at least 1000 vertices and a planted defect")
{
    int w = s.irange(10, 80), h = s.irange(10, 80); Hash r(s.choice(1 << 20)); Mesh m; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m.add_vertex(x + r.real(0.2), y + r.real(0.2), r.real(2)); for (int y = 0; y + 1 < h; y++) for (int x = 0; x + 1 < w; x++) { int a = y * w + x; m.add_triangle(a, a + 1, a + w + 1); m.add_triangle(a, a + w + 1, a + w); }
    int nv = w * h, def = (int)s.choice(6), at = s.pick({r.below(nv), 0, nv - 1}); Point3 p; m.get_vertex(at, p); static const char* names[] = {"none", "isolated", "duplicate", "short", "degenerate", "removed corner"}; NOTE("grid %dx%d, %s at %d", w, h, names[def], at);
    if (def == 1) m.add_vertex(1000, r.real(5), 3); if (def == 2) { int v = m.add_vertex(p + Point3(r.real(3e-10), r.real(3e-10), r.real(3e-10))); m.add_triangle(v, (at + nv / 2 + 3) % nv, (at + nv / 3 + 3) % nv); } if (def == 3) { int v = m.add_vertex(p + Point3(0, 5e-10, 0)); m.add_triangle(at, v, (at + nv / 2 + 3) % nv); } if (def == 4) m.add_triangle(at, at, (at + nv / 2) % nv); if (def == 5) { int n = m.nb_triangles(); for (int i = 0; i < n; i++) { int a, b, d; m.get_triangle_vertices(i, a, b, d); if (a == at || b == at || d == at) m.unlink_triangle(i); } }
    Soup so = soup_of(m); vector<char> used(so.v.size(), 0); for (auto& t : so.t) used[t.a] = used[t.b] = used[t.c] = 1; bool iso = find(used.begin(), used.end(), 0) != used.end();
    CHECK(MeshMeasurements::has_no_isolated_vertices(m) == !iso, "isolated", "%dx%d grid, %s at %d: has_no_isolated_vertices is %d", w, h, names[def], at, (int)!iso ^ 1); CHECK(MeshMeasurements::has_no_duplicated_vertices(m) == (def != 2 && def != 3), "duplicate", "%dx%d grid, %s at %d", w, h, names[def], at); CHECK(MeshMeasurements::has_no_short_edges(m) == (def != 3 && def != 4), "short", "%dx%d grid, %s at %d", w, h, names[def], at); if (def != 2 && def != 3) CHECK(MeshMeasurements::has_no_degenerated_triangles(m) == (def != 4), "degenerate", "%dx%d grid, %s at %d", w, h, names[def], at);
    ld A = soup_area(so); CHECK(fabsl(MeshMeasurements::surface(m) - A) <= 1e-10L * A, "surface", "surface %.15g instead of %.15Lg", MeshMeasurements::surface(m), A); ld V = soup_volume(so), aV = 1e4L * A; CHECK(fabsl(MeshMeasurements::volume(m) - V) <= 1e-12L * aV, "volume", "volume %.15g instead of %.15Lg", MeshMeasurements::volume(m), V); c.nontrivial = nv >= 1000 && def;
}
// many vertices that agree in one or two coordinates, and two equal ones among them
PROP(columns, 3000, 60000, 50, "at least 20 vertices share a coordinate and two of them are equal")
{
    int n = s.pick({s.irange(2, 30), s.irange(20, 300), s.irange(20, 300)}), shared = 1 + (int)s.choice(6); double k = s.pick({1., 1e3, 1e-3, 1e5}); Hash r(s.choice(1 << 20)); Point3 base = gen_point(s, k); vector<Point3> v; // bit d of shared: coordinate d is the same for all
    for (int i = 0; i < n; i++) { double q[3]; for (int d = 0; d < 3; d++) q[d] = (shared >> d & 1) ? (d == 0 ? base.x() : d == 1 ? base.y() : base.z()) : (d == (shared & 1 ? (shared & 2 ? 2 : 1) : 0) ? i * k * 0.01 : r.real(k)); v.push_back(Point3(q[0], q[1], q[2])); }
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); int def = (int)s.choice(3), i = r.below(n), j = r.below(n); if (def && i != j) { v[j] = v[i]; if (def == 2) v[j] = v[i] + Point3(2e-10, -2e-10, 2e-10); } else def = 0; if (n < 3) return; Mesh m; for (auto& p : v) m.add_vertex(p); for (int a = 0; a + 2 < n; a++) m.add_triangle(a, a + 1, a + 2); NOTE("%d vertices, shared %d, %s %d and %d", n, shared, def ? "duplicates" : "none", i, j);
    bool got = MeshMeasurements::has_no_duplicated_vertices(m); if (def == 0 || maxabs(base) < 1e5) CHECK(got == !def, "duplicate", "%d vertices of which %s: has_no_duplicated_vertices is %d", n, def ? "two are the same" : "none are the same", (int)got); c.nontrivial = n >= 20 && def;
}
