// C13: vertex merging and cleanup never change the surface.
#include "mesh_common.hpp"
#include "MeshUtil.h"
PROP(clusters, 120000, 2400000, 300, "at least two vertices are merged and two are kept apart")
{
    double tol = s.pick({1e-6, 0.1, 1., 1e-3, 1e-6, 0.1, 1., 1e-3, 1e-12, 1e-25, 1e6, 1e30}); int nc = s.irange(1, 8); vector<V3> centre; Mesh m; vector<int> cl; int col = s.boolean() ? -1 : 0x123456; m.set_color(col);
    for (int i = 0; i < nc; i++) { // centres lie on a lattice of step 3..20 tolerances
        double st = tol * s.uniform(3, 20); centre.push_back(V3{(ld)(i % 3) * 20 * tol + (i % 3 ? 0 : st * 0), (ld)((i / 3) % 3) * 20 * tol, (ld)(i / 9) * 20 * tol + (st - 10 * tol) * (i & 1)}); }
    bool exact = s.boolean(); int nv = s.irange(1, 24); for (int i = 0; i < nv; i++) { int k = (int)s.choice(nc); double r = exact ? 0 : tol * 0.28; V3 d{s.uniform(-r, r), s.uniform(-r, r), s.uniform(-r, r)}; m.add_vertex(p3(centre[k] + d)); cl.push_back(k); }
    int nt = (int)s.choice(16); for (int i = 0; i < nt; i++) { int a = (int)s.choice(nv), b = (int)s.choice(nv), d = (int)s.choice(nv); m.add_triangle(a, b, d); } unlink_some(s, m);
    NOTE("%d vertices in %d clusters, %d triangles, tolerance %g", nv, nc, nt, tol); Soup a = soup_of(m); MeshUtil::merge_vertices(m, tol); Soup b = soup_of(m);
    set<int> used(cl.begin(), cl.end()); CHECK(b.v.size() == used.size(), "vertex-count", "%zu vertices for %zu clusters of %d vertices", b.v.size(), used.size(), nv); CHECK(b.t.size() == a.t.size(), "triangle-count", "%zu triangles, %zu before", b.t.size(), a.t.size()); CHECK(indices_valid(b), "indices", "bad vertex index"); CHECK(m.get_color() == col, "colour", "colour changed");
    for (auto& p : b.v) { bool f = false; for (auto& q : a.v) f = f || same_bits(p, q); CHECK(f, "new-point", "vertex %s did not exist before", ps(p).c_str()); }
    map<int, int> where; // cluster -> merged vertex
    for (size_t i = 0; i < a.t.size(); i++) { int x[3] = {a.t[i].a, a.t[i].b, a.t[i].c}, y[3] = {b.t[i].a, b.t[i].b, b.t[i].c}; for (int k = 0; k < 3; k++) { CHECK(dist(a.v[x[k]], b.v[y[k]]) < tol, "moved", "triangle %zu corner %d moved by %g, tolerance %g", i, k, dist(a.v[x[k]], b.v[y[k]]), tol); auto it = where.emplace(cl[x[k]], y[k]); CHECK(it.first->second == y[k], "not-merged", "one cluster has two vertices"); } }
    Soup b0 = b; MeshUtil::merge_vertices(m, tol); Soup d = soup_of(m); bool same = d.v.size() == b0.v.size() && d.t.size() == b0.t.size(); for (size_t i = 0; same && i < d.v.size(); i++) same = same_bits(d.v[i], b0.v[i]); for (size_t i = 0; same && i < d.t.size(); i++) { Tri x = canon(d.t[i]), y = canon(b0.t[i]); same = x.a == y.a && x.b == y.b && x.c == y.c; } CHECK(same, "idempotent", "merging again changed the mesh");
    c.nontrivial = (int)used.size() < nv && used.size() >= 2;
}
// any vertices: corners move by less than the tolerance, kept vertices are apart, nothing is lost
PROP(general, 120000, 2400000, 300, "at least one pair of vertices is within the tolerance and one is not")
{
    double tol = s.pick({0.37, 1.3, 2.9, 1e-6, 0.37, 1.3, 2.9, 1e-6, 1e-30, 1e-12}); int nv = s.irange(1, 30); Mesh m; for (int i = 0; i < nv; i++) { Point3 p = gen_point(s, 4.); if (i && s.chance(1, 5)) m.get_vertex((int)s.choice(i), p); m.add_vertex(p); }
    int nt = (int)s.choice(20); for (int i = 0; i < nt; i++) { int a = (int)s.choice(nv), b = (int)s.choice(nv), d = (int)s.choice(nv); m.add_triangle(a, b, d); } unlink_some(s, m); Soup a = soup_of(m); NOTE("%d vertices, %d triangles, tolerance %g", nv, nt, tol); MeshUtil::merge_vertices(m, tol); Soup b = soup_of(m);
    CHECK(b.t.size() == a.t.size() && indices_valid(b), "triangle-count", "%zu triangles, %zu before", b.t.size(), a.t.size()); bool near = false, far = false; for (size_t i = 0; i < a.v.size(); i++) for (size_t j = 0; j < i; j++) (dist(a.v[i], a.v[j]) < tol ? near : far) = true;
    for (size_t i = 0; i < b.v.size(); i++) { bool f = false; for (auto& q : a.v) f = f || same_bits(b.v[i], q); CHECK(f, "new-point", "vertex %s did not exist before", ps(b.v[i]).c_str()); for (size_t j = 0; j < i; j++) CHECK(dist(b.v[i], b.v[j]) >= tol * (1 - 1e-12), "not-merged", "vertices %zu and %zu are %g apart, tolerance %g", j, i, dist(b.v[i], b.v[j]), tol); }
    for (size_t i = 0; i < a.t.size(); i++) { int x[3] = {a.t[i].a, a.t[i].b, a.t[i].c}, y[3] = {b.t[i].a, b.t[i].b, b.t[i].c}; for (int k = 0; k < 3; k++) CHECK(dist(a.v[x[k]], b.v[y[k]]) < tol * (1 + 1e-12), "moved", "triangle %zu corner %d moved by %g, tolerance %g", i, k, dist(a.v[x[k]], b.v[y[k]]), tol); }
    for (auto& q : a.v) { bool f = false; for (auto& p : b.v) f = f || dist(p, q) < tol * (1 + 1e-12); CHECK(f, "lost", "vertex %s has no merged vertex within the tolerance", ps(q).c_str()); }
    c.nontrivial = near && far;
}
PROP(resew, 24000, 480000, 50, "always: a closed mesh cut into separate triangles")
{
    Mesh g; string w = gen_closed(s, g); Soup a = soup_of(g); double e = 0; for (auto& p : a.v) e = max(e, maxabs(p)); double mn = 1e300; for (auto& t : a.t) mn = min(mn, min(dist(a.v[t.a], a.v[t.b]), min(dist(a.v[t.b], a.v[t.c]), dist(a.v[t.c], a.v[t.a])))); bool jit = s.boolean(); double tol = mn * 0.05, r = jit ? tol * 0.2 : 0; NOTE("%s, tolerance %g, noise %g", w.c_str(), tol, r);
    vector<int> order = identity((int)a.t.size()); for (int i = (int)order.size() - 1; i > 0; i--) swap(order[i], order[s.choice(i + 1)]); Mesh m; for (int i : order) { Point3 p[3] = {a.v[a.t[i].a], a.v[a.t[i].b], a.v[a.t[i].c]}; if (jit) for (auto& x : p) x += Point3(s.uniform(-r, r), s.uniform(-r, r), s.uniform(-r, r)); m.add_triangle(p[0], p[1], p[2]); }
    if (!jit && s.boolean()) MeshUtil::merge_vertices(m); else MeshUtil::merge_vertices(m, tol); Soup b = soup_of(m); vector<int> wl = weld(a.v, mn * 1e-3); set<int> nv(wl.begin(), wl.end());
    CHECK(b.v.size() == nv.size(), "vertex-count", "%zu vertices, the closed mesh has %zu", b.v.size(), nv.size()); CHECK(b.t.size() == a.t.size(), "triangle-count", "%zu triangles", b.t.size()); Manifold mf = check_closed(b, identity((int)b.v.size())); CHECK(mf.closed && mf.oriented && !mf.degenerate, "closed", "%s", mf.why.c_str());
    ld V = soup_volume(a); CHECK(fabsl(soup_volume(b) - V) <= (jit ? 0.2L * fabsl(V) : 1e-12L * (ld)e * e * e * a.t.size()), "volume", "volume %Lg became %Lg", V, soup_volume(b)); c.nontrivial = true;
}
PROP(empty_triangles, 160000, 3200000, 500, "at least one triangle goes and one stays")
{
    double tol = s.pick({1e-6, 0.1, 1., 0.37}); int nv = s.irange(2, 14); Mesh m; bool dflt = tol == 1e-6 && s.boolean(); double scale = dflt ? 1. : s.pick({1., 1., 1e-4, 1e4, 37.}); tol *= scale; for (int i = 0; i < nv; i++) { Point3 p = gen_point(s, 4. * scale); if (i && s.chance(1, 3)) { m.get_vertex((int)s.choice(i), p); double r = tol * s.pick({0., 0.4, 3.}); p += Point3(s.uniform(-r, r), s.uniform(-r, r), s.uniform(-r, r)); } m.add_vertex(p); }
    int nt = s.irange(1, 20); for (int i = 0; i < nt; i++) { int a = (int)s.choice(nv), b = (int)s.choice(nv), d = (int)s.choice(nv); m.add_triangle(a, b, d); } unlink_some(s, m); MeshState a = state_of(m); NOTE("%d vertices, %d triangles, tolerance %g", nv, nt, tol); if (dflt) MeshUtil::remove_empty_triangles(m); else MeshUtil::remove_empty_triangles(m, tol); MeshState b = state_of(m); bool gone = false, stay = false;
    CHECK(b.t.size() == a.t.size() && b.v.size() == a.v.size(), "count", "%zu triangles %zu vertices", b.t.size(), b.v.size());
    for (size_t i = 0; i < a.t.size(); i++) { auto &t = a.t[i]; double l = min(dist(a.v[t.a], a.v[t.b]), min(dist(a.v[t.b], a.v[t.c]), dist(a.v[t.c], a.v[t.a]))); Tri x = canon(t), y = canon(b.t[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "changed", "triangle %zu changed", i); if (a.un[i]) { CHECK(b.un[i], "restored", "triangle %zu came back", i); continue; } if (fabs(l - tol) < 1e-9 * (tol + 1e-3)) continue; if (l < tol) { CHECK(b.un[i], "kept", "triangle %zu with an edge of length %g is kept, tolerance %g", i, l, tol); gone = true; } else { CHECK(!b.un[i], "lost", "triangle %zu with shortest edge %g is removed, tolerance %g", i, l, tol); stay = true; } }
    for (size_t i = 0; i < a.v.size(); i++) CHECK(same_bits(a.v[i], b.v[i]), "vertex", "vertex %zu moved", i); CHECK(a.color == b.color, "colour", "colour changed");
    MeshUtil::remove_empty_triangles(m, tol); MeshState d = state_of(m); CHECK(diff_state(d, b).empty(), "idempotent", "%s", diff_state(d, b).c_str()); c.nontrivial = gone && stay;
}
// empty triangles anywhere among many
PROP(empty_many, 200, 4000, 4, "more than 1000 triangles, some of which go")
{
    int nt = s.pick({s.irange(100, 300), s.irange(1000, 5000), s.irange(32760, 32800), s.irange(65500, 66000)}), rare = s.pick({2, 20, 1000}); double tol = s.pick({1e-6, 0.1}); Hash r(s.choice(1 << 20)); Mesh m; vector<char> want, un; bool shared = s.boolean(); int gone = 0; m.add_vertex(0.5, 0.5, 7);
    for (int i = 0; i < nt; i++) { Point3 o(3. * i, r.real(1), 0), a = o, b = o + Point3(1, 0, r.real(1)), d = o + Point3(0, 1, r.real(1)); bool e = r.below(rare) == 0 || (i + 1 == nt && r.below(2)), rem = r.below(rare) == 0; if (e) { Point3 near = Point3(r.real(0.5), r.real(0.5), r.real(0.5)) * tol; int k = r.below(3); (k == 0 ? b : k == 1 ? d : a) = (k == 0 ? a : k == 1 ? b : d) + near; } if (shared) { int x = m.add_vertex(a), y = m.add_vertex(b), z = m.add_vertex(d); m.add_triangle(y, z, x); } else m.add_triangle(a, b, d); want.push_back(e || rem); un.push_back(rem); gone += e && !rem; }
    for (int i = 0; i < nt; i++) if (un[i]) m.unlink_triangle(i); NOTE("%d triangles, %d empty, tolerance %g", nt, gone, tol); MeshState a = state_of(m); MeshUtil::remove_empty_triangles(m, tol); MeshState b = state_of(m); CHECK(b.t.size() == a.t.size() && b.v.size() == a.v.size(), "count", "%zu triangles, %zu vertices", b.t.size(), b.v.size());
    for (int i = 0; i < nt; i++) { Tri x = canon(a.t[i]), y = canon(b.t[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "changed", "triangle %d changed", i); CHECK((bool)b.un[i] == (bool)want[i], want[i] ? "kept" : "lost", "triangle %d of %d is %s", i, nt, want[i] ? "kept" : "removed"); } c.nontrivial = nt > 1000 && gone > 0;
}
// many vertices: copies lie far apart in the list
PROP(many, 120, 2400, 2, "at least 200 vertices are merged")
{
    int nc = s.pick({s.irange(100, 500), s.irange(500, 1200)}), nv = nc + s.irange(0, 800); Hash h(s.choice(1 << 20)); double tol = s.pick({1e-6, 1e-3, 0.1}); int side = 1; while (side * side * side < nc) side++; Mesh m; vector<int> cl, first(nc, -1); int col = (int)s.choice(1000); m.set_color(col); int order = (int)s.choice(3);
    for (int i = 0; i < nv; i++) { int k = i < nc ? i : order == 0 ? h.below(nc) : order == 1 ? (i - nc) % nc : (nc - 1 - (i - nc) % nc); cl.push_back(k); double e = i < nc ? 0 : tol * 0.28; m.add_vertex(k % side + h.real(e), k / side % side + h.real(e), k / side / side + h.real(e)); }
    int nt = s.irange(1, 2000); vector<Tri> t; for (int i = 0; i < nt; i++) { Tri x{h.below(nv), h.below(nv), h.below(nv)}; m.add_triangle(x.a, x.b, x.c); t.push_back(x); } NOTE("%d vertices in %d places, %d triangles, tolerance %g", nv, nc, nt, tol); Soup a = soup_of(m); MeshUtil::merge_vertices(m, tol); Soup b = soup_of(m);
    CHECK((int)b.v.size() == nc, "vertex-count", "%zu vertices for %d places", b.v.size(), nc); CHECK((int)b.t.size() == nt, "triangle-count", "%zu triangles, %d before", b.t.size(), nt); CHECK(indices_valid(b), "indices", "bad vertex index"); CHECK(m.get_color() == col, "colour", "colour changed");
    for (int i = 0; i < nt; i++) { int x[3] = {t[i].a, t[i].b, t[i].c}, y[3] = {b.t[i].a, b.t[i].b, b.t[i].c}; for (int k = 0; k < 3; k++) { CHECK(dist(a.v[x[k]], b.v[y[k]]) < tol, "moved", "triangle %d corner %d moved by %g, tolerance %g", i, k, dist(a.v[x[k]], b.v[y[k]]), tol); int& f = first[cl[x[k]]]; if (f < 0) f = y[k]; CHECK(f == y[k], "not-merged", "one place has two vertices"); } } c.nontrivial = nv - nc >= 200;
}
