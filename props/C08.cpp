// C08: a mesh behaves as an indexed list of vertices and triangles (model-based, operation sequences).
#include "mesh_common.hpp"
#include "MeshKernelTIN.h"
#include "MeshKernelLinkedTriangles.h"

struct Model {
    MeshState m; Model() { m.color = -1; }
    int addv(const Point3& p) { m.v.push_back(p); return (int)m.v.size() - 1; }
    int addt(int a, int b, int c) { m.t.push_back(Tri{a, b, c}); m.un.push_back(0); return (int)m.t.size() - 1; }
    void append(const Model& o0) { Model o = o0; int n = (int)m.v.size(); for (auto& p : o.m.v) addv(p); for (size_t i = 0; i < o.m.t.size(); i++) if (!o.m.un[i]) addt(o.m.t[i].a + n, o.m.t[i].b + n, o.m.t[i].c + n); m.color = o.m.color; }
};
static void compare(pbt::Ctx& c, const Mesh& m, const Model& r, const char* op)
{
    CHECK(m.nb_vertices() == (int)r.m.v.size(), "count", "after %s: %d vertices, expected %zu", op, m.nb_vertices(), r.m.v.size());
    CHECK(m.nb_triangles() == (int)r.m.t.size(), "count", "after %s: %d triangles, expected %zu", op, m.nb_triangles(), r.m.t.size());
    string d = diff_state(state_of(m), r.m); CHECK(d.empty(), "content", "after %s: %s", op, d.c_str());
    CHECK(m.empty() == r.m.t.empty(), "empty", "after %s: empty() is %d with %zu triangles", op, (int)m.empty(), r.m.t.size());
}
// vertices of triangle i as read by each of the three readers
static void readers(pbt::Ctx& c, const Mesh& m, const Model& r, int i)
{
    Point3 p[3]; m.get_triangle_vertices(i, p[0], p[1], p[2]); Triangle3 t; m.get_triangle(i, t); const Tri& e = r.m.t[i];
    Point3 q[3] = {r.m.v[e.a], r.m.v[e.b], r.m.v[e.c]}; bool ok = false;
    for (int k = 0; k < 3; k++) ok = ok || (same_bits(p[0], q[k]) && same_bits(p[1], q[(k + 1) % 3]) && same_bits(p[2], q[(k + 2) % 3]));
    CHECK(ok, "readers", "triangle %d corner points are %s %s %s", i, ps(p[0]).c_str(), ps(p[1]).c_str(), ps(p[2]).c_str());
    CHECK(same_bits(t.p1(), p[0]) && same_bits(t.p2(), p[1]) && same_bits(t.p3(), p[2]), "readers", "get_triangle(%d) and get_triangle_vertices differ", i);
    int n[3] = {-7, -7, -7}; m.get_near_triangles(i, n[0], n[1], n[2]);
    for (int x : n) if (x != -1) {
        CHECK(x >= 0 && x < (int)r.m.t.size() && x != i && !r.m.un[x], "neighbour", "triangle %d names neighbour %d", i, x);
        int common = 0; for (int a : {e.a, e.b, e.c}) { const Tri& o = r.m.t[x]; if (a == o.a || a == o.b || a == o.c) common++; } CHECK(common >= 2, "neighbour", "triangle %d names %d which shares no edge", i, x);
    }
}
PROP(mesh_model, 240000, 4800000, 400, "at least one triangle existed, one was removed or flipped, and at least 6 operations ran")
{
    Mesh ms[3]; Model rs[3]; int nOps = s.sized(1, 40); bool removed = false, had = false;
    for (int step = 0; step < nOps; step++) {
        int k = (int)s.weighted({6, 2, 1}); Mesh& m = ms[k]; Model& r = rs[k]; int nv = (int)r.m.v.size(), nt = (int)r.m.t.size(); string op;
        int o = (int)s.weighted({6, 5, 3, 3, 2, 2, 2, 2, 3, 2, 1, 1, 1, 1, 1, 1}); if (r.m.v.size() > 400 && (o == 9 || o == 15)) o = 10;
        vector<Point3> drawn; // some points are at the place of another one
        auto pt = [&]() { Point3 p; if (!drawn.empty() && s.chance(1, 4)) p = s.pick(drawn); else if (nv && s.chance(1, 6)) p = r.m.v[s.choice(nv)]; else p = gen_point(s, 10.); drawn.push_back(p); return p; };
        auto live = [&]() { vector<int> l; for (int i = 0; i < nt; i++) if (!r.m.un[i]) l.push_back(i); return l; };
        switch (o) {
        case 0: { Point3 p = pt(); int id = s.boolean() ? m.add_vertex(p) : m.add_vertex(p.x(), p.y(), p.z()); int e = r.addv(p); op = pbt::fmt("add_vertex %s", ps(p).c_str()); CHECK(id == e, "id", "add_vertex returned %d, expected %d", id, e); break; }
        case 1: { if (!nv) break; int a = (int)s.choice(nv), b = (int)s.choice(nv), d = (int)s.choice(nv); int id = m.add_triangle(a, b, d), e = r.addt(a, b, d); op = pbt::fmt("add_triangle %d %d %d", a, b, d); CHECK(id == e, "id", "add_triangle returned %d, expected %d", id, e); break; }
        case 2: { Point3 p = pt(), q = pt(), t = pt(); int id = m.add_triangle(p, q, t); int a = r.addv(p), b = r.addv(q), d = r.addv(t); int e = r.addt(a, b, d); op = "add_triangle of points"; CHECK(id == e, "id", "add_triangle returned %d, expected %d", id, e); break; }
        case 3: { if (!nv) break; int v = (int)s.choice(nv); Point3 p = pt(); m.set_vertex(v, p); r.m.v[v] = p; op = pbt::fmt("set_vertex %d", v); break; }
        case 4: { if (nv < 4) break; int i[4]; for (int& x : i) x = (int)s.choice(nv); m.add_quad(i[0], i[1], i[2], i[3]); // either diagonal
            op = pbt::fmt("add_quad %d %d %d %d", i[0], i[1], i[2], i[3]); CHECK(m.nb_triangles() == nt + 2, "quad", "%d triangles added", m.nb_triangles() - nt); vector<Tri> t; for (int j = 0; j < 2; j++) { Tri x; m.get_triangle_vertices(nt + j, x.a, x.b, x.c); t.push_back(x); r.addt(x.a, x.b, x.c); }
            vector<Tri> ref = {{i[0], i[1], i[2]}, {i[2], i[3], i[0]}}; CHECK(boundary_of(t) == boundary_of(ref), "quad", "after %s: wrong outline", op.c_str()); break; }
        case 5: { Point3 p[4]; for (auto& x : p) x = pt(); bool opt = s.boolean(); m.add_quad(p[0], p[1], p[2], p[3], opt); int b = nv; for (auto& x : p) r.addv(x); op = "add_quad of points";
            CHECK(m.nb_triangles() == nt + 2 && m.nb_vertices() == nv + 4, "quad", "%d triangles %d vertices added", m.nb_triangles() - nt, m.nb_vertices() - nv); vector<Tri> t; for (int j = 0; j < 2; j++) { Tri x; m.get_triangle_vertices(nt + j, x.a, x.b, x.c); t.push_back(x); r.addt(x.a, x.b, x.c); }
            vector<Tri> d1 = {{b, b + 1, b + 2}, {b + 2, b + 3, b}}, d2 = {{b + 1, b + 2, b + 3}, {b + 3, b, b + 1}}; CHECK(boundary_of(t) == boundary_of(d1), "quad", "after %s: wrong outline", op.c_str());
            if (opt) { Soup so{r.m.v, {}}; auto A = [&](vector<Tri>& x) { return len(tri_area_vec(so, x[0])) + len(tri_area_vec(so, x[1])); }; ld a1 = A(d1), a2 = A(d2), a = A(t); CHECK(a <= min(a1, a2) + 1e-9L * (a1 + a2), "quad-surface", "area %Lg, the two diagonals give %Lg and %Lg", a, a1, a2); }
            break; }
        case 6: { if (nv < 5) break; int i[5]; set<int> u; for (int& x : i) { x = (int)s.choice(nv); while (u.count(x)) x = (x + 1) % nv; u.insert(x); } m.add_pentagon(i[0], i[1], i[2], i[3], i[4]); op = "add_pentagon";
            CHECK(m.nb_triangles() == nt + 3, "pentagon", "%d triangles added", m.nb_triangles() - nt); vector<Tri> t; for (int j = 0; j < 3; j++) { Tri x; m.get_triangle_vertices(nt + j, x.a, x.b, x.c); t.push_back(x); r.addt(x.a, x.b, x.c); }
            vector<Tri> ref = {{i[0], i[1], i[2]}, {i[0], i[2], i[3]}, {i[0], i[3], i[4]}}; CHECK(boundary_of(t) == boundary_of(ref), "pentagon", "wrong outline"); break; }
        case 7: { auto l = live(); if (l.empty()) break; int i = s.pick(l); m.flip_triangle(i); Tri t = r.m.t[i]; op = pbt::fmt("flip_triangle %d", i); removed = true;
            // the reversed triangle is a new one at the end; the old one is removed
            r.m.un[i] = 1; r.addt(t.a, t.c, t.b); break; }
        case 8: { if (!nt) break; int i = (int)s.choice(nt); m.unlink_triangle(i); r.m.un[i] = 1; op = pbt::fmt("unlink_triangle %d", i); removed = true; break; }
        case 9: { int j = (int)s.choice(3); op = pbt::fmt("add_mesh %d to %d", j, k); m.add_mesh(ms[j]); r.append(rs[j]); break; }
        case 10: { op = "clear"; m.clear(); r.m.v.clear(); r.m.t.clear(); r.m.un.clear(); break; }
        case 11: { int col = s.boolean() ? -1 : s.chance(1, 4) ? (int)s.pick({-2, 0, 0x7fffffff, -0x7fffffff - 1, (int)0xff123456}) : (int)s.choice(0x1000000); m.set_color(col); r.m.color = col; op = pbt::fmt("set_color %x", col); break; }
        case 12: { auto l = live(); if (l.empty()) break; int i = s.pick(l); bool byPoint = s.boolean() || nv == 0; Point3 p = pt(); int v; if (byPoint) { v = r.addv(p); m.split_triangle_with_vertex(i, p); } else { v = (int)s.choice(nv); m.split_triangle_with_vertex(i, v); }
            op = pbt::fmt("split_triangle_with_vertex %d %d", i, v); Tri t = r.m.t[i]; r.m.un[i] = 1; removed = true; CHECK(m.nb_triangles() == nt + 3, "split", "%d triangles added", m.nb_triangles() - nt);
            vector<Tri> got, ref = {{t.a, t.b, v}, {t.b, t.c, v}, {t.c, t.a, v}}; multiset<array<int, 3>> x, y; for (int j = 0; j < 3; j++) { Tri g; m.get_triangle_vertices(nt + j, g.a, g.b, g.c); r.addt(g.a, g.b, g.c); g = canon(g); x.insert({g.a, g.b, g.c}); Tri h = canon(ref[j]); y.insert({h.a, h.b, h.c}); }
            CHECK(x == y, "split", "after %s: wrong triangles", op.c_str()); break; }
        case 13: { double a = s.real(-2, 2); Point3 d = gen_point(s, 3.); op = "apply_transform"; if (s.boolean()) { m.apply_transform(Translation(d)); for (auto& p : r.m.v) p += d; } else { m.apply_transform(Scale(a, a, a)); for (auto& p : r.m.v) p = p * a; } break; }
        case 14: { int j = (int)s.choice(3); op = pbt::fmt("assign %d to %d", j, k); if (j == k) break; m = ms[j]; Model x; x.append(rs[j]); r = x; break; }
        default: { int n = s.irange(20, 120); op = pbt::fmt("add %d vertices", n); for (int i = 0; i < n; i++) { Point3 p(i, k, nv); int id = m.add_vertex(p), e = r.addv(p); CHECK(id == e, "id", "add_vertex returned %d, expected %d", id, e); } break; }
        }
        if (op.empty()) continue;
        NOTE("mesh %d: %s", k, op.c_str());
        for (int j = 0; j < 3; j++) compare(c, ms[j], rs[j], op.c_str());
        if (!r.m.t.empty()) { had = true; readers(c, m, r, (int)s.choice(r.m.t.size())); readers(c, m, r, (int)r.m.t.size() - 1); }
    }
    c.nontrivial = had && removed && nOps >= 6;
}
static void check_kernel(pbt::Ctx& c, MeshKernel& k, const Model& r, const char* name)
{
    CHECK(k.nb_vertices() == (int)r.m.v.size() && k.nb_triangles() == (int)r.m.t.size(), "kernel-count", "%s: %d vertices %d triangles, expected %zu %zu", name, k.nb_vertices(), k.nb_triangles(), r.m.v.size(), r.m.t.size());
    for (size_t i = 0; i < r.m.v.size(); i++) { Point3 p; k.get_vertex((int)i, p); CHECK(same_bits(p, r.m.v[i]), "kernel-vertex", "%s: vertex %zu is %s", name, i, ps(p).c_str()); }
    for (size_t i = 0; i < r.m.t.size(); i++) {
        Tri t; k.get_triangle_vertices((int)i, t.a, t.b, t.c); t = canon(t); Tri e = canon(r.m.t[i]); CHECK(t.a == e.a && t.b == e.b && t.c == e.c, "kernel-triangle", "%s: triangle %zu is %d %d %d", name, i, t.a, t.b, t.c);
        CHECK(k.is_triangle_unlinked((int)i) == (bool)r.m.un[i], "kernel-removed", "%s: triangle %zu removed=%d", name, i, (int)k.is_triangle_unlinked((int)i));
        int n[3] = {-7, -7, -7}; k.get_near_triangles((int)i, n[0], n[1], n[2]);
        for (int x : n) if (x != -1) { CHECK(x >= 0 && x < (int)r.m.t.size() && x != (int)i && !r.m.un[x], "kernel-neighbour", "%s: triangle %zu names neighbour %d", name, i, x); int common = 0; const Tri &o = r.m.t[x], &f = r.m.t[i]; for (int a : {f.a, f.b, f.c}) if (a == o.a || a == o.b || a == o.c) common++; CHECK(common >= 2, "kernel-neighbour", "%s: triangle %zu names %d which shares no edge", name, i, x); }
        int t1 = -1, t2 = -1; if (k.get_triangles_near_edge(e.a, e.b, t1, t2)) for (int x : {t1, t2}) if (x != -1) { CHECK(x >= 0 && x < (int)r.m.t.size(), "kernel-edge", "%s: names triangle %d", name, x); const Tri& o = r.m.t[x]; set<int> vs = {o.a, o.b, o.c}; CHECK(vs.count(e.a) && vs.count(e.b), "kernel-edge", "%s: triangle %d is not on edge %d-%d", name, x, e.a, e.b); }
    }
}
PROP(kernels, 90000, 1800000, 400, "at least one triangle was added and one removed")
{
    MeshKernelTIN a; MeshKernelLinkedTriangles b; Model r; int n = s.sized(1, 40); bool rem = false;
    for (int i = 0; i < n; i++) {
        int nv = (int)r.m.v.size(), nt = (int)r.m.t.size();
        switch (s.weighted({5, 5, 2, 2, 1})) {
        case 0: { Point3 p = gen_point(s, 10.); int e = r.addv(p); int x = a.add_vertex(p), y = b.add_vertex(p); CHECK(x == e && y == e, "kernel-id", "vertex ids %d %d, expected %d", x, y, e); NOTE("add_vertex"); break; }
        case 1: { if (!nv) break; int v[3]; for (int& t : v) t = (int)s.choice(nv); int e = r.addt(v[0], v[1], v[2]); int x = a.add_triangle(v[0], v[1], v[2]), y = b.add_triangle(v[0], v[1], v[2]); CHECK(x == e && y == e, "kernel-id", "triangle ids %d %d, expected %d", x, y, e); NOTE("add_triangle %d %d %d", v[0], v[1], v[2]); break; }
        case 2: { if (!nv) break; int v = (int)s.choice(nv); Point3 p = gen_point(s, 10.); a.set_vertex(v, p); b.set_vertex(v, p); r.m.v[v] = p; NOTE("set_vertex %d", v); break; }
        case 3: { if (!nt) break; int t = (int)s.choice(nt); a.unlink_triangle(t); b.unlink_triangle(t); r.m.un[t] = 1; rem = true; NOTE("unlink %d", t); break; }
        default: if (s.chance(1, 3)) { a.clear(); b.clear(); r = Model(); NOTE("clear"); }
        }
        check_kernel(c, a, r, "TIN"); check_kernel(c, b, r, "linked triangles");
    }
    c.nontrivial = rem;
}
// the kernels with many triangles
PROP(kernels_many, 60, 1200, 2, "more than 1000 triangles")
{
    MeshKernelTIN a; MeshKernelLinkedTriangles b; MeshKernel* ks[] = {&a, &b}; const char* nm[] = {"TIN", "linked triangles"}; Hash h(s.choice(1 << 20)); int nv = max(3, gen_many(s, 70000)), nt = max(1, gen_many(s, 70000)); NOTE("%d vertices, %d triangles", nv, nt);
    if (s.boolean()) for (auto k : ks) { k->add_vertex(Point3(1, 2, 3)); k->clear(); }
    vector<Point3> v; vector<Tri> t; vector<char> un(nt, 0); for (int i = 0; i < nv; i++) { v.push_back(Point3(h.real(10), i, h.real(10))); for (int k = 0; k < 2; k++) { int id = ks[k]->add_vertex(v[i]); CHECK(id == i, "kernel-id", "%s: vertex id %d, expected %d", nm[k], id, i); } }
    for (int i = 0; i < nt; i++) { int x = h.below(nv), y = (x + 1 + h.below(nv - 1)) % nv, z = h.below(nv); while (z == x || z == y) z = (z + 1) % nv; t.push_back({x, y, z}); for (int k = 0; k < 2; k++) { int id = ks[k]->add_triangle(x, y, z); CHECK(id == i, "kernel-id", "%s: triangle id %d, expected %d", nm[k], id, i); } }
    for (int i = 0; i < nt; i++) if (h.below(40) == 0) { un[i] = 1; for (auto k : ks) k->unlink_triangle(i); } for (int i = 0; i < nv; i++) if (h.below(40) == 0) { v[i] = Point3(-i, h.real(10), 1); for (auto k : ks) k->set_vertex(i, v[i]); }
    for (int k = 0; k < 2; k++) { CHECK(ks[k]->nb_vertices() == nv && ks[k]->nb_triangles() == nt, "kernel-count", "%s: %d vertices %d triangles, expected %d %d", nm[k], ks[k]->nb_vertices(), ks[k]->nb_triangles(), nv, nt);
        for (int i = 0; i < nv; i++) { Point3 p; ks[k]->get_vertex(i, p); CHECK(same_bits(p, v[i]), "kernel-vertex", "%s: vertex %d is %s", nm[k], i, ps(p).c_str()); }
        for (int i = 0; i < nt; i++) { Tri x; ks[k]->get_triangle_vertices(i, x.a, x.b, x.c); x = canon(x); Tri e = canon(t[i]); CHECK(x.a == e.a && x.b == e.b && x.c == e.c, "kernel-triangle", "%s: triangle %d is %d %d %d", nm[k], i, x.a, x.b, x.c); CHECK(ks[k]->is_triangle_unlinked(i) == (bool)un[i], "kernel-removed", "%s: triangle %d removed=%d", nm[k], i, (int)ks[k]->is_triangle_unlinked(i)); } }
    c.nontrivial = nt > 1000;
}
// many vertices and triangles
PROP(many, 160, 3200, 5, "more than 1000 triangles")
{
    Mesh m; Model r; string w = gen_large(s, m, r.m); NOTE("%s", w.c_str()); compare(c, m, r, "building"); Hash h(s.choice(1 << 20)); int nOps = s.irange(1, 6);
    for (int k = 0; k < nOps; k++) {
        int nv = (int)r.m.v.size(), nt = (int)r.m.t.size(); string op;
        switch (s.choice(6)) {
        case 0: { int i = h.below(nv); Point3 p(h.real(5), 1, 2); m.set_vertex(i, p); r.m.v[i] = p; op = "set_vertex"; break; }
        case 1: { int i = h.below(nt); m.unlink_triangle(i); r.m.un[i] = 1; op = "unlink_triangle"; break; }
        case 2: { int i = h.below(nt); if (r.m.un[i]) continue; m.flip_triangle(i); Tri t = r.m.t[i]; r.m.un[i] = 1; r.addt(t.a, t.c, t.b); op = "flip_triangle"; break; }
        case 3: { Mesh x; Model y; gen_large(s, x, y.m, 5000); m.add_mesh(x); r.append(y); op = "add_mesh"; break; }
        case 4: { Mesh x = m; Model y; y.append(r); y.m.color = r.m.color; compare(c, x, y, "copy"); op = "copy"; break; }
        default: { Point3 d(1, h.real(3), 2); m.apply_transform(Translation(d)); for (auto& p : r.m.v) p += d; op = "apply_transform"; }
        }
        NOTE("%s", op.c_str()); compare(c, m, r, op.c_str()); readers(c, m, r, (int)r.m.t.size() - 1); readers(c, m, r, h.below((int)r.m.t.size()));
    }
    c.nontrivial = r.m.t.size() > 1000;
}
