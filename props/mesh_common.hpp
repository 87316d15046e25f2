#pragma once
#include "common.hpp"
#include "MeshFactory.h"
#include "Transform.h"
#include <set>
// directed-edge bookkeeping of a triangulated region: +1 per directed edge, -1 for its reverse
inline map<pair<int, int>, int> boundary_of(const vector<Tri>& t)
{
    map<pair<int, int>, int> e;
    auto add = [&](int a, int b) { if (a == b) return; if (a < b) e[{a, b}]++; else e[{b, a}]--; };
    for (auto& x : t) { add(x.a, x.b); add(x.b, x.c); add(x.c, x.a); }
    for (auto it = e.begin(); it != e.end();) if (it->second == 0) it = e.erase(it); else ++it;
    return e;
}
// an oriented closed mesh with shared vertices, randomly moved, scaled and perturbed
inline string gen_closed(pbt::Source& s, Mesh& m, bool jitter = true)
{
    int kind = (int)s.choice(8); string what;
    switch (kind) {
    case 0: MeshFactory::create_tetrahedron(1., m); what = "tetrahedron"; break;
    case 1: MeshFactory::create_box(1., 2., 3., m); what = "box"; break;
    case 2: MeshFactory::create_octahedron(1., m); what = "octahedron"; break;
    case 3: MeshFactory::create_icosahedron(1., m); what = "icosahedron"; break;
    case 4: MeshFactory::create_dodecahedron(1., m); what = "dodecahedron"; break;
    case 5: MeshFactory::create_torus(2., 0.5, 1, m); what = "torus"; break;
    case 6: MeshFactory::create_sphere_uv(1., 1, m); what = "sphere_uv"; break;
    default: MeshFactory::create_sphere_geodesic(1., s.irange(1, 2), m); what = "sphere_geodesic"; break;
    }
    Point3 d = gen_point(s, 5.); double k = s.pick({1., 1., 0.01, 100.}), j = jitter && s.boolean() ? 0.05 : 0.;
    for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); if (j > 0) p += Point3(s.uniform(-j, j), s.uniform(-j, j), s.uniform(-j, j)); m.set_vertex(i, (p + d) * k); }
    return what + pbt::fmt(" scaled %g", k);
}
// a vertical bumpy grid, or a soup of random triangles over a few vertices
inline string gen_open(pbt::Source& s, Mesh& m)
{
    m.clear();
    if (s.boolean()) {
        int nx = s.irange(2, 4), ny = s.irange(2, 4);
        for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) m.add_vertex(x + s.uniform(-0.2, 0.2), y + s.uniform(-0.2, 0.2), s.uniform(-0.5, 0.5));
        for (int y = 0; y + 1 < ny; y++) for (int x = 0; x + 1 < nx; x++) { int a = x + nx * y; m.add_triangle(a, a + 1, a + nx + 1); m.add_triangle(a, a + nx + 1, a + nx); }
        return pbt::fmt("grid %dx%d", nx, ny);
    }
    int nv = s.irange(3, 10), nt = s.irange(1, 10);
    for (int i = 0; i < nv; i++) m.add_vertex(gen_point(s, 4.));
    for (int i = 0; i < nt; i++) { int a = (int)s.choice(nv), b = (int)s.choice(nv), c = (int)s.choice(nv); m.add_triangle(a, b, c); }
    return pbt::fmt("soup %d vertices %d triangles", nv, nt);
}
inline void unlink_some(pbt::Source& s, Mesh& m, int maxn = 3) { if (m.nb_triangles() == 0) return; int k = (int)s.choice(maxn + 1); for (int i = 0; i < k; i++) m.unlink_triangle((int)s.choice(m.nb_triangles())); }
// full state of a mesh, as read through its interface
struct MeshState { vector<Point3> v; vector<Tri> t; vector<char> un; int color; };
inline MeshState state_of(const Mesh& m)
{
    MeshState r; Point3 p; for (int i = 0; i < m.nb_vertices(); i++) { m.get_vertex(i, p); r.v.push_back(p); }
    for (int i = 0; i < m.nb_triangles(); i++) { Tri t; m.get_triangle_vertices(i, t.a, t.b, t.c); r.t.push_back(t); r.un.push_back(m.is_triangle_unlinked(i)); }
    r.color = m.get_color(); return r;
}
inline string diff_state(const MeshState& a, const MeshState& b)
{
    if (a.v.size() != b.v.size()) return pbt::fmt("%zu vertices instead of %zu", a.v.size(), b.v.size());
    for (size_t i = 0; i < a.v.size(); i++) if (!same_bits(a.v[i], b.v[i])) return pbt::fmt("vertex %zu is %s instead of %s", i, ps(a.v[i]).c_str(), ps(b.v[i]).c_str());
    if (a.t.size() != b.t.size()) return pbt::fmt("%zu triangles instead of %zu", a.t.size(), b.t.size());
    for (size_t i = 0; i < a.t.size(); i++) {
        Tri x = canon(a.t[i]), y = canon(b.t[i]);
        if (x.a != y.a || x.b != y.b || x.c != y.c) return pbt::fmt("triangle %zu is %d,%d,%d instead of %d,%d,%d", i, a.t[i].a, a.t[i].b, a.t[i].c, b.t[i].a, b.t[i].b, b.t[i].c);
        if (a.un[i] != b.un[i]) return pbt::fmt("triangle %zu is %s", i, a.un[i] ? "removed" : "not removed");
    }
    if (a.color != b.color) return pbt::fmt("colour %d instead of %d", a.color, b.color);
    return "";
}
inline ld state_area(const MeshState& m) { ld v = 0; for (size_t i = 0; i < m.t.size(); i++) if (!m.un[i]) { auto& t = m.t[i]; v += len(cross(v3(m.v[t.b]) - v3(m.v[t.a]), v3(m.v[t.c]) - v3(m.v[t.a]))) / 2; } return v; }
inline vector<int> identity(int n) { vector<int> r(n); for (int i = 0; i < n; i++) r[i] = i; return r; }

// a large mesh from one number: nv vertices, nt triangles over all of them, some removed
struct Hash { uint64_t x; explicit Hash(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {} uint64_t next() { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; } int below(int n) { return (int)(next() % (uint64_t)n); } double real(double a) { return ((next() >> 11) * 0x1p-53 * 2 - 1) * a; } };
inline int gen_many(pbt::Source& s, int top) { return s.pick({s.irange(100, 300), s.irange(250, 260), s.irange(1000, 1100), s.irange(4000, 5000), s.irange(32760, 32775), s.irange(65530, 65545), s.irange(60000, 100100)}) % (top + 1) + 1; }
inline string gen_large(pbt::Source& s, Mesh& m, MeshState& r, int top = 100200)
{
    int nv = max(4, gen_many(s, top)), nt = max(4, gen_many(s, top)); Hash h(s.choice(1 << 20)); bool gone = s.boolean(); r = MeshState(); r.color = -1;
    for (int i = 0; i < nv; i++) { double a = h.real(100), b = h.real(100), c = h.real(100); Point3 p(a, b, c); m.add_vertex(p); r.v.push_back(p); }
    for (int i = 0; i < nt; i++) { int a = h.below(nv), b = h.below(nv), c = h.below(nv); if (b == a) b = (a + 1) % nv; while (c == a || c == b) c = (c + 1) % nv; m.add_triangle(a, b, c); r.t.push_back(Tri{a, b, c}); r.un.push_back(0); }
    if (gone) for (int i = 0; i < nt; i++) if (h.below(50) == 0) { m.unlink_triangle(i); r.un[i] = 1; }
    return pbt::fmt("%d vertices, %d triangles%s", nv, nt, gone ? ", some removed" : "");
}
