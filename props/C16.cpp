// C16: curved triangle patches follow their Bezier definition.
#include "mesh_common.hpp"
#include "transform_common.hpp"
#include "QuadBezierTriangle.h"
#include "BezierUtil.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "CubicBezierTriangles.h"
struct Ref { V3 P[6]; ld w[6]; }; // P1 P2 P3 P1P2 P1P3 P2P3
static V3 ref_eval(const Ref& r, ld s, ld u, ld v) { ld b[6] = {s * s, u * u, v * v, 2 * s * u, 2 * s * v, 2 * u * v}; V3 p{0, 0, 0}; ld w = 0; for (int i = 0; i < 6; i++) { p = p + r.P[i] * (b[i] * r.w[i]); w += b[i] * r.w[i]; } return p * (1 / w); }
static QuadBezierTriangle gen_patch(pbt::Source& s, Ref& r, double sc, bool mild, double& mag)
{
    Point3 p[6]; for (int i = 0; i < 3; i++) p[i] = gen_point(s, sc); if (mild) { p[1] = p[0] + Point3(s.uniform(0.8, 1.5), s.uniform(-0.2, 0.2), s.uniform(-0.2, 0.2)) * sc; p[2] = p[0] + Point3(s.uniform(-0.2, 0.2), s.uniform(0.8, 1.5), s.uniform(-0.2, 0.2)) * sc; if (s.boolean()) swap(p[1], p[2]); }
    QuadBezierTriangle q; q.set_points(p[0], p[1], p[2]); p[3] = (p[0] + p[1]) * 0.5; p[4] = (p[0] + p[2]) * 0.5; p[5] = (p[1] + p[2]) * 0.5; for (auto& x : r.w) x = 1;
    if (s.boolean()) { for (int i = 3; i < 6; i++) p[i] = mild ? p[i] + gen_point(s, 0.15) * sc : gen_point(s, sc); q.set_control_points(p[3], p[4], p[5]); }
    if (s.boolean()) { for (auto& x : r.w) x = mild ? s.uniform(0.7, 1.4) : s.pick({1., 0.5, 2., 0.1, 5.}); q.set_weights((double)r.w[0], (double)r.w[1], (double)r.w[2], (double)r.w[3], (double)r.w[4], (double)r.w[5]); }
    mag = 0; for (int i = 0; i < 6; i++) { r.P[i] = v3(p[i]); mag = max(mag, maxabs(p[i])); } return q;
}
PROP(evaluation, 450000, 9000000, 2000, "curved or weighted, at an inner point")
{
    Ref r; double mag; QuadBezierTriangle q = gen_patch(s, r, s.pick({1., 100., 0.01}), false, mag); double a = s.unit_closed(), b = s.unit_closed(); if (a + b > 1) { a = 1 - a; b = 1 - b; } int corner = (int)s.choice(6); if (corner == 0) a = 1, b = 0; if (corner == 1) a = 0, b = 1; if (corner == 2) a = 0, b = 0; NOTE("at %g %g", a, b); double d = 1 - a - b;
    Point3 p = s.boolean() ? q.eval(a, b) : q.eval(a, b, d); CHECK(near3(p, ref_eval(r, a, b, d), 1e-12 * mag), "evaluation", "at (%g,%g,%g): %s instead of %s", a, b, d, ps(p).c_str(), ps(p3(ref_eval(r, a, b, d))).c_str());
    if (corner < 3) CHECK(near3(p, r.P[corner], 1e-13 * mag), "corner", "corner %d is %s", corner, ps(p).c_str());
    GenTransform t = gen_transform(s); q.apply_transform(*t.t); Point3 e = p3(t.ref(ref_eval(r, a, b, d))); CHECK(near3(q.eval(a, b), e, 1e-10 * (mag * t.mag + t.shift)), "transform", "%s: %s instead of %s", t.text.c_str(), ps(q.eval(a, b)).c_str(), ps(e).c_str());
    bool w = false; for (auto x : r.w) w = w || x != 1; c.nontrivial = corner >= 3 && w;
}
PROP(bernstein, 150000, 3000000, 5000, "always: any real parameter")
{
    double u = s.boolean() ? s.unit_closed() : s.real(-3, 3); ld x = u, y = 1 - (ld)u; NOTE("u=%g", u); auto chk = [&](double g, ld e, const char* n) { CHECK(fabsl(g - e) <= 1e-13L * (1 + fabsl(x * x * x) + fabsl(y * y * y)) * 3, "bernstein", "%s(%.17g) = %.17g instead of %.17Lg", n, u, g, e); };
    chk(BezierUtil::Bernstein01(u), y, "B01"); chk(BezierUtil::Bernstein11(u), x, "B11"); chk(BezierUtil::Bernstein02(u), y * y, "B02"); chk(BezierUtil::Bernstein12(u), 2 * x * y, "B12"); chk(BezierUtil::Bernstein22(u), x * x, "B22"); chk(BezierUtil::Bernstein03(u), y * y * y, "B03"); chk(BezierUtil::Bernstein13(u), 3 * x * y * y, "B13"); chk(BezierUtil::Bernstein23(u), 3 * x * x * y, "B23"); chk(BezierUtil::Bernstein33(u), x * x * x, "B33"); chk(BezierUtil::square(u), x * x, "square"); chk(BezierUtil::cubic(u), x * x * x, "cubic"); c.nontrivial = true;
}
PROP(meshing, 36000, 720000, 100, "three or more segments")
{
    Ref r; double mag; double sc = s.pick({1., 100., 0.01}); QuadBezierTriangle q = gen_patch(s, r, sc, true, mag); int n = s.chance(1, 60) ? s.chance(1, 12) ? s.irange(100, 280) : s.irange(13, 50) : s.sized(1, 12); Mesh m; if (s.boolean()) MeshFactory::create_box(1, 1, 1, m); MeshState before = state_of(m); NOTE("%d segments", n); q.add_to_mesh(m, n); MeshState a = state_of(m);
    CHECK(a.t.size() >= before.t.size() && a.v.size() >= before.v.size(), "append", "content lost"); for (size_t i = 0; i < before.v.size(); i++) CHECK(same_bits(before.v[i], a.v[i]), "append", "vertex %zu changed", i); for (size_t i = 0; i < before.t.size(); i++) CHECK(a.t[i].a == before.t[i].a && a.t[i].b == before.t[i].b && a.t[i].c == before.t[i].c && !a.un[i], "append", "triangle %zu changed", i);
    // find the grid parameter of every vertex used
    vector<V3> grid; vector<pair<int, int>> par; for (int i = 0; i <= n; i++) for (int j = 0; i + j <= n; j++) { grid.push_back(ref_eval(r, (ld)i / n, (ld)j / n, 1 - (ld)i / n - (ld)j / n)); par.push_back({i, j}); }
    multimap<ld, int> byX; if (n > 50) for (size_t k = 0; k < grid.size(); k++) byX.insert({grid[k].x, (int)k}); map<int, int> at; set<int> hit; auto find = [&](int v) { auto it = at.find(v); if (it != at.end()) return it->second; int best = -1; ld bd = 1e300L; if (n > 50) { ld tol = 1e-9L * (mag + sc), x = v3(a.v[v]).x; for (auto it = byX.lower_bound(x - tol); it != byX.end() && it->first <= x + tol; ++it) { ld d = len(v3(a.v[v]) - grid[it->second]); if (d < bd) { bd = d; best = it->second; } } } else for (size_t k = 0; k < grid.size(); k++) { ld d = len(v3(a.v[v]) - grid[k]); if (d < bd) { bd = d; best = (int)k; } } CHECK(bd <= 1e-9L * (mag + sc), "on-patch", "vertex %s is not the patch at a grid parameter (off by %Lg)", ps(a.v[v]).c_str(), bd); at[v] = best; hit.insert(best); return best; };
    vector<Tri> t; long sum = 0; for (size_t i = before.t.size(); i < a.t.size(); i++) { if (a.un[i]) continue; Tri x{find(a.t[i].a), find(a.t[i].b), find(a.t[i].c)}; t.push_back(x); long ax = par[x.a].first, ay = par[x.a].second, d = (par[x.b].first - ax) * (par[x.c].second - ay) - (par[x.c].first - ax) * (par[x.b].second - ay); CHECK(d > 0, "orientation", "a triangle is %s", d ? "turned over" : "degenerate"); sum += d; }
    CHECK((int)t.size() == n * n, "count", "%zu triangles for %d segments", t.size(), n); CHECK(sum == (long)n * n, "cover", "the triangles cover %ld of %d parts", sum, n * n); CHECK((int)hit.size() == (n + 1) * (n + 2) / 2, "cover", "%zu grid points used", hit.size());
    for (auto& e : boundary_of(t)) { auto p = par[e.first.first], q2 = par[e.first.second]; bool border = (p.first == 0 && q2.first == 0) || (p.second == 0 && q2.second == 0) || (p.first + p.second == n && q2.first + q2.second == n); CHECK(border && abs(e.second) == 1, "gap", "an inner edge is not shared"); }
    c.nontrivial = n >= 3;
}
PROP(factory, 18000, 360000, 50, "two or more segments")
{
    SmoothMesh sm; if (s.boolean()) SmoothMeshFactory::create_sphere(3, sm); double d = s.boolean() ? 1. + s.choice(10) : pow(10., s.uniform(-8, 9)); int kind = (int)s.choice(6), n = s.chance(1, 60) ? s.irange(6, 24) : s.sized(1, 5); ld D = d, r5 = sqrtl(5.L), ref = 0, a5 = (r5 - 1) * D; int patches = 0; double y = d, z = d;
    switch (kind) { case 0: SmoothMeshFactory::create_tetrahedron(d, sm); ref = 8 * D * D * D / 3; patches = 4; break; case 1: y = d * pow(10., s.uniform(-1.3, 1.3)); z = d * pow(10., s.uniform(-1.3, 1.3)); SmoothMeshFactory::create_box(d, y, z, sm); ref = D * y * z; patches = 12; break; case 2: SmoothMeshFactory::create_octahedron(d, sm); ref = 4 * D * D * D / 3; patches = 8; break; case 3: SmoothMeshFactory::create_dodecahedron(d, sm); ref = (15 + 7 * r5) / 4 * a5 * a5 * a5; patches = 36; break; case 4: SmoothMeshFactory::create_icosahedron(d, sm); ref = 5 * (3 + r5) / 12 * a5 * a5 * a5; patches = 20; break; default: SmoothMeshFactory::create_sphere(d, sm); patches = 8; }
    NOTE("solid %d size %g segments %d", kind, d, n); CHECK(sm.nb_triangles() == patches, "patches", "%d patches", sm.nb_triangles()); Mesh m; sm.add_to_mesh(m, n); Soup so = soup_of(m); CHECK((int)so.t.size() == patches * n * n, "count", "%zu triangles from %d patches with %d segments", so.t.size(), patches, n);
    double mn = min(y, z) * 0.5 / n; Manifold mf = check_closed(so, weld(so.v, 1e-3 * mn)); CHECK(mf.closed && mf.oriented && !mf.degenerate, "closed", "solid %d: %s", kind, mf.why.c_str()); ld V = soup_volume(so);
    if (kind < 5) { // the flat solids: every corner at its distance from the centre, the right number of them, flat patches
        ld R = kind == 0 || kind == 3 ? D * sqrtl(3) : kind == 1 ? sqrtl(D * D + (ld)y * y + (ld)z * z) / 2 : kind == 2 ? D : D * sqrtl(1 + (r5 - 1) * (r5 - 1) / 4); static const int corners[] = {4, 8, 6, 20, 12}; static const V3 at[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; vector<Point3> q; double ea = s.unit() / 2, eb = s.unit() / 2;
        for (int i = 0; i < patches; i++) { const QuadBezierTriangle& t = sm.triangle(i); V3 e{0, 0, 0}; for (int k = 0; k < 3; k++) { Point3 p = t.eval((double)at[k].x, (double)at[k].y); CHECK(fabsl(len(v3(p)) - R) <= 1e-11L * R, "corner-radius", "solid %d: corner %s at distance %.15Lg instead of %.15Lg", kind, ps(p).c_str(), len(v3(p)), R); q.push_back(p); e = e + v3(p) * (k == 0 ? ea : k == 1 ? eb : 1 - ea - eb); if (kind == 1) CHECK(nearv(fabs(p.x()), d / 2, 1e-12 * d) && nearv(fabs(p.y()), y / 2, 1e-12 * y) && nearv(fabs(p.z()), z / 2, 1e-12 * z), "corner-place", "box corner %s", ps(p).c_str()); } CHECK(near3(t.eval(ea, eb), e, 1e-11 * (double)R), "flat", "solid %d: patch %d is not flat", kind, i); }
        vector<int> id = weld(q, 1e-3 * mn); CHECK((int)set<int>(id.begin(), id.end()).size() == corners[kind], "corners", "solid %d has %zu corners", kind, set<int>(id.begin(), id.end()).size()); }
    if (kind < 5) CHECK(fabsl(V - ref) <= 1e-9L * ref, "volume", "solid %d: volume %.15Lg, formula %.15Lg", kind, V, ref);
    else { for (auto& p : so.v) { double rr = (double)len(v3(p)); CHECK(rr >= 0.93 * d && rr <= 1.07 * d, "sphere", "a point at distance %g for radius %g", rr, d); } CHECK(V > D * D * D * 4 / 3 * 0.999L && V < 4.3L * D * D * D, "sphere-volume", "volume %Lg for radius %g", V, d); 
        double a = s.unit_closed(), b = s.unit_closed(); if (a + b > 1) { a = 1 - a; b = 1 - b; } double rr = (double)len(v3(sm.triangle((int)s.choice(8)).eval(a, b))); CHECK(rr >= 0.93 * d && rr <= 1.07 * d, "sphere", "a point at distance %g for radius %g", rr, d); }
    // moving the smooth mesh moves what it evaluates to
    GenTransform t = gen_transform(s); SmoothMesh cp(sm); cp.apply_transform(*t.t); int i = (int)s.choice(patches); double a = s.unit() / 2, b = s.unit() / 2; V3 e = t.ref(v3(sm.triangle(i).eval(a, b))); CHECK(near3(cp.triangle(i).eval(a, b), e, 1e-10 * (3 * d * t.mag + t.shift)), "transform", "%s", t.text.c_str()); CHECK(cp.nb_triangles() == patches, "transform", "patch count");
    SmoothMesh sum; sum.add_mesh(sm); sum.add_mesh(cp); CHECK(sum.nb_triangles() == 2 * patches, "append", "patch count"); CHECK(near3(sum.triangle(patches + i).eval(a, b), e, 1e-10 * (3 * d * t.mag + t.shift)), "append", "patch"); c.nontrivial = n >= 2;
}
// many patches: each is meshed as it would be alone, in turn
PROP(many_patches, 900, 18000, 20, "more than 40 patches")
{
    int k = s.chance(1, 6) ? s.irange(100, 600) : s.irange(1, 100), n = s.irange(1, 4); if (s.chance(1, 15)) { k = s.irange(1, 4); n = s.irange(20, 60); } SmoothMesh sm, half; vector<QuadBezierTriangle> q; double mag = 0; for (int i = 0; i < k; i++) { Ref r; double g; QuadBezierTriangle t = gen_patch(s, r, 10., true, g); mag = max(mag, g); q.push_back(t); if (s.chance(1, 20)) { SmoothMesh one; one.add_triangle(t); sm.add_mesh(one); } else sm.add_triangle(t); } NOTE("%d patches, %d segments", k, n);
    CHECK(sm.nb_triangles() == k, "count", "%d patches for %d", sm.nb_triangles(), k); for (int j = 0; j < 4; j++) { int i = (int)s.choice(k); double a = s.unit() / 2, b = s.unit() / 2; CHECK(same_bits(sm.triangle(i).eval(a, b), q[i].eval(a, b)), "patch", "patch %d of %d", i, k); }
    Mesh m; sm.add_to_mesh(m, n); Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad index"); CHECK((int)so.t.size() == k * n * n, "count", "%zu triangles from %d patches with %d segments", so.t.size(), k, n);
    for (int i = 0; i < k; i++) { Mesh o; q[i].add_to_mesh(o, n); Soup e = soup_of(o); V3 A{0, 0, 0}, B{0, 0, 0}; ld V = 0, W = 0; for (int j = 0; j < n * n; j++) { const Tri &x = so.t[i * n * n + j], &y = e.t[j]; A = A + tri_area_vec(so, x); B = B + tri_area_vec(e, y); V += dot(v3(so.v[x.a]), cross(v3(so.v[x.b]), v3(so.v[x.c]))); W += dot(v3(e.v[y.a]), cross(v3(e.v[y.b]), v3(e.v[y.c]))); }
        CHECK(near3(p3(A), B, 1e-10 * mag * mag) && fabsl(V - W) <= 1e-10L * mag * mag * mag, "patch-mesh", "patch %d of %d is not meshed as it is alone", i, k); }
    Point3 d = gen_point(s, 5.); sm.apply_transform(Translation(d)); CHECK(sm.nb_triangles() == k, "transformed", "%d patches after a transform", sm.nb_triangles()); for (int i = 0; i < k; i++) { double a = s.unit() / 2, b = s.unit() / 2; CHECK(near3(sm.triangle(i).eval(a, b), q[i].eval(a, b) + d, 1e-9 * (mag + 5)), "transformed", "patch %d of %d is not moved with the smooth mesh", i, k); }
    c.nontrivial = k > 40;
}
PROP(flat_helpers, 60000, 1200000, 500, "always")
{
    Point3 p[5]; for (auto& x : p) x = gen_point(s, 5.); int k = 3 + (int)s.choice(3); SmoothMesh m; if (k == 3) m.add_flat_triangle(p[0], p[1], p[2]); if (k == 4) m.add_flat_quad(p[0], p[1], p[2], p[3]); if (k == 5) m.add_flat_pentagon(p[0], p[1], p[2], p[3], p[4]); CHECK(m.nb_triangles() == k - 2, "count", "%d patches for %d corners", m.nb_triangles(), k); Mesh o; m.add_to_mesh(o, 1); Soup so = soup_of(o); CHECK((int)so.t.size() == k - 2, "count", "%zu triangles", so.t.size()); vector<Tri> t, fan;
    auto idx = [&](int v) { for (int i = 0; i < k; i++) if (near3(so.v[v], p[i], 1e-12)) return i; c.fail("corner", pbt::fmt("vertex %s is no corner", ps(so.v[v]).c_str())); }; for (auto& x : so.t) t.push_back({idx(x.a), idx(x.b), idx(x.c)}); for (int i = 1; i + 1 < k; i++) fan.push_back({0, i, i + 1}); for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (dist(p[i], p[j]) < 1e-9) return; CHECK(boundary_of(t) == boundary_of(fan), "outline", "wrong outline or orientation"); double a = s.unit() / 2, b = s.unit() / 2; const QuadBezierTriangle& q = m.triangle(0); V3 e = v3(q.eval(1, 0)) * a + v3(q.eval(0, 1)) * b + v3(q.eval(0, 0)) * (1 - a - b); CHECK(near3(q.eval(a, b), e, 1e-12 * 5), "flat", "patch is not flat"); c.nontrivial = true;
}

// point-normal triangles: the control points are only visible to derived classes
template <class B> struct Peek : B {
    template <class Q = Peek> auto points(int) -> decltype(static_cast<Q*>(this)->_controlP1P2, static_cast<Q*>(this)->_controlP3P2, static_cast<Q*>(this)->_controlCenter, vector<Point3>()) { Q& q = *static_cast<Q*>(this); return {q._P1, q._P2, q._P3, q._controlP1P2, q._controlP2P1, q._controlP1P3, q._controlP3P1, q._controlP2P3, q._controlP3P2, q._controlCenter}; }
    template <class Q = Peek> vector<Point3> points(long) { return {}; }
};
PROP(point_normal, 60000, 1200000, 500, "normals that differ from the plane's")
{
    double sc = s.pick({1., 100., 0.01}); Point3 P[3], N[3]; for (auto& x : P) x = gen_point(s, sc); int kind = (int)s.choice(3); for (auto& x : N) { V3 a = v3(gen_point(s, 1.)); if (len(a) < 1e-3L) a = V3{0, 0, 1}; x = kind == 2 ? p3(a) : p3(a * (1 / len(a))); } if (kind == 1) { V3 n = cross(v3(P[1]) - v3(P[0]), v3(P[2]) - v3(P[0])); if (len(n) < 1e-9L * sc * sc) return; for (auto& x : N) x = p3(n * (1 / len(n))); }
    Peek<CubicBezierTriangles> q; if (s.boolean()) { q.set_points(P[1], P[2], P[0]); q.set_normals(N[0], N[0], N[0]); } q.set_points(P[0], P[1], P[2]); if (s.boolean()) q.set_control_points(P[0], P[1], P[2], P[0], P[1], P[2]); q.set_normals(N[0], N[1], N[2]); vector<Point3> g = q.points(0); if (g.empty()) return;
    NOTE("corners %s %s %s normals %s %s %s", ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(N[0]).c_str(), ps(N[1]).c_str(), ps(N[2]).c_str()); static const int from[] = {0, 1, 0, 2, 1, 2}, to[] = {1, 0, 2, 0, 2, 1}; V3 E{0, 0, 0}, M{0, 0, 0}; for (int i = 0; i < 3; i++) { CHECK(same_bits(g[i], P[i]), "corner", "corner %d is %s", i, ps(g[i]).c_str()); M = M + v3(P[i]) * (1 / 3.L); }
    for (int k = 0; k < 6; k++) { V3 a = v3(P[from[k]]), b = v3(P[to[k]]), n = v3(N[from[k]]); V3 e = (a * 2 + b - n * dot(b - a, n)) * (1 / 3.L); E = E + e * (1 / 6.L); CHECK(near3(g[3 + k], e, 1e-12 * sc * 4), "edge-control", "control point from corner %d to %d is %s instead of %s", from[k], to[k], ps(g[3 + k]).c_str(), ps(p3(e)).c_str()); }
    CHECK(near3(g[9], E + (E - M) * 0.5, 1e-12 * sc * 6), "centre", "centre control point is %s", ps(g[9]).c_str());
    Point3 ctl[7]; for (auto& x : ctl) x = gen_point(s, sc); q.set_control_points(ctl[0], ctl[1], ctl[2], ctl[3], ctl[4], ctl[5]); q.set_control_center(ctl[6]); g = q.points(0); for (int k = 0; k < 7; k++) CHECK(same_bits(g[3 + k], ctl[k]), "set-control", "control point %d is %s", k, ps(g[3 + k]).c_str()); c.nontrivial = kind != 1;
}
