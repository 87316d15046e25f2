// C14: tessellation refines every triangle without moving the surface.
#include "mesh_common.hpp"
#include "MeshTessellate.h"
static void dirty(pbt::Source& s, Mesh& m) { if (s.boolean()) return; MeshFactory::create_box(1, 1, 1, m); if (s.boolean()) m.unlink_triangle(3); }
// the pieces tile the triangle (P[0],P[1],P[2]): same orientation, areas sum up, inner edges cancel, the outline is the triangle's
static void check_tiling(pbt::Ctx& c, const Soup& so, const vector<Tri>& t, const Point3 P[3], int n)
{
    double e = max(dist(P[0], P[1]), max(dist(P[1], P[2]), dist(P[2], P[0]))), mag = max(maxabs(P[0]), max(maxabs(P[1]), maxabs(P[2]))); V3 N = cross(v3(P[1]) - v3(P[0]), v3(P[2]) - v3(P[0])); ld A = len(N); N = N * (1 / A); double h = (double)(A / e), tol = 1e-6 * h / n + 1e-13 * mag;
    CHECK((int)t.size() == n * n, "count", "%zu pieces for %d segments", t.size(), n); ld sum = 0;
    for (auto& x : t) { ld a = dot(N, cross(v3(so.v[x.b]) - v3(so.v[x.a]), v3(so.v[x.c]) - v3(so.v[x.a]))); CHECK(a > 0.5L * A / (n * n) && a < 1.5L * A / (n * n), "piece", "a piece has area %Lg of %Lg", a / 2, A / 2); sum += a; for (int i : {x.a, x.b, x.c}) CHECK(fabsl(dot(N, v3(so.v[i]) - v3(P[0]))) <= tol, "plane", "a piece leaves the plane by %Lg", dot(N, v3(so.v[i]) - v3(P[0]))); }
    CHECK(fabsl(sum - A) <= 1e-9L * A + 1e-12L * mag * e, "area", "pieces have area %Lg, the triangle %Lg", sum / 2, A / 2);
    // outline
    vector<Point3> used; vector<Tri> loc; for (auto& x : t) { int b = (int)used.size(); used.push_back(so.v[x.a]); used.push_back(so.v[x.b]); used.push_back(so.v[x.c]); loc.push_back({b, b + 1, b + 2}); } vector<int> id = weld(used, tol); for (auto& x : loc) x = Tri{id[x.a], id[x.b], id[x.c]}; auto bd = boundary_of(loc); ld L = 0;
    for (auto& x : bd) { CHECK(abs(x.second) == 1, "overlap", "an inner edge does not cancel"); Point3 p = used[x.first.first], q = used[x.first.second]; if (x.second < 0) swap(p, q); bool on = false; for (int k = 0; k < 3; k++) { V3 d = v3(P[(k + 1) % 3]) - v3(P[k]); ld l = len(d); d = d * (1 / l); V3 m = v3(p) - v3(P[k]), m2 = v3(q) - v3(P[k]); if (len(m - d * dot(m, d)) <= tol && len(m2 - d * dot(m2, d)) <= tol && dot(v3(q) - v3(p), d) > 0 && dot(m, d) >= -tol && dot(m2, d) <= l + tol) on = true; } CHECK(on, "gap", "an edge %s %s of the pieces is inside the triangle and not shared", ps(p).c_str(), ps(q).c_str()); L += dist(p, q); }
    ld per = (ld)dist(P[0], P[1]) + dist(P[1], P[2]) + dist(P[2], P[0]); CHECK(fabsl(L - per) <= 1e-9L * per + 10 * tol, "outline", "outline length %Lg, perimeter %Lg", L, per);
}
PROP(triangles, 30000, 600000, 100, "two or more segments and at least two triangles, one possibly removed")
{
    Mesh in, out; dirty(s, out); int k = s.irange(1, 5), n = s.sized(1, 14); bool thin = s.chance(1, 6); if (s.chance(1, 100)) { k = 1; n = s.irange(15, 80); if (s.chance(1, 8)) n = s.pick({s.irange(100, 140), s.irange(200, 280)}); } double sc = s.pick({1., 100., 0.01}); vector<array<Point3, 3>> P; Mesh* dst = &out; (void)dst;
    for (int i = 0; i < k; i++) { array<Point3, 3> p; for (int tries = 0;; tries++) { for (auto& x : p) x = gen_point(s, 1.); V3 N = cross(v3(p[1]) - v3(p[0]), v3(p[2]) - v3(p[0])); if (len(N) > 0.05L) break; if (tries > 5) { p[0] = Point3(0, 0, 0); p[1] = Point3(1, 0, 0); p[2] = Point3(0, 1, 0.5); break; } } if (thin) { double f = s.pick({0.03, 1e-3, 1e-4}); int j = (int)s.choice(3); Point3 &a = p[j], &b = p[(j + 1) % 3], &q = p[(j + 2) % 3]; double at = s.uniform(0.05, 0.95); Point3 foot = a + (b - a) * at; q = foot + (q - foot) * f; } for (auto& x : p) x = (x + Point3(5. * i, 0, 0)) * sc; P.push_back(p); in.add_triangle(p[0], p[1], p[2]); }
    vector<char> un(k, 0); if (k > 1) for (int i = 0; i < k; i++) if (s.chance(1, 4)) { in.unlink_triangle(i); un[i] = 1; } MeshState before = state_of(in); NOTE("%d triangles, %d segments", k, n);
    MeshTessellate mt; mt.compute(in, n, out); CHECK(diff_state(state_of(in), before).empty(), "input", "the input changed: %s", diff_state(state_of(in), before).c_str()); Soup so = soup_of(out); CHECK(indices_valid(so), "indices", "bad index"); vector<vector<Tri>> by(k);
    for (auto& t : so.t) { double x = (so.v[t.a].x() + so.v[t.b].x() + so.v[t.c].x()) / 3 / sc; int i = (int)floor(x / 5 + 0.5); CHECK(i >= 0 && i < k && !un[i], "stray", "a piece at x=%g belongs to no existing triangle", x); by[i].push_back(t); }
    for (int i = 0; i < k; i++) if (!un[i]) check_tiling(c, so, by[i], P[i].data(), n);
    c.nontrivial = n >= 2 && k >= 2;
}
PROP(closed, 15000, 300000, 25, "two or more segments")
{
    Mesh in, out; dirty(s, out); string w = gen_closed(s, in); int n = s.sized(1, 6); NOTE("%s, %d segments", w.c_str(), n); Soup a = soup_of(in); MeshTessellate mt; mt.compute(in, n, out); if (s.chance(1, 4)) mt.compute(in, n, out); Soup b = soup_of(out); CHECK(indices_valid(b), "indices", "bad index");
    double mn = 1e300, e = 0; for (auto& t : a.t) { double l[3] = {dist(a.v[t.a], a.v[t.b]), dist(a.v[t.b], a.v[t.c]), dist(a.v[t.c], a.v[t.a])}; for (double x : l) { mn = min(mn, x); e = max(e, x); } } double mag = 0; for (auto& p : a.v) mag = max(mag, maxabs(p));
    CHECK(b.t.size() == a.t.size() * n * n, "count", "%zu triangles from %zu with %d segments", b.t.size(), a.t.size(), n); ld V = soup_volume(a), A = soup_area(a); CHECK(fabsl(soup_area(b) - A) <= 1e-10L * A, "area", "area %Lg became %Lg", A, soup_area(b)); CHECK(fabsl(soup_volume(b) - V) <= 1e-10L * (V + A * mag), "volume", "volume %Lg became %Lg", V, soup_volume(b));
    Manifold mf = check_closed(b, weld(b.v, mn / n * 1e-3)); CHECK(mf.closed && mf.oriented && !mf.degenerate, "closed", "%s with %d segments: %s", w.c_str(), n, mf.why.c_str()); c.nontrivial = n >= 2;
}
// many triangles, some of them removed: each existing one has its n*n pieces
PROP(many, 60, 1200, 2, "more than 1000 triangles")
{
    Mesh in, out; dirty(s, out); int k = s.pick({s.irange(120, 300), s.irange(1000, 5000), s.irange(32700, 32800), s.irange(65500, 66000)}), n = k > 30000 ? s.irange(1, 2) : s.irange(1, 4), gone = (int)s.choice(4); Hash r(s.choice(1 << 20)); bool shared = s.boolean(); vector<char> un(k, 0); vector<array<Point3, 3>> P(k); NOTE("%d triangles, %d segments%s%s", k, n, gone ? ", some removed" : "", shared ? ", shared vertices" : "");
    for (int i = 0; i < k; i++) { Point3 o(5. * (i % 251), 5. * (i / 251), r.real(2)); P[i] = {o + Point3(r.real(0.3), r.real(0.3), r.real(1)), o + Point3(1 + r.real(0.3), r.real(0.3), r.real(1)), o + Point3(r.real(0.3), 1 + r.real(0.3), r.real(1))}; if (!shared) in.add_triangle(P[i][0], P[i][1], P[i][2]); else { int a = in.add_vertex(P[i][0]), b = in.add_vertex(P[i][1]), d = in.add_vertex(P[i][2]); in.add_triangle(b, d, a); } if (gone && r.below(gone * gone * 3) == 0) un[i] = 1; }
    for (int i = 0; i < k; i++) if (un[i]) in.unlink_triangle(i);
    MeshTessellate mt; mt.compute(in, n, out); CHECK(in.nb_triangles() == k && in.nb_vertices() == 3 * k, "input", "the input changed"); Soup so = soup_of(out); CHECK(indices_valid(so), "indices", "bad index"); vector<vector<Tri>> by(k);
    for (auto& t : so.t) { Point3 q = (so.v[t.a] + so.v[t.b] + so.v[t.c]) / 3; int x = (int)floor(q.x() / 5 + 0.5), y = (int)floor(q.y() / 5 + 0.5), i = y * 251 + x; CHECK(x >= 0 && x < 251 && i >= 0 && i < k && !un[i], "stray", "a piece at %s belongs to no existing triangle", ps(q).c_str()); by[i].push_back(t); }
    for (int i = 0; i < k; i++) { CHECK((int)by[i].size() == (un[i] ? 0 : n * n), "count", "triangle %d of %d has %zu pieces for %d segments", i, k, by[i].size(), n); if (un[i]) continue; V3 N = cross(v3(P[i][1]) - v3(P[i][0]), v3(P[i][2]) - v3(P[i][0])), S{0, 0, 0}; for (auto& t : by[i]) S = S + cross(v3(so.v[t.b]) - v3(so.v[t.a]), v3(so.v[t.c]) - v3(so.v[t.a])); CHECK(len(S - N) <= 1e-6L * len(N), "area", "the pieces of triangle %d of %d do not add up to it", i, k); if (k < 2000 || r.below(200) == 0 || i + 3 > k) check_tiling(c, so, by[i], P[i].data(), n); }
    c.nontrivial = k > 1000;
}
