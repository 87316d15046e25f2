// C11: factory meshes are closed, outward, on their shape and of the right size.
#include "mesh_common.hpp"
static double gen_size(pbt::Source& s) { switch (s.choice(4)) { case 0: return 1. + s.choice(10); case 1: return s.uniform(0.01, 10); case 2: return pow(10., s.uniform(-8, 9)); default: return s.pick({0.5, 2., 100., 0.001, 1e-5, 1e7}); } }
static void dirty(pbt::Source& s, Mesh& m) { if (s.boolean()) return; MeshFactory::create_box(1, 1, 1, m); if (s.boolean()) m.unlink_triangle(3); if (s.boolean()) m.add_vertex(7, 7, 7); }
static void check_used(pbt::Ctx& c, const Mesh& m, const char* what) { Soup so = soup_of(m); vector<char> u(so.v.size(), 0); for (auto& t : so.t) u[t.a] = u[t.b] = u[t.c] = 1; for (size_t i = 0; i < u.size(); i++) CHECK(u[i], "unused", "%s: vertex %zu belongs to no triangle", what, i); }
// closed, outward and without degenerate triangles once coincident vertices are merged; returns the volume
static ld check_solid(pbt::Ctx& c, const Mesh& m, double sc /* largest extent */, double small /* smallest feature */, const char* what)
{
    Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "%s: bad vertex index", what); for (auto& p : so.v) CHECK(finite3(p), "finite", "%s: vertex %s", what, ps(p).c_str());
    CHECK(so.t.size() >= 4, "closed", "%s: %zu triangles", what, so.t.size()); vector<int> id = weld(so.v, 1e-7 * small + 1e-13 * sc);
    for (auto& t : so.t) CHECK(id[t.a] != id[t.b] && id[t.b] != id[t.c] && id[t.a] != id[t.c] && len(tri_area_vec(so, t)) > 1e-9L * small * small, "degenerate", "%s: degenerate triangle %d %d %d", what, t.a, t.b, t.c);
    Manifold r = check_closed(so, id); CHECK(r.closed && r.oriented, "closed", "%s: %s", what, r.why.c_str());
    // one connected shell, Euler characteristic left to the caller
    check_used(c, m, what); ld V = soup_volume(so); CHECK(V > 0, "outward", "%s: volume %Lg", what, V); return V;
}
static int euler(const Mesh& m, double tol) { Soup so = soup_of(m); vector<int> id = weld(so.v, tol); set<int> v; set<pair<int, int>> e; for (auto& t : so.t) { int q[3] = {id[t.a], id[t.b], id[t.c]}; for (int i = 0; i < 3; i++) { v.insert(q[i]); e.insert({min(q[i], q[(i + 1) % 3]), max(q[i], q[(i + 1) % 3])}); } } return (int)v.size() - (int)e.size() + (int)so.t.size(); }
static void check_volume(pbt::Ctx& c, ld V, ld ref, const char* what) { CHECK(fabsl(V - ref) <= 1e-9L * ref, "volume", "%s: volume %.15Lg, formula %.15Lg", what, V, ref); }
PROP(polyhedra, 40000, 800000, 1000, "always: any positive size")
{
    Mesh m; dirty(s, m); double d = gen_size(s); int kind = (int)s.choice(5); static const char* names[] = {"tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron"}; const char* w = names[kind]; ld D = d, r5 = sqrtl(5.L), V;
    if (kind == 1) { double x = d, y = gen_size(s), z = gen_size(s); NOTE("box %g %g %g", x, y, z); MeshFactory::create_box(x, y, z, m); double mx = max(x, max(y, z)), mn = min(x, min(y, z)); if (mn < 1e-6 * mx) return; V = check_solid(c, m, mx, mn, w); check_volume(c, V, (ld)x * y * z, w);
        for (auto& p : soup_of(m).v) CHECK(nearv(fabs(p.x()), x / 2, 1e-12 * x) && nearv(fabs(p.y()), y / 2, 1e-12 * y) && nearv(fabs(p.z()), z / 2, 1e-12 * z), "on-shape", "box corner %s", ps(p).c_str()); CHECK(euler(m, 1e-7 * mn) == 2, "euler", "box"); c.nontrivial = true; return; }
    NOTE("%s %g", w, d); ld ref = 0, R = 0;
    switch (kind) {
    case 0: MeshFactory::create_tetrahedron(d, m); ref = 8 * D * D * D / 3; R = D * sqrtl(3); break;
    case 2: MeshFactory::create_octahedron(d, m); ref = 4 * D * D * D / 3; R = D; break;
    case 3: { MeshFactory::create_dodecahedron(d, m); ld a = (r5 - 1) * D; ref = (15 + 7 * r5) / 4 * a * a * a; R = D * sqrtl(3); break; }
    default: { MeshFactory::create_icosahedron(d, m); ld a = (r5 - 1) * D; ref = 5 * (3 + r5) / 12 * a * a * a; R = D * sqrtl(1 + (r5 - 1) * (r5 - 1) / 4); } }
    V = check_solid(c, m, d, d * 0.5, w); check_volume(c, V, ref, w); CHECK(euler(m, 1e-7 * d) == 2, "euler", "%s", w);
    Soup so = soup_of(m); for (auto& p : so.v) CHECK(fabsl(len(v3(p)) - R) <= 1e-12L * R, "on-shape", "%s: vertex %s at distance %.17Lg instead of %.17Lg", w, ps(p).c_str(), len(v3(p)), R);
    static const int faces[] = {4, 0, 8, 36, 20}, verts[] = {4, 0, 6, 20, 12}; CHECK((int)so.t.size() == faces[kind], "faces", "%s: %zu triangles", w, so.t.size()); vector<int> id = weld(so.v, 1e-7 * d); CHECK((int)set<int>(id.begin(), id.end()).size() == verts[kind], "corners", "%s", w);
    c.nontrivial = true;
}
PROP(cylinder, 6000, 120000, 50, "at least three segments")
{
    Mesh m; dirty(s, m); double H = gen_size(s), R = gen_size(s); int n = s.chance(1, 20) ? s.irange(41, 300) : s.sized(1, 40); NOTE("cylinder height %g radius %g segments %d", H, R, n); MeshFactory::create_cylinder(H, R, n, m); if (min(H, R) < 1e-5 * max(H, R)) return;
    double tol = 1e-11 * max(H, R); Soup so = soup_of(m); ld V = check_solid(c, m, max(H, R), min(H, R * 3 / n) * 0.3, "cylinder"); set<long long> rim; CHECK(euler(m, 1e-7 * min(H, R / n)) == 2, "euler", "cylinder");
    for (auto& p : so.v) { double rho = hypot(p.x(), p.y()); CHECK(nearv(fabs(p.z()), H / 2, tol), "on-shape", "vertex %s", ps(p).c_str()); CHECK(nearv(rho, R, tol) || rho <= tol, "on-shape", "vertex %s", ps(p).c_str()); if (rho > R / 2 && p.z() > 0) rim.insert(llround(atan2(p.y(), p.x()) * 1e6)); }
    if (rim.count(3141593) && rim.count(-3141593)) rim.erase(-3141593); int N = (int)rim.size(); CHECK(N >= max(3, n), "segments", "%d corners on the rim for %d segments", N, n);
    ld ref = 0.5L * N * sinl(2 * 3.14159265358979323846L / N) * R * R * H; CHECK(fabsl(V - ref) <= 1e-8L * ref, "volume", "volume %.15Lg, regular prism with %d sides %.15Lg", V, N, ref);
    if (n <= 40) { Mesh x; MeshFactory::create_cylinder(H, R, n + 1, x); ld V2 = soup_volume(soup_of(x)); CHECK(V2 > V, "convergence", "volume %.15Lg with %d segments, %.15Lg with %d", V, n, V2, n + 1); } c.nontrivial = n >= 3;
}
PROP(spheres, 3000, 60000, 10, "at least three segments")
{
    bool uv = s.boolean(); Mesh m; dirty(s, m); double R = gen_size(s); int n = s.chance(1, 60) ? s.irange(8, 26) : s.chance(1, 25) ? s.irange(6, 9) : uv ? s.sized(1, 12) : s.sized(1, 5); const char* w = uv ? "sphere_uv" : "sphere_geodesic"; NOTE("%s radius %g segments %d", w, R, n);
    auto make = [&](int k, Mesh& x) { if (uv) MeshFactory::create_sphere_uv(R, k, x); else MeshFactory::create_sphere_geodesic(R, k, x); }; make(n, m); Soup so = soup_of(m); double feature = uv ? R * 0.7 / (n * n) : R * 0.5 / n;
    ld V = check_solid(c, m, R, feature, w), A = soup_area(so), ref = 4.L / 3 * 3.14159265358979323846L * R * R * R; CHECK(euler(m, 1e-7 * feature) == 2, "euler", "%s", w);
    for (auto& p : so.v) CHECK(fabsl(len(v3(p)) - R) <= 1e-12L * R, "on-shape", "%s: vertex %s", w, ps(p).c_str());
    ld err = (ref - V) / ref; CHECK(err > 0 && err <= (uv ? 1.10L : 0.60L) / (n * n), "volume", "%s n=%d: volume is %Lg of the ball", w, n, V / ref); CHECK(A < 4 * PI_ * R * R, "area", "area"); 
    if (n <= 3) { Mesh x; make(2 * n, x); ld V2 = soup_volume(soup_of(x)); CHECK((ref - V2) / ref < err * 0.5L, "convergence", "%s: error %Lg with %d segments, %Lg with %d", w, err, n, (ref - V2) / ref, 2 * n); }
    if (n <= 12) { Mesh x; make(n + 1, x); ld V2 = soup_volume(soup_of(x)); CHECK((ref - V2) / ref < err, "convergence", "%s: error %Lg with %d segments, %Lg with %d", w, err, n, (ref - V2) / ref, n + 1); }
    if (!uv) CHECK((int)so.t.size() == 20 * n * n, "faces", "%zu triangles for %d segments", so.t.size(), n);
    c.nontrivial = n >= 3;
}
PROP(torus, 2000, 40000, 10, "at least three segments")
{
    Mesh m; dirty(s, m); double R = gen_size(s), f = s.chance(1, 4) ? s.pick({pow(10., s.uniform(-4, -1)), 1 - pow(10., s.uniform(-3, -1))}) : s.uniform(0.05, 0.95), r = R * f; int n = s.chance(1, 40) ? s.irange(11, 30) : s.sized(1, 10); NOTE("torus %g %g segments %d", R, r, n); MeshFactory::create_torus(R, r, n, m); double feature = min(r, R - r) / (n + 2) * 0.3;
    ld V = check_solid(c, m, R + r, feature, "torus"), ref = 2 * 3.14159265358979323846L * 3.14159265358979323846L * R * r * r; CHECK(euler(m, 1e-7 * feature) == 0, "euler", "torus is not a torus");
    for (auto& p : soup_of(m).v) { double d = hypot(hypot(p.x(), p.y()) - R, p.z()); CHECK(nearv(d, r, 1e-11 * R), "on-shape", "vertex %s at distance %g from the core circle", ps(p).c_str(), d); }
    ld err = (ref - V) / ref; CHECK(err > 0 && err <= 2.1L / ((n + 0.5L) * (n + 0.5L)), "volume", "n=%d: volume is %Lg of the torus", n, V / ref);
    if (n <= 4) { Mesh x; MeshFactory::create_torus(R, r, 2 * n, x); ld V2 = soup_volume(soup_of(x)); CHECK((ref - V2) / ref < err * 0.7L, "convergence", "error %Lg with %d segments, %Lg with %d", err, n, (ref - V2) / ref, 2 * n); }
    if (n <= 12) { Mesh x; MeshFactory::create_torus(R, r, n + 1, x); ld V2 = soup_volume(soup_of(x)); CHECK((ref - V2) / ref < err, "convergence", "error %Lg with %d segments, %Lg with %d", err, n, (ref - V2) / ref, n + 1); }
    c.nontrivial = n >= 3;
}
// fine meshes: no vertex is lost or merged with its neighbours
PROP_NOFUZZ(fine, 24, 300, 1, "more than 3000 triangles")
{
    bool dup = s.boolean(); Mesh m; int kind = (int)s.choice(3), n = kind == 0 ? (s.chance(1, 3) ? s.irange(26, 30) : s.irange(8, 18)) : s.irange(14, 40); pbt::slow_case(120); double R = gen_size(s); static const char* w[] = {"sphere_geodesic", "sphere_uv", "torus"}; NOTE("%s of %g, %d segments", w[kind], R, n); if (dup) dirty(s, m); double f = s.uniform(0.1, 0.9);
    if (kind == 0) MeshFactory::create_sphere_geodesic(R, n, m); else if (kind == 1) MeshFactory::create_sphere_uv(R, n, m); else MeshFactory::create_torus(R, R * f, n, m); Soup so = soup_of(m); double feature = kind == 1 ? R * 0.7 / (n * n) : kind == 0 ? R * 0.5 / n : min(f, 1 - f) * R / (n + 2) * 0.3;
    check_solid(c, m, R, feature, w[kind]); int e = euler(m, 1e-7 * feature); CHECK(e == (kind == 2 ? 0 : 2), "euler", "%s: Euler characteristic %d", w[kind], e); vector<int> id = weld(so.v, 1e-7 * feature); int nv = (int)set<int>(id.begin(), id.end()).size();
    if (kind == 0) CHECK(nv == 10 * n * n + 2 && (int)so.t.size() == 20 * n * n, "count", "%d corners and %zu triangles for %d segments", nv, so.t.size(), n); if (kind != 2) for (auto& p : so.v) CHECK(fabsl(len(v3(p)) - R) <= 1e-12L * R, "on-shape", "vertex %s", ps(p).c_str()); else for (auto& p : so.v) CHECK(nearv(hypot(hypot(p.x(), p.y()) - R, p.z()), R * f, 1e-11 * R), "on-shape", "vertex %s", ps(p).c_str());
    ld V = soup_volume(so), ref = kind == 2 ? 2 * 3.14159265358979323846L * 3.14159265358979323846L * R * R * f * R * f : 4.L / 3 * 3.14159265358979323846L * R * R * R, err = (ref - V) / ref; CHECK(err > 0 && err <= (kind == 0 ? 0.60L : kind == 1 ? 1.10L : 2.1L) / (n * n), "volume", "%s n=%d: volume is %Lg of the solid", w[kind], n, V / ref); c.nontrivial = so.t.size() > 3000;
}
// more segments always give a finer shape, whatever their number
PROP(finer, 400, 6000, 5, "more than ten segments")
{
    int kind = (int)s.choice(4), n = kind == 3 ? s.irange(1, 40) : s.irange(1, 90), k = s.chance(1, 3) ? s.irange(2, 9) : 1; double R = gen_size(s), f = s.uniform(0.1, 0.9); if (kind == 3) { n = min(n, 16); k = 1; } static const char* w[] = {"sphere_uv", "torus", "cylinder", "sphere_geodesic"}; NOTE("%s of %g, %d and %d segments", w[kind], R, n, n + k); pbt::slow_case(60);
    auto make = [&](int g, Mesh& m) { switch (kind) { case 0: MeshFactory::create_sphere_uv(R, g, m); break; case 1: MeshFactory::create_torus(R, R * f, g, m); break; case 2: MeshFactory::create_cylinder(R, R, g, m); break; default: MeshFactory::create_sphere_geodesic(R, g, m); } };
    Mesh a, b; make(n, a); make(n + k, b); ld A = soup_volume(soup_of(a)), B = soup_volume(soup_of(b)); CHECK(B > A, "finer", "%s: volume %.15Lg with %d segments, %.15Lg with %d", w[kind], A, n, B, n + k); c.nontrivial = n > 10;
}
