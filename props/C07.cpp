// C07: sampling curves to polylines and surfaces to meshes samples the whole shape.
#include "nurbs_common.hpp"
#include "NurbsUtil.h"
#include "NurbsFactory.h"
#include "NurbsSolid.h"

typedef map<array<int, 3>, int> TriBag;
static array<int, 3> key(int a, int b, int c) { Tri t = canon(Tri{a, b, c}); return {t.a, t.b, t.c}; }
static bool take(TriBag& b, array<int, 3> k1, array<int, 3> k2)
{
    auto i = b.find(k1); if (i == b.end() || i->second == 0) return false; auto j = b.find(k2); if (j == b.end() || j->second == 0) return false; if (k1 == k2 && i->second < 2) return false;
    i->second--; j->second--; return true;
}
// remove the two triangles of quad a-b-c-d, cut along either diagonal
static bool take_quad(TriBag& bag, int a, int b, int c, int d) { return take(bag, key(a, b, c), key(a, c, d)) || take(bag, key(b, c, d), key(b, d, a)); }
static bool used_up(const TriBag& b) { for (auto& x : b) if (x.second) return false; return true; }

PROP(polyline, 100000, 2000000, 400, "curve has more than two control points")
{
    NurbsCurve a; gen_curve(s, a, 1, 5, 12, 0); RefCurve q = ref_of(a); note_curve(c, q);
    vector<Point3> pl; if (s.boolean()) pl.assign(s.choice(5), Point3(7, 7, 7)); a.to_polyline(pl); int n = (int)pl.size(); double tol = tolw(1e-9, q.w) * (span_of(q.P) + 1e-300);
    CHECK(n >= (int)q.P.size() && n >= 2, "polyline-size", "%d points for %zu control points", n, q.P.size());
    CHECK(near3(pl.front(), q.P.front(), tol), "polyline-start", "starts at %s", ps(pl.front()).c_str());
    CHECK(near3(pl.back(), q.P.back(), tol), "polyline-end", "%d points: ends at %s, curve ends at %s", n, ps(pl.back()).c_str(), ps(q.P.back()).c_str());
    for (int k = 0; k < 12; k++) { int i = (int)s.choice(n); double u = (double)i / (n - 1); V3 e = ref_eval(q, u);
        if (!near3(pl[i], e, tol)) { // next to a knot of full multiplicity the rounding of the parameter may pick the other side
            V3 e1 = ref_eval(q, min(1., u + 1e-12)), e2 = ref_eval(q, max(0., u - 1e-12)); double t2 = tol + 1e-6 * span_of(q.P); CHECK(near3(pl[i], e1, t2) || near3(pl[i], e2, t2), "polyline-step", "point %d of %d is %s, curve at %g is %s", i, n, ps(pl[i]).c_str(), u, ps(p3(e)).c_str()); } }
    c.nontrivial = q.P.size() > 2;
    NurbsCurve empty; vector<Point3> none(3); empty.to_polyline(none); CHECK(none.empty(), "polyline-empty", "%zu points of an empty curve", none.size());
}
static void check_grid(pbt::Source& s, pbt::Ctx& c, const NurbsSurface& a, int seg, const Soup& m, int v0, TriBag& bag)
{
    int nu = seg * a.nb_points_u(), nv = seg * a.nb_points_v(); RefSurf q = ref_of(a); double tol = tolw(1e-9, q.w) * (span_of(q.P) + 1e-300);
    CHECK((int)m.v.size() >= v0 + (nu + 1) * (nv + 1), "grid-size", "%zu vertices, expected at least %d", m.v.size(), v0 + (nu + 1) * (nv + 1));
    auto at = [&](int u, int v) { return v0 + u + (nu + 1) * v; };
    for (int k = 0; k < 14; k++) {
        int i = (int)s.choice(nu + 1), j = (int)s.choice(nv + 1); if (k < 4) { i = (k & 1) ? nu : 0; j = (k & 2) ? nv : 0; }
        V3 e = ref_eval(q, (ld)((double)i / nu), (ld)((double)j / nv)); CHECK(near3(m.v[at(i, j)], e, tol), "grid-point", "vertex (%d,%d) of %dx%d is %s, surface point %s", i, j, nu, nv, ps(m.v[at(i, j)]).c_str(), ps(p3(e)).c_str());
    }
    for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) {
        int i2 = a.is_closed_u() && i == nu - 1 ? 0 : i + 1, j2 = a.is_closed_v() && j == nv - 1 ? 0 : j + 1;
        CHECK(take_quad(bag, at(i, j), at(i2, j), at(i2, j2), at(i, j2)), "grid-quad", "cell (%d,%d) of %dx%d (closed %d %d) is not two triangles", i, j, nu, nv, (int)a.is_closed_u(), (int)a.is_closed_v());
    }
}
PROP(surface_mesh, 12000, 240000, 20, "u and v sizes differ")
{
    NurbsSurface a; gen_surface(s, a, 1, 3, 3, 0); RefSurf q = ref_of(a); note_surface(c, q); a.set_closed_u(s.chance(1, 3)); a.set_closed_v(s.chance(1, 3)); int seg = s.irange(1, 5); if (s.chance(1, 40)) { int k = max(q.nu, q.nv); seg = s.irange(6, max(7, 300 / k)); seg = max(1, min(seg, (int)sqrt(60000. / (q.nu * q.nv)))); }
    NOTE("%d segments closed %d %d", seg, (int)a.is_closed_u(), (int)a.is_closed_v());
    Mesh m; vector<Point3> oldv; int oldt = 0; bool clear = s.boolean();
    if (s.boolean()) { for (int i = 0; i < 4; i++) { oldv.push_back(gen_point(s, 10.)); m.add_vertex(oldv.back()); } m.add_triangle(0, 1, 2); m.add_triangle(3, 2, 1); oldt = 2; if (s.chance(1, 3)) { m.clear(); oldt = 0; for (auto& p : oldv) m.add_vertex(p); /* vertices and no triangle yet */ } }
    if (clear) { NurbsUtil::to_mesh(a, m, seg); oldv.clear(); oldt = 0; } else NurbsUtil::to_mesh(a, m, seg, false);
    Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad vertex index");
    for (size_t i = 0; i < oldv.size(); i++) CHECK(same_bits(so.v[i], oldv[i]), "append", "old vertex %zu changed", i);
    TriBag bag; for (auto& t : so.t) bag[key(t.a, t.b, t.c)]++;
    if (oldt) { CHECK(bag[key(0, 1, 2)] >= 1 && bag[key(3, 2, 1)] >= 1, "append", "old triangles missing"); bag[key(0, 1, 2)]--; bag[key(3, 2, 1)]--; }
    check_grid(s, c, a, seg, so, (int)oldv.size(), bag); CHECK(used_up(bag), "grid-extra", "extra triangles");
    CHECK(m.nb_triangles() == oldt + 2 * seg * seg * q.nu * q.nv, "grid-count", "%d triangles", m.nb_triangles());
    c.nontrivial = q.nu != q.nv; LABEL("closed %d%d", (int)a.is_closed_u(), (int)a.is_closed_v());
}
PROP(solid_mesh, 3200, 64000, 10, "at least two surfaces")
{
    int n = s.irange(0, 4), seg = s.irange(1, 3); if (s.chance(1, 20)) { seg = s.irange(4, 14); n = min(n, 2); } else if (s.chance(1, 200)) { n = s.irange(5, 300); seg = 1; } NurbsSolid sol; for (int i = 0; i < n; i++) { NurbsSurface a; gen_surface(s, a, 1, 2, 2, 0); a.set_closed_u(s.chance(1, 4)); sol.add_surface(a); }
    Mesh m; if (s.boolean()) m.add_triangle(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); NurbsUtil::to_mesh(sol, m, seg); Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad vertex index"); NOTE("%d surfaces, %d segments", n, seg);
    TriBag bag; for (auto& t : so.t) bag[key(t.a, t.b, t.c)]++; int v0 = 0;
    for (auto& a : sol.surfaces()) { check_grid(s, c, a, seg, so, v0, bag); v0 += (seg * a.nb_points_u() + 1) * (seg * a.nb_points_v() + 1); }
    CHECK(used_up(bag) && v0 == (int)so.v.size(), "grid-extra", "extra triangles or vertices"); c.nontrivial = n >= 2;
}
PROP(from_mesh, 32000, 640000, 200, "mesh has a removed triangle and one that stays")
{
    Mesh m; int n = s.sized(3, 12), nt = s.sized(0, 12); if (s.chance(1, 80)) { n = s.irange(13, 300); nt = s.chance(1, 20) ? s.irange(1000, 3000) : s.irange(13, 400); } vector<Point3> P; for (int i = 0; i < n; i++) { Point3 p = gen_point(s, 10.); for (auto& q : P) if ((p - q).norm() < 1e-5) p = q; /* closer than the distance at which ends count as joined */ P.push_back(p); m.add_vertex(P[i]); }
    vector<Tri> T; for (int i = 0; i < nt; i++) { int a = (int)s.choice(n), b = (a + 1 + (int)s.choice(n - 1)) % n, d = 0; while (d == a || d == b) d++; m.add_triangle(a, b, d); T.push_back(Tri{a, b, d}); }
    int removed = 0; vector<Tri> L; for (int i = 0; i < nt; i++) if (s.chance(1, 4)) { m.unlink_triangle(i); removed++; } else L.push_back(T[i]);
    NOTE("%d triangles, %d removed", nt, removed);
    NurbsSolid sol; if (s.boolean()) NurbsFactory::create_box(1, 1, 1, sol); NurbsUtil::create_from_mesh(m, sol);
    CHECK(sol.surfaces().size() == L.size(), "patch-count", "%zu patches for %zu triangles", sol.surfaces().size(), L.size());
    for (size_t i = 0; i < L.size(); i++) for (int k = 0; k < 3; k++) {
        double u = k == 0 ? s.choice(2) : s.unit_closed(), v = k == 0 ? s.choice(2) : s.unit_closed(); Point3 p; sol.surfaces()[i].evaluate(u, v, p);
        V3 e = v3(P[L[i].a]) * ((1 - u) * (1 - v)) + v3(P[L[i].b]) * (u * (1 - v)) + v3(P[L[i].c]) * v; CHECK(near3(p, e, 1e-9), "patch", "patch %zu at (%g,%g): %s expected %s", i, u, v, ps(p).c_str(), ps(p3(e)).c_str());
    }
    // and back: same area, orientation and (for closed meshes) volume
    Mesh b; NurbsUtil::to_mesh(sol, b, 1 + (int)s.choice(3)); Soup s1 = soup_of(b); double A = 0; V3 N{0, 0, 0}, N1{0, 0, 0}; Soup s0; s0.v = P; s0.t = L;
    for (auto& t : L) { V3 x = tri_area_vec(s0, t); A += (double)len(x); N = N + x; } for (auto& t : s1.t) N1 = N1 + tri_area_vec(s1, t);
    CHECK(nearv((double)soup_area(s1), A, 1e-8 * (A + 1)), "patch-area", "area %g, mesh area %g", (double)soup_area(s1), A); CHECK(near3(p3(N), N1, 1e-7 * (A + 1)), "patch-orient", "vector area %s vs %s", ps(p3(N)).c_str(), ps(p3(N1)).c_str());
    c.nontrivial = removed > 0 && !L.empty();
}
PROP(from_heights, 48000, 960000, 200, "the two sizes differ")
{
    int deg = s.chance(1, 20) ? s.irange(5, 9) : s.irange(1, 4), nx = deg + 1 + s.sized(0, 10), ny = deg + 1 + s.sized(0, 10); if (s.chance(1, 60)) { nx = s.irange(20, 300); if (s.boolean()) std::swap(nx, ny); else ny = s.irange(20, 100); } vector<double> z(nx * ny); for (auto& x : z) x = s.real(-10, 10);
    NurbsSurface a; if (s.boolean()) NurbsFactory::create_torus(3, 1, a); NurbsUtil::create_from_z(z, nx, ny, deg, a); NOTE("%dx%d heights, degree %d", nx, ny, deg);
    CHECK((int)a.points().size() == nx * ny && a.weights().size() == a.points().size(), "height-size", "%zu points", a.points().size());
    bool ux = a.nb_points_u() == nx && nearv(a.points()[1].x(), 1., 0) && a.points()[1].y() == 0; // u along x, otherwise u along y
    CHECK(a.nb_points_u() == (ux ? nx : ny) && a.nb_points_v() == (ux ? ny : nx) && a.degree_u() == deg && a.degree_v() == deg, "height-size", "%dx%d control points for %dx%d heights", a.nb_points_u(), a.nb_points_v(), nx, ny);
    for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) { const Point3& p = a.points()[ux ? x + nx * y : y + ny * x]; CHECK(p.x() == x && p.y() == y && p.z() == z[x * ny + y], "height-point", "sample (%d,%d)=%g became %s", x, y, z[x * ny + y], ps(p).c_str()); }
    for (double w : a.weights()) CHECK(w == 1., "height-weight", "weight %g", w); CHECK(!a.is_closed_u() && !a.is_closed_v(), "closed-flags", "height field marked closed");
    for (int i = 0; i < 4; i++) { double tx = gen_param(s, a.knots_u()), ty = gen_param(s, a.knots_v()); Point3 p; if (ux) a.evaluate(tx, ty, p); else a.evaluate(ty, tx, p);
        auto basis = [&](int n, double t) { vector<double> k; for (int i = 0; i <= deg; i++) k.push_back(0); for (int i = 1; i < n - deg; i++) k.push_back((double)i / (n - deg)); for (int i = 0; i <= deg; i++) k.push_back(1); vector<ld> N; ref_basis(k, deg, n, t, N); return N; };
        vector<ld> A = basis(nx, tx), B = basis(ny, ty); V3 e{0, 0, 0}; for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) e = e + V3{(ld)x, (ld)y, (ld)z[x * ny + y]} * (A[x] * B[y]);
        CHECK(near3(p, e, 1e-8), "height-value", "(%g,%g): %s expected %s", tx, ty, ps(p).c_str(), ps(p3(e)).c_str()); }
    c.nontrivial = nx != ny;
}
PROP(control_mesh, 32000, 640000, 200, "the two sizes differ")
{
    int nu = 1 + s.sized(1, 9), nv = 1 + s.sized(1, 9); if (s.chance(1, 60)) { nu = s.irange(10, 300); if (s.boolean()) std::swap(nu, nv); else nv = s.irange(10, 60); } vector<Point3> P; for (int v = 0; v < nv; v++) for (int u = 0; u < nu; u++) P.push_back(Point3(u + s.uniform(-0.3, 0.3), v + s.uniform(-0.3, 0.3), s.real(-2, 2)));
    NurbsSurface a; a.set_degree(1, 1); a.set_points(P, nu, nv); a.set_uniform_u(); a.set_uniform_v(); a.set_equals_weights(); NOTE("%dx%d control points", nu, nv);
    Mesh m; if (s.boolean()) m.add_triangle(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); NurbsUtil::to_controlpoints_mesh(a, m); Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad vertex index");
    map<array<double, 3>, int> pos; for (size_t i = 0; i < P.size(); i++) pos[{P[i].x(), P[i].y(), P[i].z()}] = (int)i;
    vector<int> id; for (auto& p : so.v) { auto it = pos.find({p.x(), p.y(), p.z()}); CHECK(it != pos.end(), "lattice-point", "vertex %s is no control point", ps(p).c_str()); id.push_back(it->second); }
    TriBag bag; for (auto& t : so.t) bag[key(id[t.a], id[t.b], id[t.c])]++;
    for (int v = 0; v + 1 < nv; v++) for (int u = 0; u + 1 < nu; u++) CHECK(take_quad(bag, u + nu * v, u + 1 + nu * v, u + 1 + nu * (v + 1), u + nu * (v + 1)), "lattice-cell", "cell (%d,%d) of %dx%d", u, v, nu, nv);
    CHECK(used_up(bag), "lattice-extra", "extra triangles"); c.nontrivial = nu != nv;
}
