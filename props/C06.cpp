// C06: NURBS primitives lie on their analytic shape; NURBS solids are closed and face outward.
#include "nurbs_common.hpp"
#include "NurbsFactory.h"
#include "NurbsSolid.h"
#include "NurbsUtil.h"

static double gen_size(pbt::Source& s) { switch (s.choice(4)) { case 0: return 1. + s.choice(10); case 1: return s.uniform(0.01, 10); case 2: return pow(10., s.uniform(-8, 9)); default: return s.pick({0.5, 2., 100., 0.001, 1e-5, 1e7}); } }
static void dirty(pbt::Source& s, NurbsSurface& ns)
{
    switch (s.choice(5)) { case 0: break; case 1: NurbsFactory::create_torus(3, 1, ns); break; case 2: NurbsFactory::create_sphere(2, ns); break; case 3: NurbsFactory::create_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 0), Point3(0, 1, 0), ns); break; default: ns.set_closed_u(true); ns.set_closed_v(true); }
}
static void dirty(pbt::Source& s, NurbsSolid& n) { switch (s.choice(4)) { case 0: break; case 1: NurbsFactory::create_box(1, 2, 3, n); break; case 2: NurbsFactory::create_cylinder(1, 2, n); break; default: NurbsFactory::create_torus(3, 1, n); } }
static double ang01(double y, double x) { double a = atan2(y, x); if (a < 0) a += 2 * PI_; return a; }
// the angle around z sweeps the full circle monotonically while u (or v) goes from 0 to 1
template <class F> static void check_turn(pbt::Ctx& c, F f, const char* what)
{
    double total = 0, a0 = 0, sign = 0; const int N = 32;
    for (int i = 0; i <= N; i++) { Point3 p = f((double)i / N); double a = atan2(p.y(), p.x()); if (i) { double d = a - a0; while (d > PI_) d -= 2 * PI_; while (d < -PI_) d += 2 * PI_; if (sign == 0) sign = d > 0 ? 1 : -1; CHECK(d * sign > 0, "turn", "%s: turns back at step %d", what, i); total += d; } a0 = a; }
    CHECK(nearv(fabs(total), 2 * PI_, 1e-6), "turn", "%s turns %g rad", what, total);
}
// the normal of a surface of a solid, u towards v, points away from the given place inside
template <class F> static void check_outward(pbt::Ctx& c, pbt::Source& s, const NurbsSurface& a, F inside, const char* what)
{
    double u = s.uniform(0.05, 0.95), v = s.uniform(0.05, 0.95), h = 1e-3; Point3 p, u0, u1, v0, v1; a.evaluate(u, v, p); a.evaluate(u - h, v, u0); a.evaluate(u + h, v, u1); a.evaluate(u, v - h, v0); a.evaluate(u, v + h, v1);
    V3 n = cross(v3(u1) - v3(u0), v3(v1) - v3(v0)), d = v3(p) - inside(p); CHECK(dot(n, d) > 0.5L * len(n) * len(d), "outward-normal", "%s: at (%g,%g) the normal does not point outwards", what, u, v);
}
PROP(circle_disk, 40000, 800000, 500, "always: any positive radius")
{
    double R = gen_size(s); NOTE("radius %g", R); NurbsCurve k; if (s.boolean()) gen_curve(s, k, 1, 3, 3, 0); NurbsFactory::create_circle(R, k); RefCurve q = ref_of(k);
    for (int i = 0; i < 4; i++) { double u = gen_param(s, q.k); Point3 p; k.evaluate(u, p); CHECK(nearv(hypot(p.x(), p.y()), R, 1e-10 * R) && fabs(p.z()) <= 1e-12 * R, "circle", "u=%g: %s for radius %g", u, ps(p).c_str(), R); }
    check_turn(c, [&](double u) { Point3 p; k.evaluate(u, p); return p; }, "circle"); CHECK(k.is_closed(1e-6 * R), "circle-closed", "circle not closed");
    NurbsSurface d; dirty(s, d); NurbsFactory::create_disk(R, d);
    for (int i = 0; i < 4; i++) { double u = gen_param(s, d.knots_u()), v = gen_param(s, d.knots_v()); Point3 p; d.evaluate(u, v, p); CHECK(nearv(hypot(p.x(), p.y()), R * v, 1e-10 * R) && fabs(p.z()) <= 1e-12 * R, "disk", "(%g,%g): %s for radius %g", u, v, ps(p).c_str(), R); }
    double v = s.uniform(0.1, 1); check_turn(c, [&](double u) { Point3 p; d.evaluate(u, v, p); return p; }, "disk");
    c.nontrivial = true;
}
PROP(sphere_torus, 40000, 800000, 500, "always: any positive radii, major greater than minor")
{
    double R = gen_size(s); NurbsSurface a; dirty(s, a); NurbsSolid sol; dirty(s, sol);
    if (s.boolean()) {
        NOTE("sphere %g", R); bool solid = s.boolean(); if (solid) { NurbsFactory::create_sphere(R, sol); CHECK(sol.surfaces().size() == 1, "solid-size", "%zu surfaces", sol.surfaces().size()); a = sol.surfaces()[0]; } else NurbsFactory::create_sphere(R, a);
        for (int i = 0; i < 4; i++) { double u = gen_param(s, a.knots_u()), v = gen_param(s, a.knots_v()); Point3 p; a.evaluate(u, v, p); CHECK(nearv(p.norm(), R, 1e-10 * R), "sphere", "(%g,%g): %s is at distance %.17g, radius %g", u, v, ps(p).c_str(), p.norm(), R); } if (solid) check_outward(c, s, a, [](Point3) { return V3{0, 0, 0}; }, "sphere");
        double v = s.uniform(0.05, 0.95), u = s.unit_closed(); check_turn(c, [&](double t) { Point3 p; a.evaluate(t, v, p); return p; }, "sphere parallel");
        double z0 = -INFINITY; for (int i = 0; i <= 16; i++) { Point3 p; a.evaluate(u, i / 16., p); CHECK(p.z() > z0, "sphere-cover", "z not increasing along v"); z0 = p.z(); if (i == 0 || i == 16) CHECK(nearv(p.z(), i ? R : -R, 1e-10 * R), "sphere-pole", "pole %s", ps(p).c_str()); }
        if (R > 1e-4) CHECK(a.is_closed_u() && !a.is_closed_v(), "closed-flags", "sphere closed u %d v %d", (int)a.is_closed_u(), (int)a.is_closed_v());
    } else {
        double f = s.uniform(0.01, 0.99), r = R * f; NOTE("torus %g %g", R, r); bool solid = s.boolean(); if (solid) { NurbsFactory::create_torus(R, r, sol); CHECK(sol.surfaces().size() == 1, "solid-size", "%zu surfaces", sol.surfaces().size()); a = sol.surfaces()[0]; } else NurbsFactory::create_torus(R, r, a);
        for (int i = 0; i < 4; i++) { double u = gen_param(s, a.knots_u()), v = gen_param(s, a.knots_v()); Point3 p; a.evaluate(u, v, p); double d = hypot(hypot(p.x(), p.y()) - R, p.z()); CHECK(nearv(d, r, 1e-9 * R), "torus", "(%g,%g): %s is %.17g from the core circle, minor radius %g", u, v, ps(p).c_str(), d, r); } if (solid && f <= 0.9) check_outward(c, s, a, [&](Point3 p) { double h = hypot(p.x(), p.y()); return V3{p.x() / h * R, p.y() / h * R, 0}; }, "torus");
        double v = s.unit_closed(), u = s.unit_closed(); check_turn(c, [&](double t) { Point3 p; a.evaluate(t, v, p); return p; }, "torus major");
        check_turn(c, [&](double t) { Point3 p; a.evaluate(u, t, p); return Point3(hypot(p.x(), p.y()) - R, p.z(), 0); }, "torus minor");
        CHECK(a.is_closed_u() && a.is_closed_v(), "closed-flags", "torus closed u %d v %d", (int)a.is_closed_u(), (int)a.is_closed_v());
    }
    c.nontrivial = true;
}
PROP(cylinder_box, 40000, 800000, 500, "always: any positive sizes")
{
    NurbsSolid sol; dirty(s, sol);
    if (s.boolean()) {
        double R = gen_size(s), H = gen_size(s); NOTE("cylinder radius %g height %g", R, H); NurbsFactory::create_cylinder(R, H, sol); CHECK(sol.surfaces().size() == 3, "solid-size", "%zu surfaces", sol.surfaces().size());
        double tz = 1e-10 * H, tr = 1e-10 * R; int side = 0, top = 0, bottom = 0;
        for (auto& a : sol.surfaces()) {
            double zmin = INFINITY, zmax = -INFINITY, rmin = INFINITY, rmax = -INFINITY;
            for (int i = 0; i < 6; i++) { double u = i < 2 ? i : gen_param(s, a.knots_u()), v = i < 2 ? i : gen_param(s, a.knots_v()); Point3 p; a.evaluate(u, v, p); double rho = hypot(p.x(), p.y()); CHECK(fabs(p.z()) <= H / 2 + tz && rho <= R + tr && (nearv(rho, R, tr) || nearv(fabs(p.z()), H / 2, tz)), "cylinder", "%s not on the cylinder", ps(p).c_str()); zmin = min(zmin, p.z()); zmax = max(zmax, p.z()); rmin = min(rmin, rho); rmax = max(rmax, rho); }
            if (nearv(rmin, R, tr)) { side++; CHECK(nearv(zmin, -H / 2, tz) && nearv(zmax, H / 2, tz), "cylinder-cover", "side spans z %g..%g", zmin, zmax); }
            else { CHECK(nearv(zmin, zmax, tz) && rmin <= tr && nearv(rmax, R, tr), "cylinder-cover", "cap z %g..%g r %g..%g", zmin, zmax, rmin, rmax); if (zmin > 0) top++; else bottom++; }
            if (min(R, H) < 1e-6 * max(R, H)) {} else if (nearv(rmin, R, tr)) check_outward(c, s, a, [](Point3 p) { return V3{0, 0, p.z()}; }, "cylinder side"); else check_outward(c, s, a, [](Point3 p) { return V3{p.x(), p.y(), 0}; }, "cylinder cap"); double v = s.uniform(0.1, 1); check_turn(c, [&](double t) { Point3 p; a.evaluate(t, v, p); return p; }, "cylinder");
        }
        CHECK(side == 1 && top == 1 && bottom == 1, "cylinder-cover", "%d sides %d tops %d bottoms", side, top, bottom);
    } else {
        double x = gen_size(s), y = gen_size(s), z = gen_size(s); NOTE("box %g %g %g", x, y, z); NurbsFactory::create_box(x, y, z, sol); CHECK(sol.surfaces().size() == 6, "solid-size", "%zu surfaces", sol.surfaces().size());
        double tol = 1e-10 * max(x, max(y, z)), h[3] = {x / 2, y / 2, z / 2}; set<int> faces;
        for (auto& a : sol.surfaces()) {
            Point3 q[4]; for (int i = 0; i < 4; i++) a.evaluate(i & 1, i >> 1, q[i]);
            V3 n = cross(v3(q[1]) - v3(q[0]), v3(q[2]) - v3(q[0])); V3 m = (v3(q[0]) + v3(q[3])) * 0.5L; CHECK(dot(n, m) > 0, "box-outward", "a face points inward");
            ld cc[3] = {m.x, m.y, m.z}; int f = -1; for (int i = 0; i < 3; i++) if (nearv(fabs((double)cc[i]), h[i], 1e-10 * h[i])) f = 2 * i + (cc[i] > 0); CHECK(f >= 0 && faces.insert(f).second, "box-cover", "face centre %s", ps(p3(m)).c_str());
            for (int i = 0; i < 4; i++) CHECK(nearv(fabs(q[i].x()), h[0], 1e-10 * h[0]) && nearv(fabs(q[i].y()), h[1], 1e-10 * h[1]) && nearv(fabs(q[i].z()), h[2], 1e-10 * h[2]), "box-corner", "corner %s", ps(q[i]).c_str());
            Point3 p; double u = s.unit_closed(), v = s.unit_closed(); a.evaluate(u, v, p); V3 e = v3(q[0]) * ((1 - u) * (1 - v)) + v3(q[1]) * (u * (1 - v)) + v3(q[2]) * ((1 - u) * v) + v3(q[3]) * (u * v); CHECK(near3(p, e, tol), "box-flat", "(%g,%g): %s", u, v, ps(p).c_str());
        }
    }
    c.nontrivial = true;
}
PROP(quad_triangle, 40000, 800000, 1000, "corners are not all equal")
{
    Point3 p[4]; double sc = gen_scale(s); for (auto& x : p) x = gen_point(s, 1.) * sc; bool tri = s.boolean(); if (tri) p[3] = p[2];
    NurbsSurface a; dirty(s, a); if (tri) NurbsFactory::create_triangle(p[0], p[1], p[2], a); else NurbsFactory::create_quad(p[0], p[1], p[2], p[3], a);
    NOTE("%s %s %s %s %s", tri ? "triangle" : "quad", ps(p[0]).c_str(), ps(p[1]).c_str(), ps(p[2]).c_str(), ps(p[3]).c_str());
    for (int i = 0; i < 4; i++) { double u = i < 2 ? i : s.unit_closed(), v = i == 1 ? 1 : i < 2 ? 0 : s.unit_closed(); Point3 q; a.evaluate(u, v, q); V3 e = v3(p[0]) * ((1 - u) * (1 - v)) + v3(p[1]) * (u * (1 - v)) + v3(p[3]) * ((1 - u) * v) + v3(p[2]) * (u * v); CHECK(near3(q, e, 1e-10 * sc), "quad", "(%g,%g): %s expected %s", u, v, ps(q).c_str(), ps(p3(e)).c_str()); }
    double g1 = dist(p[0], p[1]), g2 = dist(p[3], p[2]); if (max(g1, g2) == 0 || max(g1, g2) > 1e-5) CHECK(a.is_closed_u() == (max(g1, g2) == 0) && !a.is_closed_v(), "closed-flags", "closed u %d v %d", (int)a.is_closed_u(), (int)a.is_closed_v());
    c.nontrivial = maxabs(p[0] - p[1]) > 0;
}
PROP(solid_meshes, 3200, 64000, 10, "at least two segments")
{
    int kind = (int)s.choice(4); int n = s.irange(1, 6); NurbsSolid sol; dirty(s, sol); double sc = max(1e-3, gen_size(s)), V = 0, slack = 0, diag = 1; string what;
    if (kind == 0) { double a = pow(10., s.uniform(-1, 1)), b = pow(10., s.uniform(-1, 1)), d = pow(10., s.uniform(-1, 1)); NurbsFactory::create_box(a * sc, b * sc, d * sc, sol); V = a * b * d; diag = 0.1; what = pbt::fmt("box %g %g %g", a * sc, b * sc, d * sc); }
    if (kind == 1) { double h = s.uniform(0.2, 2); NurbsFactory::create_cylinder(sc, sc * h, sol); V = PI_ * h; slack = 0.25 / (n * n); what = pbt::fmt("cylinder %g %g", sc, sc * h); }
    if (kind == 2) { NurbsFactory::create_sphere(sc, sol); V = 4. / 3 * PI_; slack = 0.5 / (n * n); what = pbt::fmt("sphere %g", sc); }
    if (kind == 3) { double r = s.uniform(0.1, 0.9); NurbsFactory::create_torus(sc, sc * r, sol); V = 2 * PI_ * PI_ * r * r; slack = 0.5 / (n * n); diag = 0.1; what = pbt::fmt("torus %g %g", sc, sc * r); }
    NOTE("%s with %d segments", what.c_str(), n);
    Mesh m; if (s.boolean()) m.add_triangle(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); NurbsUtil::to_mesh(sol, m, n); Soup so = soup_of(m); CHECK(indices_valid(so), "indices", "bad vertex index");
    for (auto& p : so.v) CHECK(finite3(p), "finite", "vertex %s", ps(p).c_str());
    vector<int> id = weld(so.v, 1e-9 * sc * diag); Manifold r = check_closed(so, id);
    CHECK(r.closed && r.oriented, "closed", "%s n=%d: %s", what.c_str(), n, r.why.c_str());
    double vol = (double)(soup_volume(so) / ((ld)sc * sc * sc));
    CHECK(vol > 0, "outward", "%s n=%d volume %g", what.c_str(), n, vol);
    CHECK(fabs(vol - V) <= V * (slack + 1e-9), "volume", "%s n=%d: volume %.12g of unit-size shape, analytic %.12g, off by %g (allowed %g)", what.c_str(), n, vol, V, fabs(vol - V) / V, slack);
    if (kind == 1 || kind == 2) CHECK(vol <= V * (1 + 1e-9), "inscribed", "volume %.12g exceeds %.12g", vol, V);
    c.nontrivial = n >= 2; LABEL("kind %d", kind);
}
