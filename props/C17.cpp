// C17: transforms are the maps they name; rotations agree with each other and preserve shape.
#include "transform_common.hpp"
#include "mesh_common.hpp"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "SmoothMesh.h"

static V3 euler_ref(V3 p, ld yaw, ld pitch, ld roll)
{
    p = rodrigues(p, V3{0, 1, 0}, yaw); p = rodrigues(p, V3{1, 0, 0}, pitch); return rodrigues(p, V3{0, 0, 1}, roll);
}
PROP(meaning, 300000, 6000000, 1000, "transform is not the identity")
{
    GenTransform g = gen_transform(s); NOTE("%s", g.text.c_str());
    int n = 1 + (int)s.choice(4);
    for (int i = 0; i < n; i++) {
        Point3 p = gen_point(s, 1.) * s.pick({1., 10., 1e5, 1e-5}), q = p; g.t->apply(q); V3 e = g.ref(v3(p));
        NOTE("%s -> %s", ps(p).c_str(), ps(q).c_str());
        CHECK(near3(q, e, 1e-9 * (g.mag * maxabs(p) + g.shift) + 1e-300), "meaning", "%s maps %s to %s, expected %s", g.text.c_str(), ps(p).c_str(), ps(q).c_str(), ps(p3(e)).c_str());
    }
    c.nontrivial = g.kind != 0; LABEL("kind %d", g.kind);
}
PROP(rotations_agree, 200000, 4000000, 1000, "angle is not a multiple of 360 and the axis is oblique")
{
    double a = gen_angle(s); Point3 ax = gen_axis(s); NOTE("%g degrees about %s", a, ps(ax).c_str());
    RotationAngleAxis r1(a, ax), r1b, r1c; r1b.set_angle_axis(a, ax); r1c.from_angle_axis(a, ax); RotationMatrix r2; r2.from_angle_axis(a, ax); RotationQuaternion r3; r3.from_angle_axis(a, ax);
    double m[9]; r2.get_matrix(m); RotationMatrix r4(m); RotationMatrix r5; r5.set_matrix(m);
    double rad = a * PI_ / 180.; double q[4] = {cos(rad / 2), ax.x() * sin(rad / 2), ax.y() * sin(rad / 2), ax.z() * sin(rad / 2)}; RotationQuaternion r6(q), r7; r7.set_quaternion(q);
    double qn[4] = {-q[0], -q[1], -q[2], -q[3]}; RotationQuaternion r8(qn); // same rotation
    Point3 p = gen_point(s, 10.); V3 e = rodrigues(v3(p), v3(ax), a); double tol = 1e-9 * (maxabs(p) + 1e-300);
    const Transform* ts[] = {&r1, &r1b, &r1c, &r2, &r3, &r4, &r5, &r6, &r7, &r8};
    const char* nm[] = {"angle-axis", "set_angle_axis", "from_angle_axis", "matrix", "quaternion", "matrix(m)", "set_matrix", "quaternion(q)", "set_quaternion", "negated quaternion"};
    for (int i = 0; i < 10; i++) { Point3 x = p; ts[i]->apply(x); CHECK(near3(x, e, tol), "agree", "%s rotation by %g about %s maps %s to %s, expected %s", nm[i], a, ps(ax).c_str(), ps(p).c_str(), ps(x).c_str(), ps(p3(e)).c_str()); }
    if (s.chance(1, 8)) { RotationAngleAxis d1; RotationMatrix d2; RotationQuaternion d3; RotationEulerAngles d4; Scale d5; const Transform* ds[] = {&d1, &d2, &d3, &d4, &d5}; for (auto t : ds) { Point3 x = p; t->apply(x); CHECK(near3(x, v3(p), tol), "identity", "a transform that was never set maps %s to %s", ps(p).c_str(), ps(x).c_str()); } double dm[9]; d2.get_matrix(dm); for (int i = 0; i < 9; i++) CHECK(nearv(dm[i], i % 4 == 0, 1e-12), "identity", "coefficient %d of a new matrix is %g", i, dm[i]); }
    // matrix rows are an orthonormal right-handed frame; the axis is fixed
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = 0; for (int k = 0; k < 3; k++) d += m[3 * i + k] * m[3 * j + k]; CHECK(nearv(d, i == j, 1e-9), "orthonormal", "rows %d,%d product %g", i, j, d); }
    double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); CHECK(nearv(det, 1, 1e-9), "orientation", "determinant %g", det);
    Point3 f = ax; r1.apply(f); CHECK(near3(f, ax, 1e-9), "axis", "axis %s moves to %s", ps(ax).c_str(), ps(f).c_str());
    c.nontrivial = fmod(a, 360.) != 0 && (ax.x() != 0) + (ax.y() != 0) + (ax.z() != 0) > 1;
}
PROP(compose, 150000, 3000000, 1000, "both angles non-zero")
{
    double a = gen_angle(s), b = gen_angle(s); Point3 ax = gen_axis(s); int kind = (int)s.choice(3); Point3 p = gen_point(s, 10.); double tol = 1e-9 * (maxabs(p) + 1e-300);
    auto mk = [&](double ang) -> shared_ptr<Transform> { if (kind == 0) return make_shared<RotationAngleAxis>(ang, ax); if (kind == 1) { auto r = make_shared<RotationMatrix>(); r->from_angle_axis(ang, ax); return r; } auto r = make_shared<RotationQuaternion>(); r->from_angle_axis(ang, ax); return r; };
    Point3 x = p; mk(a)->apply(x); Point3 half = x; mk(b)->apply(x); Point3 y = p; mk(a + b)->apply(y);
    CHECK(near3(x, y, tol), "compose", "kind %d: %g then %g about %s maps %s to %s, their sum to %s", kind, a, b, ps(ax).c_str(), ps(p).c_str(), ps(x).c_str(), ps(y).c_str());
    mk(-a)->apply(half); CHECK(near3(half, p, tol), "inverse", "kind %d: %g and back maps %s to %s", kind, a, ps(p).c_str(), ps(half).c_str());
    Point3 q = gen_point(s, 10.), p2 = p, q2 = q; auto r = mk(a); r->apply(p2); r->apply(q2);
    CHECK(nearv(dist(p, q), dist(p2, q2), 1e-8), "isometry", "distance %g becomes %g", dist(p, q), dist(p2, q2));
    c.nontrivial = a != 0 && b != 0;
}
PROP(euler, 150000, 3000000, 1000, "all three angles non-zero")
{
    double yaw = gen_angle(s), pitch = gen_angle(s), roll = gen_angle(s); NOTE("yaw %g pitch %g roll %g", yaw, pitch, roll);
    RotationEulerAngles r(yaw, pitch, roll); if (s.boolean()) { r = RotationEulerAngles(gen_angle(s)); r.set_angles(yaw, pitch, roll); }
    Point3 p[4], q[4]; for (int i = 0; i < 4; i++) { p[i] = q[i] = gen_point(s, 10.); r.apply(q[i]); }
    for (int i = 0; i < 4; i++) { V3 e = euler_ref(v3(p[i]), yaw, pitch, roll); CHECK(near3(q[i], e, 1e-9 * (maxabs(p[i]) + 1e-300)), "euler", "yaw %g pitch %g roll %g maps %s to %s, expected %s", yaw, pitch, roll, ps(p[i]).c_str(), ps(q[i]).c_str(), ps(p3(e)).c_str()); }
    c.nontrivial = yaw != 0 && pitch != 0 && roll != 0;
}
// one rotation object set again and again is each time what the last setting says
PROP(reuse, 60000, 1200000, 500, "at least two settings, the last one after a different one")
{
    RotationAngleAxis r1; RotationMatrix r2; RotationQuaternion r3; RotationEulerAngles r4; int n = 1 + (int)s.choice(6); double prev = 1e9; Point3 p = gen_point(s, 10.); double tol = 1e-9 * (maxabs(p) + 1e-300); bool moved = false;
    for (int k = 0; k < n; k++) {
        double a = s.chance(1, 4) ? s.pick({0., -0., 360., 180., -90., 1e-3}) : gen_angle(s), b = s.boolean() ? 0. : gen_angle(s), d = s.boolean() ? 0. : gen_angle(s); Point3 ax = gen_axis(s); NOTE("%g about %s, euler %g %g %g", a, ps(ax).c_str(), a, b, d); V3 e = rodrigues(v3(p), v3(ax), a); RotationMatrix o; o.from_angle_axis(a, ax); double m[9]; o.get_matrix(m); double h = a * PI_ / 360.; double q[4] = {cos(h), ax.x() * sin(h), ax.y() * sin(h), ax.z() * sin(h)};
        if (s.boolean()) r1.set_angle_axis(a, ax); else r1.from_angle_axis(a, ax); if (s.boolean()) r2.from_angle_axis(a, ax); else r2.set_matrix(m); if (s.boolean()) r3.from_angle_axis(a, ax); else r3.set_quaternion(q); r4.set_angles(a, b, d);
        const Transform* ts[] = {&r1, &r2, &r3}; const char* nm[] = {"angle-axis", "matrix", "quaternion"}; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { Point3 x = p; ts[i]->apply(x); CHECK(near3(x, e, tol), "reuse", "%s set %d times, last to %g about %s, maps %s to %s, expected %s", nm[i], k + 1, a, ps(ax).c_str(), ps(p).c_str(), ps(x).c_str(), ps(p3(e)).c_str()); }
        Point3 x = p; r4.apply(x); V3 f = euler_ref(v3(p), a, b, d); CHECK(near3(x, f, tol), "reuse", "euler angles set %d times, last to %g %g %g, map %s to %s, expected %s", k + 1, a, b, d, ps(p).c_str(), ps(x).c_str(), ps(p3(f)).c_str()); if (k && a != prev) moved = true; prev = a; }
    c.nontrivial = moved;
}
PROP(bulk, 75000, 1500000, 500, "at least two points and a transform that is not the identity")
{
    GenTransform g = gen_transform(s); int n = s.sized(0, 60); bool large = s.chance(1, 800); if (large) n = gen_many(s, 70000); Hash h(large ? s.choice(1 << 20) : 0); vector<Point3> P; double sc = s.chance(1, 3) ? s.pick({1e-12, 1e-6, 1e6, 1e12}) : 1.; for (int i = 0; i < n; i++) if (large) P.push_back(Point3(h.real(10), h.real(10), h.real(10)) * sc); else { if (i && s.chance(1, 8)) P.push_back(P[s.choice(i)] + gen_point(s, 1.) * (sc * s.pick({0., 1e-13, 1e-7, 1e-3}))); else P.push_back(gen_point(s, 10.) * sc); }
    NOTE("%s on %d points", g.text.c_str(), n); vector<Point3> Q = P; g.t->apply_all(Q);
    CHECK(Q.size() == P.size(), "bulk", "%zu points became %zu", P.size(), Q.size());
    auto ok = [&](const Point3& a, const Point3& b) { return near3(b, g.ref(v3(a)), 1e-9 * (g.mag * maxabs(a) + g.shift) + 1e-300); };
    for (int i = 0; i < n; i++) CHECK(ok(P[i], Q[i]), "bulk", "point %d: %s -> %s", i, ps(P[i]).c_str(), ps(Q[i]).c_str());
    Mesh m; for (auto& p : P) m.add_vertex(p); m.set_color(0x123456); vector<Tri> T;
    if (n >= 3) for (int i = 0; i < (int)s.choice(20); i++) { int a = (int)s.choice(n), b = (int)s.choice(n), d = (int)s.choice(n); if (a == b || b == d || a == d) continue; m.add_triangle(a, b, d); T.push_back(Tri{a, b, d}); }
    if (!T.empty() && s.boolean()) { int k = (int)s.choice(T.size()); m.unlink_triangle(k); T[k].a = -1; }
    m.apply_transform(*g.t);
    CHECK(m.nb_vertices() == n && m.nb_triangles() == (int)T.size() && m.get_color() == 0x123456, "bulk-mesh", "mesh changed to %d vertices %d triangles", m.nb_vertices(), m.nb_triangles());
    for (int i = 0; i < n; i++) { Point3 v; m.get_vertex(i, v); CHECK(ok(P[i], v), "bulk-mesh", "vertex %d of %d: %s -> %s", i, n, ps(P[i]).c_str(), ps(v).c_str()); }
    for (size_t i = 0; i < T.size(); i++) { CHECK(m.is_triangle_unlinked((int)i) == (T[i].a < 0), "bulk-mesh", "triangle %zu link state", i); if (T[i].a < 0) continue; int a, b, d; m.get_triangle_vertices((int)i, a, b, d); Tri x = canon(Tri{a, b, d}), y = canon(T[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "bulk-mesh", "triangle %zu changed", i); }
    if (n >= 4) { // surface and solid: every control point once
        int nu = 2 + (int)s.choice(n / 2 - 1), nv = n / nu; if (nv >= 1) { vector<Point3> G(P.begin(), P.begin() + nu * nv); vector<double> w(nu * nv, 1.5); NurbsSurface a; a.set_points(G, nu, nv); a.set_weights(w); NurbsSolid so; so.add_surface(a); so.add_surface(a); a.apply_transform(*g.t); so.apply_transform(*g.t);
            for (int i = 0; i < nu * nv; i++) { CHECK(ok(G[i], a.points()[i]), "bulk-surface", "control point %d: %s -> %s", i, ps(G[i]).c_str(), ps(a.points()[i]).c_str()); CHECK(a.weights()[i] == 1.5, "bulk-surface", "weight changed"); for (auto& x : so.surfaces()) CHECK(ok(G[i], x.points()[i]), "bulk-solid", "control point %d: %s -> %s", i, ps(G[i]).c_str(), ps(x.points()[i]).c_str()); } } }
    c.nontrivial = n >= 2 && g.kind != 0; LABEL("size %s", n < 2 ? "0-1" : n < 10 ? "2-9" : "10+");
}
