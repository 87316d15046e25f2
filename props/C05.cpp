// C05: extrude, ruled and revolve build exactly the swept surface.
#include "nurbs_common.hpp"
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
#include "NurbsRevolve.h"

// homogeneous value of a curve
static void ref_h(const RefCurve& c, ld u, V3& pw, ld& w)
{
    vector<ld> N; ref_basis(c.k, c.p, (int)c.P.size(), u, N); pw = V3{0, 0, 0}; w = 0;
    for (size_t i = 0; i < c.P.size(); i++) { ld x = N[i] * c.w[i]; pw = pw + v3(c.P[i]) * x; w += x; }
}
// the output object may have held anything
static void dirty(pbt::Source& s, NurbsSurface& ns)
{
    switch (s.choice(4)) {
    case 0: break;
    case 1: gen_surface(s, ns, 1, 4, 3, 0); break;
    case 2: gen_surface(s, ns, 1, 4, 3, 0); ns.set_closed_u(true); ns.set_closed_v(true); break;
    default: { NurbsCurve t; gen_curve(s, t, 1, 3, 3, 0); NurbsRevolve r; r.revolve(t, ns); ns.set_closed_v(true); break; }
    }
}
// make a generated curve closed or clearly open
static void set_closure(NurbsCurve& a, bool closed, double sc)
{
    vector<Point3>& P = a.points();
    if (closed) P.back() = P.front(); else if (dist(P.front(), P.back()) < 1e-3 * sc) P.back() = P.front() + Point3(sc, 0, sc);
}
PROP(extrude, 100000, 2000000, 400, "direction is not zero")
{
    NurbsCurve a; gen_curve(s, a, 1, 6, 10, 0); double sc = span_of(a.points()) + 1.; bool cl = s.chance(1, 3); set_closure(a, cl, sc);
    RefCurve q = ref_of(a); note_curve(c, q); Point3 d = gen_point(s, sc); NOTE("direction %s closed %d", ps(d).c_str(), (int)cl);
    NurbsSurface ns; dirty(s, ns); NurbsExtrude e; bool ok = e.extrude(a, d, ns); CHECK(ok, "extrude", "returned false");
    CHECK(a.is_closed() == cl, "is-closed", "curve closed: %d", (int)a.is_closed());
    CHECK(ns.is_closed_u() == cl && !ns.is_closed_v(), "closed-flags", "curve closed %d, surface closed u %d v %d", (int)cl, (int)ns.is_closed_u(), (int)ns.is_closed_v());
    double tol = tolw(1e-9, a.weights()) * sc;
    for (int i = 0; i < 4; i++) { double u = gen_param(s, q.k), v = gen_param(s, ns.knots_v()); Point3 p; ns.evaluate(u, v, p); V3 w = ref_eval(q, u) + v3(d) * v; CHECK(near3(p, w, tol), "extrude", "S(%g,%g)=%s expected %s", u, v, ps(p).c_str(), ps(p3(w)).c_str()); }
    RefCurve q2 = ref_of(a); CHECK(q2.k == q.k && q2.w == q.w, "input", "input curve changed");
    c.nontrivial = maxabs(d) > 0; LABEL("closed %d", (int)cl);
}
PROP(ruled, 100000, 2000000, 400, "the two curves differ")
{
    NurbsCurve a; gen_curve(s, a, 1, 6, 10, 0); RefCurve r = ref_of(a); NurbsCurve b = a; int n = a.nb_points(); bool rational = s.boolean();
    b.set_points(gen_points(s, n, s.pick({1., 100.}))); if (rational) b.set_weights(gen_weights(s, n));
    double sc = max(span_of(a.points()), span_of(b.points())) + 1.; bool c1 = s.boolean(), c2 = s.boolean(); set_closure(a, c1, sc); set_closure(b, c2, sc);
    RefCurve qa = ref_of(a), qb = ref_of(b); note_curve(c, qa); note_curve(c, qb);
    NurbsSurface ns; dirty(s, ns); NurbsRuled e; bool ok = e.create_ruled(a, b, ns); CHECK(ok, "ruled", "returned false");
    CHECK(ns.is_closed_u() == (c1 && c2) && !ns.is_closed_v(), "closed-flags", "curves closed %d %d, surface closed u %d v %d", (int)c1, (int)c2, (int)ns.is_closed_u(), (int)ns.is_closed_v());
    double tol = 3e-8 * sc;
    for (int i = 0; i < 4; i++) {
        double u = gen_param(s, qa.k), v = gen_param(s, ns.knots_v()); Point3 p; ns.evaluate(u, v, p);
        V3 h1, h2; ld w1, w2; ref_h(qa, u, h1, w1); ref_h(qb, u, h2, w2); V3 w = (h1 * (1 - (ld)v) + h2 * v) * (1 / (w1 * (1 - (ld)v) + w2 * v));
        CHECK(near3(p, w, tol), "ruled", "S(%g,%g)=%s expected %s", u, v, ps(p).c_str(), ps(p3(w)).c_str());
    }
    c.nontrivial = true; LABEL("closed %d%d rational %d", (int)c1, (int)c2, (int)rational);
}
PROP(revolve, 100000, 2000000, 400, "profile has a point off the axis")
{
    NurbsCurve a; gen_curve(s, a, 1, 6, 10, 0); double sc = span_of(a.points()) + 1.; bool cl = s.chance(1, 3);
    if (s.boolean()) for (auto& p : a.points()) p.y() = 0; // the usual planar profile
    if (s.chance(1, 3)) { Point3& p = a.points()[s.choice(a.nb_points())]; p.x() = p.y() = 0; }
    set_closure(a, cl, sc);
    RefCurve q = ref_of(a); note_curve(c, q);
    NurbsSurface ns; dirty(s, ns); NurbsRevolve e; bool ok = e.revolve(a, ns); CHECK(ok, "revolve", "returned false");
    CHECK(ns.is_closed_u() && ns.is_closed_v() == cl, "closed-flags", "profile closed %d, surface closed u %d v %d", (int)cl, (int)ns.is_closed_u(), (int)ns.is_closed_v());
    double tol = tolw(1e-9, a.weights()) * sc, prev = 0; int n = 12; double v = gen_param(s, q.k); V3 C = ref_eval(q, v); ld rho = hypotl(C.x, C.y);
    for (int i = 0; i <= n; i++) {
        double u = (double)i / n; Point3 p; ns.evaluate(u, v, p);
        CHECK(nearv(p.z(), (double)C.z, tol) && nearv(hypot(p.x(), p.y()), (double)rho, tol), "circle", "S(%g,%g)=%s, profile point %s", u, v, ps(p).c_str(), ps(p3(C)).c_str());
        if (rho > 1e-6 * sc) {
            // turned clockwise (seen from +z) from the profile point, quarter turns at quarter parameters, monotone
            double ang = atan2((double)(C.y * p.x() - C.x * p.y()), (double)(C.x * p.x() + C.y * p.y())); if (ang < -1e-6) ang += 2 * PI_; if (i == n && ang < 1) ang += 2 * PI_;
            if (i % 3 == 0) CHECK(nearv(ang, i / 3 * PI_ / 2, 1e-5), "quarter", "turned by %g rad at u=%g", ang, u);
            CHECK(ang >= prev - 1e-6, "monotone", "angle %g after %g at u=%g", ang, prev, u); prev = ang; c.nontrivial = true;
        }
    }
    for (int i = 0; i < 4; i++) {
        double u = gen_param(s, ns.knots_u()), vv = gen_param(s, q.k); Point3 p; ns.evaluate(u, vv, p); V3 D = ref_eval(q, vv); 
        CHECK(nearv(p.z(), (double)D.z, tol) && nearv(hypot(p.x(), p.y()), (double)hypotl(D.x, D.y), tol), "circle", "S(%g,%g)=%s, profile point %s", u, vv, ps(p).c_str(), ps(p3(D)).c_str());
        ns.evaluate(0., vv, p); CHECK(near3(p, D, tol), "start", "S(0,%g)=%s, profile point %s", vv, ps(p).c_str(), ps(p3(D)).c_str());
        ns.evaluate(1., vv, p); CHECK(near3(p, D, tol), "end", "S(1,%g)=%s, profile point %s", vv, ps(p).c_str(), ps(p3(D)).c_str());
    }
}
PROP(closed_curve, 40000, 800000, 1000, "at least two control points")
{
    // a curve is closed exactly when its first and last control points are within the tolerance
    int n = s.sized(0, 6); vector<Point3> P; for (int i = 0; i < n; i++) P.push_back(gen_point(s, 10.)); NurbsCurve a; a.set_points(P);
    double tol = s.pick({1e-6, 1e-3, 1., 1e-9, 50., 1e5}); double f = s.pick({0., 0.5, 0.99, 1.01, 2., 1000.}); V3 dir{s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)}; if (len(dir) < 0.01) dir = V3{1, 0, 0}; dir = dir * (1 / len(dir));
    if (n > 1) { P.back() = p3(v3(P.front()) + dir * (f * tol)); if (tol < 1e-6 && f > 0) return; a.set_points(P); }
    bool want = n > 1 && f < 1; CHECK(a.is_closed(tol) == want, "is-closed", "%d points, gap %g of tolerance %g: closed %d", n, f, tol, (int)!want);
    if (tol == 1e-6) CHECK(a.is_closed() == want, "is-closed", "default tolerance, gap %g", f * tol);
    c.nontrivial = n > 1;
}
