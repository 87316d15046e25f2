// C01: a NURBS curve evaluates to the rational B-spline its definition describes.
#include "nurbs_common.hpp"
#include "NurbsFactory.h"

PROP(evaluate, 250000, 5000000, 500, "curve has an interior knot or unequal weights, and the parameter is strictly inside (0,1)")
{
    NurbsCurve c0; RefCurve r = gen_curve(s, c0, 1, 8, 20, 0);
    note_curve(c, r);
    // knots come back affinely rescaled to [0,1]
    CHECK(c0.knots().size() == r.k.size(), "knot-count", "%zu vs %zu", c0.knots().size(), r.k.size());
    for (size_t i = 0; i < r.k.size(); i++) CHECK(nearv(c0.knots()[i], r.k[i], 1e-12), "knot-rescale", "knot %zu is %.17g expected %.17g", i, c0.knots()[i], r.k[i]);
    CHECK(c0.nb_points() == (int)r.P.size() && c0.degree() == r.p, "readback", "points %d degree %d", c0.nb_points(), c0.degree());
    RefCurve q = ref_of(c0);
    double sc = span_of(r.P) + 1e-300, tol = tolw(1e-10, r.w) * sc;
    bool equal = true; for (double w : r.w) equal = equal && w == r.w[0];
    int n = 1 + (int)s.choice(6);
    for (int i = 0; i < n; i++) {
        double u = gen_param(s, q.k);
        Point3 p(NAN, NAN, NAN); c0.evaluate(u, p);
        V3 e = ref_eval(q, u);
        NOTE("u=%.17g -> %s", u, ps(p).c_str());
        CHECK(near3(p, e, tol), "value", "u=%.17g gives %s, definition gives %s (tol %g)", u, ps(p).c_str(), ps(p3(e)).c_str(), tol);
        if (u > 0 && u < 1 && ((int)r.P.size() > r.p + 1 || !equal)) c.nontrivial = true;
    }
    Point3 a, b; c0.evaluate(0., a); c0.evaluate(1., b);
    CHECK(near3(a, r.P.front(), tol) && near3(b, r.P.back(), tol), "ends", "curve runs from %s to %s, control polygon from %s to %s", ps(a).c_str(), ps(b).c_str(), ps(r.P.front()).c_str(), ps(r.P.back()).c_str());
    LABEL("degree %d", r.p);
    LABEL("interior knots %s", r.P.size() - r.p - 1 == 0 ? "0" : r.P.size() - r.p - 1 < 4 ? "1-3" : "4+");
}

PROP(uniform, 50000, 1000000, 500, "at least two interior knots")
{
    // helper constructors: uniform clamped knots, equal weights
    int p = s.chance(1, 20) ? s.irange(7, 10) : s.irange(1, 6), n = p + 1 + (s.chance(1, 150) ? s.irange(100, 600) : s.sized(0, 40));
    vector<Point3> P = gen_points(s, n, gen_scale(s));
    NurbsCurve a;
    if (s.boolean()) NurbsFactory::create_curve_from_points(P, p, a);
    else { a.set_degree(p); a.set_points(P); a.set_uniform(); a.set_equals_weights(); }
    RefCurve r{p, {}, vector<double>(n, 1.), P};
    for (int i = 0; i <= p; i++) r.k.push_back(0);
    for (int i = 1; i < n - p; i++) r.k.push_back((double)i / (n - p));
    for (int i = 0; i <= p; i++) r.k.push_back(1);
    note_curve(c, r);
    CHECK(a.knots().size() == r.k.size(), "uniform-knots", "%zu knots, expected %zu", a.knots().size(), r.k.size());
    for (size_t i = 0; i < r.k.size(); i++) CHECK(nearv(a.knots()[i], r.k[i], 1e-12), "uniform-knots", "knot %zu is %.17g expected %.17g", i, a.knots()[i], r.k[i]);
    CHECK((int)a.weights().size() == n, "equal-weights", "%zu weights for %d points", a.weights().size(), n);
    for (double w : a.weights()) CHECK(w == a.weights()[0] && w > 0, "equal-weights", "weight %g", w);
    RefCurve q = ref_of(a); double tol = tolw(1e-10, a.weights()) * (span_of(P) + 1e-300);
    for (int i = 0; i < 4; i++) { double u = gen_param(s, q.k); Point3 v; a.evaluate(u, v); V3 e = ref_eval(q, u); CHECK(near3(v, e, tol), "value", "u=%.17g gives %s expected %s", u, ps(v).c_str(), ps(p3(e)).c_str()); }
    c.nontrivial = n > p + 2;
}

PROP(reconfigured, 50000, 1000000, 250, "second definition has a different degree or point count")
{
    // a curve object given a new definition evaluates to the new one, whatever it held before, and editing control
    // points in place is seen by the next evaluation
    NurbsCurve a; RefCurve r0 = gen_curve(s, a, 1, 6, 8, 0);
    for (int i = 0; i < (int)s.choice(3); i++) { Point3 t; a.evaluate(gen_param(s, a.knots()), t); }
    if (s.boolean()) a.clear();
    RefCurve r1 = gen_curve(s, a, 1, 6, 8, 0);
    note_curve(c, r0); note_curve(c, r1);
    if (s.boolean()) { int i = (int)s.choice(r1.P.size()); Point3 np = gen_point(s, 5.); a.points()[i] = np; r1.P[i] = np; }
    if (s.chance(1, 3)) { a.set_equals_weights(); r1.w.assign(r1.P.size(), 1.); CHECK(a.weights().size() == r1.P.size(), "equal-weights", "%zu weights", a.weights().size()); for (double w : a.weights()) CHECK(w == 1., "equal-weights", "weight %g after asking for equal weights", w); }
    RefCurve q = ref_of(a); q.P = r1.P; q.w = r1.w; double tol = tolw(1e-10, r1.w) * (span_of(r1.P) + 1e-300);
    for (int i = 0; i < 4; i++) { double u = gen_param(s, q.k); Point3 v; a.evaluate(u, v); V3 e = ref_eval(q, u); CHECK(near3(v, e, tol), "value", "u=%.17g gives %s expected %s", u, ps(v).c_str(), ps(p3(e)).c_str()); }
    NurbsCurve b(a); Point3 x, y; double u = gen_param(s, q.k); a.evaluate(u, x); b.evaluate(u, y); CHECK(same_bits(x, y), "copy", "copy gives %s, original %s", ps(y).c_str(), ps(x).c_str());
    c.nontrivial = r0.p != r1.p || r0.P.size() != r1.P.size();
}

PROP(knot_span, 60000, 1200000, 500, "knot vector has an interior knot and t is inside (0,1)")
{
    int p = s.irange(1, 6), n = p + 1 + s.sized(0, 30); double lo, hi;
    vector<double> k = gen_knots(s, n, p, p, lo, hi); for (auto& x : k) x = (x - lo) / (hi - lo);
    double t = s.chance(1, 6) ? s.real(-2, 3) : gen_param(s, k);
    int i = NurbsCurve::find_knot_span(k, t);
    NOTE("degree %d, %d points, t=%.17g -> span %d", p, n, t, i);
    CHECK(i >= 0 && i + 1 < (int)k.size(), "span-range", "span %d of %zu knots", i, k.size());
    double u = min(1., max(0., t));
    CHECK(k[i] < k[i + 1], "span-empty", "span %d is [%g,%g]", i, k[i], k[i + 1]);
    CHECK(u >= k[i] && u <= k[i + 1] && (u < k[i + 1] || u == 1.), "span-value", "t=%.17g, span %d is [%.17g,%.17g]", t, i, k[i], k[i + 1]);
    c.nontrivial = n > p + 1 && t > 0 && t < 1;
}

PROP(invariance, 60000, 1200000, 500, "more points than degree+1")
{
    // metamorphic: affine maps of the control points commute with evaluation; scaling all weights changes nothing;
    // values stay in the bounding box of the control points (positive weights); reversing reverses
    NurbsCurve a; RefCurve r = gen_curve(s, a, 1, 6, 12, 0); note_curve(c, r);
    double u = gen_param(s, a.knots()); Point3 v; a.evaluate(u, v);
    double sc = span_of(r.P) + 1e-300, tol = tolw(1e-9, r.w) * sc;
    Point3 lo = r.P[0], hi = r.P[0];
    for (auto& p : r.P) { lo = Point3(min(lo.x(), p.x()), min(lo.y(), p.y()), min(lo.z(), p.z())); hi = Point3(max(hi.x(), p.x()), max(hi.y(), p.y()), max(hi.z(), p.z())); }
    CHECK(v.x() >= lo.x() - tol && v.x() <= hi.x() + tol && v.y() >= lo.y() - tol && v.y() <= hi.y() + tol && v.z() >= lo.z() - tol && v.z() <= hi.z() + tol, "hull", "u=%.17g: %s leaves box %s..%s", u, ps(v).c_str(), ps(lo).c_str(), ps(hi).c_str());
    double k = s.pick({2., 0.5, 3., 100.}); vector<double> w = r.w; for (auto& x : w) x *= k;
    NurbsCurve b = a; b.set_weights(w); Point3 v2; b.evaluate(u, v2); CHECK(near3(v, v2, tol), "weight-scale", "%s vs %s", ps(v).c_str(), ps(v2).c_str());
    Point3 d = gen_point(s, sc); vector<Point3> P = r.P; for (auto& x : P) x += d; NurbsCurve e = a; e.set_points(P); Point3 v3_; e.evaluate(u, v3_);
    CHECK(near3(v3_, v3(v) + v3(d), 3 * tol), "translate", "%s vs %s + %s", ps(v3_).c_str(), ps(v).c_str(), ps(d).c_str());
    c.nontrivial = (int)r.P.size() > r.p + 1;
}
