// C03: a NURBS surface evaluates to the tensor-product rational B-spline.
#include "nurbs_common.hpp"
#include "NurbsSolid.h"
#include "Transform.h"
#include "transform_common.hpp"

// the closed flags describe the shape to the mesher; they change no point of the surface
static void flag_closed(pbt::Source& s, NurbsSurface& a)
{
    if (s.chance(1, 3)) a.set_closed_u(s.boolean());
    if (s.chance(1, 3)) a.set_closed_v(s.boolean());
}
static void check_eval(pbt::Source& s, pbt::Ctx& c, const NurbsSurface& a, const RefSurf& q, int n)
{
    double tol = tolw(1e-9, q.w) * (span_of(q.P) + 1e-300);
    for (int i = 0; i < n; i++) {
        double u = gen_param(s, q.ku), v = gen_param(s, q.kv); Point3 p(NAN, NAN, NAN); a.evaluate(u, v, p); V3 e = ref_eval(q, u, v);
        NOTE("(%.17g,%.17g) -> %s", u, v, ps(p).c_str());
        CHECK(near3(p, e, tol), "value", "(%.17g,%.17g) gives %s, definition gives %s (tol %g)", u, v, ps(p).c_str(), ps(p3(e)).c_str(), tol);
    }
}
PROP(evaluate, 200000, 4000000, 400, "different u and v sizes or degrees, with an interior knot or unequal weights")
{
    NurbsSurface a; RefSurf r = gen_surface(s, a, 1, 5, 8, 0); note_surface(c, r);
    flag_closed(s, a);
    CHECK(a.degree_u() == r.pu && a.degree_v() == r.pv && a.nb_points_u() == r.nu && a.nb_points_v() == r.nv, "readback", "degrees %d %d sizes %d %d", a.degree_u(), a.degree_v(), a.nb_points_u(), a.nb_points_v());
    for (size_t i = 0; i < r.ku.size(); i++) CHECK(nearv(a.knots_u()[i], r.ku[i], 1e-12), "knot-rescale", "u knot %zu is %.17g expected %.17g", i, a.knots_u()[i], r.ku[i]);
    for (size_t i = 0; i < r.kv.size(); i++) CHECK(nearv(a.knots_v()[i], r.kv[i], 1e-12), "knot-rescale", "v knot %zu is %.17g expected %.17g", i, a.knots_v()[i], r.kv[i]);
    RefSurf q = ref_of(a); check_eval(s, c, a, q, 3);
    double tol = tolw(1e-9, r.w) * (span_of(r.P) + 1e-300); Point3 p;
    for (int i = 0; i < 4; i++) { a.evaluate(i & 1, i >> 1, p); const Point3& e = r.P[((i & 1) ? r.nu - 1 : 0) + r.nu * ((i >> 1) ? r.nv - 1 : 0)]; CHECK(near3(p, e, tol), "corner", "corner %d is %s, control point %s", i, ps(p).c_str(), ps(e).c_str()); }
    bool eq = true; for (double w : r.w) eq = eq && w == r.w[0];
    c.nontrivial = (r.nu != r.nv || r.pu != r.pv) && (r.nu > r.pu + 1 || r.nv > r.pv + 1 || !eq);
    LABEL("degree %dx%d", r.pu, r.pv);
}
PROP(reconfigured, 48000, 960000, 250, "second definition differs in size")
{
    NurbsSurface a; RefSurf r0 = gen_surface(s, a, 1, 4, 5, 0);
    Point3 t; for (int i = 0; i < (int)s.choice(3); i++) a.evaluate(gen_param(s, a.knots_u()), gen_param(s, a.knots_v()), t);
    int how = (int)s.choice(3); if (how == 1) a.clear();
    RefSurf r1 = r0;
    if (how == 2) { // a new grid on the same object through the uniform helpers
        int pu = s.irange(1, 5), pv = s.irange(1, 5), nu = pu + 1 + s.sized(0, 12), nv = pv + 1 + s.sized(0, 12); if (s.chance(1, 100)) { nv = pv + 1 + s.irange(0, 2); nu = pu + 1 + s.irange(100, 400); if (s.boolean()) { std::swap(nu, nv); std::swap(pu, pv); } } vector<Point3> P = gen_points(s, nu * nv, gen_scale(s));
        a.set_degree(pu, pv); a.set_points(P, nu, nv); if (s.boolean()) { a.set_uniform_u(); a.set_uniform_v(); } else { a.set_uniform_v(); a.set_uniform_u(); } a.set_equals_weights();
        r1 = RefSurf{pu, pv, nu, nv, {}, {}, vector<double>(nu * nv, 1.), P};
        for (int i = 0; i <= pu; i++) r1.ku.push_back(0); for (int i = 1; i < nu - pu; i++) r1.ku.push_back((double)i / (nu - pu)); for (int i = 0; i <= pu; i++) r1.ku.push_back(1);
        for (int i = 0; i <= pv; i++) r1.kv.push_back(0); for (int i = 1; i < nv - pv; i++) r1.kv.push_back((double)i / (nv - pv)); for (int i = 0; i <= pv; i++) r1.kv.push_back(1);
        CHECK(a.knots_u().size() == r1.ku.size() && a.knots_v().size() == r1.kv.size(), "uniform-knots", "%zu %zu knots", a.knots_u().size(), a.knots_v().size());
        for (size_t i = 0; i < r1.ku.size(); i++) CHECK(nearv(a.knots_u()[i], r1.ku[i], 1e-12), "uniform-knots", "u knot %zu is %.17g expected %.17g", i, a.knots_u()[i], r1.ku[i]);
        for (size_t i = 0; i < r1.kv.size(); i++) CHECK(nearv(a.knots_v()[i], r1.kv[i], 1e-12), "uniform-knots", "v knot %zu is %.17g expected %.17g", i, a.knots_v()[i], r1.kv[i]);
        CHECK(a.weights().size() == r1.w.size(), "equal-weights", "%zu weights for %d points", a.weights().size(), nu * nv);
        for (double w : a.weights()) CHECK(w == 1., "equal-weights", "weight %g after asking for equal weights", w);
    } else r1 = gen_surface(s, a, 1, 4, 5, 0);
    note_surface(c, r0); note_surface(c, r1); flag_closed(s, a);
    if (s.chance(1, 3)) { a.set_equals_weights(); r1.w.assign(r1.P.size(), 1.); CHECK(a.weights().size() == r1.w.size(), "equal-weights", "%zu weights", a.weights().size()); for (double w : a.weights()) CHECK(w == 1., "equal-weights", "weight %g after asking for equal weights", w); }
    else if (s.chance(1, 3)) { int i = (int)s.choice(r1.P.size()); Point3 np = gen_point(s, 5.); a.points()[i] = np; r1.P[i] = np; i = (int)s.choice(r1.w.size()); a.weights()[i] = 2.5; r1.w[i] = 2.5; }
    RefSurf q = ref_of(a); q.P = r1.P; q.w = r1.w; q.nu = r1.nu; q.nv = r1.nv; q.pu = r1.pu; q.pv = r1.pv;
    check_eval(s, c, a, q, 3);
    c.nontrivial = r0.nu != r1.nu || r0.nv != r1.nv;
}
PROP(transformed, 48000, 960000, 250, "transform is not the identity")
{
    NurbsSolid sol; vector<RefSurf> rs; int n = 1 + (int)s.choice(3); bool solid = s.boolean(); if (!solid) n = 1;
    NurbsSurface one; 
    for (int i = 0; i < n; i++) { NurbsSurface a; RefSurf r = gen_surface(s, a, 1, 3, 4, 0); flag_closed(s, a); if (solid) sol.add_surface(a); else one = a; rs.push_back(ref_of(a)); note_surface(c, r); }
    GenTransform g = gen_transform(s); NOTE("transform %s", g.text.c_str());
    if (solid) sol.apply_transform(*g.t); else one.apply_transform(*g.t);
    if (solid) CHECK((int)sol.surfaces().size() == n, "solid-size", "%zu surfaces", sol.surfaces().size());
    for (int i = 0; i < n; i++) {
        const NurbsSurface& a = solid ? sol.surfaces()[i] : one;
        for (int k = 0; k < 3; k++) {
            double u = gen_param(s, rs[i].ku), v = gen_param(s, rs[i].kv); Point3 p; a.evaluate(u, v, p); V3 e = g.ref(ref_eval(rs[i], u, v));
            double tol = tolw(1e-9, rs[i].w) * (g.mag * (span_of(rs[i].P) + 1e-300) + g.shift);
            CHECK(near3(p, e, tol), "transform", "(%g,%g) is %s after the transform, expected %s", u, v, ps(p).c_str(), ps(p3(e)).c_str());
        }
    }
    c.nontrivial = g.kind != 0;
}
