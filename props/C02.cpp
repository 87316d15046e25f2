// C02: knot insertion and degree elevation never change the shape of a curve.
#include "nurbs_common.hpp"

static vector<double> elevate_knots(const vector<double>& k)
{
    vector<double> r; for (size_t i = 0; i < k.size(); i++) { r.push_back(k[i]); if (i + 1 == k.size() || k[i + 1] != k[i]) r.push_back(k[i]); }
    return r;
}
static int mult(const vector<double>& k, double u) { int m = 0; for (double x : k) if (x == u) m++; return m; }
static string ks(const vector<double>& k) { string t; for (double x : k) t += pbt::fmt(" %.9g", x); return t; }

static void check_consistent(pbt::Ctx& c, const NurbsCurve& a, const vector<double>& k, int deg)
{
    CHECK(a.degree() == deg, "degree", "degree %d, expected %d", a.degree(), deg);
    CHECK(a.knots().size() == k.size(), "knots", "knots%s, expected%s", ks(a.knots()).c_str(), ks(k).c_str());
    for (size_t i = 0; i < k.size(); i++) CHECK(nearv(a.knots()[i], k[i], 1e-12), "knots", "knots%s, expected%s", ks(a.knots()).c_str(), ks(k).c_str());
    CHECK((int)a.knots().size() == a.nb_points() + deg + 1, "point-count", "%zu knots, %d points, degree %d", a.knots().size(), a.nb_points(), deg);
    CHECK(a.weights().size() == (size_t)a.nb_points(), "weight-count", "%zu weights, %d points", a.weights().size(), a.nb_points());
}
static void run(pbt::Source& s, pbt::Ctx& c, int minDeg, int maxDeg, int maxExtra, bool mostlyElevate)
{
    NurbsCurve a; RefCurve r0 = gen_curve(s, a, minDeg, maxDeg, maxExtra, 0); note_curve(c, r0);
    RefCurve q = ref_of(a); double sc = span_of(r0.P) + 1e-300, tol = tolw(1e-9, r0.w) * sc;
    vector<double> us = {0., 1., 0.5}; for (size_t i = 0; i < q.k.size(); i += 1 + q.k.size() / 200) us.push_back(q.k[i]);
    for (int i = 0; i < 5; i++) us.push_back(gen_param(s, q.k));
    vector<V3> want; for (double u : us) want.push_back(ref_eval(q, u));
    vector<double> k = a.knots(); int deg = a.degree(); int nops = 1 + (int)s.choice(5), inserts = 0, elevs = 0;
    for (int o = 0; o < nops; o++) {
        bool el = mostlyElevate ? s.chance(1, 2) : s.chance(1, 4);
        if (el) {
            bool ok = a.degree_elevation();
            NOTE("degree_elevation() -> %d", (int)ok);
            CHECK(ok == (deg == 1 || deg == 2), "elevation-result", "returned %d at degree %d", (int)ok, deg);
            if (ok) { k = elevate_knots(k); deg++; elevs++; }
        } else {
            double u = gen_param(s, k);
            // the domain is interior multiplicity at most the degree; ends may be repeated too but need no insertion
            bool found = false; for (int t = 0; t < 8 && !found; t++) { double v = u; for (double x : k) if (fabs(x - u) < 1e-9) v = x; u = v; if (u > 0 && u < 1 && mult(k, u) < deg) found = true; else u = (t + 1.) / 9.3 ; }
            if (!found) continue;
            a.insert_knot(u); NOTE("insert_knot(%.17g) multiplicity was %d", u, mult(k, u));
            k.insert(upper_bound(k.begin(), k.end(), u), u); inserts++;
        }
        check_consistent(c, a, k, deg);
        for (size_t i = 0; i < us.size(); i++) {
            Point3 p; a.evaluate(us[i], p);
            CHECK(near3(p, want[i], tol), "shape", "after %s: point at u=%.17g is %s, was %s (tol %g)", el ? "elevation" : "insertion", us[i], ps(p).c_str(), ps(p3(want[i])).c_str(), tol);
        }
        CHECK(near3(a.points().front(), r0.P.front(), tol) && near3(a.points().back(), r0.P.back(), tol), "ends", "end control points moved");
    }
    LABEL("inserts %d elevations %d", min(inserts, 3), elevs);
    c.nontrivial = inserts + elevs > 0 && (r0.p > 1 || (int)r0.P.size() > 2);
}
PROP(mixed, 150000, 3000000, 500, "at least one refinement of a curve that is not a single line segment") { run(s, c, 1, 3, 10, true); }
PROP(insertion, 100000, 2000000, 500, "at least one refinement of a curve that is not a single line segment") { run(s, c, 1, 7, 12, false); }

PROP(refused, 12500, 250000, 500, "always: degree 3 or more")
{
    NurbsCurve a; RefCurve r = gen_curve(s, a, 3, 7, 10, 0); RefCurve b = ref_of(a);
    bool ok = a.degree_elevation(); RefCurve d = ref_of(a); note_curve(c, r);
    CHECK(!ok, "elevation-result", "elevation accepted at degree %d", r.p);
    bool same = b.p == d.p && b.k == d.k && b.w == d.w && b.P.size() == d.P.size(); for (size_t i = 0; same && i < b.P.size(); i++) same = same_bits(b.P[i], d.P[i]);
    CHECK(same, "refused-change", "refused elevation changed the curve");
    c.nontrivial = true;
}

PROP(bezier_decompose, 25000, 500000, 250, "curve has at least one interior knot")
{
    // inserting every interior knot up to multiplicity p turns the control points at those knots into curve points
    NurbsCurve a; RefCurve r = gen_curve(s, a, 1, 5, 7, 0); note_curve(c, r); RefCurve q = ref_of(a); double tol = tolw(1e-9, r.w) * (span_of(r.P) + 1e-300);
    vector<double> d; for (double x : q.k) if (x > 0 && x < 1 && (d.empty() || d.back() != x)) d.push_back(x);
    for (double x : d) while (mult(a.knots(), x) < r.p) { size_t n = a.knots().size(); a.insert_knot(x); CHECK(a.knots().size() == n + 1 && n < 4000, "knots", "%zu knots after inserting %g into %zu", a.knots().size(), x, n); }
    check_consistent(c, a, a.knots(), r.p);
    for (size_t j = 0; j < d.size(); j++) { V3 e = ref_eval(q, d[j]); CHECK(near3(a.points()[(j + 1) * r.p], e, tol), "decompose", "control point %zu is %s, curve point at %g is %s", (j + 1) * r.p, ps(a.points()[(j + 1) * r.p]).c_str(), d[j], ps(p3(e)).c_str()); }
    for (int i = 0; i < 3; i++) { double u = gen_param(s, q.k); Point3 p; a.evaluate(u, p); CHECK(near3(p, ref_eval(q, u), tol), "shape", "u=%.17g gives %s", u, ps(p).c_str()); }
    c.nontrivial = !d.empty();
}
