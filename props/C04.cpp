// C04: refining a surface in u or v never changes its shape.
#include "nurbs_common.hpp"

static vector<double> elevate_knots(const vector<double>& k)
{
    vector<double> r; for (size_t i = 0; i < k.size(); i++) { r.push_back(k[i]); if (i + 1 == k.size() || k[i + 1] != k[i]) r.push_back(k[i]); }
    return r;
}
static int mult(const vector<double>& k, double u) { int m = 0; for (double x : k) if (x == u) m++; return m; }
static string ks(const vector<double>& k) { string t; for (double x : k) t += pbt::fmt(" %.9g", x); return t; }
static void same_knots(pbt::Ctx& c, const char* dir, const vector<double>& a, const vector<double>& b)
{
    CHECK(a.size() == b.size(), "knots", "%s knots%s, expected%s", dir, ks(a).c_str(), ks(b).c_str());
    for (size_t i = 0; i < a.size(); i++) CHECK(nearv(a[i], b[i], 1e-12), "knots", "%s knots%s, expected%s", dir, ks(a).c_str(), ks(b).c_str());
}
static void run(pbt::Source& s, pbt::Ctx& c, int maxDeg, int maxExtra)
{
    NurbsSurface a; RefSurf r0 = gen_surface(s, a, 1, maxDeg, maxExtra, 0); note_surface(c, r0);
    bool cu = s.boolean(), cv = s.boolean(); a.set_closed_u(cu); a.set_closed_v(cv);
    RefSurf q = ref_of(a); double tol = tolw(1e-9, r0.w) * (span_of(r0.P) + 1e-300);
    vector<pair<double, double>> uv; for (int i = 0; i < 6; i++) { double u = gen_param(s, q.ku), v = gen_param(s, q.kv); uv.push_back({u, v}); }
    vector<V3> want; for (auto& x : uv) want.push_back(ref_eval(q, x.first, x.second));
    vector<double> k[2] = {a.knots_u(), a.knots_v()}; int deg[2] = {a.degree_u(), a.degree_v()};
    int nops = 1 + (int)s.choice(5), done = 0; bool both[2] = {false, false};
    for (int o = 0; o < nops; o++) {
        int d = (int)s.choice(2); bool el = s.chance(1, 2);
        if (el) {
            bool ok = d == 0 ? a.degree_elevation_u() : a.degree_elevation_v();
            NOTE("degree_elevation_%c() -> %d", "uv"[d], (int)ok);
            CHECK(ok == (deg[d] == 1 || deg[d] == 2), "elevation-result", "returned %d at degree %d", (int)ok, deg[d]);
            if (ok) { k[d] = elevate_knots(k[d]); deg[d]++; done++; both[d] = true; }
        } else {
            double u = gen_param(s, k[d]); bool found = false;
            for (int t = 0; t < 8 && !found; t++) { double v = u; for (double x : k[d]) if (fabs(x - u) < 1e-9) v = x; u = v; if (u > 0 && u < 1 && mult(k[d], u) < deg[d]) found = true; else u = (t + 1.) / 9.3; }
            if (!found) continue;
            if (d == 0) a.insert_knot_u(u); else a.insert_knot_v(u);
            NOTE("insert_knot_%c(%.17g)", "uv"[d], u);
            k[d].insert(upper_bound(k[d].begin(), k[d].end(), u), u); done++; both[d] = true;
        }
        CHECK(a.degree_u() == deg[0] && a.degree_v() == deg[1], "degree", "degrees %d %d expected %d %d", a.degree_u(), a.degree_v(), deg[0], deg[1]);
        same_knots(c, "u", a.knots_u(), k[0]); same_knots(c, "v", a.knots_v(), k[1]);
        CHECK(a.nb_points_u() + deg[0] + 1 == (int)k[0].size() && a.nb_points_v() + deg[1] + 1 == (int)k[1].size(), "point-count", "%dx%d points, %zu %zu knots", a.nb_points_u(), a.nb_points_v(), k[0].size(), k[1].size());
        CHECK(a.points().size() == (size_t)a.nb_points_u() * a.nb_points_v() && a.weights().size() == a.points().size(), "point-count", "%zu points %zu weights", a.points().size(), a.weights().size());
        CHECK(a.is_closed_u() == cu && a.is_closed_v() == cv, "closed-flag", "closed flags changed to %d %d", (int)a.is_closed_u(), (int)a.is_closed_v());
        for (size_t i = 0; i < uv.size(); i++) { Point3 p; a.evaluate(uv[i].first, uv[i].second, p); CHECK(near3(p, want[i], tol), "shape", "point at (%.17g,%.17g) is %s, was %s (tol %g)", uv[i].first, uv[i].second, ps(p).c_str(), ps(p3(want[i])).c_str(), tol); }
    }
    LABEL("refined %s", both[0] && both[1] ? "both" : both[0] ? "u" : both[1] ? "v" : "none");
    c.nontrivial = done > 0 && (r0.nu != r0.nv || r0.pu != r0.pv);
}
PROP(small, 100000, 2000000, 400, "at least one refinement of a surface whose u and v sizes or degrees differ") { run(s, c, 3, 4); }
PROP(large, 20000, 400000, 100, "at least one refinement of a surface whose u and v sizes or degrees differ") { run(s, c, 5, 12); }
