#pragma once
#include "common.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"

// clamped knot vector for n points of degree p, possibly with repeated interior knots (<= maxMult),
// over an arbitrary range [lo,hi]
// six-digit formats cannot tell knots nearer than about 1e-5 of the range apart
inline bool g_tiny_spans = true;
inline vector<double> gen_knots(pbt::Source& s, int n, int p, int maxMult, double& lo, double& hi)
{
    lo = 0; hi = 1;
    int interior = n - p - 1;
    vector<double> in;
    switch (s.choice(5)) {
    case 4: lo = 0; hi = s.pick({1e-3, 1e-7, 1e-12, 1e9}); break;
    case 0: lo = 0; hi = interior + 1; break;
    case 1: lo = 0; hi = 1; break;
    case 2: lo = s.real(-100, 100); hi = lo + s.real(0.5, 200); break;
    default: lo = -1; hi = 1; break;
    }
    int style = (int)s.choice(4); // 3: some spans much shorter than the others
    double tiny = style == 3 && g_tiny_spans ? s.pick({1. / 16384, 1. / 262144, 1. / 4194304}) : 0;
    if (style == 0) for (int i = 1; i <= interior; i++) in.push_back((double)i / (interior + 1));
    else {
        // distinct grid positions k/4096 with multiplicities
        int left = interior; set<int> used;
        while (left > 0) {
            int m = style == 1 ? 1 : 1 + (int)s.choice(min(maxMult, left));
            int g = 1 + (int)s.choice(4095);
            while (used.count(g)) g = 1 + g % 4095;
            used.insert(g);
            if (style == 3) m = 1;
            for (int k = 0; k < m; k++) in.push_back(g / 4096.);
            left -= m;
            if (tiny > 0 && left > 0 && s.boolean()) { in.push_back(g / 4096. + tiny); left--; }
        }
        sort(in.begin(), in.end());
    }
    vector<double> k;
    for (int i = 0; i <= p; i++) k.push_back(lo);
    for (double x : in) k.push_back(lo + (hi - lo) * x);
    for (int i = 0; i <= p; i++) k.push_back(hi);
    return k;
}
inline vector<double> gen_weights(pbt::Source& s, int n)
{
    vector<double> w(n, 1.);
    if (n > 256) { // cheap filling, one draw
        uint64_t x = s.choice(1u << 20); if (x == 0) return w;
        for (auto& d : w) { x = x * 6364136223846793005ull + 1442695040888963407ull; d = 0.25 + 4. * (x >> 40) / 16777216.; }
        return w;
    }
    switch (s.choice(5)) {
    case 0: break;
    case 4: { double f = s.pick({1e-7, 1e-3, 1e6}); bool eq = s.chance(1, 4); for (auto& x : w) x = f * (eq ? 1. : s.uniform(0.1, 10.)); break; } // only the ratios matter
    case 1: for (auto& x : w) x = s.pick({1., 0.5, 2., 0.70710678118654752, 3., 0.1}); break;
    case 2: for (auto& x : w) x = s.uniform(0.1, 10.); break;
    default: for (auto& x : w) x = pow(10., s.uniform(-3, 3)); break;
    }
    return w;
}
inline double gen_scale(pbt::Source& s) { return s.pick({1., 10., 1000., 1e6, 1e-4}); }
inline vector<Point3> gen_points(pbt::Source& s, int n, double r)
{
    vector<Point3> v; 
    if (n > 256) { // cheap filling, one draw
        uint64_t x = s.choice(1u << 20); auto next = [&] { x = x * 6364136223846793005ull + 1442695040888963407ull; return ((x >> 40) / 8388608. - 1.) * r; };
        for (int i = 0; i < n; i++) { double a = next(), b = next(), c = next(); v.push_back(Point3(a, b, c)); }
        return v;
    }
    bool dup = s.chance(1, 4);
    for (int i = 0; i < n; i++) { if (dup && i && s.chance(1, 4)) v.push_back(v[s.choice(i)]); else v.push_back(gen_point(s, 1.) * r); }
    return v;
}
// parameter in [0,1]: interior, at or next to a knot, ends
inline double gen_param(pbt::Source& s, const vector<double>& knots)
{
    switch (s.choice(7)) {
    case 0: return 0.;
    case 1: return 1.;
    case 6: { if (knots.size() < 2) return 0.5; size_t i = s.choice(knots.size() - 1); double a = knots[i], b = knots[i + 1]; return min(1., max(0., a + (b - a) * s.pick({0.5, 0.25, 0.9}))); }
    case 2: return s.choice(65) / 64.;
    case 3: return knots.empty() ? 0.5 : knots[s.choice(knots.size())];
    case 4: { double k = knots.empty() ? 0.5 : knots[s.choice(knots.size())]; double d = s.pick({1e-3, -1e-3, 1e-6, -1e-6}); return min(1., max(0., k + d)); }
    default: return s.unit_closed();
    }
}
struct RefCurve { int p; vector<double> k, w; vector<Point3> P; };
inline RefCurve ref_of(const NurbsCurve& c) { return RefCurve{c.degree(), c.knots(), c.weights(), c.points()}; }
// B-spline basis by the textbook (Cox - de Boor) recursion on half-open spans; the last nonempty span is closed
inline void ref_basis(const vector<double>& k, int p, int n, ld u, vector<ld>& N)
{
    int m = (int)k.size();
    vector<ld> a(m - 1, 0.L);
    int last = -1; for (int i = 0; i + 1 < m; i++) if (k[i] < k[i + 1]) last = i;
    for (int i = 0; i + 1 < m; i++) a[i] = (k[i] < k[i + 1]) && ((u >= k[i] && u < k[i + 1]) || (i == last && u == k[i + 1])) ? 1 : 0;
    for (int q = 1; q <= p; q++)
        for (int i = 0; i + q + 1 < m; i++) {
            ld l = 0, r = 0;
            if (a[i] != 0 && k[i + q] > k[i]) l = (u - k[i]) / ((ld)k[i + q] - k[i]) * a[i];
            if (a[i + 1] != 0 && k[i + q + 1] > k[i + 1]) r = ((ld)k[i + q + 1] - u) / ((ld)k[i + q + 1] - k[i + 1]) * a[i + 1];
            a[i] = l + r;
        }
    N.assign(a.begin(), a.begin() + n);
}
inline V3 ref_eval(const RefCurve& c, ld u)
{
    vector<ld> N; ref_basis(c.k, c.p, (int)c.P.size(), u, N);
    V3 r{0, 0, 0}; ld w = 0;
    for (size_t i = 0; i < c.P.size(); i++) { ld x = N[i] * c.w[i]; r = r + v3(c.P[i]) * x; w += x; }
    return r * (1 / w);
}
struct RefSurf { int pu, pv, nu, nv; vector<double> ku, kv, w; vector<Point3> P; };
inline RefSurf ref_of(const NurbsSurface& s) { return RefSurf{s.degree_u(), s.degree_v(), s.nb_points_u(), s.nb_points_v(), s.knots_u(), s.knots_v(), s.weights(), s.points()}; }
inline V3 ref_eval(const RefSurf& c, ld u, ld v)
{
    vector<ld> A, B; ref_basis(c.ku, c.pu, c.nu, u, A); ref_basis(c.kv, c.pv, c.nv, v, B);
    V3 r{0, 0, 0}; ld w = 0;
    for (int j = 0; j < c.nv; j++) for (int i = 0; i < c.nu; i++) { ld x = A[i] * B[j] * c.w[i + c.nu * j]; if (x == 0) continue; r = r + v3(c.P[i + c.nu * j]) * x; w += x; }
    return r * (1 / w);
}
inline double span_of(const vector<Point3>& P) { double m = 0; for (auto& p : P) m = max(m, maxabs(p)); return m; }
// a weight far below its neighbours leaves room for the rounding of theirs
inline double tolw(double base, const vector<double>& w) { double lo = INFINITY, hi = 0; for (double x : w) { lo = min(lo, fabs(x)); hi = max(hi, fabs(x)); } return hi > 0 && lo > 0 ? max(base, 3e-14 * hi / lo) : base; }

inline int g_huge = 1500; // how many control points at most, once in a while
inline RefCurve gen_curve(pbt::Source& s, NurbsCurve& c, int minDeg, int maxDeg, int maxExtra, int maxMultDelta /* added to degree */)
{
    bool big = s.chance(1, 48); if (big && maxDeg >= 5) maxDeg += 6; // now and then far more points and higher degrees than usual
    bool huge = big && maxExtra >= 8 && s.chance(1, 16); if (huge && maxDeg >= 11) maxDeg += 6;
    int p = s.irange(minDeg, maxDeg); int n = p + 1 + (huge ? s.irange(0, g_huge) : big ? s.irange(0, 9 * maxExtra + 20) : s.sized(0, maxExtra));
    double lo, hi; vector<double> k = gen_knots(s, n, p, max(1, p + maxMultDelta), lo, hi);
    vector<double> w = gen_weights(s, n); vector<Point3> P = gen_points(s, n, gen_scale(s));
    // the setters may be called in any order once the degree and points are known
    if (s.boolean()) { c.set_degree(p); c.set_knots(k); c.set_weights(w); c.set_points(P); }
    else { c.set_points(P); c.set_weights(w); c.set_degree(p); c.set_knots(k); }
    RefCurve r{p, k, w, P}; for (auto& x : r.k) x = (x - lo) / (hi - lo);
    return r;
}
inline RefSurf gen_surface(pbt::Source& s, NurbsSurface& c, int minDeg, int maxDeg, int maxExtra, int maxMultDelta)
{
    int big = s.chance(1, 48) ? s.irange(1, 2) : 0; if (big && maxDeg >= 4) maxDeg += 5;
    int pu = s.irange(minDeg, maxDeg), pv = s.irange(minDeg, maxDeg); int nu = pu + 1 + (big == 1 ? s.irange(0, 8 * maxExtra + 16) : s.sized(0, maxExtra)), nv = pv + 1 + (big == 2 ? s.irange(0, 8 * maxExtra + 16) : s.sized(0, maxExtra));
    if (big && maxExtra >= 4 && s.chance(1, 8)) { int k = s.irange(0, 400), q = s.irange(0, 2); nu = pu + 1 + (big == 1 ? k : q); nv = pv + 1 + (big == 2 ? k : q); }
    double lo, hi, lo2, hi2; vector<double> ku = gen_knots(s, nu, pu, max(1, pu + maxMultDelta), lo, hi), kv = gen_knots(s, nv, pv, max(1, pv + maxMultDelta), lo2, hi2);
    vector<double> w = gen_weights(s, nu * nv); vector<Point3> P = gen_points(s, nu * nv, gen_scale(s));
    if (s.boolean()) { c.set_degree(pu, pv); c.set_knots_u(ku); c.set_knots_v(kv); c.set_weights(w); c.set_points(P, nu, nv); }
    else { c.set_points(P, nu, nv); c.set_weights(w); c.set_knots_v(kv); c.set_knots_u(ku); c.set_degree(pu, pv); }
    RefSurf r{pu, pv, nu, nv, ku, kv, w, P}; for (auto& x : r.ku) x = (x - lo) / (hi - lo); for (auto& x : r.kv) x = (x - lo2) / (hi2 - lo2);
    return r;
}
inline void note_curve(pbt::Ctx& c, const RefCurve& r)
{
    if (!c.verbose) return;
    string t = pbt::fmt("curve degree %d, %zu points; knots", r.p, r.P.size()); for (double x : r.k) t += pbt::fmt(" %.6g", x);
    t += "; weights"; for (double x : r.w) t += pbt::fmt(" %.6g", x);
    t += "; points"; for (auto& p : r.P) t += pbt::fmt(" (%.6g,%.6g,%.6g)", p.x(), p.y(), p.z());
    c.notes.push_back(t);
}
inline void note_surface(pbt::Ctx& c, const RefSurf& r)
{
    if (!c.verbose) return;
    string t = pbt::fmt("surface degree %dx%d, %dx%d points; knots u", r.pu, r.pv, r.nu, r.nv); for (double x : r.ku) t += pbt::fmt(" %.6g", x);
    t += "; v"; for (double x : r.kv) t += pbt::fmt(" %.6g", x);
    t += "; weights"; for (size_t i = 0; i < r.w.size() && i < 40; i++) t += pbt::fmt(" %.6g", r.w[i]);
    t += "; points"; for (size_t i = 0; i < r.P.size() && i < 40; i++) t += pbt::fmt(" (%.6g,%.6g,%.6g)", r.P[i].x(), r.P[i].y(), r.P[i].z());
    c.notes.push_back(t);
}
