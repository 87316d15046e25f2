// C18: segments, triangles and planes, against exact arithmetic (integer coordinates are exact in
// long double) with three-valued answers: yes, no, or too near a tie to say.
#include "common.hpp"
#include "transform_common.hpp"
enum Ans { NO = 0, YES = 1, TIE = 2 };
static const char* ans_s(Ans a) { return a == YES ? "yes" : a == NO ? "no" : "tie"; }
static int sg(ld x, ld scale) { return fabsl(x) <= 1e-9L * scale ? 0 : x > 0 ? 1 : -1; }
static ld det(V3 a, V3 b, V3 d) { return dot(a, cross(b, d)); }
// a configuration: integer points, then possibly scaled by a power of two or moved rigidly
struct Frame { double k; bool rot; Point3 axis; double deg; Point3 d; string w; };
static Frame gen_frame(pbt::Source& s)
{
    Frame f; f.k = 1; f.rot = false;
    switch (s.choice(5)) {
    case 0: break;
    case 4: f.k = 1 + s.pick({1., -1.}) * pow(10., s.uniform(-7, -2)); f.w = pbt::fmt(" scaled by %.17g", f.k); break; // nearly unit sizes
    case 1: f.k = ldexp(1., s.irange(-28, 16)); f.w = pbt::fmt(" scaled by %g", f.k); break;
    case 2: f.rot = true; f.axis = gen_axis(s); f.deg = gen_angle(s); f.d = gen_point(s, 10.); f.w = " moved"; break;
    default: f.d = Point3(s.irange(-100, 100), s.irange(-100, 100), s.irange(-100, 100)); f.w = " shifted"; break;
    }
    return f;
}
static Point3 put(Frame& f, Point3 p) { if (f.rot) p = p3(rodrigues(v3(p), v3(f.axis), f.deg)); return (p + f.d) * f.k; }
static Point3 ipoint(pbt::Source& s, int r) { int x = s.irange(-r, r), y = s.irange(-r, r), z = s.irange(-r, r); return Point3(x, y, z); }
static double spread(initializer_list<Point3> l) { double m = 0; for (auto& a : l) for (auto& b : l) m = max(m, dist(a, b)); return m; }
// ---- oracles
struct SegAns { Ans a; V3 x; };
static SegAns seg_seg(Point3 A, Point3 B, Point3 C, Point3 D)
{
    V3 a = v3(A), u = v3(B) - a, c = v3(C), w = v3(D) - c, n = cross(u, w); ld nn = dot(n, n); SegAns r{TIE, a};
    if (nn <= 1e-8L * dot(u, u) * dot(w, w)) return r; // parallel or degenerate
    ld s = dot(cross(c - a, w), n) / nn, t = dot(cross(c - a, u), n) / nn; r.x = a + u * s;
    int in1 = sg(s, 1) * sg(1 - s, 1), in2 = sg(t, 1) * sg(1 - t, 1);
    r.a = in1 < 0 || in2 < 0 ? NO : in1 == 0 || in2 == 0 ? TIE : YES; return r;
}
static Ans tri_contains(Point3 A, Point3 B, Point3 C, Point3 P, bool& beyond)
{
    V3 a = v3(A), b = v3(B), d = v3(C), p = v3(P), n = cross(b - a, d - a); ld nn = dot(n, n); beyond = false;
    if (nn <= 1e-8L * (dot(b - a, b - a) * dot(d - a, d - a))) return TIE;
    ld x = dot(n, cross(b - a, p - a)) / nn, y = dot(n, cross(d - b, p - b)) / nn, z = dot(n, cross(a - d, p - d)) / nn; ld sc = 1 + fabsl(x) + fabsl(y) + fabsl(z);
    int i = sg(x, sc), j = sg(y, sc), k = sg(z, sc); int neg = (i < 0) + (j < 0) + (k < 0), zero = (i == 0) + (j == 0) + (k == 0);
    beyond = neg > 0 && zero > 0; return neg ? NO : zero ? TIE : YES;
}
struct PS { Ans a; V3 x; int s1, s2; };
static PS plane_seg(Point3 A, Point3 B, Point3 C, Point3 P, Point3 Q)
{
    V3 a = v3(A), n = cross(v3(B) - a, v3(C) - a), p = v3(P), q = v3(Q); PS r{TIE, p, 0, 0}; if (dot(n, n) <= 1e-8L * dot(v3(B) - a, v3(B) - a) * dot(v3(C) - a, v3(C) - a)) return r;
    n = n * (1 / len(n)); ld x = dot(n, p - a), y = dot(n, q - a), sc = len(p - a) + len(q - a) + 1e-3L * (len(v3(B) - a) + len(a));
    r.s1 = sg(x, sc); r.s2 = sg(y, sc); if (r.s1 * r.s2 < 0) { r.a = YES; r.x = p + (q - p) * (x / (x - y)); } else if (r.s1 * r.s2 > 0) r.a = NO;
    return r; // one end on the plane: tie
}
static Ans tri_seg(Point3 A, Point3 B, Point3 C, Point3 P, Point3 Q, V3& x)
{
    PS r = plane_seg(A, B, C, P, Q); x = r.x; if (r.a == NO) return NO; if (r.a == YES) { bool b; return tri_contains(A, B, C, p3(r.x), b); }
    if ((r.s1 == 0) != (r.s2 == 0)) { bool b; return tri_contains(A, B, C, r.s1 == 0 ? P : Q, b) == NO ? NO : TIE; }
    return TIE;
}
static bool deg3(Point3 A, Point3 B, Point3 C) { V3 u = v3(B) - v3(A), w = v3(C) - v3(A); V3 n = cross(u, w), e = v3(C) - v3(B); ld m = max(dot(u, u), max(dot(w, w), dot(e, e))); return dot(n, n) <= 1e-7L * m * m; }
// points of a common plane, given by integer coordinates in an integer basis
struct Flat { Point3 o, u, w; };
static bool gen_flat(pbt::Source& s, Flat& f) { f.o = ipoint(s, 5); f.u = ipoint(s, 3); f.w = ipoint(s, 3); return len(cross(v3(f.u), v3(f.w))) > 0.5L; }
static Point3 at(Flat& f, int x, int y) { return f.o + f.u * x + f.w * y; }

// a triangle built at once, or corner by corner in an object that held another one
static Triangle3 mk(pbt::Source& s, const Point3& a, const Point3& b, const Point3& c) { int k = (int)s.choice(4); if (k < 2) return Triangle3(a, b, c); Triangle3 t; if (k == 3) t = Triangle3(c, a, b); int o = (int)s.choice(3); for (int i = 0; i < 3; i++) switch ((i + o) % 3) { case 0: t.set_p1(a); break; case 1: t.set_p2(b); break; default: t.set_p3(c); } return t; }
PROP(segments, 300000, 6000000, 2000, "segments that cross, or miss while their lines cross inside one of them")
{
    Flat f; if (!gen_flat(s, f)) return; Frame fr = gen_frame(s); Point3 P[4]; int r = s.pick({3, 8}); for (auto& p : P) { int x = s.irange(-r, r), y = s.irange(-r, r); p = put(fr, at(f, x, y)); }
    NOTE("%s%s to %s, %s to %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str());
    SegAns e = seg_seg(P[0], P[1], P[2], P[3]); double sz = spread({P[0], P[1], P[2], P[3]}) + maxabs(P[0]); LABEL("%s", ans_s(e.a));
    Segment3 a(P[0], P[1]), b(P[2], P[3]); Point3 x(9e9, 9e9, 9e9); bool got = a.intersect(b, x);
    CHECK(nearv(a.norm(), dist(P[0], P[1]), 1e-12 * sz) && nearv(a.norm_square(), dist(P[0], P[1]) * dist(P[0], P[1]), 1e-12 * sz * sz), "length", "length %g", a.norm());
    if (e.a == TIE) return;
    CHECK(got == (e.a == YES), "answer", "intersect says %d, exact answer %s", (int)got, ans_s(e.a));
    if (got) CHECK(near3(x, e.x, 1e-7 * sz), "point", "intersection %s instead of %s", ps(x).c_str(), ps(p3(e.x)).c_str());
    Segment3 a2(P[1], P[0]), b2(P[3], P[2]); Point3 y; CHECK(b2.intersect(a2, y) == got, "symmetric", "turned round and swapped: %d", (int)!got); if (got) CHECK(near3(x, y, 1e-7 * sz), "symmetric", "other point %s", ps(y).c_str());
    Segment3 m; m.set_p1(P[0]); m.set_p2(P[1]); Point3 z; CHECK(m.intersect(b, z) == got && same_bits(m.p1(), P[0]) && same_bits(m.p2(), P[1]), "setters", "segment from setters differs");
    c.nontrivial = true;
}
PROP(contains, 300000, 6000000, 2000, "point inside, or outside next to the triangle")
{
    Flat f; if (!gen_flat(s, f)) return; Frame fr = gen_frame(s); Point3 P[4]; int r = s.pick({3, 8}); for (auto& p : P) { int x = s.irange(-r, r), y = s.irange(-r, r); p = put(fr, at(f, x, y)); }
    if (s.chance(1, 4)) { // on the line of an edge
        int i = (int)s.choice(3); double t = s.irange(-4, 8) * 0.25; P[3] = P[i] + (P[(i + 1) % 3] - P[i]) * t; }
    NOTE("%s%s %s %s, point %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str()); if (deg3(P[0], P[1], P[2])) return;
    bool beyond; Ans e = tri_contains(P[0], P[1], P[2], P[3], beyond); LABEL("%s%s", ans_s(e), beyond ? " beyond an edge" : ""); Triangle3 t = mk(s, P[0], P[1], P[2]);
    if (e == TIE) return; CHECK(t.contains(P[3]) == (e == YES), "answer", "contains says %d, exact answer %s", (int)t.contains(P[3]), ans_s(e));
    Triangle3 t2(P[2], P[1], P[0]); CHECK(t2.contains(P[3]) == (e == YES), "symmetric", "turned over: %d", (int)t2.contains(P[3]));
    c.nontrivial = true;
}
PROP(planes, 300000, 6000000, 2000, "the plane is not degenerate and the segment or triangle has no corner on it")
{
    Frame fr = gen_frame(s); Point3 P[6]; int r = s.pick({2, 6, 20}); for (auto& p : P) p = put(fr, ipoint(s, r)); NOTE("%splane %s %s %s, %s %s %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str(), ps(P[5]).c_str());
    if (deg3(P[0], P[1], P[2])) return; double sz = spread({P[0], P[1], P[2], P[3], P[4], P[5]}) + maxabs(P[0]);
    V3 o = v3(P[0]), n = cross(v3(P[1]) - o, v3(P[2]) - o); ld area = len(n) / 2; n = n * (1 / len(n)); Triangle3 T = mk(s, P[0], P[1], P[2]); double tol = 1e-9 * sz;
    CHECK(near3(T.normal(), n, 1e-9), "tri-normal", "triangle normal %s", ps(T.normal()).c_str()); CHECK(nearv(T.surface(), (double)area, 1e-9 * sz * sz), "tri-area", "area %g instead of %Lg", T.surface(), area); CHECK(near3(T.orthogonal(), n * (2 * area), 1e-9 * sz * sz), "tri-orthogonal", "orthogonal %s", ps(T.orthogonal()).c_str());
    Plane3 pl; switch (s.choice(4)) { case 0: pl = Plane3(P[0], P[1], P[2]); break; case 1: pl = Plane3(T); break; case 2: pl.compute_using(P[0], P[1], P[2]); break; default: pl = Plane3(P[3], P[3] + Point3(1, 0, 0), P[3] + Point3(0, 1, 0)); pl.compute_using(T); }
    CHECK(near3(pl.normal(), n, 1e-9), "normal", "plane normal %s instead of %s", ps(pl.normal()).c_str(), ps(p3(n)).c_str()); double pa, pb, pc, pd; pl.get(pa, pb, pc, pd); CHECK(near3(Point3(pa, pb, pc), n, 1e-9) && nearv(pd, (double)-dot(n, o), tol), "coefficients", "%g %g %g %g", pa, pb, pc, pd);
    for (int i = 0; i < 6; i++) {
        ld d = dot(n, v3(P[i]) - o); CHECK(nearv(pl.distance_to(P[i]), (double)d, tol), "distance", "distance of %s is %.17g instead of %.17Lg", ps(P[i]).c_str(), pl.distance_to(P[i]), d);
        Point3 q; pl.project_point(P[i], q); CHECK(near3(q, v3(P[i]) - n * d, tol), "projection", "projection of %s is %s", ps(P[i]).c_str(), ps(q).c_str());
    }
    PS e = plane_seg(P[0], P[1], P[2], P[3], P[4]); Point3 x; bool got = pl.intersect_with(Segment3(P[3], P[4]), x); LABEL("segment %s", ans_s(e.a));
    if (e.a != TIE) { CHECK(got == (e.a == YES), "segment", "plane and segment: %d, exact answer %s", (int)got, ans_s(e.a)); c.nontrivial = true; }
    if (e.a == YES) { CHECK(near3(x, e.x, 1e-7 * sz), "segment-point", "%s instead of %s", ps(x).c_str(), ps(p3(e.x)).c_str()); }
    int pos = 0, neg = 0, zero = 0; for (int i = 3; i < 6; i++) { int g = sg(dot(n, v3(P[i]) - o), sz); (g > 0 ? pos : g < 0 ? neg : zero)++; }
    bool cut = mk(s, P[3], P[4], P[5]).cutted_by(pl); if (pos && neg) CHECK(cut, "cut", "triangle with corners on both sides is not cut"); else if (!zero) { CHECK(!cut, "cut", "triangle on one side is cut"); }
}
PROP(triangle_segment, 240000, 4800000, 2000, "the segment crosses the triangle, or its plane outside it")
{
    Frame fr = gen_frame(s); Point3 P[5]; int r = s.pick({2, 6, 20}); for (auto& p : P) p = put(fr, ipoint(s, r)); if (deg3(P[0], P[1], P[2])) return; NOTE("%s%s %s %s, %s to %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str());
    if (s.boolean()) { double x = s.irange(1, 8), y = s.irange(1, 8), z = s.irange(1, 8); Point3 g = (P[0] * x + P[1] * y + P[2] * z) / (x + y + z); P[4] = P[3] + (g - P[3]) * s.pick({2., 1.25, 0.75}); }
    V3 x; Ans e = tri_seg(P[0], P[1], P[2], P[3], P[4], x); LABEL("%s", ans_s(e)); if (e == TIE) return; Point3 g; bool got = mk(s, P[0], P[1], P[2]).intersect_with(Segment3(P[3], P[4]), g); double sz = spread({P[0], P[1], P[2], P[3], P[4]}) + maxabs(P[0]);
    CHECK(got == (e == YES), "answer", "triangle %s %s %s and segment %s %s: %d, exact answer %s", ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str(), (int)got, ans_s(e)); if (got) CHECK(near3(g, x, 1e-7 * sz), "point", "%s instead of %s", ps(g).c_str(), ps(p3(x)).c_str());
    c.nontrivial = e == YES || plane_seg(P[0], P[1], P[2], P[3], P[4]).a == YES;
}
PROP(triangles, 240000, 4800000, 2000, "bounding boxes overlap and the answer is certain")
{
    Frame fr = gen_frame(s); Point3 P[6]; int r = s.pick({2, 4, 20}); for (auto& p : P) p = put(fr, ipoint(s, r)); if (deg3(P[0], P[1], P[2]) || deg3(P[3], P[4], P[5])) return; NOTE("%s%s %s %s and %s %s %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str(), ps(P[5]).c_str());
    bool yes = false, tie = false; V3 x; int E[3][2] = {{0, 1}, {1, 2}, {2, 0}}; for (auto& e : E) { Ans a = tri_seg(P[0], P[1], P[2], P[3 + e[0]], P[3 + e[1]], x); yes |= a == YES; tie |= a == TIE; a = tri_seg(P[3], P[4], P[5], P[e[0]], P[e[1]], x); yes |= a == YES; tie |= a == TIE; }
    bool apart = false; for (int k = 0; k < 3; k++) { double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (int i = 0; i < 6; i++) { double q = k == 0 ? P[i].x() : k == 1 ? P[i].y() : P[i].z(); lo[i / 3] = min(lo[i / 3], q); hi[i / 3] = max(hi[i / 3], q); } if (hi[0] < lo[1] || hi[1] < lo[0]) apart = true; }
    LABEL("%s%s", yes ? "yes" : apart ? "no: boxes apart" : tie ? "tie" : "no", yes && tie ? " with ties" : ""); Triangle3 A = mk(s, P[0], P[1], P[2]), B = mk(s, P[3], P[4], P[5]);
    if (!yes && tie && !apart) return; bool e = yes && !apart; CHECK(A.intersect_with(B) == e, "answer", "triangles %s, exact answer %d", A.intersect_with(B) ? "intersect" : "do not intersect", (int)e); CHECK(B.intersect_with(A) == e, "symmetric", "swapped: %d", (int)!e);
    Triangle3 D(P[4], P[3], P[5]); CHECK(A.intersect_with(D) == e, "corner-order", "turned over: %d", (int)!e); c.nontrivial = !apart;
}
PROP(plane_plane, 180000, 3600000, 2000, "planes that are not parallel")
{
    Frame fr = gen_frame(s); Point3 P[6]; int r = s.pick({2, 6, 20}); for (auto& p : P) p = put(fr, ipoint(s, r)); if (s.chance(1, 8)) for (int i = 0; i < 3; i++) P[3 + i] = P[i] + (P[4] - P[0]);
    else if (s.chance(1, 4)) { double e = pow(10., s.uniform(-5, -1)); for (int i = 0; i < 3; i++) P[3 + i] = P[i] + (P[3 + i] - P[i]) * e; } // nearly the same plane
    if (deg3(P[0], P[1], P[2]) || deg3(P[3], P[4], P[5])) return;
    NOTE("%s%s %s %s and %s %s %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str(), ps(P[5]).c_str()); Plane3 A(P[0], P[1], P[2]), B(P[3], P[4], P[5]); V3 n = cross(v3(P[1]) - v3(P[0]), v3(P[2]) - v3(P[0])), m = cross(v3(P[4]) - v3(P[3]), v3(P[5]) - v3(P[3])); n = n * (1 / len(n)); m = m * (1 / len(m));
    ld sn = len(cross(n, m)); Line3 l; bool got = A.intersect_with(B, l); if (sn < 1e-12L) { LABEL("parallel"); CHECK(!got, "parallel", "parallel planes meet"); return; } if (sn < 1e-6L) return;
    CHECK(got, "crossing", "planes with an angle of sine %Lg do not meet", sn); ld sz = spread({P[0], P[1], P[2], P[3], P[4], P[5]}) + maxabs(P[0]); Point3 q[3] = {l.p1(), l.p2(), l.p1() + (l.p2() - l.p1()) * s.uniform(-3, 3)}; ld tol = 1e-8L * (sz / sn + 10) + 1e-13L * sz / (sn * sn);
    V3 d = v3(l.p2()) - v3(l.p1()); CHECK(len(d) > 1e-9L, "line", "both points of the line are %s", ps(l.p1()).c_str());
    for (auto& p : q) { ld x = dot(n, v3(p) - v3(P[0])), y = dot(m, v3(p) - v3(P[3])); CHECK(fabsl(x) <= tol && fabsl(y) <= tol, "on-both", "point %s of the line is at %Lg and %Lg from the planes (sine %Lg)", ps(p).c_str(), x, y, sn); }
    c.nontrivial = true;
}
// real coordinates, thin triangles, and answers that hang on a small distance (but far more than rounding)
static double near01(pbt::Source& s) { double d = pow(10., s.uniform(-7, -1.5)); switch (s.choice(6)) { case 0: return d; case 1: return -d; case 2: return 1 - d; case 3: return 1 + d; case 4: return s.uniform(-0.5, 1.5); default: return s.uniform(0, 1); } }
static void thin(pbt::Source& s, Point3 P[3])
{
    P[0] = gen_point(s, 5.); Point3 u = gen_axis(s), w = gen_axis(s); u.normalize(); w = w - u * u.dot_product(w); if (w.norm() < 0.05) w = u.cross_product(fabs(u.x()) < 0.6 ? Point3(1, 0, 0) : Point3(0, 1, 0)); w.normalize(); double L = s.uniform(0.5, 10), h = L * pow(10., s.uniform(-2.5, 0.3)), m = s.uniform(-0.3, 1.3); P[1] = P[0] + u * L; P[2] = P[0] + u * (L * m) + w * h;
    int k = (int)s.choice(3); for (int i = 0; i < k; i++) { Point3 t = P[0]; P[0] = P[1]; P[1] = P[2]; P[2] = t; } if (s.boolean()) { Point3 t = P[0]; P[0] = P[1]; P[1] = t; }
}
PROP(near_ties, 300000, 6000000, 2000, "the answer is certain")
{
    Frame fr = gen_frame(s); Point3 T[3]; thin(s, T); Point3 n = Triangle3(T[0], T[1], T[2]).normal(); int kind = (int)s.choice(4);
    if (kind == 0) { // segments through a common point, or just short of it
        Point3 X = T[0], u = T[1] - T[0], w = T[2] - T[0]; u = u * (s.uniform(0.2, 3) / u.norm()); w = w * (s.uniform(0.2, 3) / w.norm()); if (len(cross(v3(u), v3(w))) < 0.02L * len(v3(u)) * len(v3(w))) return; double a = near01(s), b = near01(s); Point3 P[4] = {X - u * a, X + u * (1 - a), X - w * b, X + w * (1 - b)}; for (auto& p : P) p = put(fr, p);
        NOTE("%s%s to %s, %s to %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str()); SegAns e = seg_seg(P[0], P[1], P[2], P[3]); if (e.a == TIE) return; LABEL("segments %s", ans_s(e.a)); Point3 x; bool got = Segment3(P[0], P[1]).intersect(Segment3(P[2], P[3]), x), back = Segment3(P[2], P[3]).intersect(Segment3(P[1], P[0]), x); CHECK(got == (e.a == YES), "segments", "intersect says %d, exact answer %s (at %g and %g)", (int)got, ans_s(e.a), a, b); CHECK(back == got, "segments-swapped", "swapped: %d", (int)back); c.nontrivial = true; return;
    }
    // a point of the plane by its two coordinates along the edges
    double a = near01(s), b = s.boolean() ? near01(s) : 1 - a + s.pick({1., -1.}) * pow(10., s.uniform(-7, -1)); Point3 g = T[0] + (T[1] - T[0]) * a + (T[2] - T[0]) * b; if (fabs(a) > 2 || fabs(b) > 2) return;
    if (kind == 1) { Point3 P[4] = {put(fr, T[0]), put(fr, T[1]), put(fr, T[2]), put(fr, g)}; NOTE("%s%s %s %s, point %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str()); if (deg3(P[0], P[1], P[2])) return; bool beyond; Ans e = tri_contains(P[0], P[1], P[2], P[3], beyond); if (e == TIE) return; LABEL("contains %s", ans_s(e)); bool got = Triangle3(P[0], P[1], P[2]).contains(P[3]); CHECK(got == (e == YES), "contains", "contains says %d, exact answer %s (at %g and %g)", (int)got, ans_s(e), a, b); c.nontrivial = true; return; }
    if (kind == 2) { // a segment through that point, or ending just before it
        Point3 d = gen_axis(s); d.normalize(); if (fabs(d.dot_product(n)) < 0.1) d = n; double t = near01(s); d = d * s.uniform(0.5, 5); Point3 P[5] = {T[0], T[1], T[2], g - d * t, g + d * (1 - t)}; for (auto& p : P) p = put(fr, p); NOTE("%s%s %s %s, %s to %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str()); if (deg3(P[0], P[1], P[2])) return;
        V3 x; Ans e = tri_seg(P[0], P[1], P[2], P[3], P[4], x); PS pe = plane_seg(P[0], P[1], P[2], P[3], P[4]); Point3 y; Plane3 pl(P[0], P[1], P[2]); bool got = pl.intersect_with(Segment3(P[3], P[4]), y); if (pe.a != TIE) { CHECK(got == (pe.a == YES), "plane-segment", "%d, exact answer %s (at %g)", (int)got, ans_s(pe.a), t); c.nontrivial = true; } if (e == TIE) return; LABEL("triangle and segment %s", ans_s(e)); got = Triangle3(P[0], P[1], P[2]).intersect_with(Segment3(P[4], P[3]), y); CHECK(got == (e == YES), "triangle-segment", "%d, exact answer %s (at %g and %g, %g)", (int)got, ans_s(e), a, b, t); if (got) CHECK(near3(y, x, 1e-7 * (spread({P[0], P[1], P[2], P[3], P[4]}) + maxabs(P[0]))), "triangle-segment-point", "%s", ps(y).c_str()); return; }
    // a second triangle whose corner just passes, or just misses, the first
    Point3 U[3]; thin(s, U); Point3 m = n * (s.boolean() ? 1. : -1.); double h = s.pick({1., -1.}) * pow(10., s.uniform(-6, 0)); Point3 P[6] = {T[0], T[1], T[2], g - m * h, g + m * s.uniform(0.5, 3) + (U[1] - U[0]) * 0.3, g + m * s.uniform(0.5, 3) + (U[2] - U[0]) * 0.3}; for (auto& p : P) p = put(fr, p); NOTE("%s%s %s %s and %s %s %s", fr.w.c_str(), ps(P[0]).c_str(), ps(P[1]).c_str(), ps(P[2]).c_str(), ps(P[3]).c_str(), ps(P[4]).c_str(), ps(P[5]).c_str()); if (deg3(P[0], P[1], P[2]) || deg3(P[3], P[4], P[5])) return;
    bool yes = false, tie = false; V3 x; int E[3][2] = {{0, 1}, {1, 2}, {2, 0}}; for (auto& e : E) { Ans q = tri_seg(P[0], P[1], P[2], P[3 + e[0]], P[3 + e[1]], x); yes |= q == YES; tie |= q == TIE; q = tri_seg(P[3], P[4], P[5], P[e[0]], P[e[1]], x); yes |= q == YES; tie |= q == TIE; } if (!yes && tie) return; LABEL("triangles %s", yes ? "yes" : "no"); Triangle3 A(P[0], P[1], P[2]), B(P[3], P[4], P[5]); CHECK(A.intersect_with(B) == yes, "triangles", "%d, exact answer %d (corner %g deep at %g and %g)", (int)!yes, (int)yes, h, a, b); CHECK(B.intersect_with(A) == yes, "triangles-swapped", "%d", (int)!yes);
    int pos = 0, neg = 0, zero = 0; V3 o = v3(P[0]), nn = cross(v3(P[1]) - o, v3(P[2]) - o); nn = nn * (1 / len(nn)); double sz = spread({P[0], P[1], P[2], P[3], P[4], P[5]}) + maxabs(P[0]); for (int i = 3; i < 6; i++) { int q = sg(dot(nn, v3(P[i]) - o), sz); (q > 0 ? pos : q < 0 ? neg : zero)++; } if (!zero) CHECK(B.cutted_by(Plane3(A)) == (pos && neg), "cut", "cut by the plane: %d", (int)!(pos && neg)); c.nontrivial = true;
}
