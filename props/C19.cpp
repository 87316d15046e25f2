// C19: vector algebra, bounding boxes, random axes.
#include "common.hpp"
#include "GeometryUtil.h"
static double mag(pbt::Source& s) { switch (s.choice(6)) { case 0: return 0; case 1: case 2: return s.real(-10, 10); case 3: return s.irange(-1000, 1000); case 4: return s.uniform(-1, 1) * pow(10., s.irange(-12, 12)); default: return s.uniform(-1, 1) * pow(10., s.irange(-90, 90)); } }
static Point3 vec(pbt::Source& s) { double x = mag(s), y = mag(s), z = mag(s); return Point3(x, y, z); }
static bool sane(const Point3& p) { for (double v : {p.x(), p.y(), p.z()}) if (v != 0 && fabs(v) < 1e-100) return false; return true; }
PROP(algebra, 1000000, 20000000, 5000, "both points non-zero in at least two coordinates")
{
    Point3 a = vec(s), b = vec(s); double k = mag(s); if (!sane(a) || !sane(b) || (k != 0 && fabs(k) < 1e-90)) return; NOTE("%s %s %g", ps(a).c_str(), ps(b).c_str(), k); V3 A = v3(a), B = v3(b); ld la = len(A), lb = len(B);
    Point3 a0 = a, b0 = b;
    auto eq = [&](const Point3& p, V3 e, ld sc, const char* what) { CHECK(near3(p, e, (double)(4e-16L * sc)), what, "%s instead of %s", ps(p).c_str(), ps(p3(e)).c_str()); };
    eq(a + b, A + B, la + lb, "add"); eq(a - b, A - B, la + lb, "subtract"); eq(a * k, A * k, la * fabsl(k), "scale"); if (k != 0) eq(a / k, A * (1 / (ld)k), la / fabsl(k), "divide");
    Point3 t = a; t += b; eq(t, A + B, la + lb, "add-in-place"); t = a; t -= b; eq(t, A - B, la + lb, "subtract-in-place"); t = a; t *= k; eq(t, A * k, la * fabsl(k), "scale-in-place"); if (k != 0) { t = a; t /= k; eq(t, A * (1 / (ld)k), la / fabsl(k), "divide-in-place"); }
    t = a; t += t; eq(t, A * 2, 2 * la, "add-self"); t = a; t -= t; eq(t, V3{0, 0, 0}, 0, "subtract-self"); t = a; ((t += b) -= b) *= 2.; eq(t, A * 2, 8 * (la + lb), "chain");
    CHECK(nearv(a.dot_product(b), (double)dot(A, B), (double)(1e-15L * la * lb)), "dot", "%.17g instead of %.17Lg", a.dot_product(b), dot(A, B)); CHECK(nearv(a.dot_product(b), b.dot_product(a), (double)(1e-15L * la * lb)), "dot-symmetric", "dot");
    eq(a.cross_product(b), cross(A, B), la * lb * 2, "cross"); eq(b.cross_product(a), cross(A, B) * -1, la * lb * 2, "cross-antisymmetric");
    Point3 x = a.cross_product(b); CHECK(nearv(x.dot_product(a), 0, (double)(1e-14L * la * la * lb)) && nearv(x.dot_product(b), 0, (double)(1e-14L * la * lb * lb)), "cross-orthogonal", "%s", ps(x).c_str());
    CHECK(nearv(a.norm(), (double)la, (double)(1e-15L * la)), "norm", "%.17g instead of %.17Lg", a.norm(), la); CHECK(nearv(a.norm_square(), (double)(la * la), (double)(2e-15L * la * la)), "norm-square", "%g", a.norm_square());
    ld ds = dot(A - B, A - B); CHECK(nearv(a.distance_square(b), (double)ds, (double)(1e-14L * (la + lb) * (la + lb))), "distance", "%.17g instead of %.17Lg", a.distance_square(b), ds); CHECK(a.distance_square(a) == 0, "distance-self", "distance to itself %g", a.distance_square(a));
    if (la > 0) { eq(a.normalized(), A * (1 / la), 4, "normalized"); t = a; t.normalize(); eq(t, A * (1 / la), 4, "normalize"); }
    CHECK(same_bits(a, a0) && same_bits(b, b0), "inputs", "an operand was changed"); Point3 w; w.x() = a.x(); w.y() = a.y(); w.z() = a.z(); CHECK(same_bits(w, a), "accessors", "%s", ps(w).c_str()); Point3 z; CHECK(z.x() == 0 && z.y() == 0 && z.z() == 0, "origin", "default point %s", ps(z).c_str());
    c.nontrivial = (a.x() != 0) + (a.y() != 0) + (a.z() != 0) >= 2 && (b.x() != 0) + (b.y() != 0) + (b.z() != 0) >= 2;
}
PROP(boxes, 1000000, 20000000, 5000, "both boxes have two or more points")
{
    double k = s.pick({1., 1., 0.001, 1e6, 1e-12}), off = s.pick({0., 0., 0., -50., 7., 1e9, -3e12}); vector<Point3> p[2]; BoundingBox3 b[2]; double lo[2][3], hi[2][3];
    for (int i = 0; i < 2; i++) {
        int n = (int)s.choice(6); bool tri = s.chance(1, 4); if (tri) n = 3; int R = s.irange(1, 6); int ox = s.irange(-4, 4), oy = s.irange(-4, 4), oz = s.irange(-4, 4);
        for (int j = 0; j < n; j++) { int x = s.irange(-R, R), y = s.irange(-R, R), z = s.irange(-R, R); p[i].push_back(Point3((x + ox + off) * k, (y + oy + off) * k, (z + oz + off) * k)); }
        if (tri) b[i] = BoundingBox3(Triangle3(p[i][0], p[i][1], p[i][2])); else for (auto& q : p[i]) b[i].add(q);
        for (int d = 0; d < 3; d++) { lo[i][d] = 1e300; hi[i][d] = -1e300; } for (auto& q : p[i]) { double v[3] = {q.x(), q.y(), q.z()}; for (int d = 0; d < 3; d++) { lo[i][d] = min(lo[i][d], v[d]); hi[i][d] = max(hi[i][d], v[d]); } }
        NOTE("box %d: %zu points, %g..%g %g..%g %g..%g", i, p[i].size(), lo[i][0], hi[i][0], lo[i][1], hi[i][1], lo[i][2], hi[i][2]);
    }
    bool e = !p[0].empty() && !p[1].empty(); for (int d = 0; d < 3; d++) if (hi[0][d] < lo[1][d] || hi[1][d] < lo[0][d]) e = false; LABEL("%s%s", p[0].empty() || p[1].empty() ? "empty " : "", e ? "overlap" : "apart");
    CHECK(b[0].intersect_with(b[1]) == e, "answer", "boxes %s", e ? "overlap but do not intersect" : "are apart but intersect"); CHECK(b[1].intersect_with(b[0]) == e, "symmetric", "swapped: %d", (int)!e);
    CHECK(b[0].intersect_with(b[0]) == !p[0].empty(), "self", "a box and itself");
    // order of points does not matter, a box is as large as its corners
    BoundingBox3 r; for (size_t j = p[0].size(); j-- > 0;) r.add(p[0][j]); CHECK(r.intersect_with(b[1]) == e, "order", "points added in the other order give another box");
    if (!p[0].empty()) for (auto& q : p[0]) { BoundingBox3 one; one.add(q); CHECK(one.intersect_with(b[0]), "contains-points", "the box does not meet its own point %s", ps(q).c_str()); }
    c.nontrivial = p[0].size() >= 2 && p[1].size() >= 2;
}
PROP(axis, 150000, 3000000, 5000, "always: any seed")
{
    int seed = s.boolean() ? s.irange(-1000, 1000) : (int)(int64_t)s.range(-2147483647ll - 1, 2147483647ll); Point3 a(5, 5, 5), b; GeometryUtil::compute_random_axis(a, seed); GeometryUtil::compute_random_axis(b, seed); NOTE("seed %d: %s", seed, ps(a).c_str());
    CHECK(nearv(a.norm(), 1, 1e-14), "unit", "seed %d: length %.17g", seed, a.norm()); CHECK(same_bits(a, b), "same-seed", "seed %d gives %s then %s", seed, ps(a).c_str(), ps(b).c_str()); Point3 d; if (seed == 0) { GeometryUtil::compute_random_axis(d); CHECK(same_bits(a, d), "default-seed", "default seed"); } c.nontrivial = true;
}
PROP(spread, 750, 15000, 10, "always: 2000 seeds")
{
    int start = (int)s.range(-1000000000, 1000000000), step = s.pick({1, 1, 7, 1009, 65537}); const int N = 2000; int oct[8] = {0}; V3 m{0, 0, 0}; ld q[3] = {0, 0, 0}; set<array<double, 3>> u; NOTE("seeds %d + k*%d", start, step);
    for (int i = 0; i < N; i++) { Point3 a; GeometryUtil::compute_random_axis(a, start + i * step); oct[(a.x() > 0) + 2 * (a.y() > 0) + 4 * (a.z() > 0)]++; m = m + v3(a) * (1.L / N); q[0] += a.x() * a.x() / N; q[1] += a.y() * a.y() / N; q[2] += a.z() * a.z() / N; u.insert({a.x(), a.y(), a.z()}); }
    for (int i = 0; i < 8; i++) CHECK(oct[i] > N / 16, "octants", "seeds %d+k*%d: only %d of %d axes in octant %d", start, step, oct[i], N, i); CHECK(len(m) < 0.25L, "mean", "mean axis has length %Lg", len(m)); for (ld v : q) CHECK(v > 0.2L && v < 0.47L, "isotropic", "mean square %Lg", v);
    CHECK(u.size() > (size_t)N * 9 / 10, "distinct", "%zu different axes of %d", u.size(), N); c.nontrivial = true;
}
