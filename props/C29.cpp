// C29: image operations and height fields treat every pixel, for any size.
#include "mesh_common.hpp"
#include <complex>
#include "bmp_common.hpp"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "MeshUtil.h"
static int gen_size(pbt::Source& s) { int k = s.weighted({2, 2, 12}); return k == 0 ? 0 : k == 1 ? 1 : s.sized(2, 40); }
PROP(pixels, 60000, 1200000, 500, "not square, with more than one plane")
{
    int w = gen_size(s), h = gen_size(s), p = s.irange(1, 5); bool dirty = s.boolean(); Image im(dirty ? 3 : w, dirty ? 5 : h, dirty ? 2 : p); if (dirty) { fill(s, im); im.resize(w, h, p); } NOTE("%dx%d, %d planes", w, h, p);
    CHECK(im.width() == w && im.height() == h && im.planes() == p && im.size() == w * h * p, "size", "%dx%d, %d planes, %d bytes", im.width(), im.height(), im.planes(), im.size()); uint64_t seed = s.choice(1 << 20);
    // written in a random order of coordinates through both accessors, read back through all of them
    bool rev = s.boolean(), tr = s.boolean(); for (int a = 0; a < w * h * p; a++) { int i = rev ? w * h * p - 1 - a : a; int x, y, k; if (tr) { k = i / (w * h); y = i / w % h; x = i % w; } else { x = i / (h * p); y = i / p % h; k = i % p; } if (a % 2) im(x, y, k) = pix(seed, x, y, k); else *im.pixel(x, y, k) = pix(seed, x, y, k); }
    const Image& ci = im; set<const unsigned char*> addr; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) { int v = pix(seed, x, y, k); CHECK(im(x, y, k) == v && ci(x, y, k) == v && *im.pixel(x, y, k) == v && *ci.pixel(x, y, k) == v, "pixel", "pixel %d,%d plane %d", x, y, k); addr.insert(ci.pixel(x, y, k)); if (k == 0) CHECK(ci(x, y) == v && *ci.pixel(x, y) == v, "plane-0", "pixel %d,%d", x, y); }
    CHECK((int)addr.size() == w * h * p, "separate", "%zu places for %d values", addr.size(), w * h * p); if (!addr.empty()) CHECK(*addr.begin() == im.data() && *addr.rbegin() == im.data() + (w * h * p - 1), "data", "pixels are not in data()");
    vector<double> d(s.choice(5), 9.); im.to_double(d); CHECK(d.size() == (size_t)(w * h), "double-size", "%zu numbers", d.size()); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) CHECK(d[x + (size_t)y * w] == (double)pix(seed, x, y, 0), "double", "number %d,%d is %g instead of %d", x, y, d[x + (size_t)y * w], pix(seed, x, y, 0));
    Image copy = im; if (w * h) copy(w - 1, h - 1, p - 1) ^= 255; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) CHECK(im(x, y, k) == pix(seed, x, y, k), "copy", "changing a copy changed pixel %d,%d plane %d", x, y, k);
    c.nontrivial = w != h && p > 1 && w * h > 1;
}
PROP(grey, 60000, 1200000, 500, "not square, more than one colour plane")
{
    int w = gen_size(s), h = gen_size(s), p = s.pick({1, 2, 3, 3, 4, 4}); Image im(w, h, p), bw; fill(s, im); if (s.boolean()) for (int i = 0, n = im.size(); i < n; i++) if (s.chance(1, 4)) im.data()[i] = s.boolean() ? 255 : 0; if (s.boolean()) { bw.resize(gen_size(s), gen_size(s), s.irange(1, 4)); fill(s, bw); } NOTE("%dx%d, %d planes", w, h, p);
    auto before = bytes_of(im); ImageUtil::convert_to_bw(im, bw); CHECK(bytes_of(im) == before && im.planes() == p, "input", "the source image changed"); CHECK(bw.width() == w && bw.height() == h && bw.planes() == 1, "size", "%dx%d with %d planes", bw.width(), bw.height(), bw.planes()); int n = min(p, 3);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int sum = 0; for (int k = 0; k < n; k++) sum += im(x, y, k); double e = (double)sum / n; CHECK(fabs(bw(x, y) - e) < 1, "grey", "pixel %d,%d is %d, the average is %g", x, y, bw(x, y), e); }
    c.nontrivial = w != h && n > 1 && w * h > 1;
}
PROP(scale, 60000, 1200000, 500, "some pixels saturate, others do not")
{
    int w = gen_size(s), h = gen_size(s), p = s.irange(1, 4); Image im(w, h, p); fill(s, im); double k = s.pick({0., 1., 0.5, 2., s.real(-2, 4), s.real(0, 1), 1e-9, 1e300, -1.}); NOTE("%dx%d, %d planes, factor %g", w, h, p, k); Image was = im; ImageUtil::scale(im, k); CHECK(im.width() == w && im.height() == h && im.planes() == p, "size", "%dx%d with %d planes", im.width(), im.height(), im.planes()); int sat = 0, mid = 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) { double e = was(x, y, q) * k; if (e < 0 || e > 255) sat++; else mid++; e = max(0., min(255., e)); CHECK(fabs(im(x, y, q) - e) <= 0.5001, "scaled", "pixel %d,%d plane %d is %d after scaling %d by %g", x, y, q, im(x, y, q), was(x, y, q), k); }
    c.nontrivial = sat && mid;
}
PROP(sierpinsky, 20000, 400000, 200, "not square")
{
    int w = gen_size(s), h = gen_size(s); if (s.chance(1, 10)) w *= 5; Image im; if (s.boolean()) { im.resize(gen_size(s), gen_size(s), 3); fill(s, im); } NOTE("%dx%d", w, h); ImageGenerator::Shierpinsky(im, w, h); CHECK(im.width() == w && im.height() == h && im.planes() == 4, "size", "%dx%d with %d planes", im.width(), im.height(), im.planes());
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < 4; k++) { int e = (x & y) ? 0 : (((1 << 25) - 1) >> (8 * k)) & 255; CHECK(im(x, y, k) == e, "pixel", "pixel %d,%d plane %d is %d instead of %d", x, y, k, im(x, y, k), e); }
    c.nontrivial = w != h && w * h > 1;
}
PROP(mandelbrot, 3000, 60000, 50, "pixels with at least three iteration counts are decided")
{
    int w = s.sized(1, 30), h = s.sized(1, 24), n = s.pick({0, 1, 10, 50, 255, s.irange(0, 400)}); if (s.chance(1, 12)) { w = s.irange(1, 160); h = s.irange(1, 160); n = min(n, 60); } Image im; if (s.boolean()) { im.resize(gen_size(s), gen_size(s), 3); fill(s, im); } NOTE("%dx%d, %d iterations", w, h, n); ImageGenerator::Mandelbrot(im, w, h, n); CHECK(im.width() == w && im.height() == h && im.planes() == 4, "size", "%dx%d with %d planes", im.width(), im.height(), im.planes()); set<int> seen;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        int got; memcpy(&got, im.pixel(x, y), 4); CHECK(got % 0x10101 == 0 && got >= 0 && got / 0x10101 <= n, "value", "pixel %d,%d is %x", x, y, got); double cx = -2.1 + (double)(w - x) / w * 3, cy = -1.5 + (double)(h - y) / h * 3;
        // decided when small changes of the point give the same count
        int cnt = -1; bool same = true; for (int k = 0; k < 9 && same; k++) { double a = cx + (k % 3 - 1) * 3e-6, b = cy + (k / 3 - 1) * 3e-6, fx = a, fy = b; int it = n; while (fx * fx + fy * fy < 4) { double t = fx * fy; fx = fx * fx - fy * fy + a; fy = 2 * t + b; if (it == 0) break; it--; } if (k == 0) cnt = n - it; else same = cnt == n - it; }
        // deep inside the main parts of the set, the iteration converges whatever the rounding
        complex<double> pt(cx, cy); bool deep = abs(1. - sqrt(1. - 4. * pt)) < 0.85 || abs(pt + 1.) < 0.21;
        bool well = cnt < 20 || cnt == n; if (same && well) { seen.insert(cnt); CHECK(got / 0x10101 == cnt || (!deep && cnt >= 20 && cnt == n && got / 0x10101 >= 20), "count", "pixel %d,%d has %d iterations instead of %d", x, y, got / 0x10101, cnt); }
    }
    c.nontrivial = seen.size() >= 3;
}
static void check_grid(pbt::Source& s, pbt::Ctx& c, const Mesh& m, const vector<Point3>& v, int w, int h, bool up)
{
    CHECK(m.nb_vertices() == w * h, "vertices", "%d vertices for %dx%d samples", m.nb_vertices(), w, h); for (int i = 0; i < w * h; i++) { Point3 p; m.get_vertex(i, p); CHECK(same_bits(p, v[i]), "vertex", "vertex %d is %s instead of %s", i, ps(p).c_str(), ps(v[i]).c_str()); }
    int cells = w > 1 && h > 1 ? (w - 1) * (h - 1) : 0; Soup q = soup_of(m); CHECK((int)q.t.size() == 2 * cells, "triangles", "%zu triangles for %d cells", q.t.size(), cells); vector<set<int>> un(cells); vector<int> cnt(cells, 0);
    for (auto& t : q.t) { int x0 = w, y0 = h, x1 = 0, y1 = 0; for (int i : {t.a, t.b, t.c}) { x0 = min(x0, i % w); x1 = max(x1, i % w); y0 = min(y0, i / w); y1 = max(y1, i / w); } CHECK(x1 == x0 + 1 && y1 == y0 + 1, "cell", "triangle %d %d %d is not in one cell", t.a, t.b, t.c); int k = y0 * (w - 1) + x0; cnt[k]++; for (int i : {t.a, t.b, t.c}) un[k].insert(i);
        auto P = [&](int i) { return make_pair(i % w, i / w); }; auto A = P(t.a), B = P(t.b), C = P(t.c); int area = (B.first - A.first) * (C.second - A.second) - (C.first - A.first) * (B.second - A.second); CHECK(area == 1, "up", "triangle %d %d %d turns %d", t.a, t.b, t.c, area); if (up) CHECK(tri_area_vec(q, t).z > 0, "up-3d", "triangle %d %d %d faces down", t.a, t.b, t.c); }
    for (int k = 0; k < cells; k++) CHECK(cnt[k] == 2 && un[k].size() == 4, "cover", "cell %d has %d triangles on %zu corners", k, cnt[k], un[k].size());
    // triangles of one cell do not overlap, neighbours share an edge: every inner edge is used once in each direction
    map<pair<int, int>, int> e; for (auto& t : q.t) { e[{t.a, t.b}]++; e[{t.b, t.c}]++; e[{t.c, t.a}]++; } for (auto& x : e) CHECK(x.second == 1, "edge", "edge %d-%d used %d times in one direction", x.first.first, x.first.second, x.second);
}
PROP(height_field, 20000, 400000, 200, "not square, at least one cell")
{
    int w = gen_size(s), h = gen_size(s); if (s.chance(9, 10)) { w = min(w, 14); h = min(h, 14); } vector<double> z; double r = s.pick({1., 1e3, 1e-3, 0.}); for (int i = 0; i < w * h; i++) z.push_back(s.real(-r, r)); vector<double> z0 = z; vector<Point3> v; for (int i = 0; i < w * h; i++) v.push_back(Point3(i % w, i / w, z[i])); Mesh m; if (s.boolean()) { m.add_triangle(Point3(1, 2, 3), Point3(3, 4, 5), Point3(5, 6, 8)); if (s.boolean()) m.unlink_triangle(0); } NOTE("%dx%d samples", w, h);
    MeshUtil::create_from_z(z, w, h, m); CHECK(z == z0, "input", "samples changed"); check_grid(s, c, m, v, w, h, true); c.nontrivial = w != h && w > 1 && h > 1;
}
PROP(grid, 20000, 400000, 200, "not square, at least one cell")
{
    int w = gen_size(s), h = gen_size(s); if (s.chance(9, 10)) { w = min(w, 14); h = min(h, 14); } vector<Point3> v; double r = s.pick({1., 1e3, 1e-3}); bool flat = s.boolean(); for (int i = 0; i < w * h; i++) v.push_back(flat ? Point3(i % w + s.uniform(-0.2, 0.2), i / w + s.uniform(-0.2, 0.2), s.real(-r, r)) : gen_point(s, r)); vector<Point3> v0 = v; Mesh m; if (s.boolean()) { m.add_triangle(Point3(1, 2, 3), Point3(3, 4, 5), Point3(5, 6, 8)); if (s.boolean()) m.unlink_triangle(0); } NOTE("%dx%d samples", w, h);
    MeshUtil::create_from_grid(v, w, h, m); for (size_t i = 0; i < v.size(); i++) CHECK(same_bits(v[i], v0[i]), "input", "samples changed"); check_grid(s, c, m, v, w, h, flat); c.nontrivial = w != h && w > 1 && h > 1;
}
PROP(image_field, 10000, 200000, 200, "not square, at least one cell")
{
    int w = s.sized(1, 14), h = s.sized(1, 14), p = s.pick({1, 3, 4}); Image im(w, h, p), bw; fill(s, im); ImageUtil::convert_to_bw(im, bw); vector<double> d; bw.to_double(d); Mesh m; MeshUtil::create_from_z(d, w, h, m); NOTE("%dx%d, %d planes", w, h, p); int n = min(p, 3);
    for (int i = 0; i < m.nb_vertices(); i++) { Point3 q; m.get_vertex(i, q); CHECK(q.x() >= 0 && q.x() < w && q.y() >= 0 && q.y() < h, "place", "vertex %s", ps(q).c_str()); int x = (int)q.x(), y = (int)q.y(); double sum = 0; for (int k = 0; k < n; k++) sum += im(x, y, k); CHECK(fabs(q.z() - sum / n) < 1, "height", "vertex %s, the pixel has %g", ps(q).c_str(), sum / n); } CHECK(m.nb_vertices() == w * h, "count", "%d vertices", m.nb_vertices());
    c.nontrivial = w != h && w > 1 && h > 1;
}

// one side of some thousand pixels: every operation, at every pixel
PROP(large, 200, 4000, 2, "one side is longer than 1000 pixels")
{
    int w = (int)pow(10., s.uniform(2, s.boolean() ? 3.5 : 5)), h = s.irange(1, max(1, min(400, 200000 / w))), p = s.irange(1, 4); if (s.boolean()) std::swap(w, h); NOTE("%dx%d, %d planes", w, h, p); Image im(w, h, p), bw; uint64_t seed = s.choice(1 << 20); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) im(x, y, k) = pix(seed, x, y, k);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) CHECK(im.data()[((size_t)y * w + x) * p + k] == pix(seed, x, y, k), "pixel", "pixel %d,%d plane %d", x, y, k);
    vector<double> d; im.to_double(d); CHECK(d.size() == (size_t)w * h, "double-size", "%zu numbers", d.size()); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) CHECK(d[x + (size_t)y * w] == (double)pix(seed, x, y, 0), "double", "number %d,%d", x, y);
    ImageUtil::convert_to_bw(im, bw); CHECK(bw.width() == w && bw.height() == h && bw.planes() == 1, "size", "%dx%d", bw.width(), bw.height()); int n = min(p, 3); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double sum = 0; for (int k = 0; k < n; k++) sum += pix(seed, x, y, k); CHECK(fabs(bw(x, y) - sum / n) < 1, "grey", "pixel %d,%d is %d, the average is %g", x, y, bw(x, y), sum / n); }
    double f = s.uniform(0.1, 3); ImageUtil::scale(im, f); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) CHECK(fabs(im(x, y, k) - min(255., pix(seed, x, y, k) * f)) <= 0.5001, "scaled", "pixel %d,%d plane %d is %d after scaling %d by %g", x, y, k, im(x, y, k), pix(seed, x, y, k), f);
    Image g; ImageGenerator::Shierpinsky(g, w, h); CHECK(g.width() == w && g.height() == h && g.planes() == 4, "size", "%dx%d", g.width(), g.height()); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int e = (x & y) ? 0 : (1 << 25) - 1, got; memcpy(&got, g.pixel(x, y), 4); CHECK(got == e, "sierpinsky", "pixel %d,%d is %x", x, y, got); }
    // height fields
    int gw = min(w, 3000), gh = max(1, min(h, (s.chance(1, 8) ? 140000 : 30000) / gw)); vector<double> z; vector<Point3> v; bool grid = s.boolean(); for (int i = 0; i < gw * gh; i++) { z.push_back(pix(seed, i % gw, i / gw, 1) / 8.); v.push_back(Point3(i % gw, i / gw, z.back())); } Mesh m; if (grid) MeshUtil::create_from_grid(v, gw, gh, m); else MeshUtil::create_from_z(z, gw, gh, m); check_grid(s, c, m, v, gw, gh, true); c.nontrivial = max(w, h) > 1000;
}
