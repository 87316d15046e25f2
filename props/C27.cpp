// C27: the nearest surface wins, whatever the drawing order; back faces are not drawn.
#include "render_common.hpp"
#include "mesh_common.hpp"
struct T3 { Point3 p[3]; int color; bool two; vector<P2> q; V3 w; ld wmin, wmax, grad, alt, area; bool front, on; ld x0, x1, y0, y1; bool box(int x, int y) const { return x >= x0 - 3 && x <= x1 + 3 && y >= y0 - 3 && y <= y1 + 3; } }; // w: 1/z as an affine function of the pixel
static bool inside_by(const T3& t, ld x, ld y, ld d)
{
    for (int i = 0; i < 3; i++) { P2 a = t.q[i], b = t.q[(i + 1) % 3]; ld ex = b.x - a.x, ey = b.y - a.y, c = (ex * (y - a.y) - ey * (x - a.x)) / hypotl(ex, ey); if (t.area < 0) c = -c; if (!(c > d)) return false; } return true;
}
static void prepare(const Cam& cam, T3& t)
{
    t.wmin = 1e30L; t.wmax = 0; t.x0 = t.y0 = 1e30L; t.x1 = t.y1 = -1e30L; ld z[3]; t.q.clear(); for (int i = 0; i < 3; i++) { V3 l = cam.local(t.p[i]); z[i] = 1 / l.z; t.q.push_back(P2{cam.sx(l), cam.sy(l)}); t.wmin = min(t.wmin, z[i]); t.wmax = max(t.wmax, z[i]); P2 a = t.q.back(); t.x0 = min(t.x0, a.x); t.x1 = max(t.x1, a.x); t.y0 = min(t.y0, a.y); t.y1 = max(t.y1, a.y); }
    ld x1 = t.q[1].x - t.q[0].x, y1 = t.q[1].y - t.q[0].y, x2 = t.q[2].x - t.q[0].x, y2 = t.q[2].y - t.q[0].y; t.area = x1 * y2 - x2 * y1; ld l = max(hypotl(x1, y1), max(hypotl(x2, y2), hypotl(x1 - x2, y1 - y2))); t.alt = l > 0 ? fabsl(t.area) / l : 0; t.front = t.area > 0;
    if (t.alt > 1e-9L) { ld gx = ((z[1] - z[0]) * y2 - (z[2] - z[0]) * y1) / t.area, gy = ((z[2] - z[0]) * x1 - (z[1] - z[0]) * x2) / t.area; t.w = V3{gx, gy, z[0] - gx * t.q[0].x - gy * t.q[0].y}; t.grad = hypotl(gx, gy); } else { t.w = V3{0, 0, t.wmax}; t.grad = 1e30L; }
    t.on = t.two || t.front || t.alt < 2.0L;
}
static ld w_at(const T3& t, int x, int y) { return t.w.x * x + t.w.y * y + t.w.z; }
// pixels whose colour is decided: the nearest triangle, or the background
static string check_image(const Cam& cam, const vector<T3>& ts, const int* buf, int bg, int& decided, int& contested)
{
    decided = contested = 0;
    for (int y = 0; y < cam.h; y++) for (int x = 0; x < cam.w; x++) {
        int best = -1; ld bw = 0; int touch = 0;
        for (size_t i = 0; i < ts.size(); i++) { auto& t = ts[i]; if (!t.on || !t.box(x, y) || !t.front && !t.two || !inside_by(t, x, y, 2.0L)) continue; ld w = max(t.wmin, w_at(t, x, y) - 4 * t.grad); if (best < 0 || w > bw) { best = (int)i; bw = w; } }
        bool ok = true; for (size_t i = 0; i < ts.size() && ok; i++) { auto& t = ts[i]; if ((int)i == best || !t.on || !t.box(x, y)) continue; if (dist_poly(P2{(ld)x, (ld)y}, t.q) > 2.0L) continue; touch++; if (best < 0) { ok = false; break; } ld u = t.alt < 1 || t.grad > 1e20L ? t.wmax : min(t.wmax, w_at(t, x, y) + 4 * t.grad); if (ts[best].color != t.color && u * (1 + 1e-5L) >= bw) ok = false; }
        if (!ok) continue;
        int want = best < 0 ? bg : ts[best].color, got = buf[y * cam.w + x]; if (best >= 0) { decided++; if (touch) contested++; }
        if (got != want) return pbt::fmt("pixel %d,%d is %06x instead of %06x (%s%d)", x, y, got, want, best < 0 ? "background " : "triangle ", best);
    }
    return "";
}
static V3 gen_front(pbt::Source& s, const Cam& cam, double zmin, double zmax, double spread) { double z = s.uniform(zmin, zmax); return V3{s.uniform(-spread, spread) * cam.w / cam.zoom * z, s.uniform(-spread, spread) * cam.h / cam.zoom * z, z}; }
PROP(nearest, 9000, 180000, 50, "at least 10 decided pixels are covered by two or more triangles, or cut by the image border")
{
    int w = s.irange(8, 64), h = s.irange(8, 48), bg = 0x010203; if (s.chance(1, 60)) { w = s.irange(100, 500); if (s.boolean()) std::swap(w, h); } Cam cam = gen_cam(s, w, h); int n = s.irange(1, 7); vector<T3> ts; bool mesh = s.boolean(); bool cut = false;
    for (int i = 0; i < n; i++) {
        T3 t; t.color = 0x100000 * (i + 1) + 0x20 * (i + 1); t.two = !mesh && s.boolean(); double spread = s.pick({0.5, 0.9, 2., 20., 3000.}); int kind = s.weighted({3, 2, 2}); double z = s.uniform(0.5, 30);
        for (int k = 0; k < 3; k++) { V3 l = kind == 0 ? gen_front(s, cam, 0.5, 30, spread) : kind == 1 ? gen_front(s, cam, z, z, spread) : gen_front(s, cam, z, z * 1.3, spread); t.p[k] = cam.world(l); }
        prepare(cam, t); if (!t.front && s.chance(3, 4)) { swap(t.p[0], t.p[1]); prepare(cam, t); } for (auto& q : t.q) if (q.x < -3 || q.y < -3 || q.x > w + 3 || q.y > h + 3) cut = true; NOTE("triangle %d %s%s %s %s %s", i, t.two ? "two-sided " : "", t.front ? "front" : "back", ps(t.p[0]).c_str(), ps(t.p[1]).c_str(), ps(t.p[2]).c_str()); ts.push_back(t);
    }
    // no lighting influence: one ambient light which keeps colours; the harness reads back what colour each one gives
    vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); vector<vector<int>> orders{order}; for (int i = n - 1; i > 0; i--) swap(order[i], order[s.irange(0, i)]); orders.push_back(order); NOTE("%s, %s", cam.text().c_str(), mesh ? "as meshes" : "as triangles"); int dec = 0, con = 0; bool hidden = s.boolean();
    for (auto& ord : orders) {
        unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear();
        if (mesh) { // split in one or two meshes
            size_t k = 0; while (k < ord.size()) { size_t e = hidden ? ord.size() : min(ord.size(), k + 1); if (e - k == 1) { Mesh m; auto& t = ts[ord[k]]; for (auto& p : t.p) m.add_vertex(p); m.add_triangle(0, 1, 2); if (k % 2) { m.set_color(t.color); r.draw_mesh(m); } else r.draw_mesh(m, false, t.color); } else { for (size_t i = k; i < e; i++) { Mesh m; auto& t = ts[ord[i]]; for (auto& p : t.p) m.add_vertex(p); m.add_triangle(0, 2, 1); m.add_triangle(0, 1, 2); m.unlink_triangle(0); m.set_color(t.color); r.draw_mesh(m); } } k = e; } }
        else for (int i : ord) { auto& t = ts[i]; vector<int> was(buf.get(), buf.get() + w * h); bool v = r.draw_triangle_1color(t.p[0], t.p[1], t.p[2], t.color, t.two); bool changed = was != vector<int>(buf.get(), buf.get() + w * h); bool well = false; for (int y = 1; y < h && !well; y++) for (int x = 1; x < w; x++) if (inside_by(t, x, y, 2.0L)) { well = true; break; }
            if (!t.front && !t.two && t.alt > 3) { CHECK(!v, "back-visible", "triangle %d seen from behind is said to be visible", i); CHECK(!changed, "back-drawn", "triangle %d seen from behind is drawn", i); }
            if (well && (t.front || t.two)) CHECK(v, "front-visible", "triangle %d seen from the front is said not to be visible", i); if (t.x1 < -3 || t.y1 < -3 || t.x0 > w + 3 || t.y0 > h + 3) CHECK(!v && !changed, "off-visible", "triangle %d out of the screen is %s", i, v ? "said to be visible" : "drawn"); if (changed) CHECK(v, "drawn-visible", "triangle %d changed pixels but is said not to be visible", i); }
        string e = check_image(cam, ts, buf.get(), bg, dec, con); CHECK(e.empty(), "image", "%s, order %d...: %s", e.c_str(), ord[0], cam.text().c_str());
    }
    LABEL("%s", dec == 0 ? "nothing decided" : con ? "contested" : "uncontested"); c.nontrivial = con >= 10 || (cut && dec >= 10);
}
#include "MeshFactory.h"
PROP(objects, 1500, 30000, 10, "two objects overlap on the screen")
{
    int w = s.irange(16, 64), h = s.irange(16, 48), bg = 0x010203; Cam cam = gen_cam(s, w, h); cam.zoom = 60; int n = s.irange(1, 3); vector<Mesh> ms; vector<vector<T3>> ts; vector<T3> all; NOTE("%s", cam.text().c_str());
    for (int i = 0; i < n; i++) {
        Mesh m; int kind = (int)s.choice(6); double r = s.uniform(0.5, 2); switch (kind) { case 0: MeshFactory::create_box(r, 2 * r, s.uniform(0.1, 2), m); break; case 1: MeshFactory::create_tetrahedron(2 * r, m); break; case 2: MeshFactory::create_octahedron(r, m); break; case 3: MeshFactory::create_cylinder(r, r, 6, m); break; case 4: MeshFactory::create_sphere_geodesic(r, s.irange(1, 2), m); break; default: MeshFactory::create_torus(r * 1.5, r * 0.5, 6, m); }
        V3 at{s.uniform(-2, 2), s.uniform(-2, 2), s.uniform(8, 15)}; Point3 wp = cam.world(at); Mesh t; { RotationAngleAxis rot(gen_angle(s), gen_axis(s)); vector<Point3> v; for (int k = 0; k < m.nb_vertices(); k++) { Point3 p; m.get_vertex(k, p); rot.apply(p); t.add_vertex(p + wp); } for (int k = 0; k < m.nb_triangles(); k++) { int a, b, cc; m.get_triangle_vertices(k, a, b, cc); t.add_triangle(a, b, cc); } }
        if (s.chance(1, 4)) for (int k = 0; k < t.nb_triangles(); k += 3) t.unlink_triangle(k); int col = 0x300000 * (i + 1) + 0x20 * (i + 1); t.set_color(col); NOTE("object %d of kind %d at %Lg %Lg %Lg, size %g", i, kind, at.x, at.y, at.z, r); ms.push_back(t);
        for (int k = 0; k < t.nb_triangles(); k++) if (!t.is_triangle_unlinked(k)) { Triangle3 q; t.get_triangle(k, q); T3 x; x.p[0] = q.p1(); x.p[1] = q.p2(); x.p[2] = q.p3(); x.color = col; x.two = false; prepare(cam, x); all.push_back(x); }
    }
    int dec = 0, con = 0; bool rev = s.boolean(); unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear(); for (int i = 0; i < n; i++) r.draw_mesh(ms[rev ? n - 1 - i : i]);
    string e = check_image(cam, all, buf.get(), bg, dec, con); CHECK(e.empty(), "image", "%s", e.c_str()); set<int> seen(buf.get(), buf.get() + w * h); c.nontrivial = n > 1 && seen.size() > 2 && dec > 10;
}
PROP(lines, 12000, 240000, 100, "the line crosses a triangle on the screen")
{
    int w = s.irange(10, 64), h = s.irange(10, 48), bg = 0x010203, col = 0x778899; Cam cam = gen_cam(s, w, h); T3 t; t.color = 0x400040; t.two = true; double zt = s.boolean() ? s.uniform(1, 20) : pow(10., s.uniform(0, 3)), zl = s.boolean() ? zt * s.uniform(0.2, 0.8) : zt * s.uniform(1.25, 4); if (zl > zt) zl = min(zl, 3 * zt); if (fabs(1 / zl - 1 / zt) < 2e-4) return; for (auto& q : t.p) q = cam.world(gen_front(s, cam, zt, zt, 0.9)); prepare(cam, t); int n = s.irange(2, 4); if (s.chance(1, 100)) n = s.irange(50, 700); vector<Point3> p; vector<P2> q; bool dot0 = true;
    double spread = s.pick({0.4, 1., 30.}); for (int i = 0; i < n; i++) { p.push_back(cam.world(gen_front(s, cam, zl, zl, spread))); V3 l = cam.local(p.back()); q.push_back(P2{cam.sx(l), cam.sy(l)}); NOTE("line through %s, pixel %Lg %Lg", ps(p.back()).c_str(), q.back().x, q.back().y); } NOTE("%s, triangle %s %s %s", cam.text().c_str(), ps(t.p[0]).c_str(), ps(t.p[1]).c_str(), ps(t.p[2]).c_str());
    bool first = s.boolean(), near = zl < zt; unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear(); if (first) r.draw_triangle_1color(t.p[0], t.p[1], t.p[2], t.color, true); if (n == 2 && s.boolean()) r.draw_line(p[0], p[1], col); else r.draw_polyline(p, col); if (!first) r.draw_triangle_1color(t.p[0], t.p[1], t.p[2], t.color, true);
    bool cross = false;
    for (int i = 1; i < n; i++) { ld L = max(fabsl(q[i].x - q[i - 1].x), fabsl(q[i].y - q[i - 1].y)); if (L < 2) continue; int m = (int)min(200.L, L * 2); for (int k = 0; k <= m; k++) { ld u = (1 + (L - 2) * k / m) / L; int x = (int)lrintl(q[i - 1].x + u * (q[i].x - q[i - 1].x)), y = (int)lrintl(q[i - 1].y + u * (q[i].y - q[i - 1].y)); if (x < 2 || y < 2 || x >= w - 2 || y >= h - 2) continue; bool in = inside_by(t, x, y, 3.5L), out = dist_poly(P2{(ld)x, (ld)y}, t.q) > 3.5L; if (in) cross = true; bool found = false; for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) if (buf[(y + dy) * w + x + dx] == col) found = true;
        if (in && !near) CHECK(buf[y * w + x] == t.color, "hidden", "pixel %d,%d is %06x: the line is behind the triangle", x, y, buf[y * w + x]); if (out || (in && near)) CHECK(found, "shown", "no pixel of the line around %d,%d", x, y); } }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int g = buf[y * w + x]; CHECK(g == bg || g == col || g == t.color, "colour", "pixel %d,%d is %06x", x, y, g); if (g == col) { ld d = 1e30L; for (int i = 1; i < n; i++) d = min(d, dist_poly(P2{(ld)x, (ld)y}, {q[i - 1], q[i]})); CHECK(d <= 2, "off-line", "pixel %d,%d has the colour of the line, %Lg pixels away", x, y, d); } }
    c.nontrivial = cross;
}
PROP(slanted_lines, 90000, 1800000, 500, "the line is partly hidden, or starts or ends outside the image in front of or behind the triangle")
{
    // line and triangle at changing depths: each pixel of the line is compared with the triangle at that pixel
    int w = s.irange(24, 72), h = s.irange(24, 60), bg = 0x010203, col = 0x778899; Cam cam = gen_cam(s, w, h); T3 t; t.color = 0x400040; t.two = true; double zt = s.boolean() ? s.uniform(1, 10) : pow(10., s.uniform(0, 2)), r1 = s.pick({1., 1.1, 1.5}); for (auto& q : t.p) q = cam.world(gen_front(s, cam, zt, zt * r1, s.pick({0.8, 1.2, 3.}))); prepare(cam, t); if (t.alt < 9) return;
    double spread = s.pick({0.4, 1., 3., 30.}), za = zt * pow(2., s.uniform(-3, 3)), zb = zt * pow(2., s.uniform(-3, 3)); Point3 p[2] = {cam.world(gen_front(s, cam, za, za, 0.5)), cam.world(gen_front(s, cam, zb, zb, spread))}; if (s.boolean()) std::swap(p[0], p[1]); P2 q[2]; ld z[2]; for (int i = 0; i < 2; i++) { V3 l = cam.local(p[i]); q[i] = P2{cam.sx(l), cam.sy(l)}; z[i] = 1 / l.z; NOTE("line end %s, pixel %Lg %Lg, depth %Lg", ps(p[i]).c_str(), q[i].x, q[i].y, l.z); } NOTE("%s, triangle %s %s %s", cam.text().c_str(), ps(t.p[0]).c_str(), ps(t.p[1]).c_str(), ps(t.p[2]).c_str());
    ld L = max(fabsl(q[1].x - q[0].x), fabsl(q[1].y - q[0].y)); if (L < 4) return; bool first = s.boolean(); unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear(); if (first) r.draw_triangle_1color(t.p[0], t.p[1], t.p[2], t.color, true); if (s.boolean()) r.draw_line(p[0], p[1], col); else r.draw_polyline({p[0], p[1]}, col); if (!first) r.draw_triangle_1color(t.p[0], t.p[1], t.p[2], t.color, true);
    int shown = 0, hidden = 0; int m = (int)min(4000.L, L * 2); ld dz = fabsl(z[1] - z[0]) / L * 3 + 3e-5L;
    for (int k = 0; k <= m; k++) {
        ld u = (1 + (L - 2) * k / m) / L; int x = (int)lrintl(q[0].x + u * (q[1].x - q[0].x)), y = (int)lrintl(q[0].y + u * (q[1].y - q[0].y)); if (x < 2 || y < 2 || x >= w - 2 || y >= h - 2) continue; bool in = inside_by(t, x, y, 3.5L), out = dist_poly(P2{(ld)x, (ld)y}, t.q) > 3.5L; ld wl = z[0] + u * (z[1] - z[0]), wt = w_at(t, x, y); bool found = false; for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) if (buf[(y + dy) * w + x + dx] == col) found = true;
        if (in && wl + dz < (wt - 5 * t.grad) * (1 - 1e-5L)) { hidden++; CHECK(buf[y * w + x] == t.color, "hidden", "pixel %d,%d is %06x: the line (inverse depth %Lg) is behind the triangle (%Lg)", x, y, buf[y * w + x], wl, wt); }
        if (out || (in && wl - dz > (wt + 5 * t.grad) * (1 + 1e-5L))) { if (in) shown++; CHECK(found, "shown", "no pixel of the line around %d,%d (inverse depth %Lg, triangle %Lg)", x, y, wl, out ? 0.L : wt); }
    }
    bool outside = q[0].x < 0 || q[0].y < 0 || q[0].x > w || q[0].y > h || q[1].x < 0 || q[1].y < 0 || q[1].x > w || q[1].y > h; c.nontrivial = (shown && hidden) || (outside && (shown || hidden));
}

PROP(mesh_edges, 12000, 240000, 100, "an edge of a drawn triangle is seen, another one is behind a nearer object")
{
    // triangles facing the camera at constant depth, with their edges; a plain two-sided triangle in front of or behind them
    int w = s.irange(16, 72), h = s.irange(16, 60), bg = 0x010203, col = 0x405060, occ = 0x700070; Cam cam = gen_cam(s, w, h); double zt = pow(10., s.uniform(0, 1.5)), zo = zt * s.pick({0.4, 0.8, 1.3, 2.5}); int n = s.irange(1, 3); Mesh m; vector<T3> ts; vector<bool> un;
    for (int i = 0; i < n; i++) { T3 t; t.two = false; t.color = col; double spread = s.pick({0.5, 0.9, 3.}); for (auto& q : t.p) q = cam.world(gen_front(s, cam, zt, zt, spread)); prepare(cam, t); if (!t.front && s.chance(5, 6)) { std::swap(t.p[0], t.p[1]); prepare(cam, t); } int k = m.nb_vertices(); for (auto& q : t.p) m.add_vertex(q); m.add_triangle(k, k + 1, k + 2); un.push_back(s.chance(1, 6)); ts.push_back(t); NOTE("triangle %s %s %s%s%s", ps(t.p[0]).c_str(), ps(t.p[1]).c_str(), ps(t.p[2]).c_str(), t.front ? "" : " seen from behind", un[i] ? " removed" : ""); }
    for (int i = 0; i < n; i++) if (un[i]) m.unlink_triangle(i);
    m.set_color(s.boolean() ? col : 0x123456); T3 o; o.two = true; o.color = occ; for (auto& q : o.p) q = cam.world(gen_front(s, cam, zo, zo, 0.7)); prepare(cam, o); bool with = s.boolean(), first = s.boolean(), edges = s.chance(5, 6); NOTE("%s, edges %d%s", cam.text().c_str(), (int)edges, with ? pbt::fmt(", occluder at depth %g: %s %s %s", zo, ps(o.p[0]).c_str(), ps(o.p[1]).c_str(), ps(o.p[2]).c_str()).c_str() : "");
    unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear(); auto drawO = [&]() { if (with) r.draw_triangle_1color(o.p[0], o.p[1], o.p[2], occ, true); }; if (first) drawO(); if (m.get_color() == col && s.boolean()) r.draw_mesh(m, edges); else r.draw_mesh(m, edges, col); if (!first) drawO();
    int seen = 0, hid = 0; bool near = with && zo < zt;
    for (int i = 0; i < n; i++) {
        T3& t = ts[i]; if (t.alt < 4) continue; bool well = false; for (int y = 1; y < h && !well; y++) for (int x = 1; x < w; x++) if (inside_by(t, x, y, 2.0L)) { well = true; break; } if (!well || un[i] || !t.front || !edges) continue;
        for (int k = 0; k < 3; k++) { P2 a = t.q[k], b = t.q[(k + 1) % 3]; ld L = max(fabsl(a.x - b.x), fabsl(a.y - b.y)); int steps = (int)min(300.L, L * 2); for (int j = 0; j <= steps; j++) { ld u = (1 + (L - 2) * j / max(1, steps)) / L; int x = (int)lrintl(a.x + u * (b.x - a.x)), y = (int)lrintl(a.y + u * (b.y - a.y)); if (x < 2 || y < 2 || x >= w - 2 || y >= h - 2) continue;
            bool in = with && inside_by(o, x, y, 3.5L), out = !with || dist_poly(P2{(ld)x, (ld)y}, o.q) > 3.5L; bool other = false; for (int q = 0; q < n; q++) if (q != i && !un[q]) if (dist_poly(P2{(ld)x, (ld)y}, ts[q].q) < 4.L) other = true; if (in && near) { hid++; CHECK(buf[y * w + x] == occ, "hidden-edge", "pixel %d,%d is %06x: the edges are behind", x, y, buf[y * w + x]); } if (other || !(out || (in && !near))) continue; bool found = false; for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) if (buf[(y + dy) * w + x + dx] == 0) found = true; seen++; CHECK(found, "edge", "no pixel of the edge %d-%d of triangle %d around %d,%d", k, (k + 1) % 3, i, x, y); } }
    }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int g = buf[y * w + x]; CHECK(g == bg || g == col || g == 0 || (with && g == occ), "colour", "pixel %d,%d is %06x", x, y, g); ld d = 1e30L, in = 1e30L; for (int i = 0; i < n; i++) if (!un[i] && (ts[i].front || ts[i].alt < 2)) { in = min(in, dist_poly(P2{(ld)x, (ld)y}, ts[i].q)); for (int k = 0; k < 3; k++) d = min(d, dist_poly(P2{(ld)x, (ld)y}, {ts[i].q[k], ts[i].q[(k + 1) % 3]})); } if (g == 0) { CHECK(edges, "no-edge", "pixel %d,%d is drawn as an edge", x, y); CHECK(d <= 2, "off-edge", "pixel %d,%d is drawn as an edge, %Lg pixels away", x, y, d); } if (g == col) CHECK(in <= 2, "off-triangle", "pixel %d,%d has the colour of the mesh", x, y); }
    c.nontrivial = seen > 0 && hid > 0;
}

PROP(border_lines, 40000, 800000, 300, "the line runs along the first or the last row or column, or just outside")
{
    // lines along a row or a column, decided to the pixel: none is missing at the border of the image
    int w = s.irange(1, 40), h = s.irange(1, 40), col = 0x334455, bg = 0x070809; Cam cam = gen_cam(s, w, h); bool vert = s.boolean(); int size = vert ? w : h, along = vert ? h : w; int k = s.pick({0, size - 1, s.irange(0, size - 1), -1, size}); double jit = s.uniform(-0.3, 0.3), a0 = s.uniform(-0.6, 1.6) * along, a1 = s.uniform(-0.6, 1.6) * along; if (s.chance(1, 8)) { a0 *= 30; a1 *= 30; }
    double z0 = s.uniform(0.5, 30), z1 = s.boolean() ? z0 : s.uniform(0.5, 30); auto at = [&](double a, double z) { double px = vert ? k + jit : a, py = vert ? a : k + jit; return cam.world(V3{(px - w / 2) / cam.zoom * z, (py - h / 2) / cam.zoom * z, z}); };
    Point3 p[2] = {at(a0, z0), at(a1, z1)}; NOTE("%s, line along %s %d from %g to %g: %s %s", cam.text().c_str(), vert ? "column" : "row", k, a0, a1, ps(p[0]).c_str(), ps(p[1]).c_str());
    unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.set_background(bg); r.clear(); if (s.boolean()) r.draw_line(p[0], p[1], col); else r.draw_polyline({p[0], p[1]}, col);
    double lo = min(a0, a1), hi = max(a0, a1); int n = 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        int g = buf[y * w + x], u = vert ? y : x; bool on = (vert ? x : y) == k; if (on && u >= lo + 2 && u <= hi - 2) { CHECK(g == col, "missing", "pixel %d,%d of the line is %06x", x, y, g); n++; }
        if (g == col) { CHECK(on && u >= lo - 2 && u <= hi + 2, "stray", "pixel %d,%d is drawn", x, y); } else CHECK(g == bg, "colour", "pixel %d,%d is %06x", x, y, g); }
    LABEL("%s", n ? "seen" : "not seen"); c.nontrivial = (k <= 0 || k >= size - 1) && hi - lo > 4;
}

// a few triangles somewhere in a mesh of many which are not seen: all are drawn, wherever they stand in the mesh
PROP(large_mesh, 1200, 24000, 5, "more than 5000 triangles in the mesh, and at least 20 pixels of those which are seen are decided")
{
    int w = s.irange(16, 64), h = s.irange(16, 48), bg = 0x010203; Cam cam = gen_cam(s, w, h); int N = (int)pow(10., s.uniform(2, s.chance(1, 8) ? 5 : 4.4)), k = s.irange(1, 4); vector<T3> ts; vector<int> place; Hash g(s.choice(1 << 20));
    for (int i = 0; i < k; i++) { T3 t; t.color = 0x405060; t.two = false; double z = s.uniform(1, 20); for (auto& q : t.p) q = cam.world(gen_front(s, cam, z, z * 1.2, 0.7)); prepare(cam, t); if (!t.front) { std::swap(t.p[0], t.p[1]); prepare(cam, t); } int at = s.pick({0, N - 1, s.irange(0, N - 1), min(N - 1, s.pick({255, 256, 1023, 1024, 4095, 4096, 16383, 32767, 32768, 65535, 65536}))}); place.push_back(at); NOTE("triangle %d of %d: %s %s %s", at, N, ps(t.p[0]).c_str(), ps(t.p[1]).c_str(), ps(t.p[2]).c_str()); ts.push_back(t); }
    Mesh m; vector<T3> seen; vector<int> gone; V3 corner[4] = {{-0.3L * w / cam.zoom * 25, -0.3L * h / cam.zoom * 25, 25}, {0.3L * w / cam.zoom * 25, -0.2L * h / cam.zoom * 25, 25}, {0, 0.3L * h / cam.zoom * 25, 25}, {0, 0, -5}}; int kind = (int)s.choice(3); NOTE("%s, the others are %s", cam.text().c_str(), kind == 0 ? "seen from behind" : kind == 1 ? "behind the camera" : "removed");
    T3 back; for (int i = 0; i < 3; i++) back.p[i] = cam.world(corner[i]); back.two = false; back.color = 0; prepare(cam, back); if (back.front) std::swap(back.p[0], back.p[1]);
    for (int i = 0; i < N; i++) {
        int at = -1; for (int j = 0; j < k; j++) if (place[j] == i) at = j; Point3 p[3]; if (at >= 0) { for (int j = 0; j < 3; j++) p[j] = ts[at].p[j]; seen.push_back(ts[at]); } else if (kind == 1) { for (int j = 0; j < 3; j++) p[j] = cam.world(V3{corner[j].x, corner[j].y, -1.L - (ld)g.below(9)}); } else for (int j = 0; j < 3; j++) p[j] = back.p[j]; if (at < 0 && kind == 2) { std::swap(p[0], p[1]); gone.push_back(i); }
        int v = m.nb_vertices(); for (auto& q : p) m.add_vertex(q); m.add_triangle(v, v + 1, v + 2); }
    for (int i : gone) m.unlink_triangle(i);
    m.set_color(0x405060); unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); cam.set(r); r.add_ambient_light(0xffffff, 256. / 255.); r.set_background(bg); r.clear(); r.draw_mesh(m); int dec = 0, con = 0; string e = check_image(cam, seen, buf.get(), bg, dec, con); CHECK(e.empty(), "image", "%s, %d triangles: %s", e.c_str(), N, cam.text().c_str());
    c.nontrivial = N > 5000 && dec >= 20;
}
