// C28: projection follows the camera, colours follow the lights.
#include "render_common.hpp"
static V3 gen_l(pbt::Source& s, const Cam& cam) { double z = s.pick({s.uniform(0.2, 50), s.uniform(0.01, 1), s.uniform(50, 5000)}); double r = s.pick({0.5, 0.9, 5.}); return V3{s.real(-r, r) * cam.w / cam.zoom * z, s.real(-r, r) * cam.h / cam.zoom * z, z}; }
PROP(projection, 400000, 8000000, 1000, "the camera is moved or turned")
{
    int w = s.sized(1, 200), h = s.sized(1, 200); Cam cam = gen_cam(s, w, h); RendererCamera rc; Cam old = gen_cam(s, 13, 7); if (s.boolean()) { rc.set_origin(old.ox, old.oy, old.oz, old.ahead); rc.set_angles(old.yaw, old.pitch, old.roll); rc.set_screen(13, 7, old.zoom); }
    int ord = (int)s.choice(3); for (int i = 0; i < 3; i++) switch ((i + ord) % 3) { case 0: rc.set_origin(cam.ox, cam.oy, cam.oz, cam.ahead); break; case 1: rc.set_angles(cam.yaw, cam.pitch, cam.roll); break; default: rc.set_screen(w, h, cam.zoom); }
    NOTE("%s", cam.text().c_str()); V3 l0 = gen_l(s, cam), l1 = gen_l(s, cam); Point3 p[2] = {cam.world(l0), cam.world(l1)}; double ww[2]; ld mag = 0;
    for (int i = 0; i < 2; i++) {
        V3 l = cam.local(p[i]); Point3 b = p[i], q = rc.local_ref(p[i]); mag = fabsl(cam.ox) + fabsl(cam.oy) + fabsl(cam.oz) + fabsl(cam.ahead) + len(l); NOTE("point %s, before the camera (%.12Lg,%.12Lg,%.12Lg)", ps(p[i]).c_str(), l.x, l.y, l.z);
        CHECK(near3(q, l, 1e-9 * (double)mag), "local", "local point is %s instead of %.12Lg,%.12Lg,%.12Lg", ps(q).c_str(), l.x, l.y, l.z); int x = -99, y = -99; double iw = -1; rc.project(p[i], x, y, iw); CHECK(same_bits(b, p[i]), "input", "projecting changed the point");
        ld eps = 1e-6L * (1 + mag / l.z) * (1 + fabsl(cam.sx(l)) / 100 + fabsl(cam.sy(l)) / 100); CHECK(fabsl(x - cam.sx(l)) <= 0.5L + eps, "x", "column %d, %.12Lg expected", x, cam.sx(l)); CHECK(fabsl(y - cam.sy(l)) <= 0.5L + eps, "y", "row %d, %.12Lg expected", y, cam.sy(l)); CHECK(fabsl(iw * l.z - 1) <= 1e-9L * (1 + mag / l.z), "w", "inverse depth %g at depth %Lg", iw, l.z); ww[i] = iw;
    }
    V3 a = cam.local(p[0]), b = cam.local(p[1]); if (a.z > b.z * 1.001L) CHECK(ww[0] < ww[1], "nearer", "inverse depth %g at %Lg, %g at %Lg", ww[0], a.z, ww[1], b.z);
    c.nontrivial = !cam.exact();
}
PROP(drawn, 80000, 1600000, 300, "two or more points fall on one pixel")
{
    int w = s.sized(1, 30), h = s.sized(1, 30); if (s.chance(1, 60)) { w = s.irange(100, 1500); if (s.boolean()) std::swap(w, h); } Cam cam = gen_cam(s, w, h); unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); if (s.chance(1, 3)) { gen_cam(s, w, h).set(r); NOTE("camera set before"); } cam.set(r); if (s.boolean()) r.add_ambient_light(0x808080, 0.5); int n = s.irange(1, 12); if (s.chance(1, 40)) n = s.irange(100, 700); NOTE("%s", cam.text().c_str()); vector<set<int>> want((size_t)w * h); vector<vector<pair<ld, int>>> hit((size_t)w * h); vector<bool> maybe((size_t)w * h, false); bool multi = false; V3 l;
    for (int i = 0; i < n; i++) {
        if (i && s.boolean()) { ld k = s.pick({0.5, 2., 1.5}); l = l * k; } else l = gen_l(s, cam); Point3 p = cam.world(l); V3 q = cam.local(p); int col = 0x1000 + i; NOTE("point %s colour %x", ps(p).c_str(), col); r.draw_pixel(p, col);
        ld x = cam.sx(q) + 0.5L, y = cam.sy(q) + 0.5L; bool sure = fabsl(x - roundl(x)) > 1e-5L && fabsl(y - roundl(y)) > 1e-5L; int ix = (int)floorl(max(-9.L, min(99999.L, x))), iy = (int)floorl(max(-9.L, min(99999.L, y)));
        if (sure) { if (ix >= 0 && iy >= 0 && ix < w && iy < h) { hit[iy * w + ix].push_back({q.z, col}); } } else for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) if (ix + dx >= 0 && ix + dx < w && iy + dy >= 0 && iy + dy < h) maybe[(iy + dy) * w + ix + dx] = true;
    }
    for (int i = 0; i < w * h; i++) { if (maybe[i]) continue; int best = 0; ld z = 1e30L; bool tie = false; if (hit[i].size() > 1) multi = true; for (auto& q : hit[i]) { if (fabsl(q.first - z) < 1e-4L * z) tie = true; if (q.first < z) { if (q.first < z * (1 - 1e-4L)) tie = false; z = q.first; best = q.second; } } if (!tie) CHECK(buf[i] == best, "pixel", "pixel %d,%d is %x instead of %x", i % w, i / w, buf[i], best); }
    c.nontrivial = multi;
}
PROP(light, 120000, 2400000, 500, "two or more lights, one of them diffuse")
{
    int w = 9, h = 9; Cam cam = gen_cam(s, w, h); if (cam.zoom < 7.5) cam.zoom = 7.5; unique_ptr<int[]> buf(new int[(size_t)w * h]); Renderer r(buf.get(), w, h); if (s.chance(1, 3)) gen_cam(s, w, h).set(r); cam.set(r); int n = s.irange(0, 4), diffuse = 0; if (s.chance(1, 12)) n = s.chance(1, 30) ? s.irange(41, 600) : s.irange(5, 40); auto gc = [&]() { int k = s.pick({0xffffff, 0x808080, 0xff0000, 0x00ff00, 0x0000ff, 0, 1}); if (k == 1) k = (int)s.choice(1 << 24); if (s.chance(1, 6)) k |= (int)(s.choice(256) << 24); return k == -1 ? 0xffffff : k; };
    double z = s.uniform(1, 20); V3 l[3]; for (auto& q : l) q = V3{0, 0, 0}; // a triangle around the image, tilted
    double tx = s.real(-0.8, 0.8), ty = s.real(-0.8, 0.8); const double px[3] = {-40, 40, 0}, py[3] = {-30, -30, 60}; for (int i = 0; i < 3; i++) { double X = px[i] / cam.zoom, Y = py[i] / cam.zoom; double d = z / (1 + (tx * X + ty * Y) * 0.1); l[i] = V3{X * d, Y * d, d}; }
    Point3 p[3]; for (int i = 0; i < 3; i++) p[i] = cam.world(l[i]); V3 q0 = cam.local(p[0]), q1 = cam.local(p[1]), q2 = cam.local(p[2]); ld area = (cam.sx(q1) - cam.sx(q0)) * (cam.sy(q2) - cam.sy(q0)) - (cam.sx(q2) - cam.sx(q0)) * (cam.sy(q1) - cam.sy(q0)); bool two = s.boolean(), flip = two && s.boolean(); if ((area < 0) != flip) swap(p[1], p[2]);
    V3 nv = cross(v3(p[1]) - v3(p[0]), v3(p[2]) - v3(p[0])); nv = nv * (1 / len(nv)); int color = gc(), meshColor = s.pick({-1, gc()}), mode = (int)s.choice(4); int eff = mode == 0 ? color : mode == 1 ? color : meshColor; ld tot[3] = {0, 0, 0};
    for (int i = 0; i < n; i++) { int lc = gc(); double f = s.pick({1., s.real(0, 3), s.real(-1, 2), 256. / 255}); if (n > 4) f /= n / 4.; bool dif = s.boolean(); Point3 d = s.boolean() ? gen_axis(s) : gen_point(s, 3); if (dif) { r.add_diffuse_light(lc, f, d); diffuse++; } else r.add_ambient_light(lc, f); NOTE("%s light %06x factor %g %s", dif ? "diffuse" : "ambient", lc, f, dif ? ps(d).c_str() : ""); ld k = dif ? max((ld)0, dot(nv, v3(d))) : 1; for (int j = 0; j < 3; j++) tot[j] += ((eff >> (8 * j)) & 255) / 256.L * f * ((lc >> (8 * j)) & 255) / 256.L * k; }
    if (mode < 2 && s.boolean()) { r.set_background(0x0a0b0c); r.clear(); }
    if (mode == 0) r.draw_triangle_1color(p[0], p[1], p[2], color, two); else { Mesh m; for (auto& q : p) m.add_vertex(q); m.add_triangle(0, 1, 2); if (two && flip) { m.clear(); m.add_vertex(p[0]); m.add_vertex(p[2]); m.add_vertex(p[1]); m.add_triangle(0, 2, 1); } m.set_color(meshColor); if (flip) { r.draw_triangle_1color(p[0], p[1], p[2], eff, true); } else r.draw_mesh(m, false, mode == 1 ? color : -1); CHECK(m.get_color() == meshColor, "mesh", "drawing changed the mesh colour"); }
    int got = buf[4 * w + 4]; NOTE("%s, colour %06x, normal %Lg %Lg %Lg%s%s", cam.text().c_str(), eff & 0xffffff, nv.x, nv.y, nv.z, two ? ", two-sided" : "", mode ? ", mesh" : "");
    for (int j = 0; j < 3; j++) { ld e = tot[j] * 256; e = max((ld)0, min((ld)255, e)); int g = (got >> (8 * j)) & 255; CHECK(fabsl(g - e) <= 0.5001L, "channel", "channel %d is %d, %.9Lg expected (pixel %06x)", j, g, e, got); } CHECK((got & ~0xffffff) == 0, "range", "pixel is %x", got);
    c.nontrivial = n >= 2 && diffuse;
}
