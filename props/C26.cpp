// C26: rendering stays inside the image, ends, and only changes pixels the drawn shape can cover.
#include "render_common.hpp"
#include <ctime>
static double gen_z(pbt::Source& s, int kind) // depth before the camera
{
    switch (kind) { case 0: return s.real(0.5, 60); case 1: return s.real(0.01, 1); case 2: return -s.real(0.01, 60); case 3: return 0; case 4: return s.pick({1e-3, 1e-6, 2e-7, 4e-8, 1e-10, 1e-300, 5e-324}); case 5: return -s.pick({1e-3, 1e-6, 1e-10, 1e-300, 5e-324}); default: return s.pick({1e6, 1e20, 1e160, 1e300, -1e300}); }
}
static V3 gen_local(pbt::Source& s, const Cam& cam, int scene)
{
    int k = scene == 0 ? 0 : scene == 1 ? s.pick({2, 2, 5, 3}) : (int)s.choice(7); double z = gen_z(s, k); double az = max(fabs(z), 1e-3);
    if (s.chance(1, 8)) { double m = s.pick({0., 1e3, 1e7, 1e20, 1e160, 1e300}); return V3{s.pick({-1., 1., 0.}) * m, s.pick({-1., 1., 0.}) * m, z}; }
    if (z > 0 && s.chance(1, 10)) { double m = pow(10., s.uniform(3, 9)); return V3{s.real(-1, 1) * m / cam.zoom * z, s.real(-1, 1) * m / cam.zoom * z, z}; } // far out of the screen
    double r = s.pick({0.6, 2., 30.}); return V3{s.real(-1, 1) * r * cam.w / cam.zoom * az, s.real(-1, 1) * r * cam.h / cam.zoom * az, z};
}
struct Shape { vector<Point3> p; int kind; };
PROP(scenes, 180000, 3600000, 100, "a shape crosses the camera plane or an image edge, is behind, at the camera or huge")
{
    int w = s.weighted({1, 12}) == 0 ? 0 : s.sized(1, 60), h = s.weighted({1, 12}) == 0 ? 0 : s.sized(1, 40), bg = s.pick({0, 0xffffff, 0x123456}); if (s.chance(1, 60)) { w = s.irange(60, 700); if (s.boolean()) std::swap(w, h); } vector<int> guard; int* buf = new int[(size_t)w * h]; unique_ptr<int[]> own(buf); for (int i = 0; i < w * h; i++) buf[i] = 77;
    Renderer r(buf, w, h); for (int i = 0; i < w * h; i++) CHECK(buf[i] == 0, "new", "pixel %d of a new image is %d", i, buf[i]);
    Cam cam = gen_cam(s, w, h); int exact = s.boolean(); if (exact) { cam.ox = cam.oy = cam.oz = cam.yaw = cam.pitch = cam.roll = cam.ahead = 0; } bool noCam = s.chance(1, 20); if (!noCam) cam.set(r); int lights = s.irange(0, 2); if (lights > 0) r.add_ambient_light(0xffffff, 1.); if (lights > 1) r.add_diffuse_light(s.pick({0xffffff, 0xff0000}), s.real(-2, 2), gen_point(s, 2));
    r.set_background(bg); r.clear(); for (int i = 0; i < w * h; i++) CHECK(buf[i] == bg, "clear", "pixel %d is %x after clearing to %x", i, buf[i], bg);
    int n = s.irange(1, 5), scene = s.pick({0, 1, 2, 2}); NOTE("%s%s", cam.text().c_str(), noCam ? ", never set" : ""); vector<int> before(buf, buf + w * h);
    for (int k = 0; k < n; k++) {
        int kind = (int)s.choice(5); vector<Point3> p; vector<vector<int>> parts; int color = s.pick({0xff00ff, 0x808080, -1}); int np = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? s.irange(0, 4) : 3; bool two = s.boolean(); Mesh m; string name;
        bool dup = s.chance(1, 10); for (int i = 0; i < np; i++) { p.push_back(dup && i > 0 ? p[0] : cam.world(gen_local(s, cam, scene))); }
        if (kind == 4) { for (auto& q : p) m.add_vertex(q); m.add_triangle(0, 1, 2); if (s.boolean()) { Point3 q = cam.world(gen_local(s, cam, scene)); p.push_back(q); m.add_vertex(q); m.add_triangle(2, 1, 3); parts.push_back({2, 1, 3}); } parts.push_back({0, 1, 2}); if (s.chance(1, 4)) { m.unlink_triangle(0); parts.pop_back(); } if (s.boolean()) m.set_color(0x102030); }
        else if (kind == 3) parts.push_back({0, 1, 2}); else if (kind == 0) parts.push_back({0}); else for (int i = 1; i < np; i++) parts.push_back({i - 1, i});
        bool edges = s.boolean(), visible = false; auto draw = [&](Renderer& r) { switch (kind) { case 0: name = "pixel"; r.draw_pixel(p[0], color); break; case 1: name = "line"; r.draw_line(p[0], p[1], color); break; case 2: name = "polyline"; r.draw_polyline(p, color); break; case 3: name = two ? "two-sided triangle" : "triangle"; visible = r.draw_triangle_1color(p[0], p[1], p[2], color, two); break; default: name = edges ? "mesh with edges" : "mesh"; r.draw_mesh(m, edges, color); } }; timespec t0, t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
        draw(r);
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1); double cpu = (double)(t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
        string text = name; for (auto& q : p) text += " " + ps(q); NOTE("%s", text.c_str());
        if (cpu > 0.04) for (int again = 0; again < 6 && cpu > 0.04; again++) { // measured again, on its own: the fastest counts
                vector<int> b2((size_t)w * h); Renderer r2(b2.data(), w, h); if (!noCam) cam.set(r2); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0); draw(r2); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1); cpu = min(cpu, (double)(t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9); }
        CHECK(cpu < 0.04, "time", "drawing on %dx%d pixels took more than 0.04 s: %s", w, h, text.c_str());
        if (noCam) { before.assign(buf, buf + w * h); continue; }
        // what may change
        vector<vector<P2>> cover; bool amb = false, behind = true;
        for (auto& part : parts) {
            vector<V3> l; ld mag = 0; for (int i : part) { V3 q = cam.local(p[i]); l.push_back(q); mag = max(mag, fabsl(p[i].x()) + fabsl(p[i].y()) + fabsl(p[i].z()) + fabsl(cam.ox) + fabsl(cam.oy) + fabsl(cam.oz) + fabsl(cam.ahead)); }
            ld zmin = 1e300L; for (auto& q : l) { if (!cam.exact() && fabsl(q.z) < 1e-10L * mag) amb = true; if (q.z > 0) { behind = false; zmin = min(zmin, q.z); } if (mag > 1e100L || mag / max(fabsl(q.z), 1e-30L) > 1e15L) if (q.z > 0) amb = true; if (q.z > 0 && q.z < 1e-5L && !cam.exact()) amb = true; }
            if (zmin < 1e299L && !amb) cover.push_back(clip_project(cam, l, min(zmin, mag * 1e-9L)));
        }
        if (amb) { LABEL("no coverage decided"); before.assign(buf, buf + w * h); c.nontrivial = true; continue; }
        int changed = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (buf[y * w + x] != before[y * w + x]) { changed++; CHECK(!behind, "behind", "pixel %d,%d changed although the %s is behind the camera: %s", x, y, name.c_str(), text.c_str()); ld d = 1e30L; for (auto& q : cover) d = min(d, dist_poly(P2{(ld)x, (ld)y}, q)); CHECK(d <= (kind == 0 ? 1.01L : 2.0L), "covered", "pixel %d,%d changed, %Lg pixels away from the drawn %s", x, y, d, text.c_str()); }
        CHECK(!behind || !visible, "behind-visible", "a triangle behind the camera is said to be visible: %s", text.c_str()); CHECK(changed == 0 || kind != 3 || visible, "visible", "a triangle said not to be visible changed %d pixels: %s", changed, text.c_str());
        if (behind && !parts.empty()) { LABEL("behind"); c.nontrivial = true; } if (!behind) for (auto& q : cover) for (auto& v : q) if (v.x < 0 || v.y < 0 || v.x > w - 1 || v.y > h - 1) { c.nontrivial = true; } if (changed) LABEL("drawn");
        before.assign(buf, buf + w * h);
    }
    if (s.boolean()) { int bg2 = s.pick({bg, 0xabcdef}); r.set_background(bg2); r.clear(); for (int i = 0; i < w * h; i++) CHECK(buf[i] == bg2, "clear-again", "pixel %d is %x after clearing to %x", i, buf[i], bg2); 
        // nothing of the old depths remains
        if (w > 0 && h > 0 && !noCam) { Point3 far = cam.world(V3{0, 0, 1e5L}); r.draw_pixel(far, 0x55); CHECK(buf[(h / 2) * w + w / 2] == 0x55, "clear-depth", "a pixel drawn after clearing does not show"); } }
}
