#pragma once
#include "transform_common.hpp"
#include "Renderer.h"
#include "RendererCamera.h"
// the camera, computed independently: yaw about y, then pitch about x, then roll about z, screen y down, then ahead
struct Cam {
    double ox = 0, oy = 0, oz = 0, ahead = 0, yaw = 0, pitch = 0, roll = 0, zoom = 100; int w = 1, h = 1;
    V3 rot(V3 p) const { p = rodrigues(p, V3{0, 1, 0}, yaw); p = rodrigues(p, V3{1, 0, 0}, pitch); return rodrigues(p, V3{0, 0, 1}, roll); }
    V3 irot(V3 p) const { p = rodrigues(p, V3{0, 0, 1}, -roll); p = rodrigues(p, V3{1, 0, 0}, -pitch); return rodrigues(p, V3{0, 1, 0}, -yaw); }
    bool exact() const { return ox == 0 && oy == 0 && oz == 0 && yaw == 0 && pitch == 0 && roll == 0; }
    V3 local(const Point3& p) const { V3 q = v3(p) - V3{ox, oy, oz}; if (yaw != 0 || pitch != 0 || roll != 0) q = rot(q); return V3{q.x, -q.y, q.z + ahead}; }
    Point3 world(V3 l) const { V3 q{l.x, -l.y, l.z - ahead}; if (yaw != 0 || pitch != 0 || roll != 0) q = irot(q); return p3(q + V3{ox, oy, oz}); }
    ld sx(V3 l) const { return l.x * zoom / l.z + w / 2; }
    ld sy(V3 l) const { return l.y * zoom / l.z + h / 2; }
    void set(Renderer& r) const { r.set_camera(ox, oy, oz, ahead, yaw, pitch, roll, zoom); }
    string text() const { return pbt::fmt("%dx%d pixels, camera at (%g,%g,%g), ahead %g, angles %g %g %g, zoom %g", w, h, ox, oy, oz, ahead, yaw, pitch, roll, zoom); }
};
inline Cam gen_cam(pbt::Source& s, int w, int h)
{
    Cam c; c.w = w; c.h = h; c.zoom = s.chance(1, 10) ? pow(10., s.uniform(0, 3.5)) : s.pick({10., 30., 100., 7.5});
    if (s.chance(2, 3)) { c.ox = s.real(-20, 20); c.oy = s.real(-20, 20); c.oz = s.real(-20, 20); }
    if (s.chance(1, 2)) c.ahead = s.real(-10, 30);
    if (s.chance(1, 8)) { double k = pow(10., s.uniform(0.5, 3)); c.ox *= k; c.oy *= k; c.oz *= k; if (c.ahead > 0) c.ahead *= s.pick({1., k}); }
    if (s.chance(2, 3)) { c.yaw = gen_angle(s); c.pitch = gen_angle(s); c.roll = gen_angle(s); }
    return c;
}
struct P2 { ld x, y; };
// distance of a point to a convex polygon, inside is 0 (any orientation, also one or two corners)
inline ld dist_poly(P2 p, const vector<P2>& q)
{
    if (q.empty()) return 1e30L; ld best = 1e30L; bool pos = false, neg = false; size_t n = q.size();
    for (size_t i = 0; i < n; i++) {
        P2 a = q[i], b = q[(i + 1) % n]; ld ex = b.x - a.x, ey = b.y - a.y, l2 = ex * ex + ey * ey, t = l2 > 0 ? ((p.x - a.x) * ex + (p.y - a.y) * ey) / l2 : 0; t = max((ld)0, min((ld)1, t));
        best = min(best, hypotl(p.x - a.x - t * ex, p.y - a.y - t * ey)); ld cr = ex * (p.y - a.y) - ey * (p.x - a.x); if (cr > 0) pos = true; if (cr < 0) neg = true;
    }
    if (n >= 3 && pos != neg) return 0; return best;
}
// the part of a convex shape before the camera (z >= zn), as seen on the screen
inline vector<P2> clip_project(const Cam& c, const vector<V3>& l, ld zn)
{
    vector<V3> o; size_t n = l.size();
    for (size_t i = 0; i < n; i++) { V3 a = l[i], b = l[(i + 1) % n]; if (a.z >= zn) o.push_back(a); if ((a.z >= zn) != (b.z >= zn)) { ld t = (zn - a.z) / (b.z - a.z); V3 m = a + (b - a) * t; m.z = zn; o.push_back(m); } }
    vector<P2> r; for (auto& v : o) r.push_back(P2{c.sx(v), c.sy(v)}); return r;
}
