#pragma once
#include "common.hpp"
#include "Transform.h"
#include <memory>
// a transform together with its meaning computed independently (long double)
struct GenTransform { shared_ptr<Transform> t; function<V3(V3)> ref; string text; double mag = 1, shift = 0; int kind = 0; };
inline V3 rodrigues(V3 p, V3 axis, ld deg) { ld a = deg * 3.14159265358979323846264L / 180; V3 k = axis * (1 / len(axis)); return p * cosl(a) + cross(k, p) * sinl(a) + k * (dot(k, p) * (1 - cosl(a))); }
// angles are in degrees, axes are unit vectors (as every caller gives them)
inline double gen_angle(pbt::Source& s) { return s.weighted({1, 2, 3}) == 0 ? 0. : s.boolean() ? s.irange(-16, 16) * 45. : s.chance(1, 12) ? pow(10., s.uniform(-6, -1)) * (s.boolean() ? 1 : -1) : s.uniform(-720, 720); }
inline Point3 gen_axis(pbt::Source& s)
{
    if (s.chance(1, 3)) return s.pick({Point3(0, 0, 1), Point3(1, 0, 0), Point3(0, 1, 0), Point3(0, 0, -1), Point3(-1, 0, 0), Point3(0, -1, 0)});
    Point3 a = gen_point(s, 1.); V3 v = v3(a); if (len(v) < 1e-3L) return Point3(0, 0, 1);
    return p3(v * (1 / len(v)));
}
inline GenTransform gen_transform(pbt::Source& s)
{
    GenTransform g; g.kind = (int)s.choice(6);
    switch (g.kind) {
    case 0: case 1: { Point3 d = g.kind == 0 ? Point3(0, 0, 0) : gen_point(s, 1.) * s.pick({1., 100., 1e4}); g.t = make_shared<Translation>(d); V3 e = v3(d); g.ref = [e](V3 p) { return p + e; }; g.shift = maxabs(d); g.text = "translation " + ps(d); break; }
    case 2: { double x = s.real(-3, 3), y = s.real(-3, 3), z = s.real(-3, 3); if (s.chance(1, 4)) { double f = s.pick({1e6, 1e-6, 1e9}); (s.boolean() ? x : s.boolean() ? y : z) *= f; } g.t = make_shared<Scale>(x, y, z); g.ref = [=](V3 p) { return V3{p.x * x, p.y * y, p.z * z}; }; g.mag = max(1., max(fabs(x), max(fabs(y), fabs(z)))); g.text = pbt::fmt("scale %g %g %g", x, y, z); break; }
    case 3: { double a = gen_angle(s); Point3 ax = gen_axis(s); g.t = make_shared<RotationAngleAxis>(a, ax); V3 e = v3(ax); g.ref = [=](V3 p) { return rodrigues(p, e, a); }; g.mag = 4; g.text = pbt::fmt("angle-axis %g about ", a) + ps(ax); break; }
    case 4: { double a = gen_angle(s); Point3 ax = gen_axis(s); auto r = make_shared<RotationMatrix>(); r->from_angle_axis(a, ax); g.t = r; V3 e = v3(ax); g.ref = [=](V3 p) { return rodrigues(p, e, a); }; g.mag = 4; g.text = pbt::fmt("matrix %g about ", a) + ps(ax); break; }
    default: { double a = gen_angle(s); Point3 ax = gen_axis(s); auto r = make_shared<RotationQuaternion>(); r->from_angle_axis(a, ax); g.t = r; V3 e = v3(ax); g.ref = [=](V3 p) { return rodrigues(p, e, a); }; g.mag = 4; g.text = pbt::fmt("quaternion %g about ", a) + ps(ax); break; }
    }
    return g;
}
