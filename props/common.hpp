// Generators and oracles shared by several harnesses.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include "Geometry.h"
#include "Mesh.h"
using namespace std;
typedef long double ld;

static const double PI_ = 3.14159265358979323846;

inline string ps(const Point3& p) { return pbt::fmt("(%.17g,%.17g,%.17g)", p.x(), p.y(), p.z()); }
inline double maxabs(const Point3& p) { return max(fabs(p.x()), max(fabs(p.y()), fabs(p.z()))); }
inline bool same_bits(const Point3& a, const Point3& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
inline bool finite3(const Point3& p) { return std::isfinite(p.x()) && std::isfinite(p.y()) && std::isfinite(p.z()); }
inline double dist(const Point3& a, const Point3& b) { return sqrt((double)((ld)(a.x() - b.x()) * (a.x() - b.x()) + (ld)(a.y() - b.y()) * (a.y() - b.y()) + (ld)(a.z() - b.z()) * (a.z() - b.z()))); }
// NaN-safe closeness
inline bool near3(const Point3& a, const Point3& b, double tol) { return fabs(a.x() - b.x()) <= tol && fabs(a.y() - b.y()) <= tol && fabs(a.z() - b.z()) <= tol; }
inline bool nearv(double a, double b, double tol) { return fabs(a - b) <= tol; }

inline Point3 gen_point(pbt::Source& s, double r) { double x = s.real(-r, r), y = s.real(-r, r), z = s.real(-r, r); return Point3(x, y, z); }
// a point that is not special in any way
inline Point3 gen_point_u(pbt::Source& s, double r) { double x = s.uniform(-r, r), y = s.uniform(-r, r), z = s.uniform(-r, r); return Point3(x, y, z); }

// plain vector helpers in long double, independent of the code under test
struct V3 { ld x, y, z; };
inline V3 v3(const Point3& p) { return V3{(ld)p.x(), (ld)p.y(), (ld)p.z()}; }
inline V3 operator+(V3 a, V3 b) { return V3{a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return V3{a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, ld k) { return V3{a.x * k, a.y * k, a.z * k}; }
inline ld dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return V3{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld len(V3 a) { return sqrtl(dot(a, a)); }
inline Point3 p3(V3 a) { return Point3((double)a.x, (double)a.y, (double)a.z); }
inline bool near3(const Point3& a, V3 b, double tol) { return fabsl(a.x() - b.x) <= tol && fabsl(a.y() - b.y) <= tol && fabsl(a.z() - b.z) <= tol; }

// ---- plain triangle soup read out of a mesh through its public interface -----------------------
struct Tri { int a, b, c; };
struct Soup { vector<Point3> v; vector<Tri> t; };
inline Soup soup_of(const Mesh& m)
{
    Soup s; Point3 p;
    for (int i = 0; i < m.nb_vertices(); i++) { m.get_vertex(i, p); s.v.push_back(p); }
    for (int i = 0; i < m.nb_triangles(); i++) if (!m.is_triangle_unlinked(i)) { Tri t; m.get_triangle_vertices(i, t.a, t.b, t.c); s.t.push_back(t); }
    return s;
}
inline Tri canon(Tri t) { Tri r = t; for (int k = 0; k < 2; k++) { t = Tri{t.b, t.c, t.a}; if (make_tuple(t.a, t.b, t.c) < make_tuple(r.a, r.b, r.c)) r = t; } return r; } // the smallest rotation, also when ids repeat
inline ld soup_volume(const Soup& s) { ld v = 0; for (auto& t : s.t) v += dot(v3(s.v[t.a]), cross(v3(s.v[t.b]), v3(s.v[t.c]))); return v / 6; }
inline V3 tri_area_vec(const Soup& s, const Tri& t) { return cross(v3(s.v[t.b]) - v3(s.v[t.a]), v3(s.v[t.c]) - v3(s.v[t.a])) * 0.5L; }
inline ld soup_area(const Soup& s) { ld v = 0; for (auto& t : s.t) v += len(tri_area_vec(s, t)); return v; }
inline bool indices_valid(const Soup& s) { int n = (int)s.v.size(); for (auto& t : s.t) if (t.a < 0 || t.b < 0 || t.c < 0 || t.a >= n || t.b >= n || t.c >= n) return false; return true; }

// weld vertices closer than tol (grid-free, quadratic for small, hashed for large)
inline vector<int> weld(const vector<Point3>& v, double tol)
{
    vector<int> id(v.size(), -1);
    map<array<long long, 3>, vector<int>> g; double cell = tol * 4;
    for (size_t i = 0; i < v.size(); i++) {
        array<long long, 3> k = {(long long)floor(v[i].x() / cell), (long long)floor(v[i].y() / cell), (long long)floor(v[i].z() / cell)};
        int found = -1;
        for (int dx = -1; dx <= 1 && found < 0; dx++) for (int dy = -1; dy <= 1 && found < 0; dy++) for (int dz = -1; dz <= 1 && found < 0; dz++) {
            auto it = g.find({k[0] + dx, k[1] + dy, k[2] + dz});
            if (it != g.end()) for (int j : it->second) if (dist(v[i], v[j]) <= tol) { found = id[j]; break; }
        }
        if (found >= 0) id[i] = found; else { id[i] = (int)i; g[k].push_back((int)i); }
    }
    return id;
}
struct Manifold { bool closed; bool oriented; int degenerate; string why; };
// each directed edge of the welded surface exactly once, and its reverse exactly once
inline Manifold check_closed(const Soup& s, const vector<int>& id)
{
    Manifold r{true, true, 0, ""};
    map<pair<int, int>, int> e;
    for (auto& t : s.t) {
        int a = id[t.a], b = id[t.b], c = id[t.c];
        if (a == b || b == c || a == c) { r.degenerate++; continue; }
        e[{a, b}]++; e[{b, c}]++; e[{c, a}]++;
    }
    for (auto& x : e) {
        auto it = e.find({x.first.second, x.first.first}); int rev = it == e.end() ? 0 : it->second;
        if (x.second != 1) { r.oriented = false; if (r.why.empty()) r.why = pbt::fmt("edge %d->%d used %d times", x.first.first, x.first.second, x.second); }
        if (rev != x.second) { r.closed = false; if (r.why.empty()) r.why = pbt::fmt("edge %d->%d used %d times, reverse %d times", x.first.first, x.first.second, x.second, rev); }
    }
    return r;
}
