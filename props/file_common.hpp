#pragma once
#include "mesh_common.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
inline bool read_file(const string& path, string& out)
{
    out.clear(); int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n); close(fd); return n == 0;
}
inline void write_file(const string& path, const string& data) { int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < data.size()) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) break; o += n; } close(fd); }
// another locale for the program, as a user's settings may have it: 1.234,5
#include <locale>
struct CommaNumbers : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct UserLocale { std::locale old; UserLocale(bool on) { if (on) std::locale::global(std::locale(std::locale::classic(), new CommaNumbers)); } ~UserLocale() { std::locale::global(old); } };
// a mesh whose coordinates have all magnitudes
inline string gen_file_mesh(pbt::Source& s, Mesh& m, double maxExp = 30)
{
    string w; if (s.chance(1, 12)) { m.clear(); if (s.boolean()) m.add_vertex(gen_point(s, 3.)); return "no triangles"; }
    w = s.boolean() ? gen_open(s, m) : gen_closed(s, m);
    if (s.chance(1, 3)) { int k = (int)s.irange(1, 4); for (int i = 0; i < k; i++) { double e = pow(10., s.uniform(-maxExp, maxExp)); m.set_vertex((int)s.choice(m.nb_vertices()), gen_point(s, 1.) * e); } w += " with large and small coordinates"; }
    if (s.boolean()) { unlink_some(s, m, 4); w += " with removed triangles"; }
    if (s.boolean()) m.set_color(s.chance(1, 6) ? s.pick({0, 1, 255, 0xff00, 0xff0000, 0xffffff}) : (int)s.choice(1 << 24));
    return w;
}
inline void gen_dirty(pbt::Source& s, Mesh& m) { switch (s.choice(4)) { case 0: break; case 1: gen_open(s, m); unlink_some(s, m); break; case 2: gen_closed(s, m); m.set_color(0x123456); break; default: m.add_vertex(1, 2, 3); } }
// corners of the existing triangles, in order
struct Corners { V3 p[3]; };
inline vector<Corners> corners_of(const Mesh& m) { vector<Corners> r; Soup so = soup_of(m); for (auto& t : so.t) r.push_back(Corners{{v3(so.v[t.a]), v3(so.v[t.b]), v3(so.v[t.c])}}); return r; }
// ---- a small OBJ reader, independent of the library
struct ObjFace { vector<int> v; }; // zero-based
struct Obj { vector<Point3> v; vector<array<double, 3>> color; vector<ObjFace> f, l; string error; };
inline Obj parse_obj(const string& text)
{
    Obj o; size_t p = 0; int line = 0; if (!text.empty() && text.back() != '\n') o.error = "the last line is not complete";
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == string::npos) e = text.size(); string l = text.substr(p, e - p); p = e + 1; line++;
        istringstream ss(l); string ty; if (!(ss >> ty) || ty[0] == '#') continue;
        if (ty == "v") { vector<double> x; string w; while (ss >> w) { char* q; x.push_back(strtod(w.c_str(), &q)); if (*q) o.error = pbt::fmt("line %d: bad number %s", line, w.c_str()); } if (x.size() != 3 && x.size() != 6) { o.error = pbt::fmt("line %d: vertex with %zu numbers", line, x.size()); return o; } o.v.push_back(Point3(x[0], x[1], x[2])); o.color.push_back(x.size() == 6 ? array<double, 3>{x[3], x[4], x[5]} : array<double, 3>{-1, -1, -1}); }
        else if (ty == "f" || ty == "l") {
            ObjFace f; string w; while (ss >> w) { char* q; long k = strtol(w.c_str(), &q, 10); if (q == w.c_str() || (*q && *q != '/')) { o.error = pbt::fmt("line %d: bad reference %s", line, w.c_str()); return o; } if (k < 0) k += (long)o.v.size() + 1; if (k < 1 || k > (long)o.v.size()) { o.error = pbt::fmt("line %d: reference %ld while %zu vertices are defined", line, k, o.v.size()); return o; } f.v.push_back((int)k - 1); }
            if (f.v.size() < (ty == "f" ? 3u : 2u)) { o.error = pbt::fmt("line %d: %s with %zu references", line, ty.c_str(), f.v.size()); return o; }
            (ty == "f" ? o.f : o.l).push_back(f);
        }
    }
    return o;
}
inline bool close6(double a, double b) { return fabs(a - b) <= 5.1e-6 * fabs(b) || a == b; } // six significant digits
inline bool close6(const Point3& a, const Point3& b) { return close6(a.x(), b.x()) && close6(a.y(), b.y()) && close6(a.z(), b.z()); }
