// C20: OBJ files read back as the mesh that was written.
#include "file_common.hpp"
#include "OBJFile.h"
// the text of one written mesh or polyline, compared with what was written
struct Piece { vector<Point3> v; vector<Tri> t; bool line; int color; };
static void check_obj(pbt::Ctx& c, const string& text, const vector<Piece>& want)
{
    Obj o = parse_obj(text); CHECK(o.error.empty(), "malformed", "%s", o.error.c_str()); size_t nv = 0, nf = 0, nl = 0;
    for (auto& p : want) {
        CHECK(nv + p.v.size() <= o.v.size(), "vertices", "%zu vertices written, %zu in the file", nv + p.v.size(), o.v.size());
        for (size_t i = 0; i < p.v.size(); i++) {
            CHECK(close6(o.v[nv + i], p.v[i]), "vertex", "vertex %zu is %s in the file, not %s", nv + i, ps(o.v[nv + i]).c_str(), ps(p.v[i]).c_str());
            auto& k = o.color[nv + i]; if (p.color >= 0) { int r[3] = {p.color >> 16 & 255, p.color >> 8 & 255, p.color & 255}; for (int d = 0; d < 3; d++) CHECK(fabs(k[d] - r[d] / 255.) < 1e-5, "color", "colour %06x written as %g %g %g", p.color, k[0], k[1], k[2]); } else { CHECK(k[0] == -1, "color", "a colour was written for an uncoloured object"); }
        }
        if (p.line) {
            if (p.v.size() >= 2) { CHECK(nl < o.l.size(), "polyline", "polyline missing"); auto& l = o.l[nl++]; CHECK(l.v.size() == p.v.size(), "polyline", "polyline of %zu points has %zu references", p.v.size(), l.v.size()); for (size_t i = 0; i < l.v.size(); i++) CHECK(l.v[i] == (int)(nv + i), "polyline", "reference %zu is %d instead of %zu", i, l.v[i] + 1, nv + i + 1); }
        } else for (auto& t : p.t) { CHECK(nf < o.f.size(), "face", "%zu faces in the file", o.f.size()); auto& f = o.f[nf++]; CHECK(f.v.size() == 3, "face", "face with %zu corners", f.v.size()); Tri x = canon(Tri{f.v[0] - (int)nv, f.v[1] - (int)nv, f.v[2] - (int)nv}), y = canon(t); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "face", "face %zu is %d,%d,%d instead of %d,%d,%d", nf - 1, x.a, x.b, x.c, y.a, y.b, y.c); }
        nv += p.v.size();
    }
    CHECK(o.v.size() == nv && o.f.size() == nf && o.l.size() == nl, "extra", "%zu vertices, %zu faces, %zu lines in the file; %zu, %zu, %zu were written", o.v.size(), o.f.size(), o.l.size(), nv, nf, nl);
}
// every coordinate of the whole object, up to the largest and smallest numbers
static string gen_wide(pbt::Source& s, Mesh& m) { string w = gen_file_mesh(s, m); if (!s.chance(1, 6)) return w; double e = pow(10., s.pick({s.uniform(-30, 30), s.uniform(30, 45), s.uniform(-45, -30), s.uniform(45, 250), s.uniform(-250, -45)})); bool one = s.boolean(); int axis = (int)s.choice(3); for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); double q[3] = {p.x(), p.y(), p.z()}; for (int k = 0; k < 3; k++) if (!one || k == axis) q[k] *= e; m.set_vertex(i, Point3(q[0], q[1], q[2])); } return w + pbt::fmt(" times %g%s", e, one ? " along one axis" : ""); }
static Piece piece(const Mesh& m) { Soup so = soup_of(m); return Piece{so.v, so.t, false, m.get_color()}; }
PROP(round_trip, 40000, 800000, 200, "mesh has at least two triangles, one of them removed, or the target was not empty")
{
    Mesh m, n; string w = gen_wide(s, m); gen_dirty(s, n); bool dirty = n.nb_vertices() > 0; NOTE("%s: %d vertices, %d triangles%s", w.c_str(), m.nb_vertices(), m.nb_triangles(), dirty ? ", into a used mesh" : ""); string f = c.scratch + "a.obj";
    MeshState before = state_of(m); bool comma = s.chance(1, 8), ok; if (comma) NOTE("in a locale with decimal commas"); { UserLocale u(comma && s.boolean()); ok = OBJFile::save(f, m); } CHECK(ok, "save", "save failed"); string d = diff_state(state_of(m), before); CHECK(d.empty(), "input", "saving changed the mesh: %s", d.c_str()); string text; CHECK(read_file(f, text), "file", "no file"); check_obj(c, text, {piece(m)});
    { UserLocale u(comma); ok = OBJFile::load(f, n); } CHECK(ok, "load", "load of %s failed", w.c_str()); Soup a = soup_of(m), b = soup_of(n); CHECK(a.v.size() == b.v.size(), "loaded-vertices", "%zu vertices saved, %zu loaded", a.v.size(), b.v.size()); CHECK(a.t.size() == b.t.size() && n.nb_triangles() == (int)a.t.size(), "loaded-triangles", "%zu triangles saved, %zu loaded", a.t.size(), b.t.size());
    for (size_t i = 0; i < a.v.size(); i++) CHECK(close6(b.v[i], a.v[i]), "loaded-vertex", "vertex %zu saved as %s, loaded as %s", i, ps(a.v[i]).c_str(), ps(b.v[i]).c_str());
    for (size_t i = 0; i < a.t.size(); i++) { Tri x = canon(a.t[i]), y = canon(b.t[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "loaded-triangle", "triangle %zu saved as %d,%d,%d, loaded as %d,%d,%d", i, x.a, x.b, x.c, y.a, y.b, y.c); }
    { Mesh fresh; CHECK(OBJFile::load(f, fresh), "load", "second load failed"); fresh.set_color(n.get_color()); string d = diff_state(state_of(n), state_of(fresh)); CHECK(d.empty(), "leftover", "loading into a used mesh and into a new one differ: %s", d.c_str()); }
    // a second trip changes nothing
    string g = c.scratch + "b.obj"; CHECK(OBJFile::save(g, n), "save2", "second save"); Mesh k; CHECK(OBJFile::load(g, k), "load2", "second load"); Soup e = soup_of(k); CHECK(e.v.size() == b.v.size() && e.t.size() == b.t.size(), "stable", "sizes"); for (size_t i = 0; i < e.v.size(); i++) CHECK(same_bits(e.v[i], b.v[i]), "stable", "vertex %zu changes in the second trip", i);
    c.nontrivial = (m.nb_triangles() >= 2 && (int)a.t.size() < m.nb_triangles()) || dirty;
}
PROP(writer, 32000, 640000, 200, "a file with two or more objects, or a second file from the same writer")
{
    map<string, vector<Piece>> files; string cur; int opened = 0; size_t most = 0;
    {
        UserLocale u(s.chance(1, 8)); OBJWriter w; int n = s.sized(2, 14);
        for (int i = 0; i < n; i++) switch (i == 0 ? 0 : s.choice(6)) {
            case 0: case 1: { if (!cur.empty() && s.chance(3, 4)) { } else { string f = c.scratch + (s.boolean() ? "a.obj" : "b.obj"); if (!cur.empty()) NOTE("open without closing"); w.open(f); NOTE("open %s", f.substr(f.size() - 5).c_str()); CHECK(w.is_open(), "open", "not open"); cur = f; files[f].clear(); opened++; break; } }
            // fallthrough
            case 2: case 3: { if (cur.empty()) break; Mesh m; string d = gen_wide(s, m); NOTE("write %s (%d vertices)", d.c_str(), m.nb_vertices()); w.write(m); files[cur].push_back(piece(m)); break; }
            case 4: { if (cur.empty()) break; vector<Point3> p; int k = s.chance(1, 30) ? s.irange(7, 300) : s.irange(0, 6); for (int j = 0; j < k; j++) p.push_back(!p.empty() && s.chance(1, 12) ? p[s.choice(p.size())] : gen_point(s, 10.)); if (k > 1 && s.chance(1, 3)) p[k - 1] = p[0]; NOTE("write polyline of %d", k); w.write(p); files[cur].push_back(Piece{p, {}, true, -1}); break; }
            default: if (s.boolean()) break; w.close(); NOTE("close"); CHECK(!w.is_open(), "close", "still open"); cur.clear(); break;
            }
    }
    for (auto& f : files) { string text; CHECK(read_file(f.first, text), "file", "no file"); check_obj(c, text, f.second); most = max(most, f.second.size());
        // the loader reads it too: all vertices, the triangles of the meshes
        Mesh m; CHECK(OBJFile::load(f.first, m), "load", "the loader refuses the file"); size_t nv = 0; vector<Tri> t; for (auto& p : f.second) { for (auto x : p.t) t.push_back(Tri{x.a + (int)nv, x.b + (int)nv, x.c + (int)nv}); nv += p.v.size(); } Soup so = soup_of(m); CHECK(so.v.size() == nv && so.t.size() == t.size(), "load-sizes", "%zu vertices %zu triangles loaded, %zu and %zu written", so.v.size(), so.t.size(), nv, t.size()); for (size_t i = 0; i < t.size(); i++) { Tri x = canon(t[i]), y = canon(so.t[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "load-triangle", "triangle %zu", i); } }
    c.nontrivial = most >= 2 || opened >= 2;
}
PROP(syntax, 64000, 1280000, 500, "a face with more than three corners, or with slashes, or negative references")
{
    string t, eol = s.boolean() ? "\n" : "\r\n"; vector<Point3> v; vector<vector<int>> faces; bool neg = false, slash = false, poly = false; int bad = 0; int n = s.irange(1, 4), nt = 0, nn = 0; auto num = [&](double x) { return s.boolean() ? pbt::fmt("%g", x) : s.chance(1, 6) ? pbt::fmt("%.7e", x) : s.chance(1, 8) ? pbt::fmt("%.17g", x) : pbt::fmt("%.6f", x); };
    if (s.boolean()) t += "# made by hand" + eol + "mtllib x.mtl" + eol + eol; if (s.boolean()) t += "o thing" + eol;
    if (s.chance(1, 150)) { int pre = s.pick({s.irange(90, 1100), s.irange(9990, 10010), s.irange(32760, 33000), s.irange(65530, 66000)}); for (int i = 0; i < pre; i++) { v.push_back(Point3(i % 10, i % 7, i % 3)); t += pbt::fmt("v %d %d %d", i % 10, i % 7, i % 3) + eol; } } // references of several digits
    for (int i = 0; i < n; i++) {
        int k = s.chance(1, 40) ? s.irange(8, 300) : s.irange(3, 7), base = (int)v.size(); double r = s.irange(1, 5), a0 = s.uniform(0, 6.28), z = s.irange(-3, 3);
        for (int j = 0; j < k; j++) { double a = a0 + 2 * PI_ * j / k; Point3 p(r * cos(a), r * sin(a), z); v.push_back(p); t += (s.chance(1, 12) ? "v\t" : s.chance(1, 12) ? " v " : s.chance(1, 4) ? "v  " : "v ") + num(p.x()) + " " + num(p.y()) + " " + num(p.z()) + (s.chance(1, 6) ? " 1.0" : s.chance(1, 6) ? " 0.5 0.5 0.5" : "") + eol; if (s.chance(1, 4)) { t += "vt 0.5 0.25" + eol; nt++; } if (s.chance(1, 4)) { t += "vn 0 0 1" + eol; nn++; } if (s.chance(1, 12)) t += "# v 9 9 9" + eol; }
        if (s.boolean()) t += "s off" + eol; if (s.boolean()) t += "usemtl f" + eol; if (s.chance(1, 6)) t += "l 1 2" + eol;
        int nf = s.irange(1, 2);
        for (int q = 0; q < nf; q++) {
            int form = (int)s.choice(4); bool ng = s.chance(1, 3); int kk = s.boolean() ? k : s.irange(3, k); vector<int> f; string l = "f"; slash |= form > 0; neg |= ng; poly |= kk > 3; if (nt == 0) { if (form == 1 || form == 3) t += "vt 0.5 0.5" + eol, nt++; } if (nn == 0) { if (form >= 2) t += "vn 0 0 1" + eol, nn++; }
            for (int j = 0; j < kk; j++) { int id = base + j; f.push_back(id); int ref = ng ? id - (int)v.size() : id + 1; l += s.chance(1, 8) ? "  " : s.chance(1, 12) ? "\t" : " "; l += to_string(ref); if (form == 1) l += pbt::fmt("/%d", 1 + (int)s.choice(nt)); if (form == 2) l += pbt::fmt("//%d", 1 + (int)s.choice(nn)); if (form == 3) l += pbt::fmt("/%d/%d", 1 + (int)s.choice(nt), 1 + (int)s.choice(nn)); }
            faces.push_back(f); t += l + (s.chance(1, 6) ? " " : s.chance(1, 12) ? "\t" : s.chance(1, 12) ? " # note" : "") + eol;
        }
    }
    if (s.chance(1, 6)) { bad = 1; string ref = s.chance(1, 3) ? s.pick<string>({"4294967297", "4294967298", "-4294967295", "2147483648", "-2147483649", "65537", "18446744073709551617", "36893488147419103234", "99999999999999999999999"}) : to_string(s.pick({0, (int)v.size() + 1, -(int)v.size() - 1, 1000000, (int)v.size() + 5})); if (ref == "65537" && v.size() > 60000) ref = "165537"; string l = s.boolean() ? "f 1 2 " + ref : s.boolean() ? "f " + ref + "/1 2/1 3/1" : "f 1 2 3 " + ref; t += l + eol; NOTE("bad face: %s", l.c_str()); }
    if (s.boolean()) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    NOTE("%s", t.size() > 4000 ? (t.substr(0, 100) + "...").c_str() : t.c_str()); string f = c.scratch + "s.obj"; write_file(f, t); Mesh m; gen_dirty(s, m); bool ok = OBJFile::load(f, m);
    if (bad) { CHECK(!ok, "bad-reference", "a file with a reference to a vertex that does not exist was read"); return; }
    if (!ok) { CHECK(neg, "refused", "a well-formed file was refused"); LABEL("negative references refused"); return; }
    Soup so = soup_of(m); CHECK(so.v.size() == v.size(), "vertices", "%zu vertices instead of %zu", so.v.size(), v.size()); for (size_t i = 0; i < v.size(); i++) CHECK(near3(so.v[i], v[i], 1e-4), "vertex", "vertex %zu is %s instead of %s", i, ps(so.v[i]).c_str(), ps(v[i]).c_str());
    size_t o = 0; for (auto& fc : faces) { vector<Tri> tri; for (size_t j = 2; j < fc.size(); j++) { CHECK(o < so.t.size(), "faces", "only %zu triangles", so.t.size()); tri.push_back(so.t[o++]); } auto b = boundary_of(tri); map<pair<int, int>, int> e; for (size_t j = 0; j < fc.size(); j++) { int a = fc[j], d = fc[(j + 1) % fc.size()]; if (a < d) e[{a, d}]++; else e[{d, a}]--; } CHECK(b == e, "face", "the triangles of a face with %zu corners do not fill it", fc.size()); }
    CHECK(o == so.t.size(), "extra-faces", "%zu triangles instead of %zu", so.t.size(), o); c.nontrivial = slash || neg || poly;
}
// many vertices, in one or several meshes of one file
PROP(many, 24, 480, 1, "more than 1000 triangles")
{
    string f = c.scratch + "l.obj", text; vector<Piece> want; bool single = s.boolean(); int n = single ? 1 : s.irange(2, 4); size_t nt = 0, nv = 0; { UserLocale u(s.chance(1, 3)); OBJWriter w; if (!single) { w.open(f); CHECK(w.is_open(), "open", "not open"); } for (int i = 0; i < n; i++) { Mesh m; MeshState r; string d = gen_large(s, m, r, single ? 130000 : 40000); if (s.boolean()) m.set_color(0x102030); NOTE("%s", d.c_str()); if (single) CHECK(OBJFile::save(f, m), "save", "not saved: %s", d.c_str()); else w.write(m); want.push_back(piece(m)); nt += want.back().t.size(); nv += want.back().v.size(); } }
    CHECK(read_file(f, text), "file", "no file"); check_obj(c, text, want); Mesh b; gen_dirty(s, b); CHECK(OBJFile::load(f, b), "load", "not loaded"); Soup so = soup_of(b); CHECK(so.v.size() == nv && so.t.size() == nt, "load-sizes", "%zu vertices %zu triangles loaded, %zu and %zu written", so.v.size(), so.t.size(), nv, nt); size_t v0 = 0, t0 = 0; for (auto& p : want) { for (size_t i = 0; i < p.v.size(); i++) CHECK(close6(so.v[v0 + i], p.v[i]), "loaded-vertex", "vertex %zu is %s instead of %s", v0 + i, ps(so.v[v0 + i]).c_str(), ps(p.v[i]).c_str()); for (size_t i = 0; i < p.t.size(); i++) { Tri x = canon(so.t[t0 + i]), y = canon(p.t[i]); CHECK(x.a == y.a + (int)v0 && x.b == y.b + (int)v0 && x.c == y.c + (int)v0, "loaded-triangle", "triangle %zu", t0 + i); } v0 += p.v.size(); t0 += p.t.size(); }
    c.nontrivial = nt > 1000;
}
