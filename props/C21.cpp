// C21: STL files read back as the triangles that were written.
#include "file_common.hpp"
#include "STLFile.h"
static float fl(const string& t, size_t o) { float f; memcpy(&f, t.data() + o, 4); return f; }
static void put4(string& t, const void* p) { t.append((const char*)p, 4); }
static void same_triangles(pbt::Ctx& c, const Mesh& n, const vector<array<float, 9>>& want, const char* when)
{
    auto got = corners_of(n); CHECK(got.size() == want.size() && n.nb_triangles() == (int)want.size(), "loaded-count", "%s: %zu triangles instead of %zu", when, got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) { bool ok = false; for (int r = 0; r < 3 && !ok; r++) { ok = true; for (int k = 0; k < 3; k++) { V3 p = got[i].p[(k + r) % 3]; if (p.x != want[i][3 * k] || p.y != want[i][3 * k + 1] || p.z != want[i][3 * k + 2]) ok = false; } } CHECK(ok, "loaded-triangle", "%s: triangle %zu starts at %s instead of (%g,%g,%g), or has other corners", when, i, ps(p3(got[i].p[0])).c_str(), want[i][0], want[i][1], want[i][2]); }
}
PROP(round_trip, 125000, 2500000, 300, "mesh has at least two triangles, one of them removed, or the target was not empty")
{
    Mesh m, n; string w = gen_file_mesh(s, m); gen_dirty(s, n); bool dirty = n.nb_vertices() > 0; NOTE("%s: %d vertices, %d triangles%s", w.c_str(), m.nb_vertices(), m.nb_triangles(), dirty ? ", into a used mesh" : ""); string f = c.scratch + "a.stl", text;
    MeshState before = state_of(m); CHECK(STLFile::save(f, m), "save", "save failed"); string d = diff_state(state_of(m), before); CHECK(d.empty(), "input", "saving changed the mesh: %s", d.c_str()); CHECK(read_file(f, text), "file", "no file");
    Soup so = soup_of(m); vector<array<float, 9>> want; for (auto& t : so.t) { array<float, 9> a; int k = 0; for (int id : {t.a, t.b, t.c}) { a[k++] = (float)so.v[id].x(); a[k++] = (float)so.v[id].y(); a[k++] = (float)so.v[id].z(); } want.push_back(a); }
    CHECK(text.size() == 84 + 50 * want.size(), "size", "%zu bytes for %zu facets", text.size(), want.size()); uint32_t cnt; memcpy(&cnt, text.data() + 80, 4); CHECK(cnt == want.size(), "count", "the header counts %u facets, there are %zu", cnt, want.size()); CHECK(text.compare(0, 5, "solid") != 0, "header", "the header is the one of a text file");
    for (size_t i = 0; i < want.size(); i++) {
        size_t o = 84 + 50 * i + 12; array<float, 9> g; for (int k = 0; k < 9; k++) g[k] = fl(text, o + 4 * k); bool ok = false; for (int r = 0; r < 3 && !ok; r++) { ok = true; for (int k = 0; k < 9; k++) if (g[(k + 3 * r) % 9] != want[i][k]) ok = false; } CHECK(ok, "facet", "facet %zu is (%g,%g,%g)... instead of (%g,%g,%g)...", i, g[0], g[1], g[2], want[i][0], want[i][1], want[i][2]);
        float nx = fl(text, o - 12), ny = fl(text, o - 8), nz = fl(text, o - 4); if (nx == 0 && ny == 0 && nz == 0) continue; // zero: to be computed by the reader
        V3 a{g[0], g[1], g[2]}, b{g[3], g[4], g[5]}, e{g[6], g[7], g[8]}, x = cross(b - a, e - a); ld l = len(x), lim = len(b - a) * len(e - a); if (l < 1e-4L * lim || l < 1e-30L) continue; CHECK(near3(Point3(nx, ny, nz), x * (1 / l), 1e-3), "normal", "facet %zu has the normal (%g,%g,%g)", i, nx, ny, nz);
    }
    CHECK(STLFile::load(f, n), "load", "load failed"); same_triangles(c, n, want, "loaded"); { Mesh fresh; CHECK(STLFile::load(f, fresh), "load", "second load failed"); fresh.set_color(n.get_color()); d = diff_state(state_of(n), state_of(fresh)); CHECK(d.empty(), "leftover", "loading into a used mesh and into a new one differ: %s", d.c_str()); } string g = c.scratch + "b.stl", text2; CHECK(STLFile::save(g, n) && read_file(g, text2), "save2", "second save failed"); CHECK(text2.size() == text.size() && text2.substr(80, 4) == text.substr(80, 4), "stable", "saving the loaded mesh gives another file"); for (size_t i = 0; i < want.size(); i++) CHECK(!text2.compare(84 + 50 * i + 12, 38, text, 84 + 50 * i + 12, 38), "stable", "saving the loaded mesh gives another facet %zu", i);
    c.nontrivial = (m.nb_triangles() >= 2 && (int)so.t.size() < m.nb_triangles()) || dirty;
}
// files written by others: any header, normals and attributes
PROP(foreign, 100000, 2000000, 500, "at least two facets")
{
    int n = s.sized(0, 20); string t; for (int i = 0; i < 80; i++) t += (char)s.choice(256); if (s.chance(1, 6)) { string w = s.pick({string("solid "), string("solid"), string("COLOR="), string("SOLID x"), string(80, ' ')}); t.replace(0, w.size(), w); } if (s.chance(1, 20)) t.assign(80, (char)(s.boolean() ? 0 : 255)); uint32_t u = n; put4(t, &u); vector<array<float, 9>> want; bool exotic = s.boolean();
    for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) { float x = (float)s.uniform(-1, 1); put4(t, &x); } array<float, 9> a; for (int k = 0; k < 9; k++) { a[k] = exotic && s.chance(1, 4) ? (float)(s.uniform(-1, 1) * pow(10., s.irange(-44, 38))) : (float)s.real(-10, 10); put4(t, &a[k]); } want.push_back(a); t += (char)s.choice(256); t += (char)s.choice(256); }
    if (s.chance(1, 6)) t += string((size_t)s.irange(1, 60), 'x'); // trailing bytes
    NOTE("%d facets, %zu bytes", n, t.size()); string f = c.scratch + "f.stl"; write_file(f, t); Mesh m; gen_dirty(s, m); CHECK(STLFile::load(f, m), "refused", "a well-formed file of %d facets was refused", n); same_triangles(c, m, want, "loaded"); c.nontrivial = n >= 2;
}
// many triangles
PROP(many, 40, 800, 2, "more than 1000 triangles")
{
    Mesh m, n; MeshState r; string w = gen_large(s, m, r, 130000), f = c.scratch + "l.stl", t; gen_dirty(s, n); NOTE("%s", w.c_str()); CHECK(STLFile::save(f, m), "save", "not saved: %s", w.c_str()); vector<array<float, 9>> want; for (size_t i = 0; i < r.t.size(); i++) if (!r.un[i]) { array<float, 9> a; int k = 0; for (int id : {r.t[i].a, r.t[i].b, r.t[i].c}) { a[k++] = (float)r.v[id].x(); a[k++] = (float)r.v[id].y(); a[k++] = (float)r.v[id].z(); } want.push_back(a); }
    CHECK(read_file(f, t) && t.size() == 84 + 50 * want.size(), "size", "%zu bytes for %zu facets", t.size(), want.size()); uint32_t cnt; memcpy(&cnt, t.data() + 80, 4); CHECK(cnt == want.size(), "count", "the header counts %u facets, there are %zu", cnt, want.size()); CHECK(STLFile::load(f, n), "load", "load failed"); same_triangles(c, n, want, "loaded"); c.nontrivial = want.size() > 1000;
}
