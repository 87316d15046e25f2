// C23: loading any file is safe: it is read or refused, never a crash.
#include "file_common.hpp"
#include "bmp_common.hpp"
#include "STLFile.h"
#include "OBJFile.h"
#include <sanitizer/allocator_interface.h>
// largest single allocation asked for while loading
static size_t g_max = 0; static bool g_on = false;
static void on_malloc(const volatile void*, size_t n) { if (g_on && n > g_max) g_max = n; }
static void on_free(const volatile void*) {}
struct Watch { Watch() { static bool done = false; if (!done) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); done = true; } g_max = 0; g_on = true; } ~Watch() { g_on = false; } };
static const size_t FACTOR = 400, FLOOR = 1 << 18;
static void check_mem(pbt::Ctx& c, size_t before, size_t fileSize, const char* what)
{
    size_t live = pbt::live_bytes(), grown = live > before ? live - before : 0; CHECK(g_max <= FLOOR + FACTOR * fileSize, "memory", "%s: one allocation of %zu bytes for a file of %zu", what, g_max, fileSize); CHECK(grown <= FLOOR + FACTOR * fileSize, "memory", "%s: %zu bytes held for a file of %zu", what, grown, fileSize);
}
static void valid_mesh(pbt::Ctx& c, Mesh& m, const char* what)
{
    int nv = m.nb_vertices(); for (int i = 0; i < m.nb_triangles(); i++) { int a, b, d; m.get_triangle_vertices(i, a, b, d); if (m.is_triangle_unlinked(i)) continue; CHECK(a >= 0 && b >= 0 && d >= 0 && a < nv && b < nv && d < nv, "dangling", "%s: triangle %d is %d,%d,%d with %d vertices", what, i, a, b, d, nv); }
    // and it can be used
    int v = m.add_vertex(1, 2, 3); m.add_triangle(v, v, v); CHECK(m.nb_vertices() == nv + 1, "usable", "%s: mesh unusable", what);
}
static void mutate(pbt::Source& s, string& t, int header)
{
    int n = s.sized(0, 4);
    for (int i = 0; i < n; i++) {
        if (t.empty()) { t = string(s.irange(0, 90), (char)s.choice(256)); continue; }
        size_t p = s.boolean() ? s.choice(min<size_t>(t.size(), header)) : s.choice(t.size());
        switch (s.choice(9)) {
        case 0: t.resize(p); break;
        case 1: t[p] = (char)s.choice(256); break;
        case 2: t[p] ^= (char)(1 << s.choice(8)); break;
        case 3: for (int k = 0; k < 4 && p + k < t.size(); k++) t[p + k] = s.pick({(char)0xff, (char)0, (char)0x7f, (char)0x80}); break;
        case 4: { uint32_t v = s.pick({0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000000u, 1u, 0u, 0x40000001u, 65536u}); for (int k = 0; k < 4 && p + k < t.size(); k++) t[p + k] = (char)(v >> 8 * k); break; }
        case 5: t.erase(p, s.irange(1, 60)); break;
        case 6: t.insert(p, (size_t)s.irange(1, 60), (char)s.choice(256)); break;
        case 7: if (t.size() < 20000) t += t.substr(p, s.irange(1, 200)); break;
        default: t.resize(t.size() - min<size_t>(t.size(), s.irange(1, 50))); break;
        }
    }
}
PROP(stl, 160000, 3200000, 500, "the file is inconsistent, or holds at least one facet")
{
    string t; if (s.chance(1, 8)) { int n = s.sized(0, 300); for (int i = 0; i < n; i++) t += (char)s.choice(256); } else { t = string(80, s.pick({'\0', ' ', 's'})); uint32_t n = s.sized(0, 12); le(t, n, 4); for (uint32_t i = 0; i < n; i++) { for (int k = 0; k < 12; k++) { float f = (float)s.real(-5, 5); t.append((char*)&f, 4); } le(t, 0, 2); } }
    if (s.chance(7, 8)) mutate(s, t, 100); if (t.size() >= 84 && s.chance(1, 4)) { uint32_t v = s.pick({(uint32_t)((t.size() - 84) / 50), (uint32_t)((t.size() - 84) / 50 + 1), 0x7fffffffu, 0xffffffffu, 0x80000001u, 100000000u, 1000u}); for (int k = 0; k < 4; k++) t[80 + k] = (char)(v >> 8 * k); }
    string f = c.scratch + "x.stl"; write_file(f, t); Mesh m; gen_dirty(s, m); int32_t n = -1; if (t.size() >= 84) memcpy(&n, t.data() + 80, 4); bool good = n >= 0 && t.size() >= 84 + 50ull * n; NOTE("%zu bytes, count %d: %s", t.size(), n, good ? "consistent" : "inconsistent");
    size_t before = pbt::live_bytes(); bool ok; { Watch w; ok = STLFile::load(f, m); } check_mem(c, before, t.size(), "STL"); CHECK(ok || !good, "refused", "%zu bytes announcing %d facets are refused", t.size(), n); CHECK(!ok || good, "accepted", "%zu bytes announcing %d facets are taken as a good file", t.size(), n);
    if (ok) {
        auto g = corners_of(m); CHECK((int)g.size() == n, "facets", "%zu triangles of %d facets", g.size(), n);
        for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { float q[3]; memcpy(q, t.data() + 84 + 50 * i + 12 + 12 * k, 12); V3 p = g[i].p[k]; ld a[3] = {p.x, p.y, p.z}; for (int d = 0; d < 3; d++) CHECK(a[d] == (ld)q[d] || (isnan(q[d]) && isnan((double)a[d])), "data", "facet %d corner %d is %Lg, the file says %g", i, k, a[d], q[d]); }
    }
    valid_mesh(c, m, "STL"); LABEL("%s", ok ? "read" : "refused"); c.nontrivial = !good || n > 0;
}
PROP(bmp, 160000, 3200000, 500, "the file is inconsistent, or was changed")
{
    string t; BmpSpec b; if (s.chance(1, 8)) { if (s.boolean()) t = "BM"; int n = s.sized(0, 200); for (int i = 0; i < n; i++) t += (char)s.choice(256); } else { gen_bmp(s, b, 12, 8); t = b.bytes; } string orig = t; if (s.chance(7, 8)) mutate(s, t, 60);
    if (t.size() >= 54 && s.chance(1, 2)) { int o = s.pick({10, 14, 18, 22, 18, 22, 28, 30, 46}); int nb = o == 28 ? 2 : 4; uint32_t v = s.pick({0u, 1u, 2u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 40000u, 65536u, 30000u, 32u, 16u, 4u, 1u << 30, 53u, 52u, 15u, 14u, 26u, 39u, 0x118u, 0x108u, 0x120u, 0x1018u, 12u, 25u, 48u, 9u}); if (s.chance(1, 3)) v = u32(t, o) + s.irange(-2, 2); for (int k = 0; k < nb; k++) t[o + k] = (char)(v >> 8 * k); }
    string f = c.scratch + "x.bmp"; write_file(f, t); Image im; if (s.boolean()) { im.resize(s.irange(0, 5), s.irange(0, 5), s.irange(1, 4)); fill(s, im); }
    // certainly bad: no signature, cut header, no pixels, unknown depth, or pixels that do not fit in the file
    bool bad = t.size() < 54 || t.compare(0, 2, "BM") != 0; long long w = 0, h = 0; int bpp = 0; if (!bad) { w = (int)u32(t, 18); h = (int)u32(t, 22); bpp = u16(t, 28); if (w <= 0 || h == 0 || (bpp != 1 && bpp != 2 && bpp != 4 && bpp != 8 && bpp != 16 && bpp != 24 && bpp != 32 && bpp != 48 && bpp != 64)) bad = true; else if (u32(t, 14) >= 40 && u32(t, 10) < 54) bad = true; else { __int128 row = ((__int128)w * (bpp / 8) + 3) / 4 * 4; if (bpp % 8 == 0 && bpp >= 8 && u32(t, 30) == 0) { if (row * (h < 0 ? -h : h) - 3 > (__int128)t.size() - 54) bad = true; if (u32(t, 10) < (1u << 31) && row * (h < 0 ? -h : h) - 3 > (__int128)t.size() - (int)u32(t, 10)) bad = true; } } }
    NOTE("%zu bytes, %lldx%lld, %d bits: %s", t.size(), w, h, bpp, bad ? "bad" : "maybe good"); size_t before = pbt::live_bytes(); bool ok; { Watch wt; ok = ImageIoBmp::read(f, &im); } check_mem(c, before, t.size(), "BMP"); CHECK(!ok || !bad, "accepted", "%zu bytes announcing %lldx%lld pixels of %d bits are taken as a good file", t.size(), w, h, bpp);
    if (ok && h > 0 && u32(t, 30) == 0 && (bpp == 8 || bpp == 24 || bpp == 32)) {
        CHECK(im.width() == w && im.height() == h && im.planes() == bpp / 8, "size", "%dx%d with %d planes read from %lldx%lld of %d bits", im.width(), im.height(), im.planes(), w, h, bpp); long long off = u32(t, 10), row = (w * (bpp / 8) + 3) / 4 * 4; int n = bpp / 8;
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < min(n, 3); k++) { size_t o = off + (h - 1 - y) * row + x * n + (n == 1 ? 0 : 2 - k); CHECK(o < t.size() && im(x, y, k) == (unsigned char)t[o], "pixel", "pixel %d,%d plane %d is read as %d", x, y, k, (int)im(x, y, k)); }
    }
    if (!ok) { CHECK(t != orig || bad || b.h < 0 || orig.empty() || orig.size() < 54 || orig != b.bytes, "refused", "a well-formed file is refused: %s", b.text().c_str()); }
    // whatever happened, the image is a consistent object
    CHECK(im.width() >= 0 && im.height() >= 0 && im.planes() >= 0 && (long long)im.width() * im.height() * im.planes() <= (long long)(FLOOR + FACTOR * t.size()), "image", "%dx%dx%d", im.width(), im.height(), im.planes()); unsigned sum = 0; for (unsigned char x : bytes_of(im)) sum += x; im.resize(2, 2, 1); im(1, 1) = (unsigned char)sum; LABEL("%s", ok ? "read" : "refused"); c.nontrivial = bad || t != orig;
}
// OBJ: every line is good, bad, or of a kind that may be read or refused
enum Kind { GOOD, BAD, ANY };
static bool is_num(const string& w, double& x) { size_t i = 0; if (w[i] == '-') i++; size_t d = 0; while (i < w.size() && isdigit((unsigned char)w[i])) i++, d++; if (i < w.size() && w[i] == '.') { i++; while (i < w.size() && isdigit((unsigned char)w[i])) i++, d++; } if (!d || d > 15) return false; if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) { i++; if (i < w.size() && (w[i] == '-' || w[i] == '+')) i++; size_t e = 0; while (i < w.size() && isdigit((unsigned char)w[i])) i++, e++; if (!e || e > 2) return false; } if (i != w.size()) return false; x = strtod(w.c_str(), nullptr); return true; }
static Kind ref_kind(const string& w, int nv, int& id) { if (w.find_first_of(string("\\#+\0", 4)) != string::npos) return ANY; size_t i = w[0] == '-', d = 0; long long v = 0; while (i < w.size() && isdigit((unsigned char)w[i])) { if (v < 1000000000000ll) v = v * 10 + (w[i] - '0'); i++; d++; } if (!d) return BAD; if (i < w.size() && w[i] != '/') return BAD; if (i < w.size()) for (size_t k = i; k < w.size(); k++) if (!isdigit((unsigned char)w[k]) && w[k] != '/' && w[k] != '-') return ANY; if (w[0] == '-') v = v == 0 ? 0 : nv + 1 - v; if (v < 1 || v > nv) return BAD; id = (int)v - 1; return GOOD; }
PROP(obj, 120000, 2400000, 500, "the file has a bad line, or at least one face")
{
    string t; vector<string> words = {"v", "f", "v", "f", "1", "2", "3", "4", "-1", "-2", "0", "1.5", "-2e3", "1/2", "1//2", "1/2/3", "2//", "/1", "99", "1e999", "nan", "inf", "0x10", "99999999999999999999", "-99999999999999999999", "2147483648", "4294967297", "#", "\\", "vt", "vn", "o", "g", "l", "usemtl", "1.5x", "x", "+1", ".", "-", "f1", "fv", "1,2", "\t"};
    int lines = s.sized(0, 14), nv = 0;
    for (int i = 0; i < lines; i++) {
        switch (s.choice(5)) {
        case 0: case 1: t += pbt::fmt("v %g %g %g", s.real(-5, 5), s.real(-5, 5), s.real(-5, 5)); nv++; break;
        case 2: { int k = s.irange(s.chance(1, 8) ? 0 : 3, 6); t += "f"; for (int j = 0; j < k; j++) t += " " + to_string(nv ? 1 + (int)s.choice(nv + (s.chance(1, 10) ? 1 : 0)) : s.irange(0, 2)) + s.pick({"", "", "", "/1", "//1", "/1/1"}); break; }
        case 3: { int k = s.irange(0, 6); for (int j = 0; j < k; j++) t += (j ? " " : "") + words[s.choice(words.size())]; break; }
        default: if (s.boolean()) t += "# comment"; break;
        }
        if (i + 1 < lines || s.boolean()) t += s.chance(1, 8) ? "\r\n" : "\n";
    }
    if (s.chance(1, 4)) mutate(s, t, 100);
    Kind kind = GOOD; bool neg = false; string why; vector<array<double, 3>> v; vector<vector<int>> faces; size_t p = 0; int no = 0;
    auto add = [&](Kind k, const string& w) { if (k == BAD && kind == GOOD) { kind = BAD; why = pbt::fmt("line %d: %s", no, w.c_str()); } else if (k == ANY && kind == GOOD) kind = ANY; };
    while (p < t.size()) { // the first line that is not good decides
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size(); string l = t.substr(p, e - p); p = e + 1; no++; istringstream ss(l); string ty; if (!(ss >> ty)) continue; if (kind != GOOD) break; if (l.find('\0') != string::npos) { if (ty[0] == 'v' || ty[0] == 'f') add(ANY, ""); continue; }
        vector<string> w; string x; while (ss >> x) w.push_back(x);
        if (ty == "v") { array<double, 3> q; if (w.size() < 3) { bool odd = false; for (auto& y : w) { double z; if (!is_num(y, z)) odd = true; } add(odd ? ANY : BAD, l); } else { Kind k = GOOD; for (int d = 0; d < 3; d++) if (!is_num(w[d], q[d])) k = (!isdigit((unsigned char)w[d][0]) && !strchr("+-.niNI", w[d][0])) && k == GOOD ? BAD : ANY; add(k, l); v.push_back(q); } }
        else if (ty == "f") { vector<int> f; Kind k = GOOD; for (auto& y : w) { int id = 0; Kind r = ref_kind(y, (int)v.size(), id); if (y[0] == '-') neg = true; if (r == ANY) { k = ANY; break; } if (r == BAD) { k = BAD; break; } f.push_back(id); } if (k == GOOD && f.size() < 3) k = BAD; add(k, l); faces.push_back(f); }
    }
    NOTE("%s\n-> %s %s", t.c_str(), kind == GOOD ? "good" : kind == BAD ? "bad" : "either", why.c_str()); string f = c.scratch + "x.obj"; write_file(f, t); Mesh m; gen_dirty(s, m); size_t before = pbt::live_bytes(); bool ok; { Watch wt; ok = OBJFile::load(f, m); } check_mem(c, before, t.size(), "OBJ"); LABEL("%s, %s", kind == GOOD ? "good" : kind == BAD ? "bad" : "either", ok ? "read" : "refused");
    if (kind == BAD) { CHECK(!ok, "accepted", "a file with a bad line is read: %s", why.c_str()); } if (kind == GOOD && !ok) { CHECK(neg, "refused", "a well-formed file is refused"); }
    if (kind == GOOD && ok) {
        Soup so = soup_of(m); CHECK(so.v.size() == v.size(), "vertices", "%zu vertices, %zu in the file", so.v.size(), v.size()); for (size_t i = 0; i < v.size(); i++) CHECK(close6(so.v[i], Point3(v[i][0], v[i][1], v[i][2])), "vertex", "vertex %zu is %s", i, ps(so.v[i]).c_str());
        size_t o = 0; for (auto& fc : faces) { vector<Tri> tri; for (size_t j = 2; j < fc.size(); j++) { CHECK(o < so.t.size(), "faces", "only %zu triangles", so.t.size()); tri.push_back(so.t[o++]); } auto b = boundary_of(tri); map<pair<int, int>, int> e; for (size_t j = 0; j < fc.size(); j++) { int a = fc[j], d = fc[(j + 1) % fc.size()]; if (a < d) e[{a, d}]++; else if (d < a) e[{d, a}]--; } for (auto it = e.begin(); it != e.end();) if (!it->second) it = e.erase(it); else ++it; CHECK(b == e, "face", "a face is not filled by its triangles"); } CHECK(o == so.t.size(), "faces", "%zu triangles instead of %zu", so.t.size(), o);
    }
    valid_mesh(c, m, "OBJ"); c.nontrivial = kind == BAD || !faces.empty();
}
PROP_NOFUZZ(paths, 8000, 160000, 200, "always: the path is not a readable file")
{
    string p; switch (s.choice(7)) { case 0: p = c.scratch + "missing"; break; case 1: p = c.scratch; break; case 2: p = ""; break; case 3: p = c.scratch + "no/such/dir/x"; break; case 4: p = c.scratch + "dir"; mkdir(p.c_str(), 0700); break; case 5: p = c.scratch + "file"; write_file(p, "v 1 2 3\n"); p += "/x"; break; default: p = c.scratch + string(300, 'n'); } NOTE("path '%s'", p.c_str());
    Mesh m; gen_dirty(s, m); Image im(3, 2, 1); int which = (int)s.choice(3); bool ok; { Watch w; ok = which == 0 ? STLFile::load(p, m) : which == 1 ? OBJFile::load(p, m) : ImageIoBmp::read(p, &im); } check_mem(c, pbt::live_bytes(), 0, "path"); CHECK(!ok, "accepted", "loader %d says it has read '%s'", which, p.c_str()); valid_mesh(c, m, "path"); bytes_of(im);
    // the same object can read a good file afterwards
    string g = c.scratch + "good"; if (which == 2) { BmpSpec b; gen_bmp(s, b, 6, 6); write_file(g, b.bytes); CHECK(ImageIoBmp::read(g, &im) && im.width() == b.w, "good-after", "a good image is not read afterwards"); } else if (which == 1) { write_file(g, "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"); CHECK(OBJFile::load(g, m) && m.nb_vertices() == 3 && m.nb_triangles() == 1, "good-after", "a good file is not read afterwards: %d vertices", m.nb_vertices()); } else { string t(80, 'h'); le(t, 1, 4); t += string(50, '\0'); write_file(g, t); CHECK(STLFile::load(g, m) && m.nb_triangles() == 1, "good-after", "a good file is not read afterwards"); }
    c.nontrivial = true;
}
