// C25: STEP output is well formed and describes exactly the given surfaces.
#include <functional>
#include "file_common.hpp"
#include "nurbs_common.hpp"
#include "NurbsUtil.h"
#include "NurbsFactory.h"
#include "NurbsSolid.h"
#include "StepFile.h"
// ---- a small exchange-file reader
struct Node { string atom; vector<Node> kids; bool list = false; };
struct Entity { string name; Node args; };
struct Step { map<int, vector<Entity>> e; vector<int> order; string error; };
static void skip(const string& t, size_t& p) { while (p < t.size() && isspace((unsigned char)t[p])) p++; }
static bool parse_list(const string& t, size_t& p, Node& n)
{
    n.list = true; p++; skip(t, p); if (p < t.size() && t[p] == ')') { p++; return true; }
    for (;;) {
        skip(t, p); if (p >= t.size()) return false; Node k;
        if (t[p] == '(') { if (!parse_list(t, p, k)) return false; }
        else if (t[p] == '\'') { size_t q = t.find('\'', p + 1); if (q == string::npos) return false; k.atom = t.substr(p, q + 1 - p); p = q + 1; }
        else { size_t q = p; while (q < t.size() && !strchr(",()'\n\r\t ;", t[q])) q++; if (q == p) return false; k.atom = t.substr(p, q - p); p = q; }
        n.kids.push_back(k); skip(t, p); if (p >= t.size()) return false; if (t[p] == ',') { p++; continue; } if (t[p] == ')') { p++; return true; } return false;
    }
}
static bool parse_entity(const string& t, size_t& p, Entity& e) { skip(t, p); size_t q = p; while (q < t.size() && (isupper((unsigned char)t[q]) || isdigit((unsigned char)t[q]) || t[q] == '_')) q++; if (q == p) return false; e.name = t.substr(p, q - p); p = q; skip(t, p); return p < t.size() && t[p] == '(' && parse_list(t, p, e.args); }
static size_t count_of(const string& t, const string& w) { size_t n = 0; for (size_t p = t.find(w); p != string::npos; p = t.find(w, p + 1)) n++; return n; }
static Step parse_step(const string& t)
{
    Step s; size_t p = 0; auto word = [&](const string& w) { skip(t, p); if (t.compare(p, w.size(), w) != 0) { s.error = "expected " + w + " at '" + t.substr(p, 30) + "'"; return false; } p += w.size(); return true; };
    if (!word("ISO-10303-21;") || !word("HEADER;")) return s; bool schema = false; for (;;) { skip(t, p); if (t.compare(p, 7, "ENDSEC;") == 0) break; Entity e; if (!parse_entity(t, p, e) || !word(";")) { s.error = "bad header record"; return s; } schema |= e.name == "FILE_SCHEMA"; } if (!schema) { s.error = "no schema in the header"; return s; } p += 7; if (!word("DATA;")) return s;
    for (;;) {
        skip(t, p); if (p < t.size() && t[p] != '#') break; size_t q = p + 1; int id = 0; while (q < t.size() && isdigit((unsigned char)t[q])) id = id * 10 + (t[q++] - '0'); if (q == p + 1) { s.error = "bad entity id"; return s; } p = q; if (!word("=")) return s; skip(t, p); vector<Entity> v;
        if (p < t.size() && t[p] == '(') { p++; for (;;) { skip(t, p); if (p < t.size() && t[p] == ')') { p++; break; } Entity e; if (!parse_entity(t, p, e)) { s.error = pbt::fmt("entity #%d is not well formed", id); return s; } v.push_back(e); } }
        else { Entity e; if (!parse_entity(t, p, e)) { s.error = pbt::fmt("entity #%d is not well formed", id); return s; } v.push_back(e); }
        if (!word(";")) { s.error = pbt::fmt("entity #%d: ", id) + s.error; return s; } if (s.e.count(id)) { s.error = pbt::fmt("#%d is defined twice", id); return s; } s.e[id] = v; s.order.push_back(id);
    }
    if (!word("ENDSEC;") || !word("END-ISO-10303-21;")) return s; skip(t, p); if (p != t.size()) s.error = "text after the end"; for (const char* w : {"HEADER;", "DATA;"}) if (count_of(t, w) != 1) s.error = string(w) + " is there more than once"; return s;
}
static bool refs_ok(const Step& s, const Node& n, string& bad) { if (n.atom.size() > 1 && n.atom[0] == '#') { if (!s.e.count(atoi(n.atom.c_str() + 1))) { bad = n.atom; return false; } } for (auto& k : n.kids) if (!refs_ok(s, k, bad)) return false; return true; }
static bool num(const Node& n, double& x) { if (n.list || n.atom.empty()) return false; char* q; x = strtod(n.atom.c_str(), &q); return *q == 0; }
static bool nums(const Node& n, vector<double>& v) { v.clear(); if (!n.list) return false; for (auto& k : n.kids) { double x; if (!num(k, x)) return false; v.push_back(x); } return true; }
static vector<double> expand(const vector<double>& k, const vector<double>& m) { vector<double> r; for (size_t i = 0; i < k.size() && i < m.size(); i++) for (int j = 0; j < m[i]; j++) r.push_back(k[i]); return r; }
static void same_nums(pbt::Ctx& c, const vector<double>& g, const vector<double>& w, double abs, const char* what) { CHECK(g.size() == w.size(), what, "%zu values instead of %zu", g.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(close6(g[i], w[i]) || fabs(g[i] - w[i]) <= abs, what, "value %zu is %.9g instead of %.9g", i, g[i], w[i]); }
static void check_step(pbt::Ctx& c, const string& text, const vector<NurbsSurface>& want)
{
    Step s = parse_step(text); CHECK(s.error.empty(), "malformed", "%s", s.error.c_str()); for (auto& e : s.e) for (auto& x : e.second) { string bad; CHECK(refs_ok(s, x.args, bad), "dangling", "#%d %s refers to %s, which is not defined", e.first, x.name.c_str(), bad.c_str()); }
    size_t n = 0; vector<int> faces;
    for (int id : s.order) {
        auto& v = s.e[id]; map<string, const Node*> part; for (auto& x : v) { CHECK(!part.count(x.name), "twice", "#%d has %s twice", id, x.name.c_str()); part[x.name] = &x.args; }
        if (v.size() == 1 && v[0].name == "ADVANCED_FACE") faces.push_back(id);
        const Node* k = nullptr; if (part.count("B_SPLINE_SURFACE")) k = part["B_SPLINE_SURFACE"]; else continue; CHECK(n < want.size(), "surplus", "more than %zu surfaces", want.size()); const NurbsSurface& w = want[n++];
        for (const char* p : {"BOUNDED_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "GEOMETRIC_REPRESENTATION_ITEM", "RATIONAL_B_SPLINE_SURFACE", "REPRESENTATION_ITEM", "SURFACE"}) CHECK(part.count(p), "part", "surface %zu has no %s", n - 1, p);
        CHECK(k->kids.size() == 7, "surface", "%zu arguments", k->kids.size()); double du, dv; CHECK(num(k->kids[0], du) && num(k->kids[1], dv) && du == w.degree_u() && dv == w.degree_v(), "degree", "surface %zu: degrees %s and %s instead of %d and %d", n - 1, k->kids[0].atom.c_str(), k->kids[1].atom.c_str(), w.degree_u(), w.degree_v());
        auto& rows = k->kids[2].kids; CHECK((int)rows.size() == w.nb_points_v(), "grid", "surface %zu: %zu rows instead of %d", n - 1, rows.size(), w.nb_points_v());
        for (size_t j = 0; j < rows.size(); j++) { CHECK((int)rows[j].kids.size() == w.nb_points_u(), "grid", "row of %zu instead of %d", rows[j].kids.size(), w.nb_points_u()); for (size_t i = 0; i < rows[j].kids.size(); i++) { const string& a = rows[j].kids[i].atom; CHECK(a.size() > 1 && a[0] == '#', "grid", "control point is '%s'", a.c_str()); auto& pe = s.e[atoi(a.c_str() + 1)]; CHECK(pe.size() == 1 && pe[0].name == "CARTESIAN_POINT" && pe[0].args.kids.size() == 2, "point", "%s is not a point", a.c_str()); vector<double> x; CHECK(nums(pe[0].args.kids[1], x) && x.size() == 3, "point", "%s", a.c_str()); const Point3& q = w.points()[j * w.nb_points_u() + i]; same_nums(c, x, {q.x(), q.y(), q.z()}, 0, "control-point"); } }
        CHECK(k->kids[4].atom == (w.is_closed_u() ? ".T." : ".F.") && k->kids[5].atom == (w.is_closed_v() ? ".T." : ".F."), "closed", "surface %zu is closed %s %s in the file, %d %d in memory", n - 1, k->kids[4].atom.c_str(), k->kids[5].atom.c_str(), (int)w.is_closed_u(), (int)w.is_closed_v());
        const Node* kn = part["B_SPLINE_SURFACE_WITH_KNOTS"]; CHECK(kn->kids.size() == 5, "knots", "%zu arguments", kn->kids.size()); vector<double> mu, mv, ku, kv; CHECK(nums(kn->kids[0], mu) && nums(kn->kids[1], mv) && nums(kn->kids[2], ku) && nums(kn->kids[3], kv), "knots", "lists"); CHECK(mu.size() == ku.size() && mv.size() == kv.size(), "multiplicities", "surface %zu: %zu multiplicities for %zu knots, %zu for %zu", n - 1, mu.size(), ku.size(), mv.size(), kv.size());
        for (auto* q : {&ku, &kv}) for (size_t i = 1; i < q->size(); i++) CHECK((*q)[i] > (*q)[i - 1], "knots-increase", "surface %zu: knot %g after %g", n - 1, (*q)[i], (*q)[i - 1]); for (auto* q : {&mu, &mv}) for (double x : *q) CHECK(x >= 1 && x == floor(x), "multiplicities", "multiplicity %g", x);
        same_nums(c, expand(ku, mu), w.knots_u(), 1e-9, "knots-u"); same_nums(c, expand(kv, mv), w.knots_v(), 1e-9, "knots-v");
        const Node* we = part["RATIONAL_B_SPLINE_SURFACE"]; CHECK(we->kids.size() == 1 && (int)we->kids[0].kids.size() == w.nb_points_v(), "weights", "rows of weights"); vector<double> all; for (auto& r : we->kids[0].kids) { vector<double> x; CHECK(nums(r, x) && (int)x.size() == w.nb_points_u(), "weights", "row of weights"); all.insert(all.end(), x.begin(), x.end()); } same_nums(c, all, w.weights(), 0, "weights");
    }
    CHECK(n == want.size(), "missing", "%zu surfaces in the file, %zu were written", n, want.size()); CHECK(faces.size() == want.size(), "faces", "%zu faces for %zu surfaces", faces.size(), want.size()); set<string> used; for (int f : faces) { auto& a = s.e[f][0].args.kids; CHECK(a.size() == 4, "faces", "face"); auto& b = s.e[atoi(a[2].atom.c_str() + 1)]; bool is = false; for (auto& x : b) is |= x.name == "B_SPLINE_SURFACE"; CHECK(is && used.insert(a[2].atom).second, "faces", "face #%d is on %s", f, a[2].atom.c_str()); }
    // every reference is to the kind of thing its place is for, and every face is reached from the product's shape
    map<int, int> reached; auto kind = [&](const Node& r) { auto& v = s.e[atoi(r.atom.c_str() + 1)]; return v.size() == 1 ? v[0].name : string(); };
    for (int id : s.order) {
        auto& v = s.e[id]; if (v.size() != 1) continue; auto& a = v[0].args.kids; const string& nm = v[0].name; auto all = [&](const Node& l, const char* want) { for (auto& r : l.kids) CHECK(kind(r) == want, "kind", "#%d %s holds %s, which is not a %s", id, nm.c_str(), r.atom.c_str(), want); };
        if (nm == "CLOSED_SHELL" || nm == "OPEN_SHELL") { CHECK(a.size() == 2 && !a[1].kids.empty(), "kind", "#%d has no faces", id); all(a[1], "ADVANCED_FACE"); }
        if (nm == "MANIFOLD_SOLID_BREP") CHECK(a.size() == 2 && kind(a[1]) == "CLOSED_SHELL", "kind", "#%d is of %s, which is no closed shell", id, a.size() == 2 ? a[1].atom.c_str() : "?");
        if (nm == "ADVANCED_BREP_SHAPE_REPRESENTATION") { CHECK(a.size() == 3, "kind", "#%d", id); all(a[1], "MANIFOLD_SOLID_BREP"); }
        if (nm == "SHAPE_REPRESENTATION_RELATIONSHIP") {
            CHECK(a.size() == 4 && kind(a[2]) == "SHAPE_REPRESENTATION", "kind", "#%d does not start at the product's shape", id); set<int> seen; vector<int> todo{atoi(a[3].atom.c_str() + 1)};
            while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; auto& y = s.e[x]; if (y.size() == 1 && y[0].name == "ADVANCED_FACE") { reached[x]++; continue; } std::function<void(const Node&)> add = [&](const Node& k) { if (k.atom.size() > 1 && k.atom[0] == '#') todo.push_back(atoi(k.atom.c_str() + 1)); for (auto& z : k.kids) add(z); }; for (auto& z : y) add(z.args); }
        }
    }
    for (int f : faces) CHECK(reached[f] == 1, "unreached", "face #%d is reached %d times from the product's shape", f, reached[f]);
}
static NurbsSurface make(pbt::Source& s) { g_tiny_spans = false; NurbsSurface n; gen_surface(s, n, 1, 4, 5, 0); n.set_closed_u(s.chance(1, 4)); n.set_closed_v(s.chance(1, 4)); return n; }
PROP(surfaces, 51000, 1020000, 200, "rational, with an interior knot, or u and v sizes differ")
{
    NurbsSurface n = make(s); NOTE("degrees %d %d, %dx%d points", n.degree_u(), n.degree_v(), n.nb_points_u(), n.nb_points_v()); string f = c.scratch + "a.step", t; { UserLocale u(s.chance(1, 8)); StepWriter w; w.open(f); CHECK(w.is_open(), "open", "not open"); w.write(n); if (s.boolean()) { w.close(); CHECK(!w.is_open(), "close", "still open after close"); if (s.boolean()) w.close(); } } CHECK(read_file(f, t), "file", "no file"); check_step(c, t, {n});
    bool rat = false; for (double x : n.weights()) rat |= x != 1; c.nontrivial = rat || n.nb_points_u() > n.degree_u() + 1 || n.nb_points_v() > n.degree_v() + 1 || n.nb_points_u() != n.nb_points_v();
}
PROP(histories, 25500, 510000, 100, "two or more surfaces in one file, or a second file from the same writer")
{
    map<string, vector<NurbsSurface>> files; string cur; int opened = 0; size_t most = 0;
    {
        UserLocale u(s.chance(1, 8)); StepWriter w; int n = s.sized(2, 12);
        for (int i = 0; i < n; i++) switch (i == 0 ? 0 : s.choice(5)) {
            case 0: if (cur.empty() || s.chance(1, 4)) { string f = c.scratch + (s.boolean() ? "a.step" : "b.step"); w.open(f); NOTE("open %s%s", f.substr(f.size() - 6).c_str(), cur.empty() ? "" : " without closing"); CHECK(w.is_open(), "open", "not open"); cur = f; files[f].clear(); opened++; break; }
            // fallthrough
            case 1: { NurbsSurface x = make(s); if (cur.empty()) break; w.write(x); NOTE("write a surface"); files[cur].push_back(x); break; }
            case 2: { NurbsSolid b; int k = s.irange(0, 3); for (int j = 0; j < k; j++) b.add_surface(make(s)); if (cur.empty()) break; w.write(b); NOTE("write a solid of %d surfaces", k); for (auto& x : b.surfaces()) files[cur].push_back(x); break; }
            case 3: if (cur.empty()) break; // fallthrough
            default: if (s.boolean()) break; w.close(); NOTE("close"); CHECK(!w.is_open(), "close", "still open"); cur.clear(); break;
            }
    }
    for (auto& f : files) { string t; CHECK(read_file(f.first, t), "file", "no file"); check_step(c, t, f.second); most = max(most, f.second.size()); } c.nontrivial = most >= 2 || opened >= 2;
}
// many surfaces in one file
PROP(many, 24, 480, 1, "more than 300 surfaces")
{
    string f = c.scratch + "m.step", t; vector<NurbsSurface> want; Hash h(s.choice(1 << 20)); int n = s.irange(100, 900); NOTE("%d surfaces", n); { UserLocale u(s.chance(1, 4)); StepWriter w; w.open(f); while ((int)want.size() < n) { NurbsSurface x; if (h.below(2)) { NurbsFactory::create_quad(Point3(h.real(5), 0, 0), Point3(1, h.real(5), 0), Point3(0, 0, h.real(9)), Point3(-1, -1, h.real(5)), x); w.write(x); want.push_back(x); } else { NurbsSolid b; int k = 1 + h.below(6); for (int j = 0; j < k; j++) { NurbsFactory::create_quad(Point3(h.real(5), 0, 0), Point3(1, h.real(5), 0), Point3(0, 0, h.real(9)), Point3(-1, -1, h.real(5)), x); b.add_surface(x); want.push_back(x); } w.write(b); } } }
    CHECK(read_file(f, t), "file", "no file"); check_step(c, t, want); c.nontrivial = n > 300;
}
// a surface with many control points
PROP(large_grid, 24, 480, 1, "more than 1000 control points")
{
    string f = c.scratch + "g.step", t; int w = s.irange(4, 70), h = s.irange(4, 70), d = s.irange(1, 3); if (s.chance(1, 5)) { w = s.irange(4, 400); h = (s.boolean() ? 34000 : 67000) / w; h = max(h, 4); } Hash r(s.choice(1 << 20)); vector<double> z; for (int i = 0; i < w * h; i++) z.push_back(r.real(5)); NurbsSurface x; NurbsUtil::create_from_z(z, w, h, d, x); if (s.boolean()) for (auto& k : x.weights()) k = 1 + r.below(5); NOTE("%dx%d control points", w, h); { StepWriter o; o.open(f); o.write(x); } CHECK(read_file(f, t), "file", "no file"); check_step(c, t, {x}); c.nontrivial = w * h > 1000;
}
