// C09: local mesh edits keep the surface, its area and its orientation.
#include "mesh_common.hpp"
typedef multiset<array<int, 3>> TriSet;
static TriSet live_set(const MeshState& m, size_t from = 0) { TriSet r; for (size_t i = from; i < m.t.size(); i++) if (!m.un[i]) { Tri t = canon(m.t[i]); r.insert({t.a, t.b, t.c}); } return r; }
static array<int, 3> key(int a, int b, int c) { Tri t = canon(Tri{a, b, c}); return {t.a, t.b, t.c}; }
// all triangles but the removed ones stay as they were, at their place; the new ones follow
static void check_step(pbt::Ctx& c, const MeshState& a, const MeshState& b, set<int> removed, TriSet added, const char* op)
{
    CHECK(b.t.size() == a.t.size() + added.size(), "count", "%s: %zu triangles before, %zu after", op, a.t.size(), b.t.size());
    for (size_t i = 0; i < a.t.size(); i++) {
        Tri x = canon(a.t[i]), y = canon(b.t[i]); CHECK(x.a == y.a && x.b == y.b && x.c == y.c, "other-triangle", "%s: triangle %zu changed", op, i);
        bool un = a.un[i] || removed.count((int)i); CHECK((bool)b.un[i] == un, "other-triangle", "%s: triangle %zu is %s", op, i, b.un[i] ? "removed" : "still there");
    }
    TriSet got = live_set(b, a.t.size()); string t; for (auto& x : got) t += pbt::fmt(" (%d,%d,%d)", x[0], x[1], x[2]); CHECK(got == added, "new-triangles", "%s: wrong new triangles:%s", op, t.c_str());
    for (size_t i = 0; i < a.v.size(); i++) CHECK(same_bits(a.v[i], b.v[i]), "vertex", "%s: vertex %zu moved", op, i);
}
PROP(edits, 50000, 1000000, 200, "at least two edits were chained, one of them on a shared edge")
{
    Mesh m; bool closed = s.chance(3, 4); string what = closed ? gen_closed(s, m) : gen_open(s, m); if (!closed) unlink_some(s, m); NOTE("%s", what.c_str());
    vector<int> spare; // vertices no triangle uses, before all others
    if (s.chance(1, 3)) { MeshState o = state_of(m); int k = s.irange(1, 6); m.clear(); for (int i = 0; i < k; i++) spare.push_back(m.add_vertex(gen_point(s, 1.))); for (auto& p : o.v) m.add_vertex(p); for (size_t i = 0; i < o.t.size(); i++) { m.add_triangle(o.t[i].a + k, o.t[i].b + k, o.t[i].c + k); if (o.un[i]) m.unlink_triangle((int)i); } NOTE("%d spare vertices first", k); }
    auto new_vertex = [&](const Point3& p, MeshState& st) { if (!spare.empty() && s.boolean()) { int v = spare.back(); spare.pop_back(); m.set_vertex(v, p); st.v[v] = p; return v; } return m.add_vertex(p); };
    MeshState st = state_of(m); ld A = state_area(st), V = soup_volume(soup_of(m)); int edge = 0, n = s.sized(1, 12);
    for (int step = 0; step < n; step++) {
        st = state_of(m); vector<int> live; for (size_t i = 0; i < st.t.size(); i++) { auto& t = st.t[i]; if (!st.un[i] && t.a != t.b && t.b != t.c && t.a != t.c) live.push_back((int)i); } if (live.empty()) break;
        int i = s.boolean() ? live[live.size() - 1 - s.choice(min<size_t>(live.size(), 8))] : s.pick(live); Tri t = st.t[i]; int nv = (int)st.v.size();
        if (s.boolean()) {
            double a = 0.1 + s.unit(), b = 0.1 + s.unit(), d = 0.1 + s.unit(), w = a + b + d; Point3 p = st.v[t.a] * (a / w) + st.v[t.b] * (b / w) + st.v[t.c] * (d / w); bool byPoint = s.boolean();
            NOTE("split triangle %d (%d,%d,%d) %s", i, t.a, t.b, t.c, byPoint ? "with a point" : "with a vertex");
            int v = nv; if (byPoint) m.split_triangle_with_vertex(i, p); else { v = new_vertex(p, st); m.split_triangle_with_vertex(i, v); }
            MeshState r = state_of(m); CHECK((int)r.v.size() == max(nv, v + 1) && same_bits(r.v[v], p), "vertex", "new vertex missing");
            check_step(c, st, r, {i}, {key(t.a, t.b, v), key(t.b, t.c, v), key(t.c, t.a, v)}, "split triangle");
        } else {
            int rot = (int)s.choice(3); int e1 = rot == 0 ? t.a : rot == 1 ? t.b : t.c, e2 = rot == 0 ? t.b : rot == 1 ? t.c : t.a, x = rot == 0 ? t.c : rot == 1 ? t.a : t.b;
            int j = -1, y = -1, count = 0; for (int k : live) { Tri u = st.t[k]; for (int q = 0; q < 3; q++) { int f1 = q == 0 ? u.a : q == 1 ? u.b : u.c, f2 = q == 0 ? u.b : q == 1 ? u.c : u.a, f3 = q == 0 ? u.c : q == 1 ? u.a : u.b; if (f1 == e2 && f2 == e1) { j = k; y = f3; count++; } } }
            if (count != 1) continue; // a border edge, or not a surface
            double a = s.uniform(0.1, 0.9); Point3 p = st.v[e1] * a + st.v[e2] * (1 - a); int v = new_vertex(p, st); NOTE("split edge %d-%d of triangles %d and %d", e1, e2, i, j); edge++;
            m.split_edge_with_vertex(i, j, e1, e2, v);
            check_step(c, st, state_of(m), {i, j}, {key(e1, v, x), key(v, e2, x), key(e2, v, y), key(v, e1, y)}, "split edge");
        }
        Soup so = soup_of(m); ld A2 = soup_area(so), V2 = soup_volume(so); ld sz = 0; for (auto& p : so.v) sz = max(sz, (ld)maxabs(p));
        CHECK(fabsl(A2 - A) <= 1e-9L * (A + sz * sz), "area", "area %Lg became %Lg", A, A2); CHECK(fabsl(V2 - V) <= 1e-9L * sz * (A + sz * sz), "volume", "volume %Lg became %Lg", V, V2);
        if (closed) { Manifold mf = check_closed(so, identity((int)so.v.size())); CHECK(mf.closed && mf.oriented && !mf.degenerate, "closed", "%s", mf.why.c_str()); }
    }
    c.nontrivial = edge > 0 && n > 1;
}
PROP(flip, 30000, 600000, 400, "at least two triangles were reversed")
{
    Mesh m; string what = s.boolean() ? gen_closed(s, m) : gen_open(s, m); unlink_some(s, m); NOTE("%s", what.c_str()); TriSet model = live_set(state_of(m)); ld A = soup_area(soup_of(m)), mag = 0; for (auto& p : soup_of(m).v) mag = max(mag, (ld)maxabs(p)); int n = s.sized(1, 12), done = 0;
    for (int k = 0; k < n; k++) {
        MeshState st = state_of(m); vector<int> live; for (size_t i = 0; i < st.t.size(); i++) if (!st.un[i]) live.push_back((int)i); if (live.empty()) break; int i = s.boolean() ? live.back() : s.pick(live); Tri t = st.t[i]; m.flip_triangle(i); done++; NOTE("flip %d (%d,%d,%d)", i, t.a, t.b, t.c);
        model.erase(model.find(key(t.a, t.b, t.c))); model.insert(key(t.a, t.c, t.b)); MeshState r = state_of(m); CHECK(live_set(r) == model, "flip", "the triangles are not the earlier ones with one reversed"); for (size_t q = 0; q < st.v.size(); q++) CHECK(same_bits(st.v[q], r.v[q]), "vertex", "vertex moved");
    }
    if (s.boolean()) { // reversing everything turns the volume over
        ld V = soup_volume(soup_of(m)); int nt = m.nb_triangles(); for (int i = 0; i < nt; i++) if (!m.is_triangle_unlinked(i)) m.flip_triangle(i); ld V2 = soup_volume(soup_of(m)); CHECK(fabsl(V + V2) <= 1e-12L * (fabsl(V) + A) + 1e-14L * mag * mag * mag, "flip-volume", "volume %Lg became %Lg", V, V2);
    }
    CHECK(fabsl(soup_area(soup_of(m)) - A) <= 1e-12L * A + 1e-14L * mag * mag, "area", "area changed"); c.nontrivial = done >= 2;
}
// planar convex polygons with random corner numbering
PROP(polygons, 80000, 1600000, 1000, "always: a convex polygon in a random plane")
{
    Mesh m; if (s.boolean()) gen_open(s, m); MeshState before = state_of(m); int n = s.boolean() ? 4 : 5; V3 o = v3(gen_point(s, 10.)), ax = v3(gen_point_u(s, 1.)); if (len(ax) < 0.1L) ax = V3{0, 0, 1}; ax = ax * (1 / len(ax)); V3 h = fabsl(ax.x) < 0.7L ? V3{1, 0, 0} : V3{0, 1, 0}; V3 e1 = cross(ax, h); e1 = e1 * (1 / len(e1)); V3 e2 = cross(ax, e1); double R = s.pick({1., 100., 0.01});
    vector<double> ang; double tot = 0; for (int i = 0; i < n; i++) { ang.push_back(tot); tot += 0.3 + s.unit(); } vector<Point3> p; for (double a : ang) { double t = a / tot * 2 * PI_; p.push_back(p3(o + e1 * (R * cosl(t)) + e2 * (R * sinl(t)))); }
    bool cw = s.boolean(); if (cw) reverse(p.begin(), p.end()); V3 N = cw ? ax * -1 : ax; vector<int> id; int form = (int)s.choice(n == 4 ? 3 : 1);
    if (n == 4 && form > 0) { for (int i = 0; i < 4; i++) id.push_back((int)before.v.size() + i); m.add_quad(p[0], p[1], p[2], p[3], form == 2); }
    else { vector<int> order(n); for (int i = 0; i < n; i++) order[i] = i; for (int i = n - 1; i > 0; i--) swap(order[i], order[s.choice(i + 1)]); id.resize(n); for (int i : order) id[i] = m.add_vertex(p[i]); if (n == 4) m.add_quad(id[0], id[1], id[2], id[3]); else m.add_pentagon(id[0], id[1], id[2], id[3], id[4]); }
    NOTE("%d corners, form %d, radius %g", n, form, R);
    MeshState r = state_of(m); CHECK(r.t.size() == before.t.size() + n - 2, "count", "%zu triangles for %d corners", r.t.size() - before.t.size(), n); ld sum = 0, ref = 0; vector<Tri> t;
    for (size_t i = before.t.size(); i < r.t.size(); i++) { Tri x = r.t[i]; t.push_back(x); for (int q : {x.a, x.b, x.c}) CHECK(find(id.begin(), id.end(), q) != id.end(), "corner", "vertex %d is not a corner", q); ld a = dot(N, cross(v3(r.v[x.b]) - v3(r.v[x.a]), v3(r.v[x.c]) - v3(r.v[x.a]))) / 2; CHECK(a > 0, "orientation", "a triangle is turned over or flat: %Lg", a); sum += a; }
    vector<Tri> fan; for (int i = 1; i + 1 < n; i++) { fan.push_back({id[0], id[i], id[i + 1]}); ref += dot(N, cross(v3(p[i]) - v3(p[0]), v3(p[i + 1]) - v3(p[0]))) / 2; }
    CHECK(boundary_of(t) == boundary_of(fan), "outline", "the triangles do not have the polygon's outline"); CHECK(fabsl(sum - ref) <= 1e-9L * ref, "area", "area %Lg expected %Lg", sum, ref);
    for (size_t i = 0; i < before.t.size(); i++) CHECK(r.un[i] == before.un[i], "other-triangle", "triangle %zu changed", i);
    c.nontrivial = true;
}
// edits anywhere in a mesh of many triangles
PROP(many, 60, 1200, 2, "more than 1000 triangles, with an edit behind the first 1000")
{
    int w = s.pick({s.irange(10, 16), s.irange(23, 60), s.irange(128, 131), s.irange(181, 183)}), n = s.sized(4, 40), late = 0; Hash r(s.choice(1 << 20)); Mesh m; vector<Tri> T; vector<char> un; vector<Point3> P; // a w x w torus grid: every edge has two triangles
    for (int y = 0; y < w; y++) for (int x = 0; x < w; x++) { double a = 2 * PI_ * x / w, b = 2 * PI_ * y / w; Point3 p((3 + cos(b)) * cos(a), (3 + cos(b)) * sin(a), sin(b)); P.push_back(p); m.add_vertex(p); }
    for (int y = 0; y < w; y++) for (int x = 0; x < w; x++) { int a = y * w + x, b = y * w + (x + 1) % w, d = (y + 1) % w * w + (x + 1) % w, e = (y + 1) % w * w + x; m.add_triangle(a, b, d); m.add_triangle(a, d, e); T.push_back({a, b, d}); T.push_back({a, d, e}); un.push_back(0); un.push_back(0); } NOTE("torus grid of %dx%d, %d edits", w, w, n);
    map<pair<int, int>, int> edge; auto reg = [&](int i) { Tri t = T[i]; edge[{t.a, t.b}] = edge[{t.b, t.c}] = edge[{t.c, t.a}] = i; }; for (size_t i = 0; i < T.size(); i++) reg((int)i); auto add = [&](int a, int b, int d) { T.push_back({a, b, d}); un.push_back(0); reg((int)T.size() - 1); };
    for (int k = 0; k < n; k++) {
        int i = s.pick({r.below((int)T.size()), (int)T.size() - 1 - r.below(min<int>((int)T.size(), 12)), r.below(4)}); if (un[i]) continue; Tri t = T[i]; late += i > 1000; Point3 q; int v = (int)P.size();
        if (s.boolean()) { q = (P[t.a] + P[t.b] + P[t.c]) / 3; P.push_back(q); NOTE("split triangle %d", i); if (s.boolean()) m.split_triangle_with_vertex(i, q); else { v = m.add_vertex(q); m.split_triangle_with_vertex(i, v); } un[i] = 1; add(t.a, t.b, v); add(t.b, t.c, v); add(t.c, t.a, v); }
        else { int rot = (int)s.choice(3), e1 = rot == 0 ? t.a : rot == 1 ? t.b : t.c, e2 = rot == 0 ? t.b : rot == 1 ? t.c : t.a, x = rot == 0 ? t.c : rot == 1 ? t.a : t.b; int j = edge.at({e2, e1}); Tri u = T[j]; int y = u.a != e1 && u.a != e2 ? u.a : u.b != e1 && u.b != e2 ? u.b : u.c; q = (P[e1] + P[e2]) / 2; P.push_back(q); v = m.add_vertex(q); NOTE("split edge %d-%d of triangles %d and %d", e1, e2, i, j); m.split_edge_with_vertex(i, j, e1, e2, v); un[i] = un[j] = 1; add(e1, v, x); add(v, e2, x); add(e2, v, y); add(v, e1, y); }
    }
    MeshState st = state_of(m); CHECK(st.v.size() == P.size() && st.t.size() == T.size(), "count", "%zu vertices and %zu triangles, expected %zu and %zu", st.v.size(), st.t.size(), P.size(), T.size());
    for (size_t i = 0; i < P.size(); i++) CHECK(near3(st.v[i], P[i], 1e-12), "vertex", "vertex %zu is %s instead of %s", i, ps(st.v[i]).c_str(), ps(P[i]).c_str()); size_t base = 2 * (size_t)w * w; TriSet want, got;
    for (size_t i = 0; i < T.size(); i++) { if (i < base) { Tri x = canon(st.t[i]), y = canon(T[i]); CHECK(st.un[i] == un[i] && x.a == y.a && x.b == y.b && x.c == y.c, "other-triangle", "triangle %zu of %zu changed", i, T.size()); } if (!un[i]) { want.insert(key(T[i].a, T[i].b, T[i].c)); } if (!st.un[i]) got.insert(key(st.t[i].a, st.t[i].b, st.t[i].c)); } CHECK(got == want, "new-triangles", "the existing triangles are not the expected ones");
    // turning some over
    for (int k = 0; k < 4; k++) { int i = s.boolean() ? r.below((int)st.t.size()) : (int)st.t.size() - 1 - r.below(8); if (st.un[i]) continue; m.flip_triangle(i); Tri t = st.t[i]; want.erase(want.find(key(t.a, t.b, t.c))); want.insert(key(t.a, t.c, t.b)); st = state_of(m); } got.clear(); for (size_t i = 0; i < st.t.size(); i++) if (!st.un[i]) got.insert(key(st.t[i].a, st.t[i].b, st.t[i].c)); CHECK(got == want, "flip", "after turning triangles over the existing triangles are not the expected ones");
    c.nontrivial = T.size() > 1000 && late > 0;
}
