// C24: saving reports success only when the whole file was written. The full disk is simulated with
// a file size limit (the write at the limit fails with EFBIG) and with /dev/full.
#include "file_common.hpp"
#include "bmp_common.hpp"
#include "STLFile.h"
#include "OBJFile.h"
#include <csignal>
#include <sys/resource.h>
struct DiskLimit {
    rlimit old; DiskLimit(size_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
    ~DiskLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
struct Saver { int kind; Mesh m; Image im; string text; bool save(const string& p) const { return kind == 0 ? STLFile::save(p, m) : kind == 1 ? OBJFile::save(p, m) : ImageIoBmp::write(p, &im); } };
static void gen_saver(pbt::Source& s, Saver& v)
{
    v.kind = (int)s.choice(3); static const char* names[] = {"STL", "OBJ", "BMP"};
    if (v.kind < 2) { v.text = gen_file_mesh(s, v.m, 20); if (s.chance(1, 3)) { Mesh a; gen_closed(s, a); for (int i = 0; i < 6; i++) v.m.add_mesh(a); } v.text = names[v.kind] + (" of " + v.text); }
    else { v.im.resize(s.sized(1, s.chance(1, 4) ? 120 : 20), s.sized(1, s.chance(1, 4) ? 90 : 20), s.pick({1, 3, 4})); fill(s, v.im); v.text = pbt::fmt("BMP of %dx%d, %d planes", v.im.width(), v.im.height(), v.im.planes()); }
}
static string obj_state(const Saver& v, const MeshState& b, const vector<unsigned char>& p) { if (v.kind < 2) return diff_state(state_of(v.m), b); return bytes_of(v.im) == p ? "" : "pixels changed"; }
PROP_NOFUZZ(disk_full, 60000, 1200000, 200, "the disk is full before the last byte")
{
    Saver v; gen_saver(s, v); MeshState b = state_of(v.m); auto px = bytes_of(v.im); string ref = c.scratch + "ref", out = c.scratch + "out", full, got; CHECK(v.save(ref) && read_file(ref, full), "save", "%s is not saved", v.text.c_str()); string d = obj_state(v, b, px); CHECK(d.empty(), "modified", "%s", d.c_str());
    if (s.boolean()) write_file(out, string((size_t)s.irange(0, 4000), 'o')); // an older file is there
    size_t n = full.size(), lim; switch (s.choice(5)) { case 0: lim = n; break; case 1: lim = n - min<size_t>(n, 1 + s.choice(4)); break; case 2: lim = s.choice(min<size_t>(n + 1, 130)); break; case 3: lim = min<size_t>(n, s.choice(n / 512 + 1) * 512 + s.choice(3)); break; default: lim = s.choice(n + 1); } NOTE("%s, %zu bytes, room for %zu", v.text.c_str(), n, lim);
    bool ok; { DiskLimit l(lim); ok = v.save(out); } if (lim < n) CHECK(!ok, "success-reported", "%s: room for %zu of %zu bytes, and saving reports success", v.text.c_str(), lim, n); else CHECK(ok, "failure-reported", "%s: failure reported with enough room", v.text.c_str());
    read_file(out, got); if (ok) CHECK(got == full, "incomplete", "%s: success reported, %zu of %zu bytes written", v.text.c_str(), got.size(), n); CHECK(got.size() <= lim, "harness", "limit not applied");
    d = obj_state(v, b, px); CHECK(d.empty(), "modified", "a failed save modified the object: %s", d.c_str()); CHECK(v.save(out) && read_file(out, got) && got == full, "again", "%s: saving again gives %zu bytes instead of %zu", v.text.c_str(), got.size(), n); c.nontrivial = lim < n;
}
PROP_NOFUZZ(targets, 20000, 400000, 200, "always: a target that cannot be written")
{
    Saver v; gen_saver(s, v); MeshState b = state_of(v.m); auto px = bytes_of(v.im); string p; switch (s.choice(6)) { case 0: p = c.scratch + "no/dir/x"; break; case 1: p = c.scratch; break; case 2: p = ""; break; case 3: p = c.scratch + "f"; write_file(p, "x"); p += "/y"; break; case 4: p = c.scratch + string(300, 'n'); break; default: p = "/dev/full"; } if (p == "/dev/full" && access(p.c_str(), W_OK) != 0) return;
    NOTE("%s to '%s'", v.text.c_str(), p.c_str()); CHECK(!v.save(p), "success-reported", "%s to '%s' reports success", v.text.c_str(), p.substr(0, 40).c_str()); string d = obj_state(v, b, px); CHECK(d.empty(), "modified", "%s", d.c_str()); c.nontrivial = true;
}
PROP_NOFUZZ(images, 20000, 400000, 500, "always: an image the format cannot hold")
{
    int p = s.pick({0, 2, 5, 6, 16, 2, 3, 1, 4}), w = s.sized(0, 12), h = s.sized(0, 12); if (p == 1 || p == 3 || p == 4) { if (s.boolean()) w = 0; else h = 0; } Image im(w, h, p); fill(s, im); auto px = bytes_of(im); bool known = p == 1 || p == 3 || p == 4; NOTE("%dx%d, %d planes", w, h, p); string f = c.scratch + "i.bmp"; bool ok = ImageIoBmp::write(f, &im);
    if (!known) CHECK(!ok, "success-reported", "%d planes are reported as written", p); else if (ok) { Image r; CHECK(ImageIoBmp::read(f, &r) && r.width() == w && r.height() == h, "empty", "an empty image is reported as written but is not read back"); } CHECK(bytes_of(im) == px, "modified", "image changed"); c.nontrivial = true;
}
// success means that the file reads back, for any object, any number of times
PROP_NOFUZZ(repeated, 20000, 400000, 200, "always: the same object saved several times, other objects between")
{
    Saver v[2]; gen_saver(s, v[0]); gen_saver(s, v[1]); string f = c.scratch + "r", first[2]; int n = s.irange(2, 6);
    for (int i = 0; i < n; i++) { int k = (int)s.choice(2); CHECK(v[k].save(f), "save", "%s: save %d failed", v[k].text.c_str(), i); string t; CHECK(read_file(f, t), "file", "no file"); if (first[k].empty()) first[k] = t; CHECK(t == first[k], "differs", "%s: save %d gives %zu bytes, the first gave %zu, or other bytes", v[k].text.c_str(), i, t.size(), first[k].size());
        Mesh m; Image im; bool ok = v[k].kind == 0 ? STLFile::load(f, m) : v[k].kind == 1 ? OBJFile::load(f, m) : ImageIoBmp::read(f, &im); CHECK(ok, "read-back", "%s: saved, but not read back", v[k].text.c_str()); if (v[k].kind < 2) { CHECK(m.nb_triangles() == (int)soup_of(v[k].m).t.size(), "read-back", "%d triangles read back", m.nb_triangles()); } else CHECK(im.size() == v[k].im.size(), "read-back", "image of %d bytes", im.size()); }
    c.nontrivial = true;
}
