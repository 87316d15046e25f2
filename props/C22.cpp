// C22: BMP files read back as the image that was written.
#include "file_common.hpp"
#include "bmp_common.hpp"
PROP(round_trip, 180000, 3600000, 500, "rows are padded, or the target image was not empty")
{
    int w = s.sized(1, 40), h = s.sized(1, 24), p = s.pick({1, 3, 4}); if (s.chance(1, 400)) { int big = s.pick({s.irange(41, 300), s.irange(250, 260), s.irange(1000, 5000), s.irange(21840, 21850), s.irange(32765, 32770), s.irange(65533, 65538), s.irange(80000, 90000)}); if (s.boolean()) { w = big; h = s.irange(1, 2); } else { h = big; w = s.irange(1, 3); } } Image im(w, h, p); fill(s, im); Image back; if (s.boolean()) { back.resize(s.irange(0, 9), s.irange(0, 9), s.pick({1, 3, 4})); fill(s, back); } bool dirty = back.size() > 0; NOTE("%dx%d, %d planes%s", w, h, p, dirty ? ", into a used image" : "");
    vector<unsigned char> before = bytes_of(im); string f = c.scratch + "a.bmp", t; if (s.chance(1, 4)) { int old = s.pick({s.irange(0, 60), s.irange(0, 5000)}); write_file(f, string((size_t)old, 'B')); NOTE("over a file of %d bytes", old); } CHECK(ImageIoBmp::write(f, &im), "write", "%dx%d image with %d planes was not written", w, h, p); CHECK(bytes_of(im) == before && im.width() == w && im.height() == h && im.planes() == p, "input", "writing changed the image"); CHECK(read_file(f, t), "file", "no file");
    long row = ((long)w * p + 3) / 4 * 4; CHECK(t.size() >= 54, "size", "%zu bytes", t.size()); long off = u32(t, 10), hs = u32(t, 14); CHECK(t.substr(0, 2) == "BM", "magic", "magic"); CHECK(u32(t, 2) == t.size(), "file-size", "header says %u bytes, the file has %zu", u32(t, 2), t.size()); CHECK(hs >= 40 && off >= 14 + hs + (p == 1 ? 1024 : 0), "offset", "pixels at %ld, header of %ld", off, hs); CHECK((long)t.size() == off + row * h, "data-size", "%zu bytes, %ld expected", t.size(), off + row * h);
    CHECK((int)u32(t, 18) == w && (int)u32(t, 22) == h && u16(t, 26) == 1 && u16(t, 28) == 8 * p && u32(t, 30) == 0, "header", "width %d height %d planes %d bits %d compression %u", (int)u32(t, 18), (int)u32(t, 22), u16(t, 26), u16(t, 28), u32(t, 30)); CHECK(u32(t, 34) == 0 || u32(t, 34) == (unsigned)(row * h), "image-size", "image size %u, %ld expected", u32(t, 34), row * h); CHECK(u32(t, 46) == 0 || u32(t, 46) == 256, "colors", "colours used %u", u32(t, 46));
    if (p == 1) for (int i = 0; i < 256; i++) { const char* q = t.data() + 14 + hs + 4 * i; CHECK((unsigned char)q[0] == i && (unsigned char)q[1] == i && (unsigned char)q[2] == i, "palette", "palette entry %d", i); }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < min(p, 3); k++) { unsigned char g = t[off + (h - 1 - y) * row + x * p + (p == 1 ? 0 : 2 - k)]; CHECK(g == ((const Image&)im)(x, y, k), "pixel", "pixel %d,%d plane %d is %d in the file, %d in the image", x, y, k, g, (int)im(x, y, k)); }
    CHECK(ImageIoBmp::read(f, &back), "read", "the written %dx%d image with %d planes is not read back", w, h, p); CHECK(back.width() == w && back.height() == h && back.planes() == p, "read-size", "%dx%d with %d planes read", back.width(), back.height(), back.planes());
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < min(p, 3); k++) CHECK(back(x, y, k) == im(x, y, k), "read-pixel", "pixel %d,%d plane %d is read as %d instead of %d", x, y, k, (int)back(x, y, k), (int)im(x, y, k));
    c.nontrivial = w * p % 4 != 0 || dirty;
}
PROP(foreign, 180000, 3600000, 500, "rows are padded, a longer header, a gap before the pixels or a short palette")
{
    BmpSpec b; gen_bmp(s, b); Image back; if (s.boolean()) { back.resize(s.irange(0, 9), s.irange(0, 9), s.pick({1, 3, 4})); fill(s, back); } NOTE("%s", b.text().c_str()); string f = c.scratch + "f.bmp"; write_file(f, b.bytes);
    CHECK(ImageIoBmp::read(f, &back), "refused", "refused: %s", b.text().c_str()); CHECK(back.width() == b.w && back.height() == b.h && back.planes() == b.bpp / 8, "size", "%dx%d with %d planes: %s", back.width(), back.height(), back.planes(), b.text().c_str());
    for (int y = 0; y < b.h; y++) for (int x = 0; x < b.w; x++) for (int k = 0; k < min(b.bpp / 8, 3); k++) CHECK(back(x, y, k) == b.pixel(x, y, k), "pixel", "pixel %d,%d plane %d is read as %d instead of %d: %s", x, y, k, (int)back(x, y, k), b.pixel(x, y, k), b.text().c_str());
    c.nontrivial = b.w * b.bpp / 8 % 4 != 0 || b.hs > 40 || b.gap || b.used;
}
