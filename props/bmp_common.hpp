#pragma once
#include "common.hpp"
#include "Image.h"
#include "ImageIoBmp.h"
inline unsigned u32(const string& t, size_t o) { unsigned v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | (unsigned char)t[o + i]; return v; }
inline int u16(const string& t, size_t o) { return (unsigned char)t[o] | (unsigned char)t[o + 1] << 8; }
inline void le(string& t, unsigned v, int n) { for (int i = 0; i < n; i++) t += (char)(v >> (8 * i) & 255); }
// pixels from one number per image: every pixel and plane differs from its neighbours
inline unsigned char pix(uint64_t seed, int x, int y, int k) { uint64_t h = seed * 0x9E3779B97F4A7C15ull + (uint64_t)x * 0xD1B54A32D192ED03ull + (uint64_t)y * 0x94D049BB133111EBull + (uint64_t)k * 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return (unsigned char)h; }
inline void fill(pbt::Source& s, Image& im) { uint64_t seed = s.choice(1 << 20); for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) for (int p = 0; p < im.planes(); p++) im(x, y, p) = seed == 0 ? 0 : pix(seed, x, y, p); }
inline vector<unsigned char> bytes_of(const Image& im) { vector<unsigned char> r; for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) for (int p = 0; p < im.planes(); p++) r.push_back(*im.pixel(x, y, p)); return r; }
struct BmpSpec {
    int w, h, bpp, hs, gap, used, trail; bool zeroSize; uint64_t seed; string bytes;
    int pixel(int x, int y, int k) const { int v = pix(seed, x, y, k); return bpp == 8 && used ? v % used : v; }
    string text() const { return pbt::fmt("%dx%d, %d bits, header of %d bytes, gap %d, %d colours used, %d bytes behind", w, h, bpp, hs, gap, used, trail); }
    void build()
    {
        int n = bpp / 8; long row = ((long)w * n + 3) / 4 * 4; int pal = bpp == 8 ? (used ? used : 256) * 4 : 0; unsigned off = 14 + hs + pal + gap; string& t = bytes; t = "BM"; le(t, off + row * h + trail, 4); le(t, 0, 4); le(t, off, 4);
        le(t, hs, 4); le(t, w, 4); le(t, h, 4); le(t, 1, 2); le(t, bpp, 2); le(t, 0, 4); le(t, zeroSize ? 0 : row * h, 4); le(t, 2835, 4); le(t, 2835, 4); le(t, used, 4); le(t, 0, 4); t.resize(14 + hs, 0);
        for (int i = 0; i < pal / 4; i++) { le(t, i, 1); le(t, i, 1); le(t, i, 1); le(t, 0, 1); } t.append(gap, 'g');
        for (int y = h - 1; y >= 0; y--) { size_t s0 = t.size(); for (int x = 0; x < w; x++) { if (n == 1) le(t, pixel(x, y, 0), 1); else { le(t, pixel(x, y, 2), 1); le(t, pixel(x, y, 1), 1); le(t, pixel(x, y, 0), 1); if (n == 4) le(t, pixel(x, y, 3), 1); } } while (t.size() < s0 + row) t += (char)pix(seed, x_pad(t.size()), y, 7); }
        t.append(trail, 't');
    }
    static int x_pad(size_t k) { return (int)(k % 1000); }
};
inline void gen_bmp(pbt::Source& s, BmpSpec& b, int maxw = 40, int maxh = 20)
{
    b.w = s.sized(1, maxw); b.h = s.sized(1, maxh); if (maxw > 30 && s.chance(1, 500)) { int big = s.pick({s.irange(41, 300), s.irange(250, 260), s.irange(1000, 5000), s.irange(32765, 32770), s.irange(65533, 65538)}); if (s.boolean()) { b.w = big; b.h = s.irange(1, 2); } else { b.h = big; b.w = s.irange(1, 3); } } b.bpp = s.pick({8, 24, 24, 32}); b.hs = s.pick({40, 40, 108, 124}); b.gap = s.pick({0, 0, 1, 2, 10}); b.used = b.bpp == 8 && s.boolean() ? s.irange(1, 256) : 0; b.trail = s.pick({0, 0, 0, 5}); b.zeroSize = s.boolean(); b.seed = s.choice(1 << 20); b.build();
}
