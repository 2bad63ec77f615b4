// C17: code pages
#include "common.hpp"
static int KB, KU, KX;
// from the Microsoft code page definitions: bytes 80..FF, 0 = undefined
static const uint16_t CP1252[128] = {
 0x20AC,0,0x201A,0x0192,0x201E,0x2026,0x2020,0x2021,0x02C6,0x2030,0x0160,0x2039,0x0152,0,0x017D,0,
 0,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,0x0161,0x203A,0x0153,0,0x017E,0x0178 };
static const uint16_t CP1250[128] = {
 0x20AC,0,0x201A,0,0x201E,0x2026,0x2020,0x2021,0,0x2030,0x0160,0x2039,0x015A,0x0164,0x017D,0x0179,
 0,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0,0x2122,0x0161,0x203A,0x015B,0x0165,0x017E,0x017A,
 0x00A0,0x02C7,0x02D8,0x0141,0x00A4,0x0104,0x00A6,0x00A7,0x00A8,0x00A9,0x015E,0x00AB,0x00AC,0x00AD,0x00AE,0x017B,
 0x00B0,0x00B1,0x02DB,0x0142,0x00B4,0x00B5,0x00B6,0x00B7,0x00B8,0x0105,0x015F,0x00BB,0x013D,0x02DD,0x013E,0x017C,
 0x0154,0x00C1,0x00C2,0x0102,0x00C4,0x0139,0x0106,0x00C7,0x010C,0x00C9,0x0118,0x00CB,0x011A,0x00CD,0x00CE,0x010E,
 0x0110,0x0143,0x0147,0x00D3,0x00D4,0x0150,0x00D6,0x00D7,0x0158,0x016E,0x00DA,0x0170,0x00DC,0x00DD,0x0162,0x00DF,
 0x0155,0x00E1,0x00E2,0x0103,0x00E4,0x013A,0x0107,0x00E7,0x010D,0x00E9,0x0119,0x00EB,0x011B,0x00ED,0x00EE,0x010F,
 0x0111,0x0144,0x0148,0x00F3,0x00F4,0x0151,0x00F6,0x00F7,0x0159,0x016F,0x00FA,0x0171,0x00FC,0x00FD,0x0163,0x02D9 };
static uint32_t of(int cp, unsigned char b) { if (b < 0x80) return b; if (cp == 1250) return CP1250[b - 0x80]; return b >= 0xa0 ? b : CP1252[b - 0x80]; }
static void fb(const In& in)
{
    const s8& s = *in.b; const char* z = guard.z(s);
    for (int cp : { 1252, 1250 })
    {
        s8 w; bool bad = false;
        for (unsigned char b : s) { uint32_t c = of(cp, b); ++steps; if (!c) { bad = true; break; } put8(w, c); }
        if (bad) w.clear();
        eq(cp == 1252 ? "toUtf8(s,kSrcCP1252)" : "toUtf8(s,kSrcCP1250)", toUtf8(z, cp == 1252 ? kSrcCP1252 : kSrcCP1250), w);
    }
}
static void fu(const In& in)
{
    const s8& s = *in.b;
    Parse p = parse8(s);
    if (p.st == Ok) eq("toUtf8(valid,kSrcUnicode)", toUtf8(guard.z(s), kSrcUnicode), s);
}
static void fx(const In& in)
{
    eq("toUtf8(s,unknown encoding)", toUtf8(guard.z(*in.b), (SourceEncoding)in.a[0]), s8());
    for (auto e : { kSrcUnicode, kSrcCP1252, kSrcCP1250, (SourceEncoding)77 }) { eq("toUtf8(null,enc)", toUtf8((const char*)nullptr, e), s8()); eq("toUtf8(\"\",enc)", toUtf8("", e), s8()); }
}
void registerKinds() { KB = reg("bytes", 8, fb); KU = reg("unicode", 8, fu); KX = reg("unknown", 8, fx); }
void explore()
{
    auto f = [](const s8& s) { run(KB, s); };
    if (mine(0)) f("");
    gen::allBytes(1, f); gen::allBytes(2, f); gen::allBytes(3, f);
    std::vector<s8> t; for (int b : { 0x01, 0x41, 0x7f, 0x80, 0x81, 0x83, 0x88, 0x8d, 0x8f, 0x90, 0x98, 0x9d, 0x9f, 0xa0, 0xc3, 0xff }) t.push_back(s8(1, (char)b));
    gen::tree(t, thorough ? 6 : 5, f);
    std::vector<s8> all; for (int b = 1; b < 256; ++b) all.push_back(s8(1, (char)b));
    gen::positions<s8>({ "a", "\x80", "\xe9", "\xff", "ab\x9f" }, all, { "", "\x81", "\x90", "\x80", "\xff" }, thorough ? 70 : 34, f);
    gen::pairsApart<s8>("a", all, { "\x81", "\x90", "\x98", "\xe9" }, thorough ? 20 : 8, f);
    gen::boundaries<s8>({ "a", "\x80", "\xe9" }, { "\x81", "\x98", "\x9f", "\xff" }, f);
    for (int a = 1; a < 256; ++a) { if (!mine(a)) continue; for (int b = 1; b < 256; ++b) { s8 p(1, (char)a); p += (char)b; f(s8(25, 'n') + p); f(p + s8(12, '\xe9')); f(s8(40, '\xe9') + p + "n"); } }
    auto u = [](const s8& s) { run(KU, s); };
    gen::neighbours([&](const s32& s) { u(enc8(s)); f(enc8(s)); });
    gen::runs(gen::common(), thorough ? 70 : 40, [&](const s32& s) { u(enc8(s)); f(enc8(s)); });
    gen::tree(gen::valid8(), 3, u);
    gen::cpsIn8(1, 0x10ffff, u);
    gen::positions<s8>(gen::fillers8(), gen::valid8(), { "", enc8(0x1f600) }, 20, u);
    if (mine(0)) for (long e : { -2147483647L - 1, -2L, -1L, 3L, 4L, 5L, 255L, 256L, 65536L, 1250L, 1252L, 2147483647L }) for (auto s : { "A", "\x80", "\xe9", "\x81", "ab\xc3\xa9" }) run(KX, s8(s), e);
    if (thorough) { gen::allBytes(4, f); }
}
