// C03: UTF-16 and UCS-2 conversion
#include "common.hpp"
static int K8, K16, K32;
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    const char* z = guard.z(s);
    conv("toUtf16(const char*)", toUtf16(z), p, Utf16);
    conv("toUtf16(string)", toUtf16(s), p, Utf16);
    conv("toUcs2(const char*)", toUcs2(z), p, Ucs2);
    conv("toUcs2(string)", toUcs2(s), p, Ucs2);
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    conv("toUcs4(const char16_t*)", toUcs4(guard.z(s)), p, Ucs4);
    conv("toUcs4(u16string)", toUcs4(s), p, Ucs4);
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    const char32_t* z = guard.z(s);
    conv("toUtf16(const char32_t*)", toUtf16(z), p, Utf16);
    conv("toUtf16(u32string)", toUtf16(s), p, Utf16);
    conv("toUcs2(const char32_t*)", toUcs2(z), p, Ucs2);
    conv("toUcs2(u32string)", toUcs2(s), p, Ucs2);
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    gen::space8(f, 3); gen::space16(g); gen::space32(h, 2);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); }, false);
    gen::pairsApart<s32>(U"a", gen::tokens32(), { s32(1, 0xdc00), s32(1, 0x1f600), s32(1, 0x80000000u), s32(1, 0x110000) }, thorough ? 24 : 10, h);
    gen::pairsApart<s16>(u"a", gen::tokens16(), { s16(1, 0xdc00), s16(1, 0xd800), u"\U0001f600", u"\u20ac" }, thorough ? 24 : 10, g);
    if (thorough)
    {
        gen::sweep(0x200000, 0x7fffffff, [&](uint32_t c) { f(enc8(c)); });
        s32 u(1, 1);
        gen::sweep(0x200000, 0xffffffffull, [&](uint32_t c) { u[0] = c; h(u); });
    }
}
