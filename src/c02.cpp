// C02: UTF-8 encoding
#include "common.hpp"
static int K16, K32;
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    conv("toUtf8(const char16_t*)", toUtf8(guard.z(s)), p, Utf8);
    conv("toUtf8(u16string)", toUtf8(s), p, Utf8);
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    conv("toUtf8(const char32_t*)", toUtf8(guard.z(s)), p, Utf8);
    conv("toUtf8(u32string)", toUtf8(s), p, Utf8);
}
void registerKinds() { K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); }
void explore()
{
    gen::space16([](const s16& s) { run(K16, s); });
    auto f = [](const s32& s) { run(K32, s); };
    gen::space32(f);
    gen::pairsApart<s32>(U"a", gen::tokens32(), { s32(1, 0xdc00), s32(1, 0x1f600), s32(1, 0x80000000u), s32(1, 0x7fffffff) }, thorough ? 24 : 10, f);
    gen::pairsApart<s16>(u"a", gen::tokens16(), { s16(1, 0xdc00), s16(1, 0xd800), u"\U0001f600", u"\u20ac" }, thorough ? 24 : 10, [](const s16& s) { run(K16, s); });
    s32 u(1, 1);
    gen::sweep(0x200000, thorough ? 0xffffffffull : 0x7ffffff, [&](uint32_t c) { u[0] = c; run(K32, u); });
}
