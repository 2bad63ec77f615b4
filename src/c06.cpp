// C06: whole or nothing; every result is well formed
#include "common.hpp"
static int K8, K16, K32, KCP;
static void out8(const char* w, const s8& g) { if (g.empty()) return; Parse q = parse8(g); holds(w, q.st == Ok && q.canonical && isUtf8(g), show(g) + " is not well formed", "well formed"); }
static void out16(const char* w, const s16& g) { if (g.empty()) return; Parse q = parse16(g); holds(w, q.st == Ok && isUtf16(g), show(g) + " is not well formed", "well formed"); }
static void out2(const char* w, const s16& g) { if (g.empty()) return; for (auto c : g) if (isSur(c)) fail(w, show(g), "no surrogates"); holds(w, isUcs2(g), show(g) + " fails isUcs2", "well formed"); }
static void out32(const char* w, const s32& g) { if (g.empty()) return; Parse q = parse32(g); holds(w, q.st == Ok && isUcs4(g), show(g) + " is not well formed", "well formed"); }
static s32 low(const s32& c, const char* lang) { s32 r; for (auto x : c) r += toLower(s32(1, x), lang); return r; }
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    const char* z = guard.z(s);
    { s16 g = toUtf16(z); wholeOrNothing("toUtf16(utf8)", g, p, Utf16); out16("toUtf16(utf8)", g); }
    { s16 g = toUcs2(z); wholeOrNothing("toUcs2(utf8)", g, p, Ucs2); out2("toUcs2(utf8)", g); }
    { s32 g = toUcs4(z); wholeOrNothing("toUcs4(utf8)", g, p, Utf8); out32("toUcs4(utf8)", g); }
    { std::wstring g = toWstring(z); wholeOrNothing("toWstring(utf8)", g, p, Utf8); out32("toWstring(utf8)", narrow(g)); }
    const char* lang = in.a[0] ? "tr" : nullptr;
    s8 g = toLower(s, lang);
    Parse q = p; if (q.st != Bad) q.cps = low(p.cps, lang);
    wholeOrNothing("toLower(utf8)", g, q, Utf8); out8("toLower(utf8)", g);
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    const char16_t* z = guard.z(s);
    { s8 g = toUtf8(z); wholeOrNothing("toUtf8(utf16)", g, p, Utf8); out8("toUtf8(utf16)", g); }
    { s32 g = toUcs4(z); wholeOrNothing("toUcs4(utf16)", g, p, Ucs4); out32("toUcs4(utf16)", g); }
    { std::wstring g = toWstring(z); wholeOrNothing("toWstring(utf16)", g, p, Ucs4); out32("toWstring(utf16)", narrow(g)); }
    const char* lang = in.a[0] ? "aze" : nullptr;
    s16 g = toLower(s, lang);
    Parse q = p; if (q.st != Bad) q.cps = low(p.cps, lang);
    wholeOrNothing("toLower(utf16)", g, q, Utf16); out16("toLower(utf16)", g);
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    const char32_t* z = guard.z(s);
    { s8 g = toUtf8(z); wholeOrNothing("toUtf8(ucs4)", g, p, Utf8); out8("toUtf8(ucs4)", g); }
    { s16 g = toUtf16(z); wholeOrNothing("toUtf16(ucs4)", g, p, Utf16); out16("toUtf16(ucs4)", g); }
    { s16 g = toUcs2(z); wholeOrNothing("toUcs2(ucs4)", g, p, Ucs2); out2("toUcs2(ucs4)", g); }
    { std::wstring g = toWstring(z); wholeOrNothing("toWstring(ucs4)", g, p, Ucs4); out32("toWstring(ucs4)", narrow(g)); }
    const wchar_t* w = wz(s);
    { s8 g = toUtf8(w); wholeOrNothing("toUtf8(wchar_t*)", g, p, Utf8); out8("toUtf8(wchar_t*)", g); }
    { s16 g = toUtf16(w); wholeOrNothing("toUtf16(wchar_t*)", g, p, Utf16); out16("toUtf16(wchar_t*)", g); }
    { s16 g = toUcs2(w); wholeOrNothing("toUcs2(wchar_t*)", g, p, Ucs2); out2("toUcs2(wchar_t*)", g); }
    { s32 g = toUcs4(w); wholeOrNothing("toUcs4(wchar_t*)", g, p, Ucs4); out32("toUcs4(wchar_t*)", g); }
    if (p.st == Ok) { s32 g = toLower(s, in.a[0] ? "kk" : nullptr); eq("toLower(ucs4) keeps its length", (unsigned long)g.size(), (unsigned long)s.size()); out32("toLower(ucs4)", g); }
}
static void fcp(const In& in)    // code pages: one character per byte, or nothing
{
    const s8& s = *in.b;
    const char* z = guard.z(s);
    for (auto e : { kSrcCP1252, kSrcCP1250 })
    {
        s8 g = toUtf8(z, e);
        if (!g.empty()) eq("toUtf8(code page) converts every byte", (unsigned long)parse8(g).cps.size(), (unsigned long)s.size());
        for (unsigned char c : s) { char one[2] = { (char)c, 0 }; if (toUtf8(one, e).empty()) { eq("toUtf8(code page) with an undefined byte", g, s8()); break; } }
        out8("toUtf8(code page)", g);
    }
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KCP = reg("codepage", 8, fcp); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    gen::space8(f, 4); gen::space16(g, 3); gen::space32(h, 3);
    gen::pairsApart<s8>("a", gen::tokens8(), gen::errors8(), thorough ? 20 : 4, [](const s8& s) { run(K8, s, 1); });
    gen::pairsApart<s16>(u"a", gen::tokens16(), gen::tokens16(), thorough ? 20 : 6, [](const s16& s) { run(K16, s, 1); });
    gen::pairsApart<s32>(U"a", gen::tokens32(), gen::tokens32(), thorough ? 20 : 6, [](const s32& s) { run(K32, s, 1); });
    auto c = [](const s8& s) { run(KCP, s); };
    gen::allBytes(1, c); gen::allBytes(2, c);
    gen::positions<s8>({ "a", "\xe9", "\x80" }, { "", "\x81", "\x90", "\x98", "\xff", "\x8d" }, { "", "\x81", "\xff" }, thorough ? 70 : 40, c);
    gen::sweep(1, 0x10ffff, [&](uint32_t x) { if (!isSur(x)) f(enc8(x)); });
    if (thorough) gen::allBytes(3, f);
}
