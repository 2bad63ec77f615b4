// C20: wchar_t adapters
#include "common.hpp"
static int K8, K16, K32;
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    std::wstring ws = wide(s);
    for (int form = 0; form < 2; ++form)
    {
        const wchar_t* w = wz(s);
        const char32_t* z = guard2.z(s);
        bool b8 = form ? isUtf8(ws) : isUtf8(w), b16 = form ? isUtf16(ws) : isUtf16(w), b2 = form ? isUcs2(ws) : isUcs2(w), b4 = form ? isUcs4(ws) : isUcs4(w);
        eq("isUtf8(wchar_t)", b8, valid(p, Utf16)); eq("isUtf16(wchar_t)", b16, valid(p, Utf16)); eq("isUcs2(wchar_t)", b2, valid(p, Ucs2)); eq("isUcs4(wchar_t)", b4, valid(p, Utf16));
        eq("isUtf8(wchar_t) = isUcs4(char32_t)", b8, isUcs4(z, kUtf16)); eq("isUcs2(wchar_t) = isUcs4(char32_t)", b2, isUcs4(z, kUcs2));
        eq("toUtf8(wchar_t) = toUtf8(char32_t)", form ? toUtf8(ws) : toUtf8(w), toUtf8(z));
        eq("toUtf16(wchar_t) = toUtf16(char32_t)", form ? toUtf16(ws) : toUtf16(w), toUtf16(z));
        eq("toUcs2(wchar_t) = toUcs2(char32_t)", form ? toUcs2(ws) : toUcs2(w), toUcs2(z));
        s32 g = form ? toUcs4(ws) : toUcs4(w);
        if (valid(p, Utf16)) eq("toUcs4(wchar_t)", g, s);
        else if (p.st == Bad) eq("toUcs4(wchar_t) of surrogates", g, s32());
        else holds("toUcs4(wchar_t) beyond Unicode", g.empty() || g == s, show(g), "nothing");
        bool iw = form ? isWstring(s) : isWstring(z);
        eq("isWstring(ucs4)", iw, valid(p, Utf16));
        std::wstring t = form ? toWstring(s) : toWstring(z);
        if (iw) eq("toWstring(ucs4)", t, ws);
        else if (p.st == Bad) eq("toWstring(ucs4) of surrogates", t, std::wstring());
        else holds("toWstring(ucs4) beyond Unicode", t.empty() || t == ws, show(t), "nothing");
    }
}
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    const char* z = guard.z(s);
    eq("isWstring(const char*)", isWstring(z), valid(p, Utf16)); eq("isWstring(string)", isWstring(s), valid(p, Utf16));
    s32 u = toUcs4(z);
    eq("toWstring(const char*) = toUcs4", toWstring(z), wide(u)); eq("toWstring(string) = toUcs4", toWstring(s), wide(u));
    if (valid(p, Utf16)) eq("toWstring(utf8)", toWstring(z), wide(p.cps));
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    const char16_t* z = guard.z(s);
    eq("isWstring(const char16_t*)", isWstring(z), valid(p, Utf16)); eq("isWstring(u16string)", isWstring(s), valid(p, Utf16));
    s32 u = toUcs4(z);
    eq("toWstring(const char16_t*) = toUcs4", toWstring(z), wide(u)); eq("toWstring(u16string) = toUcs4", toWstring(s), wide(u));
    if (valid(p, Utf16)) eq("toWstring(utf16)", toWstring(z), wide(p.cps));
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("wide", 32, f32); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    gen::space8(f, 3); gen::space16(g, 3); gen::space32(h, 3);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); }, false);
    if (thorough) { s32 u(1, 1); gen::sweep(0x200000, 0xffffffffull, [&](uint32_t c) { u[0] = c; h(u); }); }
}
