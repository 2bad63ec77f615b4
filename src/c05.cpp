// C05: whatever passes a check converts
#include "common.hpp"
static int K8, K16, K32;
// the conversion of text that a check accepted: exactly its code points
template <typename S> void must(const char* what, const Parse& p, const S& got, bool resultValid)
{
    if (p.st == Bad) fail(what, "accepted by the check, but ill-formed", "rejected");
    eq(what, got, Enc<S>::of(p.cps));
    holds(what, resultValid, "the result fails its own encoding's check", "valid");
}
static bool v8(const s8& s) { return isUtf8(s); }
static bool v16(const s16& s) { return isUtf16(s); }
static bool v2(const s16& s) { return isUcs2(s); }
static bool v32(const s32& s) { return isUcs4(s); }
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    const char* z = guard.z(s);
    bool a = isUtf8(z, kAscii), u = isUtf8(z, kUtf8), w2 = isUtf8(z, kUcs2), w = isUtf8(z, kUtf16), d = isUtf8(z, kUcs4), uni = isUtf8(z, kUnicode);
    if (a || u || d || uni || w || w2)
    {
        s32 g = toUcs4(z);
        must("isUtf8 => toUcs4", p, g, v32(g));
        s8 r = toUtf8(g);
        must("isUtf8 => toUcs4 => toUtf8", p, r, v8(r));
    }
    if (a || w2) { s16 g = toUcs2(z); must("isUtf8(s,kUcs2) => toUcs2", p, g, v2(g)); }
    if (a || w2 || w || uni) { s16 g = toUtf16(z); must("isUtf8(s,kUtf16) => toUtf16", p, g, v16(g)); }
    if (isWstring(z)) { std::wstring g = toWstring(z); must("isWstring(utf8) => toWstring", p, g, isUcs4(g)); }
    if (a)
    {
        holds("isUtf8(s,kAscii): every unit is 7-bit", p.allIn(Ascii), "", "");
        holds("isUtf8(s,kAscii) => every other range", u && w2 && w && d && uni, "rejected", "accepted");
    }
    if (!s.empty() && isUtf8(guard.raw(s.data(), s.size()), (unsigned)s.size()))
    {
        s32 g = toUcs4(s);
        must("isUtf8(p,n) => toUcs4", p, g, v32(g));
    }
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    const char16_t* z = guard.z(s);
    bool any = false;
    for (auto r : RT) any |= isUtf16(z, r) | isUcs2(z, r);
    if (any)
    {
        s8 g = toUtf8(z); must("isUtf16 => toUtf8", p, g, v8(g));
        s32 h = toUcs4(z); must("isUtf16 => toUcs4", p, h, v32(h));
    }
    for (auto r : RT) if (isUcs2(z, r)) holds("isUcs2: one unit per code point", p.cps.size() == s.size(), "surrogates", "none");
    if (isWstring(z)) { std::wstring g = toWstring(z); must("isWstring(utf16) => toWstring", p, g, isUcs4(g)); }
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    const char32_t* z = guard.z(s);
    if (isUcs4(z, kAscii) || isUcs4(z, kUtf8)) { s8 g = toUtf8(z); must("isUcs4(s,kUtf8) => toUtf8", p, g, v8(g)); }
    if (isUcs4(z, kUcs2)) { s16 g = toUcs2(z); must("isUcs4(s,kUcs2) => toUcs2", p, g, v2(g)); }
    if (isUcs4(z, kUtf16) || isUcs4(z, kUnicode)) { s16 g = toUtf16(z); must("isUcs4(s,kUtf16) => toUtf16", p, g, v16(g)); }
    if (isWstring(z)) { std::wstring g = toWstring(z); must("isWstring(ucs4) => toWstring", p, g, isUcs4(g)); }
    const wchar_t* w = wz(s);
    if (isUtf8(w)) { s8 g = toUtf8(w); must("isUtf8(wchar_t*) => toUtf8", p, g, v8(g)); }
    if (isUtf16(w)) { s16 g = toUtf16(w); must("isUtf16(wchar_t*) => toUtf16", p, g, v16(g)); }
    if (isUcs2(w)) { s16 g = toUcs2(w); must("isUcs2(wchar_t*) => toUcs2", p, g, v2(g)); }
    if (isUcs4(w)) { s32 g = toUcs4(w); must("isUcs4(wchar_t*) => toUcs4", p, g, v32(g)); }
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    gen::space8(f, 3); gen::space16(g, 3); gen::space32(h, 3);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); }, false);
    if (thorough)
    {
        gen::sweep(0x200000, 0x7fffffff, [&](uint32_t c) { f(enc8(c)); });
        s32 u(1, 1);
        gen::sweep(0x200000, 0xffffffffull, [&](uint32_t c) { u[0] = c; h(u); });
    }
}
