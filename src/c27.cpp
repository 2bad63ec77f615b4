// C27: 16-bit wchar_t (built with -fshort-wchar) and TCHAR (WIN32 with _UNICODE or _MBCS) adapters.
// The six wide-character functions libstdc++ uses are supplied here, for 16-bit units.
#include "common.hpp"
static_assert(sizeof(wchar_t) == 2, "build with -fshort-wchar");
extern "C" {
size_t __wrap_wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)std::memcpy(d, s, 2 * n); }
wchar_t* __wrap_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)std::memmove(d, s, 2 * n); }
wchar_t* __wrap_wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int __wrap_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* __wrap_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)s + i; return 0; }
}
static int K8, K16, K32, KN;
static std::wstring w16(const s16& s) { std::wstring r; for (auto c : s) r.push_back((wchar_t)c); return r; }
static s16 n16(const std::wstring& s) { s16 r; for (auto c : s) r.push_back((char16_t)c); return r; }
#if defined(WIN32) && defined(_MBCS)
static s8 nt(const std::string& s) { return s; }
typedef s8 T; static const int TR = Ascii;
static s8 tof(const Parse& p) { return enc8(p.cps); }
#elif defined(WIN32)
static s16 nt(const std::wstring& s) { return n16(s); }
typedef s16 T; static const int TR = Utf16;
static s16 tof(const Parse& p) { return enc16(p.cps); }
#endif
#if defined(WIN32)
template <typename P, typename S> static void tstring(const char* from, const P* z, const S& s, const Parse& p)
{
    std::string a = std::string("isTstring(") + from + ")", b = std::string("toTstring(") + from + ")", c = a + " => toTstring";
    bool i1 = isTstring(z), i2 = isTstring(s);
    eq(a.c_str(), i1, valid(p, TR)); eq(a.c_str(), i2, i1);
    T t1 = nt(toTstring(z)), t2 = nt(toTstring(s));
    conv(b.c_str(), t1, p, TR); eq(b.c_str(), t2, t1);
    if (i1) eq(c.c_str(), t1, tof(p));
}
#else
template <typename P, typename S> static void tstring(const char*, const P*, const S&, const Parse&) {}
#endif
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s); std::wstring ws = w16(s);
    const char16_t* z = guard2.z(s); const wchar_t* w = reinterpret_cast<const wchar_t*>(guard.z(s));
    for (int form = 0; form < 2; ++form)
    {
        bool b8 = form ? isUtf8(ws) : isUtf8(w), b16 = form ? isUtf16(ws) : isUtf16(w), b2 = form ? isUcs2(ws) : isUcs2(w), b4 = form ? isUcs4(ws) : isUcs4(w);
        eq("isUtf8(wchar_t)", b8, valid(p, Utf8)); eq("isUtf16(wchar_t)", b16, valid(p, Utf16)); eq("isUcs2(wchar_t)", b2, valid(p, Ucs2)); eq("isUcs4(wchar_t)", b4, valid(p, Ucs4));
        s8 g8 = form ? toUtf8(ws) : toUtf8(w); s16 g16 = form ? toUtf16(ws) : toUtf16(w), g2 = form ? toUcs2(ws) : toUcs2(w); s32 g4 = form ? toUcs4(ws) : toUcs4(w);
        eq("toUtf8(wchar_t) = toUtf8(char16_t)", g8, toUtf8(z)); eq("toUcs4(wchar_t) = toUcs4(char16_t)", g4, toUcs4(z));
        conv("toUtf8(wchar_t)", g8, p, Utf8); conv("toUtf16(wchar_t)", g16, p, Utf16); conv("toUcs2(wchar_t)", g2, p, Ucs2); conv("toUcs4(wchar_t)", g4, p, Ucs4);
        bool iw = form ? isWstring(s) : isWstring(z);
        eq("isWstring(utf16)", iw, valid(p, Utf16));
        s16 t = n16(form ? toWstring(s) : toWstring(z));
        conv("toWstring(utf16)", t, p, Utf16);
        if (iw) eq("isWstring(utf16) => toWstring", t, enc16(p.cps));
    }
    tstring("utf16", z, s, p);
}
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s); const char* z = guard.z(s);
    bool iw = isWstring(z);
    eq("isWstring(const char*)", iw, valid(p, Utf16)); eq("isWstring(string)", isWstring(s), iw);
    s16 t = n16(toWstring(z));
    conv("toWstring(utf8)", t, p, Utf16); eq("toWstring(string)", n16(toWstring(s)), t);
    if (iw) eq("isWstring(utf8) => toWstring", t, enc16(p.cps));
    tstring("utf8", z, s, p);
#if defined(WIN32)
    eq("isUtf16(const char*)", isUtf16(z), valid(p, Utf16)); eq("isUtf16(string)", isUtf16(s), valid(p, Utf16));
    eq("isUcs2(const char*)", isUcs2(z), valid(p, Ucs2)); eq("isUcs2(string)", isUcs2(s), valid(p, Ucs2));
    eq("isUcs4(const char*)", isUcs4(z), valid(p, Ucs4)); eq("isUcs4(string)", isUcs4(s), valid(p, Ucs4));
    for (const s8& g : { toUtf8(z), toUtf8(s) })
        if (p.st == Tail) holds("toUtf8(const char*) with a cut-off tail", g == s || g.empty() || s.compare(0, g.size(), g) == 0 && parse8(g).st == Ok && parse8(g).cps == p.cps, show(g), show(s));
        else eq("toUtf8(const char*)", g, p.st == Ok ? s : s8());
#endif
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s); const char32_t* z = guard.z(s);
    bool iw = isWstring(z);
    eq("isWstring(const char32_t*)", iw, valid(p, Utf16)); eq("isWstring(u32string)", isWstring(s), iw);
    s16 t = n16(toWstring(z));
    conv("toWstring(ucs4)", t, p, Utf16); eq("toWstring(u32string)", n16(toWstring(s)), t);
    if (iw) eq("isWstring(ucs4) => toWstring", t, enc16(p.cps));
    tstring("ucs4", z, s, p);
}
static void fn(const In& in)
{
    static const wchar_t nul[1] = { 0 };
    const wchar_t* w = in.a[0] ? nul : nullptr; const char* c0 = in.a[0] ? "" : nullptr; const char16_t* c1 = in.a[0] ? u"" : nullptr; const char32_t* c2 = in.a[0] ? U"" : nullptr;
    eq("isUtf8(wchar_t null/empty)", isUtf8(w), true); eq("isUtf16(wchar_t null/empty)", isUtf16(w), true); eq("isUcs2(wchar_t null/empty)", isUcs2(w), true); eq("isUcs4(wchar_t null/empty)", isUcs4(w), true);
    eq("toUtf8(wchar_t null/empty)", toUtf8(w), s8()); eq("toUtf16(wchar_t null/empty)", toUtf16(w), s16()); eq("toUcs2(wchar_t null/empty)", toUcs2(w), s16()); eq("toUcs4(wchar_t null/empty)", toUcs4(w), s32());
    eq("isWstring(null/empty)", isWstring(c0), true); eq("isWstring(null/empty)", isWstring(c1), true); eq("isWstring(null/empty)", isWstring(c2), true);
    eq("toWstring(null/empty)", n16(toWstring(c0)), s16()); eq("toWstring(null/empty)", n16(toWstring(c1)), s16()); eq("toWstring(null/empty)", n16(toWstring(c2)), s16());
#if defined(WIN32)
    eq("isUtf16(char null/empty)", isUtf16(c0), true); eq("isUcs2(char null/empty)", isUcs2(c0), true); eq("isUcs4(char null/empty)", isUcs4(c0), true); eq("toUtf8(char null/empty)", toUtf8(c0), s8());
    eq("isTstring(null/empty)", isTstring(c0), true); eq("isTstring(null/empty)", isTstring(c1), true); eq("isTstring(null/empty)", isTstring(c2), true);
    eq("toTstring(null/empty)", nt(toTstring(c0)), T()); eq("toTstring(null/empty)", nt(toTstring(c1)), T()); eq("toTstring(null/empty)", nt(toTstring(c2)), T());
#endif
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KN = reg("null", 8, fn); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    if (mine(0)) for (long a : { 0, 1 }) run(KN, s8(), a);
    gen::space8(f, 3); gen::space16(g, 3); gen::space32(h, 3);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); }, false);
}
