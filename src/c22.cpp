// C22: memory bounds, undefined behaviour, unmodified arguments, termination.
// Built with address and undefined-behaviour sanitizers; every pointer argument lies against an
// inaccessible page on its right and, in a second pass, on its left.
#include "common.hpp"
#ifdef VG
#include <valgrind/memcheck.h>
static unsigned vgErrors;
template <typename T> void defined(const T* p, size_t n) { if (n) (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n * sizeof(T)); if (VALGRIND_COUNT_ERRORS != vgErrors) fail("a call", "used or returned uninitialised or foreign memory (valgrind)", "not"); }
#else
template <typename T> void defined(const T*, size_t) {}
#endif
static int K8, K16, K32, KT8, KT16, KT32, KL, KC, KN8, KN16, KN32, KS, KP;
static std::vector<EncodingCheckPredicate> preds;
static volatile unsigned long sink;
template <typename T> void use(const T& v) { ++calls; defined(v.data(), v.size() + 1); sink = sink + v.size(); for (auto c : v) sink = sink + (unsigned long)c; }
static void use(bool b) { ++calls; defined(&b, 1); sink = sink + b; }
static void use(unsigned b) { ++calls; defined(&b, 1); sink = sink + b; }
template <typename S> void same(const typename S::value_type* z, const S& s) { if (memcmp(z, s.data(), s.size() * sizeof(s[0])) != 0 || z[s.size()] != 0) fail("a call wrote to its argument", "changed", "unchanged"); }
static void call8(const char* z)
{
    for (auto r : RT) { use(isUtf8(z, r)); for (auto& p : preds) use(isUtf8(z, r, p)); }
    use(toUcs4(z)); use(toUtf16(z)); use(toUcs2(z)); use(toWstring(z)); use(isWstring(z)); use(unicodeLength(z));
    for (int e = -1; e < 4; ++e) use(toUtf8(z, (SourceEncoding)e));
    use(isUtf8(z, (RangeType)-1)); use(isUtf8(z, (RangeType)6));
}
static void f8(const In& in)
{
    const s8& s = *in.b; steps += s.size();
    const char* z = in.a[0] ? guard.left(s) : guard.z(s);
    call8(z);
    same(z, s);
    if (!in.a[0])
    {
        s8 h = s; h.reserve(64); h.shrink_to_fit();
        s8 t = toLower(h); use(t); use(toLower(h, "tr"));
        use(isUtf8(h)); use(toUcs4(h)); use(toUtf16(h)); use(toUcs2(h)); use(toWstring(h)); use(unicodeLength(h));
        if (h != s) fail("a call wrote to its argument", show(h), show(s));
        // the one-character decoder, from every start
        for (size_t i = 0; i < s.size(); ++i) { const char* q = z + i; char32_t c = internal::decodeUtf8(q); sink = sink + c; ++calls; if (q && (q < z + i || q > z + s.size())) fail("decodeUtf8 leaves its argument", "outside", "inside"); }
    }
}
static void f16(const In& in)
{
    const s16& s = *in.w; steps += s.size();
    const char16_t* z = in.a[0] ? guard.left(s) : guard.z(s);
    for (auto r : RT) { use(isUtf16(z, r)); use(isUcs2(z, r)); for (auto& p : preds) { use(isUtf16(z, r, p)); use(isUcs2(z, r, p)); } }
    use(toUtf8(z)); use(toUcs4(z)); use(toWstring(z)); use(isWstring(z)); use(unicodeLength(z));
    same(z, s);
    if (!in.a[0]) { s16 h = s; h.shrink_to_fit(); use(toLower(h)); use(toLower(h, "az")); use(toUtf8(h)); use(toUcs4(h)); use(isUtf16(h)); use(isUcs2(h)); use(unicodeLength(h)); if (h != s) fail("a call wrote to its argument", show(h), show(s)); }
}
static void f32(const In& in)
{
    const s32& s = *in.d; steps += s.size();
    const char32_t* z = in.a[0] ? guard.left(s) : guard.z(s);
    for (auto r : RT) { use(isUcs4(z, r)); for (auto& p : preds) use(isUcs4(z, r, p)); }
    use(toUtf8(z)); use(toUtf16(z)); use(toUcs2(z)); use(toWstring(z)); use(isWstring(z)); use(unicodeLength(z));
    const wchar_t* w = reinterpret_cast<const wchar_t*>(z);
    use(isUtf8(w)); use(isUtf16(w)); use(isUcs2(w)); use(isUcs4(w)); use(toUtf8(w)); use(toUtf16(w)); use(toUcs2(w)); use(toUcs4(w));
    same(z, s);
    if (!in.a[0]) { s32 h = s; h.shrink_to_fit(); use(toLower(h)); use(toLower(h, "kaz")); use(toUtf8(h)); use(toUtf16(h)); use(isUcs4(h)); use(unicodeLength(h)); if (h != s) fail("a call wrote to its argument", show(h), show(s)); }
}
// length-limited: nothing readable after the prefix
static void n8(const In& in) { const s8& s = *in.b; steps += s.size(); if (s.empty()) return; const char* z = guard.raw(s.data(), s.size()); use(isUtf8(z, (unsigned)s.size())); for (auto& p : preds) use(isUtf8(z, (unsigned)s.size(), p)); use(unicodeLength(z, (unsigned)s.size())); }
static void n16(const In& in) { const s16& s = *in.w; steps += s.size(); if (s.empty()) return; use(unicodeLength(guard.raw(s.data(), s.size()), (unsigned)s.size())); }
static void n32(const In& in) { const s32& s = *in.d; steps += s.size(); if (s.empty()) return; use(unicodeLength(guard.raw(s.data(), s.size()), (unsigned)s.size())); }
// templates
template <typename C> void tmpl(const std::basic_string<C>& x, long d)
{
    std::basic_string<C> s = x; s.shrink_to_fit();
    auto v = split(s, (C)d); use(join(v, (C)d)); sink = sink + v.size();
    auto a = s; trim(a); use(a); a = s; trim(a, std::basic_string<C>(1, (C)d)); use(a); a = s; trim(a, std::basic_string<C>()); use(a);
    if (s != x) fail("split wrote to its argument", "changed", "unchanged");
    steps += x.size();
}
static void t8(const In& in) { tmpl(*in.b, in.a[0]); s8 a = *in.b; trimAscii7WhiteSpace(a); use(a); a = *in.b; trimWhiteSpace(a); use(a); }
static void t16(const In& in) { tmpl(*in.w, in.a[0]); s16 a = *in.w; trimWhiteSpace(a); use(a); }
static void t32(const In& in) { tmpl(*in.d, in.a[0]); tmpl(wide(*in.d), in.a[0]); s32 a = *in.d; trimWhiteSpace(a); use(a); }
static void fl(const In& in) { const char* z = in.a[0] ? guard.left(*in.b) : guard.z(*in.b); steps += in.b->size(); use(toLower(s8("I"), z)); use(toLower(s16(u"I"), z)); use(toLower(s32(U"I"), z)); }
static void fc(const In& in)    // every value through the character functions
{
    uint32_t c = (*in.d)[0]; ++steps;
    for (auto& p : preds) { use(p((char32_t)c)); use(p((char16_t)c)); use(p((char)c)); }
    use(toLower(s32(1, c))); use(toLower(s32(1, c), "tr"));
    char32_t b[2] = { c, 0 }; use(toUtf8(b)); use(toUtf16(b)); use(toUcs2(b)); use(isUcs4(b, kUnicode));
}
// selectors of any value, and null
static void fs(const In& in)
{
    RangeType r = (RangeType)(int)in.a[0]; SourceEncoding e = (SourceEncoding)(int)in.a[0]; ++steps;
    static const char* const t8[] = { nullptr, "", "A", "A\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "\xed\xa0" };
    static const s16 t16[] = { s16(), u"A", u"\u20ac", u"\U0001f600", s16(1, 0xd800), s16(1, 0xdc00) };
    static const s32 t32[] = { s32(), U"A", U"\u20ac", U"\U0001f600", s32(1, 0xd800), s32(1, 0x110000), s32(1, 0xffffffffu) };
    EncodingCheckPredicate none, p = validIf((EncodingType)(int)in.a[0]);
    for (auto q : { &none, &p, &preds[0], &preds[1] })
    {
        for (auto t : t8) { use(isUtf8(t, r, *q)); use(isUtf8(t, r)); use(isUtf8(t, *q)); use(isUtf8(t)); if (t && *t) { unsigned n = (unsigned)strlen(t); use(isUtf8(t, n, *q)); s8 x(t); use(isUtf8(x, r, *q)); use(isUtf8(x, *q)); } }
        use(isUtf16((const char16_t*)nullptr, r, *q)); use(isUcs2((const char16_t*)nullptr, r, *q)); use(isUcs4((const char32_t*)nullptr, r, *q));
        for (auto& t : t16) { use(isUtf16(t, r, *q)); use(isUtf16(t.c_str(), r, *q)); use(isUtf16(t, *q)); use(isUcs2(t, r, *q)); use(isUcs2(t.c_str(), r, *q)); use(isUcs2(t, *q)); }
        for (auto& t : t32) { use(isUcs4(t, r, *q)); use(isUcs4(t.c_str(), r, *q)); use(isUcs4(t, *q)); }
    }
    for (auto t : t8) { use(toUtf8(t, e)); use(toUcs4(t)); use(toUtf16(t)); use(toUcs2(t)); use(toWstring(t)); use(isWstring(t)); use(unicodeLength(t)); use(toLower(s8("aI"), t)); use(toLower(s16(u"aI"), t)); use(toLower(s32(U"aI"), t)); }
    use(toUtf8((const char16_t*)nullptr)); use(toUcs4((const char16_t*)nullptr)); use(toWstring((const char16_t*)nullptr)); use(isWstring((const char16_t*)nullptr)); use(unicodeLength((const char16_t*)nullptr));
    use(toUtf8((const char32_t*)nullptr)); use(toUtf16((const char32_t*)nullptr)); use(toUcs2((const char32_t*)nullptr)); use(toWstring((const char32_t*)nullptr)); use(isWstring((const char32_t*)nullptr)); use(unicodeLength((const char32_t*)nullptr));
    const wchar_t* w = nullptr; use(isUtf8(w)); use(isUtf16(w)); use(isUcs2(w)); use(isUcs4(w)); use(toUtf8(w)); use(toUtf16(w)); use(toUcs2(w)); use(toUcs4(w));
}
// a predicate of up to four conditions
static void fp(const In& in)
{
    const s32& s = *in.d; if (s.empty()) return; steps += s.size();
    auto type = [](uint32_t x) { return (EncodingType)(int)(x >> 1); };
    EncodingCheckPredicate p = s[0] & 1 ? validIfNot(type(s[0])) : validIf(type(s[0]));
    for (size_t i = 1; i < s.size(); ++i) { if (s[i] & 1) p.andIfNot(type(s[i])); else p.andIf(type(s[i])); }
    EncodingCheckPredicate q = p, z; z = q; use(z == p); use(p == p); use(z == EncodingCheckPredicate()); use(p == preds[0]); use(p != z);
    for (uint32_t c : { 0u, 0x20u, 0x41u, 0x85u, 0x378u, 0xd800u, 0xe000u, 0x1f600u, 0x110000u, 0xffffffffu }) { use(p((char32_t)c)); use(z((char16_t)c)); use(q((char)c)); }
    use(isUtf8("A\xc3\xa9 ", p)); use(isUtf16(u"A\U0001f600", q)); use(isUcs2(u"A\t", z)); use(isUcs4(U"A\ue000", p));
}
static const std::vector<long> selectors = { -0x7fffffffL - 1, -0x7fffffffL, -65536, -257, -256, -255, -129, -128, -127, -33, -32, -31, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 0x40000000L, 0x7ffffffeL, 0x7fffffffL };
static void selection(int depth)
{
    uint64_t item = 0;
    for (long v : selectors) { if (mine(item++)) run(KS, s8(), v); if (mine(item++)) { run(KP, s32(1, (uint32_t)v * 2)); run(KP, s32(1, (uint32_t)v * 2 + 1)); run(KP, s32(1, 2) + s32(1, (uint32_t)v * 2)); run(KP, s32(1, 3) + s32(1, (uint32_t)v * 2 + 1)); } }
    std::vector<s32> t; for (int v = -1; v <= 6; ++v) { t.push_back(s32(1, (uint32_t)v * 2)); t.push_back(s32(1, (uint32_t)v * 2 + 1)); }
    gen::tree(t, depth, [](const s32& s) { run(KP, s); });
}
void registerKinds()
{
    KS = reg("selector", 8, fs); KP = reg("predicate", 32, fp);
    K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KT8 = reg("tmpl8", 8, t8); KT16 = reg("tmpl16", 16, t16); KT32 = reg("tmpl32", 32, t32);
    KL = reg("lang", 8, fl); KC = reg("codepoint", 32, fc); KN8 = reg("limited8", 8, n8); KN16 = reg("limited16", 16, n16); KN32 = reg("limited32", 32, n32);
    preds = { validIf(kIsAssigned), validIfNot(kIsControl).andIfNot(kIsWhitespace).andIfNot(kIsPrivate) };
}
void explore()
{
    bool main = version == 16;
    s32 u(1, 0);
#ifdef VG
    vgErrors = VALGRIND_COUNT_ERRORS;
    selection(thorough ? 3 : 2);
    gen::sweep(0, 0x1fffff, [&](uint32_t c) { if (!thorough && c > 0x600 && (c & (c < 0x20000 ? 15 : 255)) != 1) return; u[0] = c; run(KC, u); });
    {
        auto f = [](const s8& s) { run(K8, s, 0); run(KN8, s); run(KT8, s, ','); };
        auto g = [](const s16& s) { run(K16, s, 0); run(KN16, s); run(KT16, s, ','); };
        auto h = [](const s32& s) { run(K32, s, 0); run(KN32, s); run(KT32, s, ','); };
        gen::tree(gen::tokens8(), thorough ? 2 : 1, f); gen::tree(gen::bytes8(), thorough ? 3 : 2, f); gen::tree(gen::units16(), thorough ? 3 : 2, g); gen::tree(gen::tokens32(), thorough ? 2 : 1, h);
        gen::tree<s8>({ "a", enc8(0xc9), enc8(0x1f600), encSplit(0x10400), "\xed\xa0\x81", "\xff", "," }, thorough ? 4 : 3, f);
        gen::tree<s16>({ u"a", u"\u0410", u"\U0001f600", s16(1, 0xd800), s16(1, 0xdc00), u"," }, thorough ? 4 : 3, g);
        gen::tree<s32>({ U"A", U"\u0410", U"\U0001f600", s32(1, 0xd800), s32(1, 0x110000), U"," }, thorough ? 4 : 3, h);
        uint64_t item = 0;
        for (int n : { 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 256, 1000 }) for (auto& fl : gen::fillers8())
        {
            if (!mine(item++)) continue;
            s8 s; for (int k = 0; k < n; ++k) s += fl;
            f(s); f(s + "\xff"); f(s + "\xf0\x9f"); f("\xff" + s);
            Parse p = parse8(s); h(p.cps); if (p.allIn(Utf16)) g(enc16(p.cps));
        }
        gen::tree<s8>({ "t", "r", "u", "a", "z", "k", "X" }, 3, [](const s8& s) { run(KL, s, 0); });
    }
    return;
#endif
    gen::sweep(0, 0x1fffff, [&](uint32_t c) { if (!main && !thorough && c > 0x20000 && (c & 0xff) > 1 && (c & 0xff) < 0xfe) return; u[0] = c; run(KC, u); });
    gen::bigValues([&](uint32_t c) { u[0] = c; run(KC, u); }, true);
    if (!main) return;
    selection(thorough ? 5 : 4);
    auto f = [](const s8& s) { run(K8, s, 0); run(K8, s, 1); run(KN8, s); };
    auto g = [](const s16& s) { run(K16, s, 0); run(K16, s, 1); run(KN16, s); };
    auto h = [](const s32& s) { run(K32, s, 0); run(K32, s, 1); run(KN32, s); };
    gen::tree(gen::bytes8(), thorough ? 4 : 3, f); gen::allBytes(1, f); if (thorough) gen::allBytes(2, f);
    gen::tree(gen::tokens8(), thorough ? 3 : 2, f);
    gen::tree(gen::units16(), thorough ? 4 : 3, g); gen::tree(gen::tokens16(), thorough ? 3 : 2, g);
    gen::tree(gen::tokens32(), thorough ? 3 : 2, h);
    std::vector<s8> pv = { "", enc8(0x1f600), "\x80", "\xc3", "\xed\xa0\x80", "\xf4\x8f\xbf", "\xfd\xbf\xbf\xbf\xbf", "\xff" };
    gen::positions(gen::fillers8(), pv, { "", "\xed\xa0" }, thorough ? 64 : 20, f);
    gen::positions<s16>(gen::fillers16(), { u"", s16(1, 0xd800), s16(1, 0xdc00), u"\U0001f600" }, { u"", s16(1, 0xd800) }, thorough ? 64 : 20, g);
    gen::positions<s32>(gen::fillers32(), { U"", s32(1, 0xd800), U"\U0001f600", s32(1, 0xffffffffu) }, { U"" }, thorough ? 64 : 20, h);
    gen::neighbours([](const s32& s) { run(K8, enc8(s), 0); run(K16, enc16(s), 0); run(K32, s, 0); });
    gen::runs(gen::common(), 20, [](const s32& s) { run(K8, enc8(s), 0); run(K16, enc16(s), 0); run(K32, s, 0); });
    // longer than the stack
    {
        uint64_t item = 0;
        for (auto& x : { s8(9000000, 'A'), s8(9000000, ',') + "\xed\xa0" }) { if (mine(item++)) { run(K8, x, 0); run(KN8, x); } if (mine(item++) && x[0] == 'A') run(KT8, x, ','); }
        if (mine(item++)) { run(K16, s16(4500000, u'A'), 0); run(KN16, s16(4500000, u'A')); }
        if (mine(item++)) { run(K32, s32(2300000, U'A'), 0); run(KN32, s32(2300000, U'A')); }
        if (mine(item++)) run(KT32, s32(2300000, U'A'), ',');
        if (mine(item++)) { s8 many; for (int i = 0; i < 400000; ++i) many += "a,"; run(KT8, many, ','); }
    }
    std::vector<s8> b0 = { s8(1, '\0'), "A", "\xc3", "\xe2", "\xed", "\xf0", "\xa0", "\xb0", "\x80", "\xfd" };
    gen::tree(b0, thorough ? 6 : 5, [](const s8& s) { run(KN8, s); });
    gen::tree<s16>({ s16(1, 0), u"A", s16(1, 0xd800), s16(1, 0xdc00) }, 6, [](const s16& s) { run(KN16, s); });
    gen::tree<s32>({ s32(1, 0), U"A", s32(1, 0xd800), s32(1, 0x110000) }, 6, [](const s32& s) { run(KN32, s); });
    std::vector<s8> t8v = { " ", ",", "a", s8(1, '\0'), "\xc3\xa9", "\xe3\x80\x80" };
    for (long d : { 0x2cL, 0x20L, 0L }) gen::tree(t8v, thorough ? 7 : 5, [d](const s8& s) { run(KT8, s, d); });
    gen::tree<s16>({ u" ", u",", u"a", u"\u3000", s16(1, 0) }, thorough ? 6 : 5, [](const s16& s) { run(KT16, s, ','); });
    gen::tree<s32>({ U" ", U",", U"a", U"\u3000", U"\U0001f600", s32(1, 0) }, thorough ? 6 : 5, [](const s32& s) { run(KT32, s, ','); });
    gen::positions<s8>({ " ", "a", ",", "\xc3" }, { "", ",", " ", "x" }, { "", "x" }, 40, [](const s8& s) { if (s.size() < 9000) { run(KT8, s, ','); run(KT8, s, ' '); } });
    gen::allBytes(1, [](const s8& s) { run(KL, s, 0); run(KL, s, 1); });
    std::vector<s8> ab; for (char c : s8("abejkrtuz-X")) ab.push_back(s8(1, c));
    gen::tree(ab, thorough ? 5 : 4, [](const s8& s) { run(KL, s, 0); run(KL, s, 1); });
}
