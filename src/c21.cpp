// C21: overloads agree; null, empty and unknown selectors
#include "common.hpp"
static int K8, K16, K32, KN, KX;
static std::vector<EncodingCheckPredicate> preds;
static void f8(const In& in)
{
    const s8& s = *in.b; const char* z = guard.z(s); steps += s.size();
    bool d = isUtf8(z, kUtf8);
    eq("isUtf8 default range (ptr)", isUtf8(z), d); eq("isUtf8 default range (string)", isUtf8(s), d);
    EncodingCheckPredicate none;
    for (auto r : RT)
    {
        bool v = isUtf8(z, r);
        eq("isUtf8(string,range) = isUtf8(ptr,range)", isUtf8(s, r), v);
        eq("isUtf8(ptr,range,empty predicate)", isUtf8(z, r, none), v);
        eq("isUtf8(string,range,empty predicate)", isUtf8(s, r, none), v);
        for (auto& p : preds) eq("isUtf8(string,range,pred) = ptr", isUtf8(s, r, p), isUtf8(z, r, p));
    }
    for (auto& p : preds)
    {
        bool v = isUtf8(z, kUtf8, p);
        eq("isUtf8(ptr,pred)", isUtf8(z, p), v); eq("isUtf8(string,pred)", isUtf8(s, p), v);
        eq("isUtf8(ptr,0,pred)", isUtf8(z, 0u, p), v);
        if (!s.empty()) eq("isUtf8(ptr,n,pred)", isUtf8(z, (unsigned)s.size(), p), v);
    }
    eq("isUtf8(ptr,0)", isUtf8(z, 0u), d);
    if (!s.empty()) eq("isUtf8(ptr,length)", isUtf8(z, (unsigned)s.size()), d);
    eq("toUcs4(string) = toUcs4(ptr)", toUcs4(s), toUcs4(z)); eq("toUtf16(string) = toUtf16(ptr)", toUtf16(s), toUtf16(z)); eq("toUcs2(string) = toUcs2(ptr)", toUcs2(s), toUcs2(z));
    eq("toWstring(string) = toWstring(ptr)", toWstring(s), toWstring(z)); eq("isWstring(string) = isWstring(ptr)", isWstring(s), isWstring(z));
    unsigned n = unicodeLength(z);
    eq("unicodeLength(string) = unicodeLength(ptr)", unicodeLength(s), n); eq("unicodeLength(ptr,0)", unicodeLength(z, 0), n);
    eq("toLower default language", toLower(s), toLower(s, nullptr)); eq("toLower(s,\"\")", toLower(s, ""), toLower(s));
}
static void f16(const In& in)
{
    const s16& s = *in.w; const char16_t* z = guard.z(s); steps += s.size();
    bool d = isUtf16(z, kUtf16), d2 = isUcs2(z, kUcs2);
    eq("isUtf16 default range (ptr)", isUtf16(z), d); eq("isUtf16 default range (string)", isUtf16(s), d);
    eq("isUcs2 default range (ptr)", isUcs2(z), d2); eq("isUcs2 default range (string)", isUcs2(s), d2);
    EncodingCheckPredicate none;
    for (auto r : RT)
    {
        eq("isUtf16(string,range) = ptr", isUtf16(s, r), isUtf16(z, r)); eq("isUcs2(string,range) = ptr", isUcs2(s, r), isUcs2(z, r));
        eq("isUtf16(ptr,range,empty predicate)", isUtf16(z, r, none), isUtf16(z, r)); eq("isUcs2(ptr,range,empty predicate)", isUcs2(z, r, none), isUcs2(z, r));
        for (auto& p : preds) { eq("isUtf16(string,range,pred) = ptr", isUtf16(s, r, p), isUtf16(z, r, p)); eq("isUcs2(string,range,pred) = ptr", isUcs2(s, r, p), isUcs2(z, r, p)); }
    }
    for (auto& p : preds)
    {
        eq("isUtf16(ptr,pred)", isUtf16(z, p), isUtf16(z, kUtf16, p)); eq("isUtf16(string,pred)", isUtf16(s, p), isUtf16(z, kUtf16, p));
        eq("isUcs2(ptr,pred)", isUcs2(z, p), isUcs2(z, kUcs2, p)); eq("isUcs2(string,pred)", isUcs2(s, p), isUcs2(z, kUcs2, p));
    }
    eq("toUtf8(u16string) = ptr", toUtf8(s), toUtf8(z)); eq("toUcs4(u16string) = ptr", toUcs4(s), toUcs4(z));
    eq("toWstring(u16string) = ptr", toWstring(s), toWstring(z)); eq("isWstring(u16string) = ptr", isWstring(s), isWstring(z));
    unsigned n = unicodeLength(z);
    eq("unicodeLength(u16string) = ptr", unicodeLength(s), n); eq("unicodeLength(ptr,0)", unicodeLength(z, 0), n);
    eq("toLower default language", toLower(s), toLower(s, nullptr)); eq("toLower(s,\"\")", toLower(s, ""), toLower(s));
}
static void f32(const In& in)
{
    const s32& s = *in.d; const char32_t* z = guard.z(s); steps += s.size();
    bool d = isUcs4(z, kUcs4);
    eq("isUcs4 default range (ptr)", isUcs4(z), d); eq("isUcs4 default range (string)", isUcs4(s), d);
    EncodingCheckPredicate none;
    for (auto r : RT)
    {
        eq("isUcs4(string,range) = ptr", isUcs4(s, r), isUcs4(z, r)); eq("isUcs4(ptr,range,empty predicate)", isUcs4(z, r, none), isUcs4(z, r));
        for (auto& p : preds) eq("isUcs4(string,range,pred) = ptr", isUcs4(s, r, p), isUcs4(z, r, p));
    }
    for (auto& p : preds) { eq("isUcs4(ptr,pred)", isUcs4(z, p), isUcs4(z, kUcs4, p)); eq("isUcs4(string,pred)", isUcs4(s, p), isUcs4(z, kUcs4, p)); }
    eq("toUtf8(u32string) = ptr", toUtf8(s), toUtf8(z)); eq("toUtf16(u32string) = ptr", toUtf16(s), toUtf16(z)); eq("toUcs2(u32string) = ptr", toUcs2(s), toUcs2(z));
    eq("toWstring(u32string) = ptr", toWstring(s), toWstring(z)); eq("isWstring(u32string) = ptr", isWstring(s), isWstring(z));
    unsigned n = unicodeLength(z);
    eq("unicodeLength(u32string) = ptr", unicodeLength(s), n); eq("unicodeLength(ptr,0)", unicodeLength(z, 0), n);
    if (!s.empty()) eq("unicodeLength(ptr,length)", unicodeLength(z, (unsigned)s.size()), n);
    eq("toLower default language", toLower(s), toLower(s, nullptr)); eq("toLower(s,\"\")", toLower(s, ""), toLower(s));
    std::wstring ws = wide(s); const wchar_t* w = wz(s);
    eq("isUtf8(wstring) = ptr", isUtf8(ws), isUtf8(w)); eq("isUtf16(wstring) = ptr", isUtf16(ws), isUtf16(w)); eq("isUcs2(wstring) = ptr", isUcs2(ws), isUcs2(w)); eq("isUcs4(wstring) = ptr", isUcs4(ws), isUcs4(w));
    eq("toUtf8(wstring) = ptr", toUtf8(ws), toUtf8(w)); eq("toUtf16(wstring) = ptr", toUtf16(ws), toUtf16(w)); eq("toUcs2(wstring) = ptr", toUcs2(ws), toUcs2(w)); eq("toUcs4(wstring) = ptr", toUcs4(ws), toUcs4(w));
}
static void fn(const In& in)    // null and empty
{
    const char* c0 = in.a[0] ? guard.z(s8()) : nullptr; const char16_t* c1 = in.a[0] ? guard.z(s16()) : nullptr; const char32_t* c2 = in.a[0] ? guard.z(s32()) : nullptr;
    const wchar_t* c3 = in.a[0] ? L"" : nullptr;
    for (auto r : RT)
    {
        eq("isUtf8(null/empty,range)", isUtf8(c0, r), true); eq("isUtf16(null/empty,range)", isUtf16(c1, r), true); eq("isUcs2(null/empty,range)", isUcs2(c1, r), true); eq("isUcs4(null/empty,range)", isUcs4(c2, r), true);
        for (auto& p : preds) { eq("isUtf8(null/empty,range,pred)", isUtf8(c0, r, p), true); eq("isUtf16(null/empty,range,pred)", isUtf16(c1, r, p), true); eq("isUcs2(null/empty,range,pred)", isUcs2(c1, r, p), true); eq("isUcs4(null/empty,range,pred)", isUcs4(c2, r, p), true); }
    }
    eq("isUtf8(null/empty)", isUtf8(c0), true); eq("isUtf16(null/empty)", isUtf16(c1), true); eq("isUcs2(null/empty)", isUcs2(c1), true); eq("isUcs4(null/empty)", isUcs4(c2), true);
    for (auto& p : preds) { eq("isUtf8(null/empty,pred)", isUtf8(c0, p), true); eq("isUtf8(null/empty,0,pred)", isUtf8(c0, 0u, p), true); if (!in.a[0]) eq("isUtf8(null,5,pred)", isUtf8(c0, 5u, p), true); }
    eq("isUtf8(null/empty,0)", isUtf8(c0, 0u), true);
    if (!in.a[0]) for (unsigned n : { 1u, 7u, 0xffffffffu }) { eq("isUtf8(null,n)", isUtf8(c0, n), true); eq("unicodeLength(null,n)", unicodeLength(c0, n), 0u); eq("unicodeLength(null,n)", unicodeLength(c1, n), 0u); eq("unicodeLength(null,n)", unicodeLength(c2, n), 0u); }
    eq("isUtf8(wchar_t null/empty)", isUtf8(c3), true); eq("isUtf16(wchar_t null/empty)", isUtf16(c3), true); eq("isUcs2(wchar_t null/empty)", isUcs2(c3), true); eq("isUcs4(wchar_t null/empty)", isUcs4(c3), true);
    eq("isWstring(null/empty)", isWstring(c0), true); eq("isWstring(null/empty)", isWstring(c1), true); eq("isWstring(null/empty)", isWstring(c2), true);
    eq("toUtf8(null/empty)", toUtf8(c1), s8()); eq("toUtf8(null/empty)", toUtf8(c2), s8()); eq("toUtf8(wchar_t null/empty)", toUtf8(c3), s8());
    eq("toUtf16(null/empty)", toUtf16(c0), s16()); eq("toUtf16(null/empty)", toUtf16(c2), s16()); eq("toUtf16(wchar_t null/empty)", toUtf16(c3), s16());
    eq("toUcs2(null/empty)", toUcs2(c0), s16()); eq("toUcs2(null/empty)", toUcs2(c2), s16()); eq("toUcs2(wchar_t null/empty)", toUcs2(c3), s16());
    eq("toUcs4(null/empty)", toUcs4(c0), s32()); eq("toUcs4(null/empty)", toUcs4(c1), s32()); eq("toUcs4(wchar_t null/empty)", toUcs4(c3), s32());
    eq("toWstring(null/empty)", toWstring(c0), std::wstring()); eq("toWstring(null/empty)", toWstring(c1), std::wstring()); eq("toWstring(null/empty)", toWstring(c2), std::wstring());
    eq("unicodeLength(null/empty)", unicodeLength(c0), 0u); eq("unicodeLength(null/empty)", unicodeLength(c1), 0u); eq("unicodeLength(null/empty)", unicodeLength(c2), 0u);
    eq("toLower(empty)", toLower(s8()), s8()); eq("toLower(empty)", toLower(s16()), s16()); eq("toLower(empty)", toLower(s32(), "tr"), s32());
    for (auto e : { kSrcUnicode, kSrcCP1252, kSrcCP1250, (SourceEncoding)3, (SourceEncoding)-1 }) eq("toUtf8(null/empty,encoding)", toUtf8(c0, e), s8());
}
static void fx(const In& in)    // unknown selectors
{
    const s8& s = *in.b; s16 w(s.begin(), s.end()); s32 d(s.begin(), s.end());
    for (auto& c : w) c &= 0x7f; for (auto& c : d) c &= 0x7f;
    RangeType r = (RangeType)in.a[0]; EncodingType t = (EncodingType)in.a[0]; SourceEncoding e = (SourceEncoding)in.a[0];
    EncodingCheckPredicate none;
    if (in.a[0] < 0 || in.a[0] > 5)
    {
        eq("isUtf8(unknown range)", isUtf8(s, r), false); eq("isUtf8(unknown range)", isUtf8(s.c_str(), r), false); eq("isUtf16(unknown range)", isUtf16(w, r), false); eq("isUcs2(unknown range)", isUcs2(w, r), false); eq("isUcs4(unknown range)", isUcs4(d, r), false);
        for (auto& p : preds) { eq("isUtf8(unknown range,pred)", isUtf8(s, r, p), false); eq("isUtf16(unknown range,pred)", isUtf16(w, r, p), false); eq("isUcs2(unknown range,pred)", isUcs2(w, r, p), false); eq("isUcs4(unknown range,pred)", isUcs4(d, r, p), false); }
    }
    if (in.a[0] <= 0 || in.a[0] > 4)
    {
        eq("validIf(unknown)", validIf(t) == none, true); eq("validIfNot(unknown)", validIfNot(t) == none, true);
        for (auto p : preds) { EncodingCheckPredicate a = p, b = p; eq("andIf(unknown)", a.andIf(t) == p, true); eq("andIfNot(unknown)", b.andIfNot(t) == p, true); }
        for (char32_t c : d) { eq("validIf(unknown)(c)", validIf(t)(c), true); eq("validIfNot(unknown)(c)", validIfNot(t)(c), true); }
    }
    if (in.a[0] < 0 || in.a[0] > 2) eq("toUtf8(unknown encoding)", toUtf8(s.c_str(), e), s8());
}
void registerKinds()
{
    K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KN = reg("nullempty", 8, fn); KX = reg("unknown", 8, fx);
    preds = { validIf(kIsAssigned), validIfNot(kIsControl), validIf(kIsPrivate), validIfNot(kIsWhitespace).andIf(kIsAssigned), validIf(kIsWhitespace), validIf(kIsControl).andIfNot(kIsControl) };
}
void explore()
{
    if (mine(0)) { run(KN, s8(), 0); run(KN, s8(), 1); }
    if (mine(1)) for (long x : { -2147483647L - 1, -1000L, -100L, -9L, -6L, -5L, -4L, -3L, -2L, -1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 16L, 31L, 32L, 33L, 64L, 100L, 127L, 128L, 255L, 256L, 257L, 1023L, 65535L, 65536L, 1L << 20, 2147483647L })
        for (auto s : { "A", "AB", "hello, world: a longer piece of text", "\xc3\xa9", "\x80" }) run(KX, s8(s), x);
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    gen::tree(gen::tokens8(), 2, f); gen::tree(gen::bytes8(), 3, f); gen::allBytes(2, f);
    gen::tree(gen::tokens16(), thorough ? 4 : 3, g); gen::tree(gen::tokens32(), thorough ? 3 : 2, h);
    if (thorough) gen::tree(gen::tokens8(), 3, f);
    gen::sweep(1, 0x10ffff, [&](uint32_t c) {
        if (!thorough && c > 0x3100 && (c & 0x1f) > 1) return;
        h(s32(1, c)); h(s32(1, c) + U"A"); if (c <= 0xffff) { g(s16(1, (char16_t)c)); g(u"A" + s16(1, (char16_t)c)); } if (!isSur(c)) f(enc8(c));
    });
    std::vector<s8> pv = { "", enc8(0x1f600), "\x80", "\xc3" };
    gen::positions(gen::fillers8(), pv, pv, 34, f);
    gen::positions<s16>(gen::fillers16(), { u"", s16(1, 0xd800), u"\U0001f600" }, { u"" }, 34, g);
    gen::positions<s32>(gen::fillers32(), { U"", s32(1, 0xd800), U"\U0001f600" }, { U"" }, 34, h);
}
