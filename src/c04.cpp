// C04: validators accept exactly the well-formed strings in the target range
#include "gen.hpp"
using namespace hx; using namespace model; using namespace ansak;
static const RangeType R[] = { kAscii, kUtf8, kUcs2, kUtf16, kUcs4, kUnicode };
static const char* N8[] = { "isUtf8(s,kAscii)", "isUtf8(s,kUtf8)", "isUtf8(s,kUcs2)", "isUtf8(s,kUtf16)", "isUtf8(s,kUcs4)", "isUtf8(s,kUnicode)" };
static const char* N16[] = { "isUtf16(s,kAscii)", "isUtf16(s,kUtf8)", "isUtf16(s,kUcs2)", "isUtf16(s,kUtf16)", "isUtf16(s,kUcs4)", "isUtf16(s,kUnicode)" };
static const char* N2[] = { "isUcs2(s,kAscii)", "isUcs2(s,kUtf8)", "isUcs2(s,kUcs2)", "isUcs2(s,kUtf16)", "isUcs2(s,kUcs4)", "isUcs2(s,kUnicode)" };
static const char* N32[] = { "isUcs4(s,kAscii)", "isUcs4(s,kUtf8)", "isUcs4(s,kUcs2)", "isUcs4(s,kUtf16)", "isUcs4(s,kUcs4)", "isUcs4(s,kUnicode)" };
static int K8, K16, K32, KX;
static void f8(const In& in)
{
    const std::string& s = *in.b;
    Parse p = parse8(s);
    const char* z = guard.z(s);
    for (int r = 0; r < NRANGES; ++r) eq(N8[r], isUtf8(z, R[r]), valid(p, r));
    eq("isUtf8(string)", isUtf8(s), valid(p, Utf8));
    if (!s.empty()) eq("isUtf8(p,n)", isUtf8(z, (unsigned)s.size()), valid(p, Utf8));
}
static void f16(const In& in)
{
    const std::u16string& s = *in.w;
    Parse p = parse16(s);
    bool anySur = false;
    uint32_t mx = 0;
    for (auto c : s) { if (isSur(c)) anySur = true; if (c > mx) mx = c; }
    const char16_t* z = guard.z(s);
    for (int r = 0; r < NRANGES; ++r)
    {
        eq(N16[r], isUtf16(z, R[r]), valid(p, r));
        eq(N2[r], isUcs2(z, R[r]), !anySur && mx <= rangeMax(r));
    }
    eq("isUtf16(string)", isUtf16(s), valid(p, Utf16));
    eq("isUcs2(string)", isUcs2(s), !anySur);
}
static void f32(const In& in)
{
    const std::u32string& s = *in.d;
    Parse p = parse32(s);
    const char32_t* z = guard.z(s);
    for (int r = 0; r < NRANGES; ++r) eq(N32[r], isUcs4(z, R[r]), valid(p, r));
    eq("isUcs4(string)", isUcs4(s), valid(p, Ucs4));
}
static void fx(const In& in)   // selectors outside the enumeration
{
    RangeType r = static_cast<RangeType>(in.a[0]);
    std::string s = *in.b; std::u16string w; std::u32string d;
    for (char c : s) { w.push_back((unsigned char)c); d.push_back((unsigned char)c); }
    eq("isUtf8(bad range)", isUtf8(s, r), false); eq("isUtf8(ptr,bad range)", isUtf8(s.c_str(), r), false);
    eq("isUtf16(bad range)", isUtf16(w, r), false); eq("isUcs2(bad range)", isUcs2(w, r), false); eq("isUcs4(bad range)", isUcs4(d, r), false);
    eq("isUtf16(ptr,bad range)", isUtf16(w.c_str(), r), false); eq("isUcs2(ptr,bad range)", isUcs2(w.c_str(), r), false); eq("isUcs4(ptr,bad range)", isUcs4(d.c_str(), r), false);
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KX = reg("badrange", 8, fx); }
void explore()
{
    gen::space8([](const std::string& s) { run(K8, s); });
    gen::cpsIn8(1, 0x10ffff, [](const std::string& s) { run(K8, s); });
    gen::bigValues([](uint32_t c) { std::string e = enc8(c); run(K8, e); run(K8, "A" + e); run(K8, e + "A"); }, false);
    gen::space16([](const std::u16string& s) { run(K16, s); });
    gen::space32([](const std::u32string& s) { run(K32, s); });
    if (mine(0)) for (long r : { -2147483647L - 1, -100L, -1L, 6L, 7L, 8L, 31L, 32L, 100L, 255L, 256L, 2147483647L })
        for (auto s : { "A", "\xc3\xa9", "a longer ascii string to check", "\xff", "\xc3" }) run(KX, std::string(s), r);
    if (thorough)
    {
        gen::allBytes(4, [](const std::string& s) { run(K8, s); });
        std::u32string u(1, 1);
        gen::sweep(0x200000, 0xffffffffull, [&](uint32_t c) { u[0] = c; run(K32, u); });
    }
}
