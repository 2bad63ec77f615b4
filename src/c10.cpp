// C10: unicodeLength of NUL-terminated strings
#include "common.hpp"
static int K8, K16, K32;
static void judge(const char* what, unsigned got, const Parse& p)
{
    unsigned n = (unsigned)p.cps.size();
    if (p.st == Bad || !p.allIn(Unicode)) { eq(what, got, 0u); return; }
    if (p.st == Ok) { eq(what, got, n); return; }
    if (p.tailMin > 0x10ffff && got == 0) { ++calls; return; }
    ++calls;
    if (got == n) return;
    if (n && got == n - 1) { known("cut-off-tail-counts-one-less", std::string(what) + ": got " + show(got) + " expected " + show(n)); return; }
    fail(what, show(got), show(n));
}
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    judge("unicodeLength(const char*)", unicodeLength(guard.z(s)), p);
    judge("unicodeLength(string)", unicodeLength(s), p);
    if (!s.empty() && p.st == Ok) judge("unicodeLength(p,n)", unicodeLength(guard2.raw(s.data(), s.size()), (unsigned)s.size()), p);
    if (p.st == Ok && p.allIn(Unicode)) eq("unicodeLength = length of the UCS-4 conversion", unicodeLength(s), (unsigned)toUcs4(s).size());
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    judge("unicodeLength(const char16_t*)", unicodeLength(guard.z(s)), p);
    judge("unicodeLength(u16string)", unicodeLength(s), p);
    if (!s.empty() && p.st == Ok) judge("unicodeLength(p16,n)", unicodeLength(guard2.raw(s.data(), s.size()), (unsigned)s.size()), p);
    if (p.st == Ok) eq("unicodeLength = length of the UCS-4 conversion", unicodeLength(s), (unsigned)toUcs4(s).size());
}
static void f32(const In& in)
{
    const s32& s = *in.d; Parse p = parse32(s);
    unsigned got = unicodeLength(guard.z(s));
    if (p.st == Bad) eq("unicodeLength(const char32_t*)", got, 0u);
    else if (!p.allIn(Unicode) && got == 0) ++calls;
    else eq("unicodeLength(const char32_t*)", got, (unsigned)s.size());
    eq("unicodeLength(u32string)", unicodeLength(s), got);
}
static void fnull(const In&)
{
    eq("unicodeLength(null)", unicodeLength((const char*)nullptr), 0u); eq("unicodeLength(null)", unicodeLength((const char16_t*)nullptr), 0u); eq("unicodeLength(null)", unicodeLength((const char32_t*)nullptr), 0u);
    eq("unicodeLength(null,n)", unicodeLength((const char*)nullptr, 5), 0u); eq("unicodeLength(null,n)", unicodeLength((const char16_t*)nullptr, 5), 0u); eq("unicodeLength(null,n)", unicodeLength((const char32_t*)nullptr, 5), 0u);
}
static int KN;
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); KN = reg("null", 8, fnull); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    auto h = [](const s32& s) { run(K32, s); };
    run(KN, s8());
    gen::space8(f); gen::space16(g); gen::space32(h);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); }, false);
    gen::pairsApart<s8>(enc8(0xe9), gen::tokens8(), { "\x80", enc8(0x1f600), "\xed\xa0\x80", "\xf4", encSplit(0x10ffff) }, thorough ? 20 : 5, f);
    gen::pairsApart<s16>(u"a", gen::tokens16(), gen::tokens16(), thorough ? 24 : 6, g);
    uint64_t item = 0;
    for (int n : { 99999, 131071, 262145 }) for (uint32_t c : { 0x41u, 0xe9u, 0x20acu, 0x1f600u })
    {
        if (!mine(item++)) continue;
        s32 d(n, (char32_t)c); h(d); f(enc8(d)); g(enc16(d));
    }
    if (thorough) { gen::allBytes(4, f); gen::sweep(0x110000, 0x7fffffff, [&](uint32_t c) { f(enc8(c)); }); }
}
