// C08: only a completable cut-off sequence at the end is ignored
#include "common.hpp"
static int K8, K16, KM8;
// in.a[0] = length of the complete part; the rest is a tail
static void f8(const In& in)
{
    const s8& s = *in.b; Parse p = parse8(s);
    const char* z = guard.z(s);
    if (p.st == Tail)
    {
        s8 base = s.substr(0, p.tailAt);
        for (int r = 0; r < NRANGES; ++r)
        {
            bool got = isUtf8(z, RT[r]);
            eq("isUtf8 of a cut-off string", got, valid(p, r));
            if (p.tailMin <= rangeMax(r)) eq("isUtf8 with the tail and without", got, isUtf8(base, RT[r]));
        }
        s32 d = toUcs4(z); eq("toUcs4 with the tail and without", d, toUcs4(base));
        if (p.tailMin <= 0x10ffff)
        {
            eq("toUtf16 with the tail and without", toUtf16(z), toUtf16(base));
            eq("isWstring with the tail and without", isWstring(z), isWstring(base));
        }
        else eq("isWstring with a tail beyond Unicode", isWstring(z), false);
        if (p.tailMin <= 0xffff) eq("toUcs2 with the tail and without", toUcs2(z), toUcs2(base));
        eq("toLower with the tail and without", toLower(s), toLower(base));
        eq("toWstring with the tail and without", toWstring(z), toWstring(base));
        eq("isUtf8(p,n) with the tail and without", isUtf8(guard2.raw(s.data(), s.size()), (unsigned)s.size()), true);
    }
    else if (p.st == Bad)
    {
        for (int r = 0; r < NRANGES; ++r) eq("isUtf8 of an ill-formed string", isUtf8(z, RT[r]), false);
        eq("toUcs4 of an ill-formed string", toUcs4(z), s32());
        eq("toUtf16 of an ill-formed string", toUtf16(z), s16());
        eq("toUcs2 of an ill-formed string", toUcs2(z), s16());
        eq("toLower of an ill-formed string", toLower(s), s8());
        eq("isUtf8(p,n) of an ill-formed string", isUtf8(guard2.raw(s.data(), s.size()), (unsigned)s.size()), false);
    }
    else
    {
        eq("toUcs4 of a complete string", toUcs4(z), p.cps);
        eq("isUtf8 of a complete string", isUtf8(z), true);
    }
}
static void f16(const In& in)
{
    const s16& s = *in.w; Parse p = parse16(s);
    const char16_t* z = guard.z(s);
    if (p.st == Tail)
    {
        s16 base = s.substr(0, p.tailAt);
        for (int r = 0; r < NRANGES; ++r)
        {
            bool got = isUtf16(z, RT[r]);
            eq("isUtf16 of a cut-off string", got, valid(p, r));
            if (p.tailMin <= rangeMax(r)) eq("isUtf16 with the tail and without", got, isUtf16(base, RT[r]));
        }
        eq("toUcs4 with the tail and without", toUcs4(z), toUcs4(base));
        eq("toUtf8 with the tail and without", toUtf8(z), toUtf8(base));
        eq("toLower with the tail and without", toLower(s), toLower(base));
        eq("isWstring with the tail and without", isWstring(z), isWstring(base));
        eq("toWstring with the tail and without", toWstring(z), toWstring(base));
    }
    else if (p.st == Bad)
    {
        for (int r = 0; r < NRANGES; ++r) eq("isUtf16 of an ill-formed string", isUtf16(z, RT[r]), false);
        eq("toUcs4 of an ill-formed string", toUcs4(z), s32());
        eq("toUtf8 of an ill-formed string", toUtf8(z), s8());
        eq("toLower of an ill-formed string", toLower(s), s16());
    }
    else { eq("toUcs4 of a complete string", toUcs4(z), p.cps); eq("isUtf16 of a complete string", isUtf16(z), true); }
}
void registerKinds() { K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    auto g = [](const s16& s) { run(K16, s); };
    // every lead byte with up to five following bytes from the boundary alphabet, after several prefixes
    std::vector<s8> pre = { "", "A", enc8(0xe9), enc8(0x20ac), enc8(0x1f600), encSplit(0x1f600), enc8(0x110000), enc8(0x7fffffff), "\x80", "\xc3", "\xed\xa0\x80" };
    static const unsigned char cb[] = { 0x80, 0x83, 0x84, 0x87, 0x88, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xed, 0x41, 0xc3, 0xff };
    uint64_t item = 0;
    for (int lead = 0xc0; lead < 0x100; ++lead)
        for (unsigned a = 0; a <= sizeof cb; ++a)
        {
            if (!mine(item++)) continue;
            s8 t(1, (char)lead);
            if (a) t.push_back((char)cb[a - 1]);
            int depth = a ? (thorough ? 4 : 3) : 0;
            std::vector<s8> bs; for (auto b : cb) bs.push_back(s8(1, (char)b));
            auto leaf = [&](const s8& x) { for (auto& q : pre) f(q + x); };
            gen::treeRec(bs, depth, t, leaf);
        }
    // every proper prefix of every encoding of every code point, and of every split pair
    auto prefixes = [&](const s8& e) { for (size_t k = 1; k < e.size(); ++k) { f(e.substr(0, k)); f("A" + e.substr(0, k)); f(e + e.substr(0, k)); f(e.substr(0, k) + "A"); f(e.substr(0, k) + e); } };
    gen::sweep(0x80, 0x10ffff, [&](uint32_t c) {
        if (isSur(c)) return;
        if (thorough || c < 0x3000 || (c & 0x3f) == 0 || (c & 0x3f) == 0x3f) { prefixes(enc8(c)); if (c >= 0x10000) prefixes(encSplit(c)); }
    });
    gen::bigValues([&](uint32_t c) { prefixes(enc8(c)); }, false);
    gen::space8(f, 3);
    gen::space16(g, 2);
    std::vector<s8> tails = gen::partial8();
    gen::pairsApart<s8>(enc8(0xe9), tails, { "", "A" }, thorough ? 40 : 20, f);
    gen::pairsApart<s8>("a", tails, { "", "A" }, thorough ? 40 : 20, f);
}
