// C15: lower-casing is per character and commutes with conversion
#include "common.hpp"
static int K8, K16, K32, KPAIR;
static const char* LANGS[] = { nullptr, "tr", "en" };
static s32 low(const s32& c, const char* lang) { s32 r; for (auto x : c) r += toLower(s32(1, x), lang); return r; }
static void f32(const In& in)
{
    const s32& s = *in.d; const char* lang = LANGS[in.a[0]];
    s32 r = toLower(s, lang);
    eq("toLower(ucs4) = per character", r, low(s, lang));
    eq("toLower(ucs4) keeps the number of code points", (unsigned long)r.size(), (unsigned long)s.size());
    eq("toLower(ucs4) is idempotent", toLower(r, lang), r);
    steps += s.size();
    uint32_t mx = 0; bool sur = false; for (auto c : s) { if (c > mx) mx = c; sur |= isSur(c) || !c; }
    if (sur) return;
    if (mx <= 0x7fffffff)
    {
        s8 e = enc8(s), g = toLower(e, lang);
        eq("toLower(utf8) = convert, lower, convert back", g, enc8(r));
        eq("toLower(utf8) is idempotent", toLower(g, lang), g);
        eq("toLower(utf8) = through toUcs4/toUtf8", toUtf8(toLower(toUcs4(e), lang)), g);
    }
    if (mx <= 0x10ffff)
    {
        s16 e = enc16(s), g = toLower(e, lang);
        eq("toLower(utf16) = convert, lower, convert back", g, enc16(r));
        eq("toLower(utf16) is idempotent", toLower(g, lang), g);
        if (mx > 0xffff) { s8 t; for (auto c : s) { if (c >= 0x10000) putSplit(t, c); else put8(t, c); } eq("toLower(utf8 with split pairs)", toUcs4(toLower(t, lang)), r); }
    }
}
static void f8(const In& in)
{
    const s8& s = *in.b; const char* lang = LANGS[in.a[0]]; Parse p = parse8(s);
    s8 g = toLower(s, lang);
    if (p.st == Bad) eq("toLower of ill-formed UTF-8", g, s8());
    else eq("toLower(utf8)", g, enc8(low(p.cps, lang)));
}
static void f16(const In& in)
{
    const s16& s = *in.w; const char* lang = LANGS[in.a[0]]; Parse p = parse16(s);
    s16 g = toLower(s, lang);
    if (p.st == Bad) eq("toLower of ill-formed UTF-16", g, s16());
    else eq("toLower(utf16)", g, enc16(low(p.cps, lang)));
}
// two neighbours, cheaply: UCS-4 with either mapping
static void fpair(const In& in)
{
    const s32& s = *in.d;
    for (const char* lang : { (const char*)nullptr, "tr" })
    {
        s32 r = toLower(s, lang);
        static s32 memo[2][0x20000];
        s32 want;
        for (auto c : s) { s32& m = memo[lang ? 1 : 0][c & 0x1ffff]; if (m.empty()) m = toLower(s32(1, c), lang); want += m; }
        eq("toLower(two letters) = per character", r, want);
        ++steps;
    }
}
void registerKinds() { KPAIR = reg("pair", 32, fpair); K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); }
void explore()
{
    bool main = version == 16 || thorough;
    static const uint32_t caseChars[] = { 0x41, 0x49, 0x5a, 0x61, 0x69, 0x20, 0x7f, 0xc0, 0xd7, 0xde, 0xdf, 0x130, 0x131, 0x178, 0x1c4, 0x1c5, 0x23a, 0x307, 0x345, 0x391, 0x3a3, 0x3c2, 0x3c3, 0x3f4, 0x410, 0x4c0, 0x10a0, 0x13a0, 0x1c90, 0x1e9e, 0x1f88, 0x1fbc, 0x2126, 0x212a, 0x2160, 0x24b6, 0x2c00, 0x2cf2, 0xa640, 0xa78d, 0xa7c5, 0xd7ff, 0xe000, 0xff21, 0xffff, 0x10400, 0x104b0, 0x10570, 0x10c80, 0x118a0, 0x16e40, 0x1e900, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff };
    std::vector<s32> t; for (auto c : caseChars) t.push_back(s32(1, c));
    for (long l = 0; l < 3; ++l)
    {
        gen::tree(t, main ? 3 : 2, [l](const s32& s) { run(K32, s, l); });
        gen::sweep(0, 0x10ffff, [&](uint32_t c) {
            s32 u(1, c);
            if (!main && l) return;
            run(K32, u, l);
            if (!isSur(c) && c && (version == 16 || version == 7)) { if (l == 2) return; run(K32, U"A" + u, l); run(K32, u + U"A", l); run(K32, u + u, l); run(K32, U"I\u0307" + u + U"\u03a3", l); run(K32, u + U"\u0307", l); }
        });
        if (version == 16) gen::tree(gen::tokens8(), main && l == 0 ? 3 : 2, [l](const s8& s) { run(K8, s, l); });
        if (version == 16) gen::tree(gen::tokens16(), 3, [l](const s16& s) { run(K16, s, l); });
        std::vector<s32> fl = { U"A", U"z", U"\u0130", U"\u03a3", U"\U00010400", U"I\u0307" }, tk = { U"", U"I", U"\u03a3", U"\u0130", U"\U0001e900", U"\u2126", U"\u1e9e" };
        if (version == 16) gen::positions(fl, tk, std::vector<s32>{ U"I", U"\U00010400" }, thorough ? 64 : 20, [l](const s32& s) { run(K32, s, l); });
    }
    // every pair of letters that have a case
    if (main)
    {
        std::vector<uint32_t> cased; 
        for (uint32_t c = 1; c < 0x20000; ++c) { uint32_t d = ucd.toLower(c); if (d != c) { cased.push_back(c); if (thorough || c < 0x600 || c == 0x1e9e || c > 0x2000) cased.push_back(d); } }
        for (uint32_t c : gen::special()) if (c < 0x20000) cased.push_back(c);
        for (uint32_t c : { 0x2du, 0x303u, 0x323u, 0x328u }) cased.push_back(c);
        note("cased_letters_paired", shard ? 0 : cased.size());
        for (size_t i = 0; i < cased.size(); ++i)
        {
            if (!mine(i)) continue;
            for (uint32_t d : cased) { s32 s(1, cased[i]); s.push_back(d); run(KPAIR, s, 0); }
        }
    }
    gen::bigValues([&](uint32_t c) { run(K32, s32(1, c)); run(K32, U"A" + s32(1, c)); }, true);
    if (version == 16)
    {
        gen::tree(gen::bytes8(), 4, [](const s8& s) { run(K8, s); });
        gen::tree(gen::units16(), 4, [](const s16& s) { run(K16, s); });
        for (long l = 0; l < 2; ++l) gen::neighbours([l](const s32& s) { run(K32, s, l); });
        std::vector<uint32_t> all = gen::common();
        for (uint32_t c = 0x250; c < 0x20000; ++c) { uint32_t d = ucd.toLower(c); if (d != c) { all.push_back(c); all.push_back(d); } }
        for (long l = 0; l < 2; ++l) gen::runs(all, thorough ? 70 : 20, [l](const s32& s) { run(K32, s, l); });
        gen::runs(gen::common(), 40, [](const s32& s) { run(K32, s, 0); });
        gen::boundaries<s32>({ U"A", U"\u03a3", U"\U00010400" }, { U"I", U"\u00e9", U"\U0001e900" }, [](const s32& s) { run(K32, s); });
        gen::tree(std::vector<s32>{ U"A", U"I", U"\u0307", U"\u03a3", U"\U00010400", U" " }, thorough ? 8 : 6, [](const s32& s) { run(K32, s); run(K32, s, 1); });
        if (thorough) gen::allBytes(3, [](const s8& s) { run(K8, s); });
    }
}
