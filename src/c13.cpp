// C13: predicate checks are alike in all encodings
#include "common.hpp"
static int KS, K8, K16, K2, K32;
static const int NP = 81 + 4;
static EncodingCheckPredicate pr[NP]; static int req[NP], forb[NP];
static bool acc(int k, int cls) { return (cls & req[k]) == req[k] && !(cls & forb[k]); }
// verdict for text with these code points
static bool want(const Parse& p, int r, int k)
{
    if (!valid(p, r)) return false;
    for (auto c : p.cps) if (!acc(k, ucd.classOf(c))) return false;
    return true;
}
static bool want2(const s16& s, int r, int k)
{
    for (auto c : s) if (isSur(c) || c > rangeMax(r) || !acc(k, ucd.classOf(c))) return false;
    return true;
}
static int first, last;     // predicates tried
static void one8(const s8& s) { Parse p = parse8(s); const char* z = guard.z(s); for (int k = first; k < last; ++k) for (int r = 0; r < NRANGES; ++r) eq("isUtf8(s,range,pred)", isUtf8(z, RT[r], pr[k]), want(p, r, k)); }
static void one16(const s16& s) { Parse p = parse16(s); const char16_t* z = guard.z(s); for (int k = first; k < last; ++k) for (int r = 0; r < NRANGES; ++r) { eq("isUtf16(s,range,pred)", isUtf16(z, RT[r], pr[k]), want(p, r, k)); eq("isUcs2(s,range,pred)", isUcs2(z, RT[r], pr[k]), want2(s, r, k)); } }
static void one32(const s32& s) { Parse p = parse32(s); const char32_t* z = guard.z(s); for (int k = first; k < last; ++k) for (int r = 0; r < NRANGES; ++r) eq("isUcs4(s,range,pred)", isUcs4(z, RT[r], pr[k]), want(p, r, k)); }
// a[0] = number of predicates to try
static void fs(const In& in)    // the same text in every encoding
{
    const s32& s = *in.d; first = in.a[1]; last = in.a[0];
    uint32_t mx = 0; for (auto c : s) if (c > mx) mx = c;
    one32(s);
    if (mx <= 0x7fffffff) { one8(enc8(s)); if (mx >= 0x10000 && mx <= 0x10ffff) { s8 t; for (auto c : s) { if (c >= 0x10000) putSplit(t, c); else put8(t, c); } one8(t); } }
    if (mx <= 0x10ffff) one16(enc16(s));
}
static void g8(const In& in) { first = in.a[1]; last = in.a[0]; one8(*in.b); s8 s = *in.b; if (!s.empty()) { Parse p = parse8(s); for (int k = first; k < last; ++k) eq("isUtf8(p,n,pred)", isUtf8(guard2.raw(s.data(), s.size()), (unsigned)s.size(), pr[k]), want(p, Utf8, k)); } }
static void g16(const In& in) { first = in.a[1]; last = in.a[0]; one16(*in.w); }
static void g32(const In& in) { first = in.a[1]; last = in.a[0]; one32(*in.d); }
void registerKinds()
{
    KS = reg("text", 32, fs); K8 = reg("utf8", 8, g8); K16 = reg("utf16", 16, g16); K32 = reg("ucs4", 32, g32);
    // the single conditions come first
    int n = 0;
    for (int pass = 0; pass < 3; ++pass)
        for (int x = 0; x < 81; ++x)
        {
            int y = x, a = 0, b = 0, cnt = 0;
            for (int k = 0; k < 4; ++k) { int d = y % 3; y /= 3; if (d == 1) a |= 1 << k, ++cnt; if (d == 2) b |= 1 << k, ++cnt; }
            if ((pass == 0 && cnt == 1) || (pass == 1 && cnt == 0) || (pass == 2 && cnt > 1))
            {
                EncodingCheckPredicate p;
                for (int k = 0; k < 4; ++k) { if (a >> k & 1) p = p.andIf((EncodingType)(k + 1)); if (b >> k & 1) p = p.andIfNot((EncodingType)(k + 1)); }
                pr[n] = p; req[n] = a; forb[n] = b; ++n;
            }
        }
    for (int k = 0; k < 4; ++k) { pr[n] = validIf((EncodingType)(k + 1)).andIfNot((EncodingType)(k + 1)); req[n] = forb[n] = 1 << k; ++n; }
}
void explore()
{
    bool main = version == 16;
    // every code point, alone and in company; single conditions for all, every predicate for a part
    gen::sweep(1, 0x10ffff, [&](uint32_t c) {
        s32 u(1, c);
        bool edge = (c & 0xff) < 2 || (c & 0xff) > 0xfd;
        if (main || thorough || c < 0x3100 || edge) run(KS, u, 9);
        if (isSur(c)) return;
        if (thorough || edge || c < 0x100) { run(KS, u, NP, 9); run(KS, U"A" + u, 9); run(KS, u + U"A", 9); run(KS, U"\U0001f600" + u, 9); run(KS, u + U"\U0001f600", 9); run(KS, u + u, 9); }
    });
    gen::bigValues([&](uint32_t c) { run(KS, s32(1, c), 9); run(KS, U"A" + s32(1, c), 9); }, true);
    // class representatives in all combinations
    std::vector<s32> reps;
    for (uint32_t c : { 0x01u, 0x09u, 0x20u, 0x41u, 0x7fu, 0x85u, 0xa0u, 0x378u, 0x2028u, 0x3000u, 0xe000u, 0xfdd0u, 0xffffu, 0x1f600u, 0x1ffffu, 0xf0000u, 0x10ffffu, 0x110000u, 0x80000041u, 0xd800u }) reps.push_back(s32(1, c));
    gen::tree(reps, main ? 3 : 2, [](const s32& s) { run(KS, s, NP); });
    if (thorough && main) gen::tree(reps, 4, [](const s32& s) { run(KS, s, NP); });
    if (main || thorough)
    {
        gen::tree(gen::tokens8(), 2, [](const s8& s) { run(K8, s, NP); });
        gen::tree(gen::tokens16(), 3, [](const s16& s) { run(K16, s, 9); });
        gen::tree(gen::bytes8(), 3, [](const s8& s) { run(K8, s, 9); });
        std::vector<s32> fl = { U"A", U"\u00e9", U"\U0001f600", U"\ue000", U" " }, tk = { U"", U"A", U" ", U"\u0378", U"\ue000", U"\U0001ffff", U"\u0001", s32(1, 0xf0000) };
        gen::positions(fl, tk, tk, thorough ? 64 : 24, [](const s32& s) { run(KS, s, s.size() < 1000 ? 9 : 2); });
        gen::neighbours([](const s32& s) { run(KS, s, 5); });
        gen::runs(gen::common(), thorough ? 70 : 40, [](const s32& s) { run(KS, s, 5); });
        gen::boundaries<s32>({ U"A", U"\u00e9", U"\U0001f600" }, { U" ", U"\u0378", U"\U0001ffff" }, [](const s32& s) { run(KS, s, s.size() < 1000 ? 5 : 2); });
        gen::tree(std::vector<s32>{ U"A", U"\u00e9", U"\u3000", U"\U0001f600", U"\ue000" }, thorough ? 7 : 6, [](const s32& s) { run(KS, s, 9); });
    }
}
