// C07: round trips through every chain of encodings.  State: (encoding, text); transitions:
// every conversion function; the reachable states must all denote the same code points.
#include "common.hpp"
#include <set>
static int KC;
enum { E8, E16, E2, E32, EW };
struct St { int e; s8 b; s16 w; s32 d; bool operator<(const St& o) const { return e != o.e ? e < o.e : b != o.b ? b < o.b : w != o.w ? w < o.w : d < o.d; } };
static bool viaString;
static void check(const St& s, const s32& cps, const char* path)
{
    switch (s.e)
    {
    case E8: eq(path, s.b, enc8(cps)); break;
    case E16: eq(path, s.w, enc16(cps)); break;
    case E2: eq(path, s.w, enc2(cps)); break;
    default: eq(path, s.d, cps); break;
    }
}
static void f(const In& in)
{
    s32 cps = *in.d;
    uint32_t mx = 0; for (auto c : cps) if (c > mx) mx = c;
    std::set<St> seen; std::vector<St> todo;
    auto push = [&](St s, const char* path) { check(s, cps, path); if (seen.insert(s).second) todo.push_back(s); };
    // start: the canonical form in each encoding, and UTF-8 with split pairs
    bool to8 = mx <= 0x7fffffff, to16 = mx <= 0x10ffff, to2 = mx <= 0xffff;
    if (to8) push(St{ E8, enc8(cps), s16(), s32() }, "start");
    if (to16) push(St{ E16, s8(), enc16(cps), s32() }, "start");
    push(St{ E32, s8(), s16(), cps }, "start");
    if (to16)
    {
        s8 sp; for (auto c : cps) { if (c >= 0x10000) putSplit(sp, c); else put8(sp, c); }
        const char* z = guard.z(sp);
        push(St{ E32, s8(), s16(), toUcs4(z) }, "split UTF-8 to UCS-4");
        push(St{ E16, s8(), toUtf16(z), s32() }, "split UTF-8 to UTF-16");
        push(St{ EW, s8(), s16(), narrow(toWstring(z)) }, "split UTF-8 to wstring");
    }
    while (!todo.empty())
    {
        St s = todo.back(); todo.pop_back();
        ++steps;
        switch (s.e)
        {
        case E8: {
            const char* z = guard.z(s.b);
            push(St{ E32, s8(), s16(), toUcs4(z) }, "UTF-8 to UCS-4"); push(St{ E32, s8(), s16(), toUcs4(s.b) }, "UTF-8 string to UCS-4");
            if (to16) { push(St{ E16, s8(), toUtf16(z), s32() }, "UTF-8 to UTF-16"); push(St{ E16, s8(), toUtf16(s.b), s32() }, "UTF-8 string to UTF-16"); push(St{ EW, s8(), s16(), narrow(toWstring(z)) }, "UTF-8 to wstring"); push(St{ EW, s8(), s16(), narrow(toWstring(s.b)) }, "UTF-8 string to wstring"); }
            if (to2) { push(St{ E2, s8(), toUcs2(z), s32() }, "UTF-8 to UCS-2"); push(St{ E2, s8(), toUcs2(s.b), s32() }, "UTF-8 string to UCS-2"); }
            push(St{ E8, toUtf8(z, kSrcUnicode), s16(), s32() }, "UTF-8 as Unicode to UTF-8");
            break; }
        case E16: case E2: {
            const char16_t* z = guard.z(s.w);
            push(St{ E8, toUtf8(z), s16(), s32() }, "UTF-16 to UTF-8"); push(St{ E8, toUtf8(s.w), s16(), s32() }, "UTF-16 string to UTF-8");
            push(St{ E32, s8(), s16(), toUcs4(z) }, "UTF-16 to UCS-4"); push(St{ E32, s8(), s16(), toUcs4(s.w) }, "UTF-16 string to UCS-4");
            push(St{ EW, s8(), s16(), narrow(toWstring(z)) }, "UTF-16 to wstring"); push(St{ EW, s8(), s16(), narrow(toWstring(s.w)) }, "UTF-16 string to wstring");
            break; }
        case E32: {
            const char32_t* z = guard.z(s.d);
            if (to8) { push(St{ E8, toUtf8(z), s16(), s32() }, "UCS-4 to UTF-8"); push(St{ E8, toUtf8(s.d), s16(), s32() }, "UCS-4 string to UTF-8"); }
            if (to16) { push(St{ E16, s8(), toUtf16(z), s32() }, "UCS-4 to UTF-16"); push(St{ E16, s8(), toUtf16(s.d), s32() }, "UCS-4 string to UTF-16"); push(St{ EW, s8(), s16(), narrow(toWstring(z)) }, "UCS-4 to wstring"); }
            if (to2) { push(St{ E2, s8(), toUcs2(z), s32() }, "UCS-4 to UCS-2"); push(St{ E2, s8(), toUcs2(s.d), s32() }, "UCS-4 string to UCS-2"); }
            break; }
        case EW: {
            const wchar_t* z = wz(s.d); std::wstring ws = wide(s.d);
            push(St{ E8, toUtf8(z), s16(), s32() }, "wstring to UTF-8"); push(St{ E8, toUtf8(ws), s16(), s32() }, "wstring to UTF-8");
            push(St{ E16, s8(), toUtf16(z), s32() }, "wstring to UTF-16"); push(St{ E16, s8(), toUtf16(ws), s32() }, "wstring to UTF-16");
            if (to2) push(St{ E2, s8(), toUcs2(z), s32() }, "wstring to UCS-2");
            push(St{ E32, s8(), s16(), toUcs4(z) }, "wstring to UCS-4"); push(St{ E32, s8(), s16(), toUcs4(ws) }, "wstring to UCS-4");
            break; }
        }
    }
}
void registerKinds() { KC = reg("chain", 32, f); }
void explore()
{
    auto h = [](const s32& s) { run(KC, s); };
    gen::tree(gen::valid32(), thorough ? 4 : 3, h);
    gen::sweep(1, 0x10ffff, [&](uint32_t c) { if (isSur(c)) return; s32 u(1, c); h(u); if (thorough || (c & 0xf) < 2) { h(U"A" + u); h(u + U"z"); h(u + u); } });
    gen::bigValues([&](uint32_t c) { s32 u(1, c); h(u); h(U"A" + u); h(u + U"z"); }, true);
    std::vector<s32> pv = { U"", U"\U0001f600", s32(1, 0x10ffff), s32(1, 0x110000), s32(1, 0x7fffffff), U"\u0130", U"\ue000" };
    gen::positions(gen::fillers32(), thorough ? gen::valid32() : pv, pv, thorough ? 72 : 34, h);
    gen::boundaries<s32>({ U"a", U"\u20ac", U"\U0001f600" }, { U"\U00010400", s32(1, 0x110000), U"\ufeff" }, h);
    gen::tree(std::vector<s32>{ U"a", U"\u00e9", U"\u20ac", U"\ufeff", U"\U0001f600", s32(1, 0x3000000) }, thorough ? 8 : 6, h);
    gen::neighbours(h);
    gen::runs(gen::common(), thorough ? 70 : 40, h);
    if (thorough) gen::sweep(0x110000, 0x7ffffff, [&](uint32_t c) { h(s32(1, c)); });
}
