// C14: toLower is the simple case mapping
#include "common.hpp"
static int KC;
static void judge(const char* what, uint32_t c, uint32_t got)
{
    uint32_t want = ucd.toLower(c);
    ++calls;
    if (got == want) return;
    // defects pinned by the existing tests
    if (version == 7 && c >= 0x10c80 && c <= 0x10cb2 && got == c + 0x40) { known("u7-old-hungarian", "toLower(" + show(c) + ")=" + show(got)); return; }
    if (version >= 11 && c == 0xa7b8 && got == c) { known("u11-16-U+A7B8", "toLower(U+A7B8) unchanged"); return; }
    if ((version == 14 || version == 15) && c >= 0x10570 && c <= 0x10595 && got == c) { known("u14-15-vithkuqi", "toLower(" + show(c) + ") unchanged"); return; }
    fail(what, show(got), show(want));
}
static void f(const In& in)
{
    const s32& s = *in.d;
    s32 r = toLower(s);
    eq("toLower(ucs4) length", (unsigned long)r.size(), (unsigned long)s.size());
    for (size_t i = 0; i < s.size(); ++i) judge("toLower(ucs4)", s[i], r[i]);
    steps += s.size();
    if (in.a[0] && s[0] && s[0] <= 0x10ffff && !isSur(s[0]))
    {
        Parse p = parse8(toLower(enc8(s))); eq("toLower(utf8) length", (unsigned long)p.cps.size(), (unsigned long)1); judge("toLower(utf8)", s[0], p.cps[0]);
        Parse q = parse16(toLower(enc16(s))); eq("toLower(utf16) length", (unsigned long)q.cps.size(), (unsigned long)1); judge("toLower(utf16)", s[0], q.cps[0]);
    }
}
void registerKinds() { KC = reg("codepoint", 32, f); }
void explore()
{
    s32 u(1, 0);
    auto g = [&](uint32_t c) { u[0] = c; run(KC, u, 0); };
    gen::sweep(0, 0x1fffff, [&](uint32_t c) { u[0] = c; run(KC, u, 1); });
    gen::bigValues(g, true);
    for (int b = 21; b < 32; ++b) gen::sweep(0, 0x1ffff, [&](uint32_t c) { g(c | (1u << b)); });
    // whole blocks as one string
    for (uint32_t b = 0; b < 0x1100; ++b) { if (!mine(b)) continue; s32 s; for (uint32_t c = b << 8; c < (b + 1) << 8; ++c) s.push_back(c); run(KC, s, 0); }
    if (thorough) gen::sweep(0x200000, 0xffffffffull, g);
}
