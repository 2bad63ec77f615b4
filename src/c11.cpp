// C11: classification follows the character database
#include "common.hpp"
static int KC;
static const EncodingType ET[] = { kIsAssigned, kIsPrivate, kIsControl, kIsWhitespace };
static const char* NM[] = { "assigned", "private", "control", "whitespace" };
static EncodingCheckPredicate P[4], Q[4];
static void f(const In& in)
{
    uint32_t c = (*in.d)[0];
    int want = ucd.classOf(c);
    ++steps;
    for (int k = 0; k < 4; ++k)
    {
        bool w = want >> k & 1;
        ++calls;
        if (P[k]((char32_t)c) != w || Q[k]((char32_t)c) == w) fail(NM[k], "char32_t: " + show(!w), show(w));
        if (c <= 0xffff && (P[k]((char16_t)c) != w || Q[k]((char16_t)c) == w)) fail(NM[k], "char16_t: " + show(!w), show(w));
        if (c <= 0xff && (P[k]((char)c) != w || Q[k]((char)c) == w)) fail(NM[k], "char: " + show(!w), show(w));
    }
}
void registerKinds()
{
    KC = reg("codepoint", 32, f);
    for (int k = 0; k < 4; ++k) { P[k] = validIf(ET[k]); Q[k] = validIfNot(ET[k]); }
}
void explore()
{
    s32 u(1, 0);
    auto g = [&](uint32_t c) { u[0] = c; run(KC, u); };
    gen::sweep(0, 0x1fffff, g);
    gen::bigValues(g, true);
    for (int b = 21; b < 32; ++b) gen::sweep(0, 0x10ffff, [&](uint32_t c) { if (thorough || b >= 30 || c < 0x3100 || (c & 0xff) < 2) g(c | (1u << b)); });
    if (thorough && (version == 16 || version == 7)) gen::sweep(0x200000, 0xffffffffull, g);
}
