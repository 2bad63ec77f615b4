// C26: the reported version is the one the tables implement; versions only grow
#include "common.hpp"
static int KV, KC;
static Ucd other[17];
static EncodingCheckPredicate A, P, C;
static void fv(const In&)
{
    std::string v = getUnicodeVersionSupported();
    eq("getUnicodeVersionSupported", v, std::to_string(version) + ".0.0");
    const std::string w = getUnicodeVersionSupported();
    v[0] = 'x';
    eq("getUnicodeVersionSupported again", getUnicodeVersionSupported(), w);
}
static void fc(const In& in)
{
    uint32_t c = (*in.d)[0];
    int named = atoi(getUnicodeVersionSupported().c_str());
    if (named < 7 || named > 16) fail("version named", getUnicodeVersionSupported(), "7.0.0 .. 16.0.0");
    ++steps;
    bool a = A((char32_t)c), p = P((char32_t)c), k = C((char32_t)c);
    int cls = other[named].classOf(c);
    eq("assigned as in the version named", a, (cls & 1) != 0);
    for (int v = 7; v <= 16; ++v)
    {
        int o = other[v].classOf(c);
        if (v < version && (o & 1) && !a) fail("assigned in an earlier version", "unassigned", "assigned");
        if (v > version && !(o & 1) && a) fail("unassigned in a later version", "assigned", "unassigned");
        ++calls;
    }
    eq("private as in every version", p, (other[7].classOf(c) & 2) != 0);
    eq("control as in every version", k, (other[7].classOf(c) & 4) != 0);
    uint32_t lo = toLower(s32(1, c))[0], want = other[named].toLower(c);
    ++calls;
    if (lo != want)
    {
        if (version == 7 && c >= 0x10c80 && c <= 0x10cb2 && lo == c + 0x40) known("u7-old-hungarian", "toLower(" + show(c) + ")=" + show(lo));
        else if (version >= 11 && c == 0xa7b8 && lo == c) known("u11-16-U+A7B8", "toLower(U+A7B8) unchanged");
        else if ((version == 14 || version == 15) && c >= 0x10570 && c <= 0x10595 && lo == c) known("u14-15-vithkuqi", "toLower(" + show(c) + ") unchanged");
        else fail("toLower as in the version named", show(lo), show(want));
    }
}
void registerKinds()
{
    KV = reg("version", 8, fv); KC = reg("codepoint", 32, fc);
    for (int v = 7; v <= 16; ++v) if (!other[v].load((dataDir + "/u" + std::to_string(v) + ".txt").c_str())) { fprintf(stderr, "no tables\n"); exit(2); }
    A = validIf(kIsAssigned); P = validIf(kIsPrivate); C = validIf(kIsControl);
}
void explore()
{
    run(KV, s8());
    s32 u(1, 0);
    gen::sweep(0, 0x10ffff, [&](uint32_t c) { u[0] = c; run(KC, u); });
    run(KV, s8());
}
