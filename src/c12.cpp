// C12: predicates are conjunctions.  State: set of required / forbidden classes (8 bits); every chain of
// operations up to the depth bound is executed on the real class.
#include "common.hpp"
static int KC, KA;
// operation codes: 0..4 if none/assigned/private/control/whitespace, 5..9 ifNot ..., 10..17 unknown selectors (if, ifNot)
static const int UNK[] = { -1, 5, 100, 2147483647, -2147483647 - 1 };
enum { NOPS = 20 };
static EncodingType et(int op) { return op < 10 ? (EncodingType)(op % 5) : (EncodingType)UNK[(op - 10) % 5]; }
static bool neg(int op) { return op < 10 ? op >= 5 : op >= 15; }
struct Rep { uint32_t c; int cls; };
static std::vector<Rep> reps;
static EncodingCheckPredicate canon[256]; static bool have[256];
static EncodingCheckPredicate build(int set)     // canonical predicate for a set of conditions
{
    EncodingCheckPredicate p;
    for (int k = 0; k < 8; ++k) if (set >> k & 1) { if (k < 4) p = p.andIf((EncodingType)(k + 1)); else p = p.andIfNot((EncodingType)(k - 3)); }
    return p;
}
static int cond(int op) { int t = (int)et(op); return t < 1 || t > 4 ? 0 : 1 << (t - 1 + (neg(op) ? 4 : 0)); }
static bool accepts(int set, int cls)
{
    for (int k = 0; k < 4; ++k) { bool h = cls >> k & 1; if ((set >> k & 1) && !h) return false; if ((set >> (k + 4) & 1) && h) return false; }
    return true;
}
static void f(const In& in)
{
    const s8& ops = *in.b;      // op+1 per byte; a[0]: 0 = start with validIf/validIfNot, 1 = start with the empty predicate
    EncodingCheckPredicate p;
    int set = 0; size_t i = 0;
    if (!in.a[0] && !ops.empty()) { int o = (unsigned char)ops[0] - 1; p = neg(o) ? validIfNot(et(o)) : validIf(et(o)); set |= cond(o); i = 1; }
    else if (in.a[0] == 2 && !ops.empty()) { int o = (unsigned char)ops[0] - 1; p = neg(o) ? EncodingCheckPredicate::checkIfNot(et(o)) : EncodingCheckPredicate::checkIf(et(o)); set |= cond(o); i = 1; }
    for (; i < ops.size(); ++i) { int o = (unsigned char)ops[i] - 1; p = neg(o) ? p.andIfNot(et(o)) : p.andIf(et(o)); set |= cond(o); ++steps; }
    for (auto& r : reps)
    {
        bool want = accepts(set, r.cls);
        eq("predicate(char32_t)", p((char32_t)r.c), want);
        if (r.c <= 0xffff) eq("predicate(char16_t)", p((char16_t)r.c), want);
        if (r.c <= 0xff) eq("predicate(char)", p((char)r.c), want);
    }
    if (!have[set]) { canon[set] = build(set); have[set] = true; }
    eq("equal conditions compare equal", p == canon[set], true);
    eq("equal conditions: !=", p != canon[set], false);
    eq("a predicate equals its copy", p == EncodingCheckPredicate(p), true);
    // predicates some character tells apart are not equal
    for (int k = 0; k < 8; ++k)
    {
        int o = set ^ (1 << k);
        bool differ = false;
        for (auto& r : reps) if (accepts(set, r.cls) != accepts(o, r.cls)) differ = true;
        if (!differ) continue;
        if (!have[o]) { canon[o] = build(o); have[o] = true; }
        eq("different predicates compare unequal", p == canon[o], false);
        eq("different predicates: !=", canon[o] != p, true);
    }
}
// one character (units) and every set of conditions
static void fa(const In& in)
{
    uint32_t c = (*in.d)[0]; int cls = ucd.classOf(c);
    for (int set = 0; set < 256; ++set)
    {
        if (!have[set]) { canon[set] = build(set); have[set] = true; }
        bool want = accepts(set, cls); const EncodingCheckPredicate& p = canon[set];
        ++calls; ++steps;
        if (p((char32_t)c) != want) fail("predicate(char32_t)", show(!want), show(want));
        if (c <= 0xffff && p((char16_t)c) != want) fail("predicate(char16_t)", show(!want), show(want));
        if (c <= 0xff && p((char)c) != want) fail("predicate(char)", show(!want), show(want));
    }
}
void registerKinds()
{
    KA = reg("char", 32, fa);
    KC = reg("chain", 8, f);
    // for every class combination that occurs: first and last character, per width
    std::vector<int> seen8(16), seen16(16), seen32(16);
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        std::vector<int>& s = c < 0x100 ? seen8 : c < 0x10000 ? seen16 : seen32;
        int k = ucd.classOf(c);
        if (s[k]++ < 2) reps.push_back({ c, k });
    }
    reps.push_back({ 0x10ffff, ucd.classOf(0x10ffff) }); reps.push_back({ 0x110000, 0 }); reps.push_back({ 0xffffffff, 0 });
    note("representative_characters", reps.size());
}
void explore()
{
    std::vector<s8> all, core;
    for (int o = 0; o < NOPS; ++o) all.push_back(s8(1, (char)(o + 1)));
    for (int o = 0; o < 12; ++o) if (o != 11) core.push_back(s8(1, (char)(o + 1)));
    for (long st = 0; st < 3; ++st)
    {
        gen::tree(all, thorough ? 4 : 3, [st](const s8& s) { run(KC, s, st); });
        gen::tree(core, thorough ? 6 : 5, [st](const s8& s) { run(KC, s, st); });
    }
    s32 u(1, 0);
    gen::sweep(0, 0x10ffff, [&](uint32_t c) { u[0] = c; run(KA, u); });
    gen::bigValues([&](uint32_t c) { u[0] = c; if (thorough || version == 16) run(KA, u); }, true);
    // all pairs of predicate states: equality consistent with acceptance
    if (mine(0)) for (int a = 0; a < 256; ++a)
    {
        s8 ops; for (int k = 0; k < 8; ++k) if (a >> k & 1) ops.push_back((char)(k < 4 ? k + 2 : k + 3));
        run(KC, ops, 1);
        run(KC, s8(ops.rbegin(), ops.rend()), 1);
        run(KC, ops + ops, 1);
    }
}
