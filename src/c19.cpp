// C19: trimming
#include "common.hpp"
static int K8, K16, K32, KW, KU8, KSET, KSET16, KSET32, KA;
template <typename S, typename F> S middle(const S& s, F blank)
{
    size_t a = 0, b = s.size();
    while (b > 0 && blank(s[b - 1])) --b;
    while (a < b && blank(s[a])) ++a;
    steps += s.size();
    return s.substr(a, b - a);
}
static bool ws(uint32_t c) { return ucd.classOf(c) & 8; }
template <typename C> void basic(const std::basic_string<C>& s)
{
    std::basic_string<C> v = s; trim(v);
    eq("trim(s)", v, middle(s, [](C c) { return c == (C)' '; }));
}
static void f8(const In& in) { basic<char>(*in.b); }
static void f16(const In& in)
{
    basic<char16_t>(*in.w);
    s16 v = *in.w; trimWhiteSpace(v);
    eq("trimWhiteSpace(u16string)", v, middle(*in.w, [](char16_t c) { return ws(c); }));
}
static void f32(const In& in)
{
    basic<char32_t>(*in.d);
    s32 v = *in.d; trimWhiteSpace(v);
    eq("trimWhiteSpace(u32string)", v, middle(*in.d, [](char32_t c) { return ws(c); }));
    basic<wchar_t>(wide(*in.d));
}
static void fu8(const In& in)   // trimWhiteSpace of well-formed UTF-8
{
    const s8& s = *in.b; Parse p = parse8(s);
    if (p.st != Ok) return;
    s32 m = middle(p.cps, [](char32_t c) { return ws(c); });
    s8 v = s; trimWhiteSpace(v);
    if (p.canonical) eq("trimWhiteSpace(string)", v, enc8(m));
    else { ++calls; Parse q = parse8(v); if (q.st != Ok || q.cps != m) fail("trimWhiteSpace(string)", show(v), show(enc8(m))); }
}
static void fa(const In& in)    // ASCII white space: tab, LF, CR, space at least; VT and FF left open
{
    const s8& s = *in.b; s8 v = s; trimAscii7WhiteSpace(v);
    s8 a = middle(s, [](char c) { return c == 9 || c == 10 || c == 13 || c == 32; });
    s8 b = middle(s, [](char c) { return c == 9 || c == 10 || c == 11 || c == 12 || c == 13 || c == 32; });
    ++calls;
    if (v != a && v != b) fail("trimAscii7WhiteSpace", show(v), show(a));
}
template <typename C> void withSet(const std::basic_string<C>& x, size_t k)   // first k units are the set
{
    std::basic_string<C> set = x.substr(0, k), s = x.substr(k), v = s, keep = set;
    trim(v, set);
    eq("trim(s,set)", v, middle(s, [&](C c) { return set.find(c) != std::basic_string<C>::npos; }));
    eq("trim left the set alone", set, keep);
    if (k) { trim(set, set); eq("trim(s,s)", set, std::basic_string<C>()); }
}
static void fset(const In& in) { withSet(*in.b, (size_t)in.a[0]); }
static void fset16(const In& in) { withSet(*in.w, (size_t)in.a[0]); }
static void fset32(const In& in) { withSet(*in.d, (size_t)in.a[0]); withSet(wide(*in.d), (size_t)in.a[0]); }
void registerKinds()
{
    K8 = reg("char", 8, f8); K16 = reg("char16", 16, f16); K32 = reg("char32", 32, f32); KU8 = reg("utf8", 8, fu8); KA = reg("ascii", 8, fa);
    KSET = reg("set8", 8, fset); KSET16 = reg("set16", 16, fset16); KSET32 = reg("set32", 32, fset32);
}
void explore()
{
    auto b8 = [](const s8& s) { run(K8, s); run(KA, s); };
    std::vector<s8> t8 = { " ", "\t", "\n", "\r", "a", s8(1, '\0'), "\x0b", "\xa0", "\x1f", "!" };
    gen::tree(t8, thorough ? 6 : 5, b8);
    for (int b = 0; b < 256; ++b) { if (!mine(b)) continue; s8 c(1, (char)b); for (auto& s : { c, c + "x", "x" + c, c + "x" + c, c + " ", " " + c, c + c, " " + c + " ", "x" + c + "x", c + " x " + c }) { b8(s); } }
    // sets
    std::vector<s8> st = { " ", "a", "b", s8(1, '\0'), "\xff" };
    for (long k = 0; k <= 3; ++k) gen::tree(st, thorough ? 8 : 7, [k](const s8& s) { if ((long)s.size() >= k) run(KSET, s, k); });
    std::vector<s16> st16 = { u" ", u"a", u"\u2028", s16(1, 0), s16(1, 0xd800), s16(1, 0x6120) };
    for (long k = 0; k <= 3; ++k) gen::tree(st16, thorough ? 7 : 6, [k](const s16& s) { if ((long)s.size() >= k) run(KSET16, s, k); });
    std::vector<s32> st32 = { U" ", U"a", U"\u2028", s32(1, 0), U"\U0001f600", s32(1, 0x10020), s32(1, 0x80000020u) };
    for (long k = 0; k <= 3; ++k) gen::tree(st32, thorough ? 7 : 6, [k](const s32& s) { if ((long)s.size() >= k) run(KSET32, s, k); });
    // large sets: the n bytes from b on (with repetitions), every byte at either end; wide sets
    uint64_t item = 0;
    for (int n : { 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000 })
        for (int b : { 0, 1, 0x20, 0x41, 0x7f, 0x80, 0xf0 })
        {
            if (!mine(item++)) continue;
            s8 set; for (int i = 0; i < n; ++i) set.push_back((char)(b + i * (n < 100 ? 3 : 1)));
            for (int c = 0; c < 256; ++c)
            {
                s8 x(1, (char)c);
                run(KSET, set + x, n); run(KSET, set + x + "\x05" + x, n); run(KSET, set + set[0] + x + set[n - 1], n);
                if (c < 64) { run(KSET, set + s8(c, set[n / 2]) + "\x02q" + s8(c, set[n / 3]), n); }
            }
            s16 w; s32 d; for (int i = 0; i < n; ++i) { w.push_back((char16_t)(b + i * 0x101)); d.push_back((char32_t)(b + i * 0x1001)); }
            for (int i = 0; i < n; ++i) for (int k : { 0, 1, 0x100, 0x8000 })
            {
                run(KSET16, w + (char16_t)(w[i] ^ k) + u"x" + w[i] + (char16_t)(w[i] ^ k), n);
                run(KSET32, d + (char32_t)(d[i] ^ (k == 0x8000 ? 0x80000000u : (uint32_t)k)) + U"x" + d[i] + (char32_t)(d[i] ^ (uint32_t)k << 8), n);
            }
        }
    // sets and victims of every size
    for (int n = 1; n <= 40; ++n) for (int m = 0; m <= 40; ++m)
    {
        if (!mine(item++)) continue;
        s8 set; s16 w; s32 d; for (int i = 0; i < n; ++i) { set.push_back((char)('a' + i)); w.push_back((char16_t)(0x2028 + i)); d.push_back((char32_t)(0x10400 + i)); }
        for (int l = 0; l <= m; ++l) for (int r = 0; l + r <= m; r += l > 3 && r > 3 && l + r + 3 < m ? 5 : 1)
        {
            s8 v; s16 x; s32 y;
            for (int i = 0; i < m; ++i)
            {
                int k = i < l ? (i + l) % n : i >= m - r ? (i + r) % n : -1;
                v.push_back(k < 0 ? 'Z' : set[k]); x.push_back(k < 0 ? u'Z' : w[k]); y.push_back(k < 0 ? U'Z' : d[k]);
            }
            run(KSET, set + v, n); run(KSET16, w + x, n); run(KSET32, d + y, n);
        }
    }
    // every code point at the ends
    gen::sweep(0, 0x10ffff, [](uint32_t c) {
        s32 u(1, c);
        for (auto& s : { u, u + U"x", U"x" + u, u + U"x" + u, U" " + u + U"\u2028", u + U"\u3000", U"\u0085" + u, U"a " + u + U" b" })
        {
            run(K32, s);
            if (c <= 0xffff) run(K16, enc16(s));
            if (c && !isSur(c)) run(KU8, enc8(s));
        }
    });
    gen::bigValues([](uint32_t c) { s32 u(1, c); for (auto& s : { u, u + U"x ", U" x" + u, U" " + u + U" " }) { run(K32, s); if (c <= 0x7fffffff) run(KU8, enc8(s)); } }, true);
    // combinations of blanks and others
    std::vector<s32> t;
    for (uint32_t c : { 0x20u, 0x09u, 0x0bu, 0x85u, 0xa0u, 0x1680u, 0x2000u, 0x200bu, 0x2028u, 0x202fu, 0x205fu, 0x3000u, 0x41u, 0xe9u, 0x1f600u, 0x180eu, 0xfeffu, 0x1cu }) t.push_back(s32(1, c));
    gen::tree(t, thorough ? 5 : 4, [](const s32& s) { run(K32, s); run(K16, enc16(s)); run(KU8, enc8(s)); });
    gen::tree(gen::valid8(), 3, [](const s8& s) { run(KU8, s); });
    gen::tree(gen::tokens16(), 3, [](const s16& s) { run(K16, s); });
    gen::neighbours([](const s32& s) { run(K32, s); run(K16, enc16(s)); run(KU8, enc8(s)); if (s[0] < 0x80 && s[1] < 0x80) { run(K8, enc8(s)); run(KA, enc8(s)); } });
    gen::runs(gen::common(), thorough ? 70 : 40, [](const s32& s) { run(K32, s); run(K16, enc16(s)); run(KU8, enc8(s)); if (s[0] < 0x80 && s.back() < 0x80) { run(K8, enc8(s)); run(KA, enc8(s)); } });
    // long runs
    gen::positions<s8>({ " ", "a", "\t", " a" }, { "", "x", " ", "\t" }, { "", "x", " " }, thorough ? 100 : 60, [](const s8& s) { if (s.size() < 70000) { run(K8, s); run(KA, s); } });
    gen::positions<s32>({ U" ", U"a", U"\u3000", U"\u2028\u00e9" }, { U"", U"x", U" ", U"\U0001f600" }, { U"", U"x" }, thorough ? 100 : 50, [](const s32& s) { if (s.size() < 9000) { run(K32, s); run(K16, enc16(s)); run(KU8, enc8(s)); } });
    gen::pairsApart<s32>(U"\u00a0", { U"a", U"\u00e9" }, { U"b", U"\u2003", U"" }, thorough ? 40 : 20, [](const s32& s) { run(K32, s); run(K16, enc16(s)); run(KU8, enc8(s)); });
    // long texts with every pair of a blank (or something close to one) and its neighbour at either end
    std::vector<char32_t> ends;
    for (uint32_t c = 1; c <= 0x3000; ++c) if (ws(c)) ends.push_back(c);
    for (uint32_t c : { 0x1cu, 0x7fu, 0xa1u, 0x180eu, 0x200bu, 0x2060u, 0xfeffu, 0x41u }) ends.push_back(c);
    std::vector<size_t> lens;
    for (int k = 5; k <= (thorough ? 20 : 17); ++k) for (int d : { -3, 0, 1 }) lens.push_back((size_t)((1 << k) + d));
    for (size_t n : { 1000u, 1500u, 3000u, 5000u, 10001u, 70000u }) lens.push_back(n);
    for (size_t n : lens) for (char32_t f : { U'a', U'\u00e9', U'\u4e2d' })
    {
        if (!mine(item++)) continue;
        s32 body(n, f);
        for (char32_t c : ends) for (char32_t d : { c, (char32_t)' ', (char32_t)'\t', (char32_t)0x2003 })
        {
            if (n > 20000 && !thorough && d != ' ') continue;
            s32 e{ c, d }, r{ d, c };
            for (auto& s : { r + U"x" + body + U"x" + e, e + body, body + r })
            {
                run(K32, s); run(K16, enc16(s)); s8 b = enc8(s); run(KU8, b);
                if (f == 'a') { run(K8, b); run(KA, b); }
            }
        }
    }
}
