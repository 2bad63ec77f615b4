// C18: split and join
#include "common.hpp"
static int K8, K16, K32, KW, KJ;
template <typename C> std::vector<std::basic_string<C>> msplit(const std::basic_string<C>& s, C d)
{
    std::vector<std::basic_string<C>> v;
    if (s.empty()) return v;
    v.emplace_back();
    for (auto c : s) { ++steps; if (c == d) v.emplace_back(); else v.back().push_back(c); }
    return v;
}
template <typename C> std::basic_string<C> mjoin(const std::vector<std::basic_string<C>>& v, C d)
{
    std::basic_string<C> r;
    for (size_t i = 0; i < v.size(); ++i) { if (i) r.push_back(d); r += v[i]; }
    return r;
}
template <typename C> void both(const std::basic_string<C>& s, C d)
{
    std::basic_string<C> keep = s;
    auto v = split(s, d);
    auto w = msplit(s, d);
    if (v.size() != w.size()) fail("split: number of pieces", show((unsigned long)v.size()), show((unsigned long)w.size()));
    for (size_t i = 0; i < v.size(); ++i) if (v[i] != w[i]) fail("split: piece", show(v[i]), show(w[i]));
    ++calls;
    eq("join(split(s))", join(v, d), s);
    eq("split left its argument alone", s, keep);
    // join of arbitrary lists: append an empty piece, drop the first
    auto x = w; x.emplace_back(); eq("join with a trailing empty piece", join(x, d), mjoin(x, d));
    auto xv = split(join(x, d), d);
    if (x.size() >= 2) { if (xv != x) fail("split(join(list))", show(xv), show(x)); ++calls; }
    x.insert(x.begin(), std::basic_string<C>()); eq("join with empty pieces at both ends", join(x, d), mjoin(x, d));
    xv = split(join(x, d), d);
    if (xv != x) fail("split(join(list))", show(xv), show(x));
    ++calls;
}
// in.a[0] = delimiter value
static void f8(const In& in) { both<char>(*in.b, (char)in.a[0]); }
static void f16(const In& in) { both<char16_t>(*in.w, (char16_t)in.a[0]); }
static void f32(const In& in) { both<char32_t>(*in.d, (char32_t)in.a[0]); }
static void fw(const In& in) { both<wchar_t>(wide(*in.d), (wchar_t)in.a[0]); }
// lists given directly (bytes; 1 = end of piece), joined with a delimiter they do not contain, or do
static void fj(const In& in)
{
    std::vector<s8> v; s8 cur; bool open = false;
    for (char c : *in.b) { if (c == 1) { v.push_back(cur); cur.clear(); open = false; } else { cur.push_back(c); open = true; } }
    if (open) v.push_back(cur);
    char d = (char)in.a[0];
    std::vector<s8> keep = v;
    s8 j = join(v, d);
    eq("join(list)", j, mjoin(v, d));
    if (v != keep) fail("join left its argument alone", show(v), show(keep));
    bool has = false; for (auto& s : v) if (s.find(d) != s8::npos) has = true;
    if (!has && (v.size() >= 2 || (v.size() == 1 && !v[0].empty()))) { auto w = split(j, d); if (w != v) fail("split(join(list))", show(w), show(v)); ++calls; }
}
void registerKinds() { K8 = reg("char", 8, f8); K16 = reg("char16", 16, f16); K32 = reg("char32", 32, f32); KW = reg("wchar", 32, fw); KJ = reg("list", 8, fj); }
void explore()
{
    // all strings over {delimiter, two others, NUL} for each delimiter; every delimiter value for bytes
    for (int d = 0; d < 256; ++d)
    {
        std::vector<s8> t = { s8(1, (char)d), s8(1, (char)(d ^ 1)), s8(1, (char)(d ^ 0x80)) };
        if (d) t.push_back(s8(1, '\0'));
        bool key = d == 0 || d == ',' || d == 0xff || d == 0x80 || d == ' ';
        gen::tree(t, key ? (thorough ? 10 : 8) : (thorough ? 6 : 5), [d](const s8& s) { run(K8, s, d); });
    }
    for (long d : { 0L, 0x2cL, 0xd800L, 0xdc00L, 0xffffL, 0x100L, 0x8000L })
    {
        std::vector<s16> t = { s16(1, (char16_t)d), s16(1, (char16_t)(d ^ 1)), s16(1, (char16_t)(d ^ 0x100)), s16(1, (char16_t)(d ^ 0x8000)) };
        gen::tree(t, thorough ? 8 : 6, [d](const s16& s) { run(K16, s, d); });
    }
    for (long d : { 0L, 0x2cL, 0xd800L, 0x10000L, 0x10ffffL, 0xffffffffL, 0x80000000L, 0x100L })
    {
        std::vector<s32> t = { s32(1, (char32_t)d), s32(1, (char32_t)(d ^ 1)), s32(1, (char32_t)(d ^ 0x10000)), s32(1, (char32_t)(d ^ 0x80000000L)), s32(1, (char32_t)(d ^ 0x100)) };
        gen::tree(t, thorough ? 7 : 5, [d](const s32& s) { run(K32, s, d); run(KW, s, d); });
    }
    // every 16-bit delimiter, and 32-bit ones with every low half, next to values that differ in one byte or bit
    gen::sweep(0, 0xffff, [](uint32_t d) {
        s16 s; for (uint32_t x : { d ^ 0x100u, d, d & 0xffu, d ^ 0x8000u, d, d, (d << 8 | d >> 8) & 0xffff, 0xffffu - d, d ^ 1u, d }) s.push_back((char16_t)x);
        run(K16, s, d);
        for (uint32_t hi : { 0u, 1u, 0x10u, 0xffu, 0x8000u, 0xffffu })
        {
            uint32_t e = hi << 16 | d; s32 t;
            for (uint32_t x : { e ^ 0x10000u, e, e & 0xffffu, e & 0xffu, e ^ 0x80000000u, e, e, e ^ 0x100u, e ^ 1u, e | 0xffff0000u, e }) t.push_back(x);
            run(K32, t, (long)e); if (!(d & 15)) run(KW, t, (long)e);
        }
    });
    std::vector<s8> l = { "\1", "a", "bc", ",", s8(1, '\0') };
    for (long d : { 0L, 0x2cL, 0x61L }) gen::tree(l, thorough ? 8 : 6, [d](const s8& s) { run(KJ, s, d); });
    // long pieces and many pieces
    uint64_t item = 0;
    for (int n : { 1, 2, 15, 16, 17, 31, 32, 100, 255, 256, 257, 1000, 4096, 8192, 16384, 32768, 65535, 65536, 70000, 131073, 300000 })
    {
        if (mine(item++)) { s8 s; for (int i = 0; i < n; ++i) s += ','; run(K8, s, ','); for (auto& c : s) c = 'x'; run(K8, s, ','); run(K8, "," + s, ','); run(K8, s + ",", ','); run(K8, s + "," + s + ",,", ','); }
        if (n <= 131073 && mine(item++)) { s8 s; for (int i = 0; i < n; ++i) { s += std::to_string(i); s += ','; } run(K8, s, ','); s32 d(s.begin(), s.end()); run(K32, d, ','); s16 w(s.begin(), s.end()); run(K16, w, ','); }
    }
    gen::positions<s8>({ "a", "bc" }, { ",", ",,", s8("\0,", 2), ",a," }, { ",", ",," }, thorough ? 100 : 60, [](const s8& s) { run(K8, s, ','); });
    gen::pairsApart<s8>("a", { ",", ",,", ",x" }, { ",", ",,", "," }, thorough ? 80 : 40, [](const s8& s) { run(K8, s, ','); });
    gen::pairsApart<s16>(u"a", { u",", u",," }, { u",", u",x" }, thorough ? 60 : 30, [](const s16& s) { run(K16, s, ','); });
    gen::pairsApart<s32>(U"a", { U",", U",," }, { U",", U",x" }, thorough ? 60 : 30, [](const s32& s) { run(K32, s, ','); run(KW, s, ','); });
    gen::boundaries<s8>({ "a", "b,", "," }, { ",", ",,", "x", "" }, [](const s8& s) { run(K8, s, ','); });
    gen::boundaries<s32>({ U"a", U"b," }, { U",", U",,", U"x" }, [](const s32& s) { run(K32, s, ','); });
    gen::neighbours([](const s32& s) { run(K32, s, (long)s[0]); run(K32, s, (long)s[1]); run(K16, enc16(s), (long)enc16(s)[0]); s8 e = enc8(s); run(K8, e, (long)(unsigned char)e[0]); run(K8, e, (long)(unsigned char)e[1]); });
    gen::runs(gen::common(), thorough ? 70 : 40, [](const s32& s) { run(K32, s, (long)s[0]);  run(K16, enc16(s), (long)enc16(s)[0]); s8 e = enc8(s); run(K8, e, (long)(unsigned char)e[0]); run(K8, e, 'q'); });
    // values alike in their low byte or half next to the delimiter, in long text too
    for (size_t fill : { 0u, 7u, 20u, 101u, 300u, 5000u })
    {
        s32 f(fill, U'f'); s16 g(fill, u'f');
        for (long d : { 0x2cL, 0xd7L, 0x2028L })
        {
            std::vector<s32> t = { s32(1, (char32_t)d), s32(1, (char32_t)(d ^ 0x100)), s32(1, (char32_t)(d ^ 0x10000)), s32(1, (char32_t)(d | 0x80000000L)), U"x" };
            gen::tree(t, fill > 1000 ? 2 : 3, [&](const s32& s) { run(K32, f + s, d); run(K32, s + f, d); run(K32, s + f + s, d); run(KW, f + s, d); });
            std::vector<s16> u = { s16(1, (char16_t)d), s16(1, (char16_t)(d ^ 0x100)), s16(1, (char16_t)(d ^ 0x8000)), u"x" };
            gen::tree(u, fill > 1000 ? 2 : 4, [&](const s16& s) { run(K16, g + s, d); run(K16, s + g, d); run(K16, s + g + s, d); });
        }
        s8 h(fill, 'f');
        for (long d : { 0x2cL, 0xacL }) gen::tree(std::vector<s8>{ ",", "\xac", "x", s8(1, '\0') }, fill > 1000 ? 2 : 4, [&](const s8& s) { run(K8, h + s, d); run(K8, s + h, d); run(K8, s + h + s, d); });
    }
}
