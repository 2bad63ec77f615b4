// The bounded input spaces, as exhaustive enumerations.
#pragma once
#include "harness.hpp"

namespace gen {

typedef std::string s8; typedef std::u16string s16; typedef std::u32string s32;

// boundary code points (valid, all length classes)
inline const std::vector<uint32_t>& cps()
{
    static const std::vector<uint32_t> v = { 1, 0x20, 0x41, 0x49, 0x7f, 0x80, 0xd7, 0x130, 0x7ff, 0x800, 0x2028, 0xcfff, 0xd000,
        0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10ffff,
        0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff };
    return v;
}
inline const std::vector<uint32_t>& cpsShort()
{
    static const std::vector<uint32_t> v = { 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x7fffffff };
    return v;
}

// ---- UTF-8 tokens ----------------------------------------------------------
inline std::vector<s8> errors8()
{
    std::vector<s8> v;
    auto add = [&](std::initializer_list<int> l) { s8 s; for (int b : l) s.push_back((char)b); v.push_back(s); };
    add({ 0x80 }); add({ 0x9f }); add({ 0xbf }); add({ 0xfe }); add({ 0xff });
    add({ 0xc0, 0x80 }); add({ 0xc1, 0xbf }); add({ 0xe0, 0x80, 0x80 }); add({ 0xe0, 0x9f, 0xbf });
    add({ 0xf0, 0x80, 0x80, 0x80 }); add({ 0xf0, 0x8f, 0xbf, 0xbf });
    add({ 0xf8, 0x80, 0x80, 0x80, 0x80 }); add({ 0xf8, 0x87, 0xbf, 0xbf, 0xbf });
    add({ 0xfc, 0x80, 0x80, 0x80, 0x80, 0x80 }); add({ 0xfc, 0x83, 0xbf, 0xbf, 0xbf, 0xbf });
    add({ 0xed, 0xb0, 0x80 }); add({ 0xed, 0xbf, 0xbf });                         // lone low
    add({ 0xed, 0xb0, 0x80, 0xed, 0xa0, 0x80 });                                  // reversed pair
    add({ 0xed, 0xa0, 0x80, 0xed, 0xa0, 0x80 });                                  // two highs
    add({ 0xed, 0xaf, 0xbf, 0xee, 0x80, 0x80 });                                  // high + BMP
    return v;
}
inline std::vector<s8> partial8()   // lone highs and every proper prefix of some sequences
{
    std::vector<s8> v;
    auto pre = [&](const s8& s) { for (size_t k = 1; k < s.size(); ++k) v.push_back(s.substr(0, k)); };
    pre(model::enc8(0x80)); pre(model::enc8(0x7ff)); pre(model::enc8(0x800)); pre(model::enc8(0xd7ff)); pre(model::enc8(0xffff));
    pre(model::enc8(0x10000)); pre(model::enc8(0x10ffff)); pre(model::enc8(0x110000)); pre(model::enc8(0x1fffff));
    pre(model::enc8(0x200000)); pre(model::enc8(0x3ffffff)); pre(model::enc8(0x4000000)); pre(model::enc8(0x7fffffff));
    pre(model::encSplit(0x10000)); pre(model::encSplit(0x10ffff)); pre(model::encSplit(0x1f600));
    // never completable
    for (auto s : errors8()) if (s.size() > 1) pre(s);
    std::vector<s8> u;
    for (auto& s : v) { bool dup = false; for (auto& t : u) if (t == s) dup = true; if (!dup) u.push_back(s); }
    return u;
}
inline std::vector<s8> valid8()
{
    std::vector<s8> v;
    for (auto c : cps()) v.push_back(model::enc8(c));
    v.push_back(model::encSplit(0x10000)); v.push_back(model::encSplit(0x1f600)); v.push_back(model::encSplit(0x10ffff));
    return v;
}
inline std::vector<s8> tokens8()
{
    std::vector<s8> v = valid8();
    for (auto& s : errors8()) v.push_back(s);
    for (auto& s : partial8()) v.push_back(s);
    return v;
}
inline std::vector<s8> bytes8()     // boundary bytes as one-byte tokens
{
    static const unsigned char b[] = { 0x01, 0x41, 0x7f, 0x80, 0x83, 0x84, 0x87, 0x88, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2,
        0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff };
    std::vector<s8> v;
    for (auto c : b) v.push_back(s8(1, (char)c));
    return v;
}
// ---- UTF-16 / UCS-4 tokens --------------------------------------------------
inline std::vector<s16> units16()
{
    std::vector<s16> v;
    for (int c : { 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfffd, 0xffff }) v.push_back(s16(1, (char16_t)c));
    return v;
}
inline std::vector<s16> tokens16()
{
    std::vector<s16> v = units16();
    for (uint32_t c : { 0x20u, 0x49u, 0xd7u, 0x130u, 0xfdd0u, 0xfeffu, 0x10000u, 0x103ffu, 0x10400u, 0x1f600u, 0xfffffu, 0x100000u, 0x10ffffu }) { s16 s; model::put16(s, c); v.push_back(s); }
    return v;
}
inline std::vector<s16> valid16()
{
    std::vector<s16> v;
    for (auto c : cps()) if (c <= 0x10ffff) { s16 s; model::put16(s, c); v.push_back(s); }
    return v;
}
inline std::vector<s32> tokens32()
{
    std::vector<s32> v;
    for (auto c : cps()) v.push_back(s32(1, c));
    for (uint32_t c : { 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0x80000000u, 0x80000041u, 0x8000d800u, 0xffffffffu, 0xff10ffffu, 0x1d800u, 0x10dc00u, 0x1000041u, 0x10041u }) v.push_back(s32(1, c));
    return v;
}
inline std::vector<s32> valid32(uint32_t maxc = 0xffffffffu)
{
    std::vector<s32> v;
    for (auto c : cps()) if (c <= maxc) v.push_back(s32(1, c));
    return v;
}

// ---- all concatenations of up to `depth` tokens (tree exploration) -----------
template <typename S, typename F>
void treeRec(const std::vector<S>& tok, int depth, S& cur, F& f)
{
    f(static_cast<const S&>(cur));
    if (!depth) return;
    size_t n = cur.size();
    for (auto& t : tok) { cur += t; treeRec(tok, depth - 1, cur, f); cur.resize(n); }
}
template <typename S, typename F>
void tree(const std::vector<S>& tok, int depth, F f)
{
    // shard over the first two tokens
    S cur;
    if (hx::mine(0)) f(static_cast<const S&>(cur));
    uint64_t item = 1;
    for (auto& t : tok)
    {
        if (depth < 1) break;
        if (hx::mine(item++)) f(t);
        if (depth < 2) continue;
        for (auto& u : tok)
        {
            if (!hx::mine(item++)) continue;
            cur = t + u;
            treeRec(tok, depth - 2, cur, f);
        }
    }
}

// ---- every byte string of exactly n bytes (no NUL) ---------------------------
template <typename F> void allBytes(int n, F f)
{
    s8 s(n, '\1');
    std::function<void(int)> rec = [&](int i) {
        if (i == n) { f(static_cast<const s8&>(s)); return; }
        for (int b = 1; b < 256; ++b) { if (i == 0 && !hx::mine(b)) continue; s[i] = (char)b; rec(i + 1); }
    };
    if (n <= 2) { rec(0); return; }
    // tight loops for the last two positions
    std::function<void(int)> rec2 = [&](int i) {
        if (i == n - 2)
        {
            for (int a = 1; a < 256; ++a) { s[n - 2] = (char)a; for (int b = 1; b < 256; ++b) { s[n - 1] = (char)b; f(static_cast<const s8&>(s)); } }
            return;
        }
        for (int b = 1; b < 256; ++b) { if (i == 0 && !hx::mine(b)) continue; s[i] = (char)b; rec2(i + 1); }
    };
    rec2(0);
}

// ---- every code point lo..hi, sharded in blocks of 1024 -----------------------
template <typename F> void sweep(uint64_t lo, uint64_t hi, F f)
{
    for (uint64_t b = lo >> 10; b <= hi >> 10; ++b)
    {
        if (!hx::mine(b)) continue;
        for (uint64_t c = b << 10; c < (b + 1) << 10; ++c) if (c >= lo && c <= hi) f((uint32_t)c);
    }
}

// values above 0x10ffff with at most two non-trivial 6-bit groups, and neighbours of powers of two
template <typename F> void bigValues(F f, bool to32)
{
    static const uint32_t g[] = { 0, 1, 2, 0x1f, 0x20, 0x2a, 0x3e, 0x3f };
    uint64_t item = 0;
    for (int i = 20; i < 32; ++i)
        for (int d = -70; d <= 70; ++d)
        {
            uint64_t c = (1ull << i) + d;
            if (c > 0x10ffff && c <= (to32 ? 0xffffffffull : 0x7fffffffull) && hx::mine(item++)) f((uint32_t)c);
        }
    for (uint32_t x : g) for (uint32_t y : g) for (uint32_t z : g) for (uint32_t w : g) for (uint32_t q : g) for (uint32_t t = 0; t < 4; ++t)
    {
        uint32_t c = (t << 30) | (x << 24) | (y << 18) | (z << 12) | (w << 6) | q;
        if (c <= 0x10ffff || (!to32 && c > 0x7fffffff)) continue;
        if (hx::mine(item++)) f(c);
    }
}

// ---- position/length sweep: filler^i token filler^(n-i) -----------------------
inline std::vector<int> bigLengths(bool th)
{
    std::vector<int> v = { 79, 80, 81, 95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025 };
    for (int n : { 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193 }) v.push_back(n);
    if (th) for (int n : { 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131072 }) v.push_back(n);
    else { v.push_back(65535); v.push_back(65537); }
    return v;
}
template <typename S, typename F>
void positions(const std::vector<S>& fillers, const std::vector<S>& tokens, const std::vector<S>& tokensBig, int nmax, F f)
{
    uint64_t item = 0;
    S s;
    for (auto& fl : fillers)
    {
        for (int n = 0; n <= nmax; ++n)
        {
            for (int i = 0; i <= n; ++i)
            {
                if (!hx::mine(item++)) continue;
                S pre, post;
                for (int k = 0; k < i; ++k) pre += fl;
                for (int k = i; k < n; ++k) post += fl;
                for (auto& t : tokens) { s = pre; s += t; s += post; f(static_cast<const S&>(s)); }
            }
        }
        for (int n : bigLengths(hx::thorough))
        {
            int ps[] = { 0, 1, 7, 8, 15, 16, n / 2, n - 16, n - 8, n - 1, n };
            for (int i : ps)
            {
                if (!hx::mine(item++)) continue;
                S pre, post;
                for (int k = 0; k < i; ++k) pre += fl;
                for (int k = i; k < n; ++k) post += fl;
                for (auto& t : tokensBig) { s = pre; s += t; s += post; f(static_cast<const S&>(s)); }
            }
        }
    }
    // a few very long ones
    auto& fl = fillers[0];
    for (int n : { 131071, 131073, 262145, 1048577 })
        for (int i : { 0, n / 2, n })
            for (size_t t = 0; t < tokensBig.size() && (t < 4 || hx::thorough); ++t)
            {
                if (fl.size() > 1 || !hx::mine(item++)) continue;
                s.assign((size_t)n, fl[0]); s.insert((size_t)i, tokensBig[t]);
                f(static_cast<const S&>(s));
            }
}
// every position to 300 (thorough 1100), and around likely chunk sizes, in a filler that ends 0, 1 or 9 characters later
template <typename S, typename F>
void boundaries(const std::vector<S>& fillers, const std::vector<S>& tokens, F f)
{
    std::vector<int> ps;
    for (int i = 0; i <= (hx::thorough ? 1100 : 300); ++i) ps.push_back(i);
    for (int b : { 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536 })
    {
        if (!hx::thorough && b > 10000) continue;
        for (int d = -3; d <= 3; ++d) ps.push_back(b + d);
    }
    uint64_t item = 0;
    S s;
    for (auto& fl : fillers)
        for (int i : ps)
            for (int tail : { 0, 1, 9 })
            {
                if (!hx::mine(item++)) continue;
                S pre, post;
                for (int k = 0; k < i; ++k) pre += fl;
                for (int k = 0; k < tail; ++k) post += fl;
                for (auto& t : tokens) { s = pre; s += t; s += post; f(static_cast<const S&>(s)); }
            }
}
inline std::vector<s8> fillers8() { return { "a", model::enc8(0xe9), model::enc8(0x20ac), model::enc8(0x1f600), model::encSplit(0x1f600), model::enc8(0x300000), model::enc8(0x4000001), s8("Ab") + model::enc8(0x3a9) + model::enc8(0x10400) }; }
inline std::vector<s16> fillers16() { return { u"a", u"\u00e9", u"\u20ac", u"\U0001f600", u"Ab\u03a9\U00010400" }; }
inline std::vector<s32> fillers32() { return { U"a", U"\u00e9", U"\u20ac", U"\U0001f600", s32(1, 0x300000), s32(1, 0x4000001), U"Ab\u03a9\U00010400" }; }

// two special tokens far apart in a long string: filler^i t filler^j u filler^k
template <typename S, typename F>
void pairsApart(const S& fl, const std::vector<S>& t1, const std::vector<S>& t2, int nmax, F f)
{
    uint64_t item = 0;
    S s;
    for (int i = 0; i <= nmax; ++i) for (int j = 0; j <= nmax; ++j) for (int k = 0; k <= 2; ++k)
    {
        if (!hx::mine(item++)) continue;
        S a, b, c;
        for (int x = 0; x < i; ++x) a += fl;
        for (int x = 0; x < j; ++x) b += fl;
        for (int x = 0; x < k; ++x) c += fl;
        for (auto& t : t1) for (auto& u : t2) { s = a; s += t; s += b; s += u; s += c; f(static_cast<const S&>(s)); }
    }
}

// beyond 24 bits
template <typename S, typename F> void huge(const std::vector<S>& tokens, F f)
{
    uint64_t item = 0;
    for (auto& t : tokens) for (int at : { 0, 1 })
    {
        if (!hx::mine(item++)) continue;
        S s((size_t)16777217, typename S::value_type('a'));
        s.insert(at ? s.size() : 0, t);
        f(static_cast<const S&>(s));
    }
}
// value c in a UTF-8 style sequence of exactly n bytes (overlong when n exceeds the shortest)
inline s8 encLen(uint32_t c, int n)
{
    static const int lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
    s8 s((size_t)n, 0);
    for (int i = n - 1; i > 0; --i) { s[i] = (char)(0x80 | (c & 0x3f)); c >>= 6; }
    s[0] = (char)(lead[n] | c);
    return s;
}
// every overlong encoding of every value to `all`, of every `step`th above it
template <typename F> void overlong(uint32_t all, uint32_t step, F f)
{
    static const uint32_t lim[] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
    for (int n = 2; n <= 6; ++n)
    {
        uint32_t cut = lim[n] < all ? lim[n] : all;
        auto one = [&](uint32_t c) { s8 e = encLen(c, n); f(e); f("A" + e); f(e + "z"); };
        sweep(0, cut - 1, one);
        uint64_t item = 0;
        for (uint64_t c = cut; c < lim[n]; c += step) if (hx::mine(item++)) one((uint32_t)c);
        for (uint32_t k = 1; k < 0x100; ++k) if (hx::mine(item++)) one(lim[n] - k < lim[n] ? lim[n] - k : 0);
    }
}
// every sequence of every length class with one byte (thorough: two bytes) replaced by any other
template <typename F> void corrupt(bool two, F f)
{
    uint64_t item = 0;
    for (auto& e : valid8()) for (size_t i = 0; i < e.size(); ++i)
    {
        if (!hx::mine(item++)) continue;
        s8 x = e;
        for (int b = 1; b < 256; ++b)
        {
            x[i] = (char)b;
            f(static_cast<const s8&>(x)); f("A" + x + "z");
            if (two) for (size_t j = i + 1; j < e.size(); ++j) { for (int c = 1; c < 256; ++c) { x[j] = (char)c; f(static_cast<const s8&>(x)); } x[j] = e[j]; }
        }
    }
}

// characters that mean something to text processing
inline const std::vector<uint32_t>& special()
{
    static const std::vector<uint32_t> v = { 1, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x22, 0x25, 0x26, 0x27, 0x2c, 0x2e, 0x2f, 0x30, 0x3b, 0x3c, 0x41, 0x49, 0x5b, 0x5c, 0x5f, 0x61, 0x69, 0x7f,
        0x80, 0x85, 0x9b, 0x9f, 0xa0, 0xad, 0xdf, 0xe9, 0xff, 0x130, 0x131, 0x149, 0x1c5, 0x300, 0x301, 0x307, 0x308, 0x327, 0x345, 0x34f, 0x378, 0x3a3, 0x3c2, 0x5d0, 0x61c, 0x640, 0x6dd, 0x70f, 0x7ff, 0x800,
        0x94d, 0xe33, 0x1100, 0x1161, 0x11a8, 0x1680, 0x180b, 0x180e, 0x1e9e, 0x1fb3, 0x2000, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202a, 0x202c, 0x202e, 0x202f, 0x205f, 0x2060, 0x2064,
        0x2066, 0x2069, 0x206f, 0x20e3, 0x2126, 0x212a, 0x3000, 0x3001, 0x3099, 0x3164, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfdd0, 0xfdef, 0xfe00, 0xfe0f, 0xfeff, 0xff21, 0xfff9, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff,
        0x10000, 0x10400, 0x110bd, 0x1d173, 0x1f1e6, 0x1f1ff, 0x1f3fb, 0x1f600, 0x1fffe, 0x1ffff, 0xe0001, 0xe0020, 0xe007f, 0xe0100, 0xe01ef, 0xf0000, 0xfffff, 0x10fffd, 0x10fffe, 0x10ffff };
    return v;
}
// every pair of ASCII characters and every pair of special ones, alone and within and at the end of longer text
template <typename F> void neighbours(F f)
{
    const s32 longer(25, U'n'), other(12, U'\u0416');
    uint64_t item = 0;
    auto two = [&](uint32_t a, uint32_t b) {
        s32 p; p.push_back(a); p.push_back(b);
        f(static_cast<const s32&>(p)); f(longer + p); f(p + other); f(longer + p + other);
    };
    for (uint32_t a = 1; a < 0x80; ++a) { if (!hx::mine(item++)) continue; for (uint32_t b = 1; b < 0x80; ++b) two(a, b); }
    for (auto a : special()) { if (!hx::mine(item++)) continue; for (auto b : special()) two(a, b); }
    // three and four alike, and one between two others
    for (auto a : special()) { if (!hx::mine(item++)) continue; f(s32(3, a)); f(s32(4, a) + longer); for (auto b : special()) { s32 t(1, a); t.push_back(b); t.push_back(a); f(t); f(U"x" + t + U"y"); } }
}

// one character many times over, with something else at either end
template <typename F> void runs(const std::vector<uint32_t>& cs, int nmax, F f)
{
    std::vector<int> ns; for (int n = 1; n <= nmax; ++n) ns.push_back(n);
    for (int n : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097 }) if (n > nmax) ns.push_back(n);
    uint64_t item = 0;
    for (auto c : cs)
    {
        if (!hx::mine(item++)) continue;
        for (int n : ns) { s32 s((size_t)n, (char32_t)c); f(static_cast<const s32&>(s)); f(U"q" + s); f(s + U"\u00e9q"); }
    }
}
inline std::vector<uint32_t> common()
{
    std::vector<uint32_t> v; for (uint32_t c = 1; c < 0x250; ++c) v.push_back(c);
    for (auto c : special()) if (c >= 0x250) v.push_back(c);
    return v;
}

// ---- the standard spaces -------------------------------------------------------
// w = weight of one case in units of a cheap one (~1us): heavier checks get shallower trees
template <typename F> void space8(F f, int w = 1)
{
    bool th = hx::thorough;
    tree(bytes8(), th ? (w <= 1 ? 6 : 5) : (w <= 2 ? 4 : 3), f);
    allBytes(1, f); allBytes(2, f);
    if (th || w <= 2) allBytes(3, f);
    tree(tokens8(), th ? (w <= 2 ? 4 : 3) : (w <= 4 ? 3 : 2), f);
    std::vector<s8> pv = { "", model::enc8(0x1f600), s8("\x80"), s8("\xed\xa0\x80"), s8("\xc3"), s8("\xf4\x8f\xbf"), s8("\xff"), model::enc8(0x110000), model::enc8(0x7fffffff), s8("\xc0\x80"), model::enc8(0x130), s8("\x7f") };
    positions(fillers8(), th ? tokens8() : pv, pv, th ? 72 : (w <= 2 ? 40 : 34), f);
    boundaries<s8>({ "a", model::enc8(0xe9), model::enc8(0x20ac), model::enc8(0x1f600) }, { model::enc8(0x1f600), s8("\x80"), model::enc8(0x110000), s8("\xf0\x9f"), model::enc8(0xc9) }, f);
    overlong(th ? (w <= 1 ? 0x4000000 : 0x200000) : (w <= 1 ? 0x200000 : 0x20000), th ? 0x11 : 0x301, f);
    corrupt(th && w <= 2, f);
    neighbours([&](const s32& c) { f(model::enc8(c)); });
    runs(common(), th ? 70 : (w <= 2 ? 40 : 20), [&](const s32& c) { f(model::enc8(c)); });
    huge<s8>({ model::enc8(0x1f600), s8("\xed\xa0\x80"), s8("\xff") }, f);
    // few tokens, one per kind, deep
    tree(std::vector<s8>{ "a", model::enc8(0xe9), model::enc8(0x20ac), model::enc8(0x1f600), model::encSplit(0x10400), model::enc8(0x3000000), s8("\xed\xa0\x81") }, th ? 8 : (w <= 2 ? 7 : 6), f);
}
template <typename F> void cpsIn8(uint32_t lo, uint32_t hi, F f)   // every code point in several contexts, UTF-8
{
    s8 s;
    sweep(lo, hi, [&](uint32_t c) {
        if (model::isSur(c) || !c) return;
        s8 e = model::enc8(c);
        f(e);
        f("A" + e); f(e + "z"); f(e + e); f(model::enc8(0x1f600) + e + model::enc8(0xe9));
        if (c >= 0x10000 && c <= 0x10ffff) { s8 p = model::encSplit(c); f(p); f("A" + p + "z"); }
    });
}
template <typename F> void space16(F f, int w = 1)
{
    bool th = hx::thorough;
    tree(units16(), th ? (w <= 2 ? 6 : 5) : (w <= 2 ? 5 : 4), f);
    tree(tokens16(), th ? 4 : 3, f);
    // every unit alone and in contexts; every surrogate pair
    sweep(1, 0xffff, [&](uint32_t c) {
        s16 u(1, (char16_t)c);
        f(u); f(u"A" + u); f(u + u"z"); f(u + u); f(s16(u"\U0001f600") + u + s16(u"\u00e9"));
        f(u + s16(1, 0xdc00)); f(s16(1, 0xd800) + u); f(s16(1, 0xdbff) + u + u"A"); f(u + s16(1, 0xdfff) + s16(1, 0xd800));
    });
    sweep(0x10000, 0x10ffff, [&](uint32_t c) { s16 u; model::put16(u, c); f(u); f(u"A" + u + u"z"); });
    std::vector<s16> pv = { u"", u"\U0001f600", s16(1, 0xd800), s16(1, 0xdc00), s16{ (char16_t)0xdc00, (char16_t)0xd800 }, u"\u0130", u"\u007f", u"\uffff" };
    positions(fillers16(), th ? tokens16() : pv, pv, th ? 72 : 40, f);
    boundaries<s16>({ u"a", u"\u20ac", u"\U0001f600" }, { u"\U00010400", s16(1, 0xd83d), s16(1, 0xdc00), u"\u00c9" }, f);
    neighbours([&](const s32& c) { f(model::enc16(c)); });
    runs(common(), th ? 70 : (w <= 2 ? 40 : 20), [&](const s32& c) { f(model::enc16(c)); });
    huge<s16>({ u"\U0001f600", s16(1, 0xd800), s16(1, 0xdc00) }, f);
    tree(std::vector<s16>{ u"a", u"\u00e9", u"\u20ac", u"\U0001f600", s16(1, 0xd801), s16(1, 0xdc01) }, th ? 9 : (w <= 2 ? 8 : 7), f);
}
template <typename F> void space32(F f, int w = 1)
{
    bool th = hx::thorough;
    tree(tokens32(), th ? 4 : 3, f);
    sweep(1, 0x1fffff, [&](uint32_t c) {
        s32 u(1, c);
        f(u); f(U"A" + u); f(u + U"z");
        if (th || w <= 2) { f(u + u); f(s32(U"\U0001f600") + u + s32(U"\u00e9")); }
    });
    bigValues([&](uint32_t c) { s32 u(1, c); f(u); f(U"A" + u); f(u + U"z"); }, true);
    std::vector<s32> pv = { U"", U"\U0001f600", s32(1, 0xd800), s32(1, 0xdfff), s32(1, 0x110000), s32(1, 0x80000000), U"\u0130", U"\u007f", s32(1, 0x7fffffff) };
    positions(fillers32(), th ? tokens32() : pv, pv, th ? 72 : 40, f);
    boundaries<s32>({ U"a", U"\u20ac", U"\U0001f600" }, { U"\U00010400", s32(1, 0xd83d), s32(1, 0x110000), s32(1, 0x80000001), U"\u00c9" }, f);
    neighbours(f);
    runs(common(), th ? 70 : (w <= 2 ? 40 : 20), f);
    huge<s32>({ U"\U0001f600", s32(1, 0xd800), s32(1, 0x110000) }, f);
    tree(std::vector<s32>{ U"a", U"\u00e9", U"\u20ac", U"\U0001f600", s32(1, 0x110001), s32(1, 0xd801), s32(1, 0x80000002) }, th ? 8 : (w <= 2 ? 7 : 6), f);
}

}
