// Reference model of the encodings ansak-string handles.  Written from the
// encoding definitions (not from the implementation): a generic N-byte
// shift-register automaton with interval reasoning for cut-off tails.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>

namespace model {

typedef std::string s8;
typedef std::u16string s16;
typedef std::u32string s32;

// ---- instrumentation: model automaton steps taken (measured) --------------
extern uint64_t steps;

enum Range { Ascii, Utf8, Ucs2, Utf16, Ucs4, Unicode, NRANGES };
inline uint32_t rangeMax(int r)
{
    static const uint32_t m[] = { 0x7f, 0x7fffffff, 0xffff, 0x10ffff, 0xffffffff, 0x10ffff };
    return m[r];
}
inline bool isSur(uint32_t c) { return c - 0xd800u < 0x800u; }
inline bool isHi(uint32_t c) { return c - 0xd800u < 0x400u; }
inline bool isLo(uint32_t c) { return c - 0xdc00u < 0x400u; }
inline bool inRange(uint32_t c, int r) { return !isSur(c) && c <= rangeMax(r); }

enum Status { Ok, Tail, Bad };

struct Parse {
    Status st = Ok;
    s32 cps;                 // complete code points
    size_t tailAt = 0;       // Tail: index at which the cut-off sequence begins
    uint32_t tailMin = 0;    // Tail: the least code point it could be completed to
    bool canonical = true;   // UTF-8: no split surrogate pairs
    uint32_t maxCp = 0;
    bool allIn(int r) const { return cps.empty() || maxCp <= rangeMax(r); } // cps never holds surrogates
    void add(uint32_t c) { cps.push_back(c); if (c > maxCp) maxCp = c; }
};

inline uint32_t minForLen(int n)
{
    static const uint32_t m[] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
    return m[n];
}
inline int seqLen(unsigned char b)      // 0: not a lead byte
{
    if (b < 0x80) return 1;
    int ones = __builtin_clz(~(uint32_t(b) << 24));
    return ones >= 2 && ones <= 6 ? ones : 0;
}

// The least code point >= the class minimum with the k given bytes of an n-byte
// sequence; false if there is none.  3-byte sequences may also be the first
// half of a split pair (pairMin) or complete BMP characters.
inline bool prefixMin(const unsigned char* b, int k, int n, uint32_t& least)
{
    uint32_t v = b[0] & ((1u << (7 - n)) - 1);
    for (int i = 1; i < k; ++i) v = (v << 6) | (b[i] & 0x3f);
    int rem = 6 * (n - k);
    uint32_t lo = v << rem, hi = lo | ((1u << rem) - 1);
    if (lo < minForLen(n)) lo = minForLen(n);
    if (lo > hi) return false;
    if (n == 3)
    {
        if (!isSur(lo)) { least = lo; return true; }
        if (hi >= 0xe000) { least = 0xe000; return true; }  // cannot happen for k>=1, kept for completeness
        if (isHi(lo)) { least = 0x10000 + ((lo - 0xd800) << 10); return true; }
        return false;
    }
    least = lo;
    return true;
}

inline Parse parse8(const char* p, size_t n)
{
    Parse r;
    const unsigned char* u = reinterpret_cast<const unsigned char*>(p);
    size_t i = 0;
    steps += n;
    while (i < n)
    {
        int len = seqLen(u[i]);
        if (!len) { r.st = Bad; return r; }
        if (len == 1) { r.add(u[i]); ++i; continue; }
        int k = 1;
        while (k < len && i + k < n && (u[i + k] & 0xc0) == 0x80) ++k;
        uint32_t least = 0;
        if (k < len)
        {
            if (i + k < n || !prefixMin(u + i, k, len, least)) { r.st = Bad; return r; }
            r.st = Tail; r.tailAt = i; r.tailMin = least; return r;
        }
        uint32_t v = u[i] & ((1u << (7 - len)) - 1);
        for (int j = 1; j < len; ++j) v = (v << 6) | (u[i + j] & 0x3f);
        if (v < minForLen(len) || isLo(v)) { r.st = Bad; return r; }
        if (isHi(v))
        {
            size_t j = i + 3;
            // the low half must be ED B0..BF 80..BF
            if (j < n && u[j] != 0xed) { r.st = Bad; return r; }
            if (j + 1 < n && (u[j + 1] < 0xb0 || u[j + 1] > 0xbf)) { r.st = Bad; return r; }
            if (j + 2 < n && (u[j + 2] & 0xc0) != 0x80) { r.st = Bad; return r; }
            uint32_t base = 0x10000 + ((v - 0xd800) << 10);
            if (j + 2 >= n)
            {
                r.st = Tail; r.tailAt = i;
                r.tailMin = base + (j + 1 < n ? (u[j + 1] - 0xb0u) << 6 : 0);
                return r;
            }
            r.add(base + ((u[j + 1] - 0xb0u) << 6) + (u[j + 2] & 0x3f));
            r.canonical = false;
            i += 6;
            continue;
        }
        r.add(v);
        i += len;
    }
    return r;
}
inline Parse parse8(const s8& s) { return parse8(s.data(), s.size()); }

inline Parse parse16(const char16_t* u, size_t n)
{
    Parse r;
    steps += n;
    for (size_t i = 0; i < n; ++i)
    {
        if (isLo(u[i])) { r.st = Bad; return r; }
        if (!isHi(u[i])) { r.add(u[i]); continue; }
        uint32_t base = 0x10000 + ((u[i] - 0xd800u) << 10);
        if (i + 1 == n) { r.st = Tail; r.tailAt = i; r.tailMin = base; return r; }
        if (!isLo(u[i + 1])) { r.st = Bad; return r; }
        r.add(base + (u[i + 1] - 0xdc00u));
        ++i;
    }
    return r;
}
inline Parse parse16(const s16& s) { return parse16(s.data(), s.size()); }

inline Parse parse32(const char32_t* u, size_t n)
{
    Parse r;
    steps += n;
    for (size_t i = 0; i < n; ++i)
    {
        if (isSur(u[i])) { r.st = Bad; return r; }
        r.add(u[i]);
    }
    return r;
}
inline Parse parse32(const s32& s) { return parse32(s.data(), s.size()); }

// the check: well formed, in range, tail completable in range
inline bool valid(const Parse& p, int r)
{
    return p.st != Bad && p.allIn(r) && (p.st == Ok || p.tailMin <= rangeMax(r));
}

inline void put8(s8& o, uint32_t c)
{
    if (c < 0x80) { o.push_back(char(c)); return; }
    int n = 2;
    while (n < 6 && c >= minForLen(n + 1)) ++n;
    o.push_back(char(((0xff00u >> n) & 0xff) | (c >> (6 * (n - 1)))));
    for (int k = n - 2; k >= 0; --k) o.push_back(char(0x80 | ((c >> (6 * k)) & 0x3f)));
}
inline s8 enc8(const s32& s) { s8 o; for (auto c : s) put8(o, c); return o; }
inline s8 enc8(uint32_t c) { s8 o; put8(o, c); return o; }
inline void putSplit(s8& o, uint32_t c)   // split surrogate pair in 3+3 bytes
{
    c -= 0x10000;
    uint32_t h = 0xd800 + (c >> 10), l = 0xdc00 + (c & 0x3ff);
    put8(o, h); put8(o, l);
}
inline s8 encSplit(uint32_t c) { s8 o; putSplit(o, c); return o; }
inline void put16(s16& o, uint32_t c)
{
    if (c < 0x10000) { o.push_back(char16_t(c)); return; }
    c -= 0x10000;
    o.push_back(char16_t(0xd800 + (c >> 10)));
    o.push_back(char16_t(0xdc00 + (c & 0x3ff)));
}
inline s16 enc16(const s32& s) { s16 o; for (auto c : s) put16(o, c); return o; }
inline s16 enc2(const s32& s) { s16 o; for (auto c : s) o.push_back(char16_t(c)); return o; }

// ---- Unicode character database (committed tables) -------------------------
struct Ucd {
    // bit 1 assigned, 2 private, 4 control, 8 white space
    std::vector<unsigned char> cls;
    std::unordered_map<uint32_t, uint32_t> low;
    std::vector<uint32_t> lower;
    bool load(const char* path)
    {
        FILE* f = fopen(path, "r");
        if (!f) return false;
        cls.assign(0x110000, 0);
        lower.resize(0x110000);
        for (uint32_t i = 0; i < 0x110000; ++i) lower[i] = i;
        char k; unsigned a, b;
        while (fscanf(f, " %c %x %x", &k, &a, &b) == 3)
        {
            if (k == 'L') { lower[a] = b; low[a] = b; continue; }
            int bit = k == 'A' ? 1 : k == 'P' ? 2 : k == 'C' ? 4 : 8;
            for (unsigned c = a; c <= b; ++c) cls[c] |= bit;
        }
        fclose(f);
        return true;
    }
    int classOf(uint32_t c) const { return c < 0x110000 ? cls[c] : 0; }
    uint32_t toLower(uint32_t c) const { return c < 0x110000 ? lower[c] : c; }
};

}
