// C01: UTF-8 decoding
#include "common.hpp"
static int K8;
static void f8(const In& in)
{
    const s8& s = *in.b;
    Parse p = parse8(s);
    const char* z = guard.z(s);
    conv("toUcs4(const char*)", toUcs4(z), p, Utf8);
    conv("toUcs4(string)", toUcs4(s), p, Utf8);
    // one character at a time
    size_t n = s.size(), i = 0;
    const unsigned char* u = (const unsigned char*)z;
    for (size_t k = 0; i < n; ++k)
    {
        const char* q = z + i;
        char32_t c = internal::decodeUtf8(q);
        if (k < p.cps.size())
        {
            // length of the sequence that denotes it
            int len = seqLen(u[i]);
            if (len == 3 && p.cps[k] >= 0x10000) len = 6;
            eq("decodeUtf8 value", (unsigned)c, (unsigned)p.cps[k]);
            eq("decodeUtf8 bytes consumed", (unsigned long)(q - z), (unsigned long)(i + len - 1));
            i += len;
            continue;
        }
        eq("decodeUtf8 of a broken sequence", (unsigned)c, 0u);
        if (p.st == Tail) holds("decodeUtf8 stops at the terminator of a cut-off sequence", q == z + n, q ? "elsewhere" : "error", "the terminator");
        else
        {
            // either an error, or (cut off by the terminator) the terminator
            bool atEnd = false;
            if (q == z + n)
            {
                int len = seqLen(u[i]); size_t j = i + 1;
                while (j < n && (u[j] & 0xc0) == 0x80) ++j;
                if (j < n && len == 3 && u[i] == 0xed && j == i + 3 && isHi(0xd000 | ((u[i + 1] & 0x3f) << 6))) { ++j; while (j < n && (u[j] & 0xc0) == 0x80) ++j; len = 6; }
                atEnd = len > 1 && j == n && (int)(n - i) < (len == 3 && isHi(((u[i] & 15) << 12) | (n - i > 1 ? (u[i + 1] & 63) << 6 : 0)) ? 6 : len);
            }
            holds("decodeUtf8 reports an ill-formed sequence", q == nullptr || atEnd, "no error", "null");
        }
        break;
    }
}
void registerKinds() { K8 = reg("utf8", 8, f8); }
void explore()
{
    auto f = [](const s8& s) { run(K8, s); };
    gen::space8(f);
    gen::cpsIn8(1, 0x10ffff, f);
    gen::bigValues([&](uint32_t c) { s8 e = enc8(c); f(e); f("A" + e); f(e + "A"); f(e + e); }, false);
    gen::pairsApart<s8>("a", gen::tokens8(), { "\x80", enc8(0x1f600), "\xed\xa0\x80", "\xf4", enc8(0x7ff), encSplit(0x10ffff) }, thorough ? 20 : 5, f);
    gen::sweep(0x110000, thorough ? 0x7fffffff : 0x3ffffff, [&](uint32_t c) { f(enc8(c)); });
    if (thorough) gen::allBytes(4, f);
}
