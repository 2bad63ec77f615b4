// C09: length-limited scans judge exactly the prefix
#include "common.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
static int K8, K16, K32, KS8, KS16, KS32;
// in.a[0] = prefix length; the rest of the string is what follows in memory (never to be looked at);
// in.a[1]: 1 = nothing readable follows
static const EncodingCheckPredicate& pa() { static const EncodingCheckPredicate p = validIf(kIsAssigned); return p; }
static const EncodingCheckPredicate& pw() { static const EncodingCheckPredicate p = validIfNot(kIsWhitespace); return p; }
template <typename C> const C* place(const std::basic_string<C>& s, size_t n, long mode)
{
    return mode ? guard.raw(s.data(), n) : guard.z(s);
}
static void f8(const In& in)
{
    const s8& s = *in.b; size_t n = (size_t)in.a[0];
    const char* p = place(s, n, in.a[1]);
    bool nul = memchr(s.data(), 0, n) != nullptr, nul0 = s[0] == 0;
    Parse q = parse8(s.data(), n);
    bool okAll = !nul && valid(q, Utf8), a = true, w = true;
    for (auto c : q.cps) { int k = ucd.classOf(c); if (!(k & 1)) a = false; if (k & 8) w = false; }
    if (!nul0)
    {
        eq("isUtf8(p,n)", isUtf8(p, (unsigned)n), okAll);
        eq("isUtf8(p,n,assigned)", isUtf8(p, (unsigned)n, pa()), okAll && a);
        eq("isUtf8(p,n,not white space)", isUtf8(p, (unsigned)n, pw()), okAll && w);
    }
    unsigned got = unicodeLength(p, (unsigned)n);
    unsigned cnt = (unsigned)q.cps.size();
    if (nul || q.st == Bad || !q.allIn(Unicode)) eq("unicodeLength(p,n)", got, 0u);
    else if (q.st == Tail && q.tailMin > 0x10ffff && got == 0) ++calls;
    else eq("unicodeLength(p,n)", got, cnt);
}
static void f16(const In& in)
{
    const s16& s = *in.w; size_t n = (size_t)in.a[0];
    const char16_t* p = place(s, n, in.a[1]);
    bool nul = s.find(u'\0') < n;
    Parse q = parse16(s.data(), n);
    eq("unicodeLength(char16_t*,n)", unicodeLength(p, (unsigned)n), nul || q.st == Bad ? 0u : (unsigned)q.cps.size());
}
static void f32(const In& in)
{
    const s32& s = *in.d; size_t n = (size_t)in.a[0];
    const char32_t* p = place(s, n, in.a[1]);
    bool nul = s.find(U'\0') < n;
    Parse q = parse32(s.data(), n);
    unsigned got = unicodeLength(p, (unsigned)n);
    if (nul || q.st == Bad) eq("unicodeLength(char32_t*,n)", got, 0u);
    else if (!q.allIn(Unicode) && got == 0) ++calls;
    else eq("unicodeLength(char32_t*,n)", got, (unsigned)q.cps.size());
}
static void spanCheck(const char* p, unsigned n, bool want) { eq("isUtf8(p,n)", isUtf8(p, n), want); }
static void spanCheck(const char16_t*, unsigned, bool) {}
static void spanCheck(const char32_t*, unsigned, bool) {}
// lengths beyond 31 bits: one chunk of U+1F600 (a in UCS-4) mapped over and over; the units at the end of the prefix (a[1] = 0)
// or after its first 1000 units (a[1] = 1)
template <typename C> void span(const In& in, const std::basic_string<C>& tail, Parse (*parse)(const C*, size_t))
{
    const size_t chunk = 1 << 20;
    unsigned n = (unsigned)(unsigned long)in.a[0];
    size_t bytes = ((size_t)n * sizeof(C) + chunk - 1) / chunk * chunk;
    in.patience = 40;
    struct rlimit rl, old; getrlimit(RLIMIT_AS, &rl); old = rl; rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_AS, &rl);
    struct Undo { struct rlimit l; ~Undo() { setrlimit(RLIMIT_AS, &l); } } undo{ old };
    int fd = memfd_create("span", 0);
    unsigned char* base = (unsigned char*)mmap(nullptr, bytes + 2 * chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (fd < 0 || base == MAP_FAILED) { if (fd >= 0) close(fd); note("spans_without_memory", 1); return; }
    std::basic_string<C> page, fl; { s32 e(1, sizeof(C) == 4 ? U'a' : U'\U0001f600'); fl = Enc<std::basic_string<C>>::of(e); }
    while (page.size() < chunk / sizeof(C)) page += fl;
    bool ok = write(fd, page.data(), chunk) == (ssize_t)chunk;
    for (size_t o = 0; ok && o < bytes; o += chunk) ok = mmap(base + o, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) != MAP_FAILED;
    close(fd);
    if (ok)
    {
        // the prefix ends exactly where nothing is readable any more
        C* p = reinterpret_cast<C*>(base + bytes) - n;
        C* at = in.a[1] ? p + 1000 : p + n - tail.size();
        std::memcpy(at, tail.data(), tail.size() * sizeof(C));
        bool nul = tail.find(C(0)) != tail.npos;
        // judged on a short prefix of the same shape
        std::basic_string<C> shape = fl + tail; if (in.a[1]) shape += fl;
        Parse q = parse(shape.data(), shape.size());
        unsigned want = nul || q.st == Bad || !q.allIn(Unicode) ? 0u : (n - (unsigned)shape.size()) / (unsigned)fl.size() + (unsigned)q.cps.size();
        eq("unicodeLength(p,n)", unicodeLength(p, n), want);
        spanCheck(p, n, !nul && valid(q, Utf8));
        steps += n;
    }
    else note("spans_without_memory", 1);
    munmap(base, bytes + 2 * chunk);
}
static void s8f(const In& in) { span<char>(in, *in.b, [](const char* p, size_t n) { return parse8(p, n); }); }
static void s16f(const In& in) { span<char16_t>(in, *in.w, [](const char16_t* p, size_t n) { return parse16(p, n); }); }
static void s32f(const In& in) { span<char32_t>(in, *in.d, [](const char32_t* p, size_t n) { return parse32(p, n); }); }
void registerKinds() { KS8 = reg("span8", 8, s8f); KS16 = reg("span16", 16, s16f); KS32 = reg("span32", 32, s32f); K8 = reg("utf8", 8, f8); K16 = reg("utf16", 16, f16); K32 = reg("ucs4", 32, f32); }
template <typename S> void prefixes(int k, const S& s, size_t maxAll)
{
    for (size_t n = 1; n <= s.size(); ++n)
    {
        if (n > maxAll && n + 8 < s.size()) n = s.size() - 8;
        run(k, s, (long)n, 0);
        run(k, s, (long)n, 1);
    }
}
void explore()
{
    auto f = [](const s8& s) { prefixes(K8, s, 12); };
    auto g = [](const s16& s) { prefixes(K16, s, 12); };
    auto h = [](const s32& s) { prefixes(K32, s, 12); };
    std::vector<s8> b = gen::bytes8(); b.push_back(s8(1, '\0'));
    gen::tree(b, thorough ? 5 : 4, [](const s8& s) { size_t n = s.size(); if (n) { run(K8, s, n, 0); run(K8, s, n, 1); if (n > 1) run(K8, s, n - 1, 0); } });
    std::vector<s8> t = gen::tokens8(); t.push_back(s8(1, '\0')); t.push_back(s8("\0A", 2));
    gen::tree(t, 2, f);
    if (thorough) gen::tree(t, 3, f);
    else
    {
        std::vector<s8> s = { "A", " ", enc8(0xe9), enc8(0x20ac), enc8(0x1f600), encSplit(0x1f600), enc8(0x110000), enc8(0x200000), enc8(0x7fffffff), s8(1, '\0'), "\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xed\xb0\x80", "\xf0\x9f", "\xc0\x80", "\xf4\x90", "\xff", enc8(0x378) };
        gen::tree(s, 4, [](const s8& x) { prefixes(K8, x, 30); });
    }
    gen::allBytes(1, f); gen::allBytes(2, f); if (thorough) gen::allBytes(3, f);
    std::vector<s16> u = gen::tokens16(); u.push_back(s16(1, 0));
    gen::tree(u, thorough ? 4 : 3, g);
    std::vector<s32> d = gen::tokens32(); d.push_back(s32(1, 0));
    gen::tree(d, thorough ? 4 : 3, h);
    // every code point, complete and cut after each byte, at the start and in the middle, with misleading followers
    gen::sweep(1, 0x10ffff, [&](uint32_t c) {
        if (isSur(c)) return;
        if (!thorough && c > 0x3000 && (c & 0x3f) > 1 && (c & 0x3f) < 0x3e) return;
        f(enc8(c) + "\x80\x80"); f("A" + enc8(c) + "B");
        if (c >= 0x10000) f("A" + encSplit(c) + "\xbf");
    });
    gen::bigValues([&](uint32_t c) { f("A" + enc8(c) + "\xbf"); }, false);
    gen::sweep(1, 0xffff, [&](uint32_t c) { g(s16(1, (char16_t)c) + s16(1, 0xdc00)); g(u"A" + s16(1, (char16_t)c) + u"B"); g(s16(1, 0xd800) + s16(1, (char16_t)c)); });
    gen::sweep(0x10000, 0x10ffff, [&](uint32_t c) { g(enc16(s32{ c, U'A' })); g(enc16(s32{ U'A', c })); });
    for (auto* fill : { "", "twenty one characters" }) gen::neighbours([&](const s32& s) {
        s8 e = fill + enc8(s); s16 w = enc16(s); s32 d; for (auto q = fill; *q; ++q) d.push_back((char32_t)*q);
        if (s.size() > 4 && *fill) return;
        for (long k = 0; k < 3 && k < (long)s.size(); ++k) { run(K8, e + "\x80", (long)e.size() - k, 0); run(K16, enc16(d) + w, (long)(d.size() + w.size()) - k, 1); run(K32, d + s, (long)(d.size() + s.size()) - k, 1); }
    });
    gen::sweep(1, 0x1fffff, [&](uint32_t c) { h(s32(1, c) + U"A"); });
    gen::overlong(0x2000, 0x4001, f);
    gen::corrupt(false, f);
    // long buffers: every prefix length
    std::vector<s8> fl = gen::fillers8();
    uint64_t item = 0;
    for (auto& x : fl) for (int n : { 16, 20, 33, 64, 65, 128, 257 })
    {
        if (!mine(item++)) continue;
        for (auto& tk : { s8(""), s8("\x80"), s8(1, '\0'), enc8(0x1f600), s8("\xed\xa0\x80"), s8("\xf4") })
            for (int i : { 0, 1, n / 2, n })
            {
                s8 s; for (int k = 0; k < i; ++k) s += x; s += tk; for (int k = i; k < n; ++k) s += x;
                for (size_t m = 1; m <= s.size(); ++m) { run(K8, s, (long)m, 0); run(K8, s, (long)m, 1); }
            }
    }
    for (auto& x : gen::fillers16()) for (int n : { 16, 33, 64, 65, 129 })
    {
        if (!mine(item++)) continue;
        for (auto& tk : { s16(), s16(1, 0xdc00), s16(1, 0xd800), s16(1, 0) }) for (int i : { 0, 1, n / 2, n })
        {
            s16 s; for (int k = 0; k < i; ++k) s += x; s += tk; for (int k = i; k < n; ++k) s += x;
            for (size_t m = 1; m <= s.size(); ++m) { run(K16, s, (long)m, 0); run(K16, s, (long)m, 1); }
        }
    }
    for (int n : { 16, 33, 64, 65, 129 }) for (uint32_t tk : { 0u, 0xd800u, 0x1f600u, 0x110000u }) for (int i = 0; i <= n; ++i)
    {
        if (!mine(item++)) continue;
        s32 s(n, U'a'); s.insert((size_t)i, 1, (char32_t)tk);
        for (size_t m = 1; m <= s.size(); ++m) { run(K32, s, (long)m, 0); run(K32, s, (long)m, 1); }
    }
    // larger than 16 bits
    for (size_t n : { 254u, 256u, 512u, 1000u, 1024u, 2048u, 4096u, 8192u, 16384u, 32768u, 65536u, 131072u }) for (int m = -2; m <= 2; ++m)
    {
        if (!mine(item++)) continue;
        s8 s; for (size_t i = 0; i < n + 4; ++i) s.push_back('a'); s += "\xff";
        run(K8, s, (long)n + m, 0); run(K8, s, (long)n + m, 1);
        for (auto& tk : { enc8(0xe9), enc8(0x20ac), enc8(0x1f600), encSplit(0x1f600), enc8(0x3000000), s8("\xff"), s8("\xc0\x80"), s8(1, '\0') })
            for (int cut = 0; cut <= (int)tk.size(); ++cut)
            {
                s8 x(n + m, 'a'); x += tk; x += "\x80z";
                run(K8, x, (long)(n + m + cut), 0); run(K8, x, (long)(n + m + cut), 1);
            }
        s16 y(n + m, u'a'); y += u"\U0001f600\xdc00"; for (int cut = 0; cut <= 2; ++cut) { run(K16, y, (long)(n + m + cut), 0); run(K16, y, (long)(n + m + cut), 1); }
        s16 w(n + 4, u'a'); w.push_back(0xdc00); run(K16, w, (long)n + m, 0);
        s32 d2(n + 4, U'a'); d2.push_back(0xdc00); run(K32, d2, (long)n + m, 0);
    }
    // beyond 31 bits
    item = 7;
    for (unsigned long n : { 0x80000004ul, 0xfffffffcul })
    {
        bool all = thorough || n < 0xf0000000;
        for (auto& tk : { enc8(0x1f600), s8("aa\xe2\x82"), s8("aaa\xff"), s8("aaa\0", 4) })
        {
            if (all && mine(item++) && (thorough || tk[3] != 0)) run(KS8, tk, (long)n, 0);
            if (tk == "aaa\xff" || tk[3] == 0) if (mine(item++)) run(KS8, tk, (long)n, 1);
        }
        if (all && mine(item++)) run(KS16, s16(u"\U0001f600a") + s16(1, 0xd800), (long)n, 0);
        if (mine(item++)) run(KS16, u"a" + s16(1, 0xdc00), (long)n, 1);
        if (all && mine(item++)) run(KS32, s32(U"\U0001f600a"), (long)n, 0);
        if (mine(item++)) run(KS32, s32(1, 0xd800), (long)n, 1);
    }
}
