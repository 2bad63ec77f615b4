#include "ops.hpp"
#include "string.hxx"
#include "internal/string_decode_utf8.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <stdexcept>
using namespace ansak;
namespace ops {
static void nop() {}
void (*enter)() = nop;
void (*leave)() = nop;
static char scratch0[256];
static char* ownScratch() { return scratch0; }
char* (*scratch)() = ownScratch;
struct Bracket { Bracket() { enter(); } ~Bracket() { leave(); } };
template <typename F> auto lib(F f) -> decltype(f()) { Bracket b; return f(); }

struct Args {
    std::string a8, b8, long8, bad8, badLong8, tail8, split8, big8, ws8, cp, cpBad, csv, deep8, ascii, huge8, hugeB8, hugeBad8, hugeCsv, hugeWs, mid8;
    std::u16string a16, long16, bad16, tail16, ws16, csv16, pair16, huge16, hugeB16, mid16;
    std::u32string a32, long32, bad32, big32, ws32, csv32, huge32, hugeB32, mid32;
    std::wstring aw, badw;
    std::vector<std::string> list; std::vector<std::u32string> list32;
    EncodingCheckPredicate assigned, noWs, combo, contra;
    char buf8[24]; char16_t buf16[12]; char32_t buf32[12];
};
static Args* G;
// encoders of the harness: building the arguments must not call the library
static std::string own8(const std::u32string& s)
{
    std::string r;
    for (char32_t c : s)
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
static std::u16string own16(const std::u32string& s)
{
    std::u16string r;
    for (char32_t c : s) if (c < 0x10000) r += (char16_t)c; else { r += (char16_t)(0xd7c0 + (c >> 10)); r += (char16_t)(0xdc00 | (c & 0x3ff)); }
    return r;
}
void init()
{
    static Args* once = nullptr;
    if (once) return;
    Args* g = once = new Args;
    g->a8 = "AI\xc3\x89\xe2\x82\xac\xf0\x9f\x98\x80"; g->b8 = "zi\xc3\x9f\xe2\x84\xa6\xf0\x90\x90\x80";
    g->long8 = "The quick brown FOX jumps over the lazy DOG \xc3\x80\xce\xa9\xf0\x90\x90\x80 0123456789 \xe2\x82\xac"; g->bad8 = "ab\xc3"; g->bad8 += "(x";
    g->badLong8 = g->long8 + "\xff tail"; g->tail8 = "ok\xe2\x82"; g->split8 = "q\xed\xa0\xbd\xed\xb8\x80r"; g->big8 = "v\xf8\x88\x80\x80\x80w\xfc\x84\x80\x80\x80\x80";
    g->ws8 = " \t\xe3\x80\x80 mid dle \xc2\xa0\n"; g->cp = "caf\xe9 \x80 \x9a\x8a"; g->cpBad = "x\x81y"; g->csv = "one,,three,a rather longer piece than the others,";
    for (int i = 0; i < 60; ++i) g->deep8 += "\xd0\xaf"; g->ascii = "plain";
    g->a16 = u"AI\u00c9\u20ac\U0001f600"; g->long16 = u"The quick brown FOX jumps over \u0410\u0411 \U00010400\U0001f600 0123456789"; g->bad16 = u"ab"; g->bad16 += char16_t(0xdc00); g->bad16 += u"c";
    g->tail16 = u"ok"; g->tail16 += char16_t(0xd83d); g->ws16 = u"\u2028 mid \u00a0"; g->csv16 = u"a;b;;\U0001f600"; g->pair16 = u"\U00010400\U0010ffff";
    g->a32 = U"AI\u00c9\u20ac\U0001f600"; g->long32 = U"The quick brown FOX jumps over \u0410\u0411 \U00010400\U0001f600"; g->bad32 = U"ab"; g->bad32 += char32_t(0xd800); g->bad32 += U"c";
    g->big32 = U"x"; g->big32 += char32_t(0x7fffffff); g->ws32 = U"\u3000 x \u1680"; g->csv32 = U"|a||b";
    g->aw = L"wide \u00c9\u20ac\U0001f600 string"; g->badw = L"w"; g->badw += wchar_t(0x110000);
    g->list = { "alpha", "", "a piece that does not fit in place", "z" }; g->list32 = { U"alpha", U"", U"\U0001f600" };
    g->assigned = validIf(kIsAssigned); g->noWs = validIfNot(kIsWhitespace); g->combo = validIf(kIsAssigned).andIfNot(kIsControl).andIfNot(kIsPrivate); g->contra = validIf(kIsControl).andIfNot(kIsControl);
    for (int i = 0; i < 5000; ++i)
    {
        static const char32_t k[] = { U'A', U'b', U'I', U' ', 0xc9, 0x3a9, 0x20ac, 0x10400, U'z', 0x416 };
        char32_t c = k[(i * 7 + i / 11) % 10], d = i % 997 == 500 ? U'Q' : c;
        g->huge32 += c; g->hugeB32 += d;
        if (i < 300) g->mid32 += c;
    }
    g->huge8 = own8(g->huge32); g->hugeB8 = own8(g->hugeB32); g->mid8 = own8(g->mid32); g->huge16 = own16(g->huge32); g->hugeB16 = own16(g->hugeB32); g->mid16 = own16(g->mid32);
    g->hugeBad8 = g->huge8 + "\xc3(x"; for (int i = 0; i < 700; ++i) { g->hugeCsv += i % 3 ? "piece" : i % 2 ? "a considerably longer piece" : ""; g->hugeCsv += ','; }
    g->hugeWs = std::string(2000, ' ') + "x y" + std::string(3000, '\t');
    memset(g->buf8, 0, sizeof g->buf8); memset(g->buf16, 0, sizeof g->buf16); memset(g->buf32, 0, sizeof g->buf32);
    G = g;
}
static std::string ser(bool b) { return b ? "T" : "F"; }
static std::string ser(unsigned v) { char b[24]; snprintf(b, sizeof b, "%u", v); return b; }
template <typename C> std::string ser(const std::basic_string<C>& s)
{
    if (s.size() > 400)
    {
        uint64_t h = 1469598103934665603ull; for (auto c : s) h = (h ^ (uint32_t)c) * 0x100000001b3ull;
        char b[64]; snprintf(b, sizeof b, "<%zu units, %llx>", s.size(), (unsigned long long)h); return b;
    }
    std::string r = "<"; char b[16];
    for (auto c : s) { snprintf(b, sizeof b, "%x,", (unsigned)c & (sizeof(C) == 1 ? 0xffu : 0xffffffffu)); r += b; }
    return r + ">";
}
template <typename C> std::string ser(const std::vector<std::basic_string<C>>& v) { std::string r = "["; for (auto& s : v) r += ser(s); return r + "]"; }
std::string args()
{
    return ser(G->a8) + ser(G->b8) + ser(G->long8) + ser(G->bad8) + ser(G->badLong8) + ser(G->tail8) + ser(G->split8) + ser(G->big8) + ser(G->ws8) + ser(G->cp) + ser(G->cpBad) + ser(G->csv) + ser(G->deep8) + ser(G->ascii) + ser(G->huge8) + ser(G->hugeB8) + ser(G->hugeBad8) + ser(G->hugeCsv) + ser(G->hugeWs) + ser(G->mid8) + ser(G->huge16) + ser(G->hugeB16) + ser(G->mid16) + ser(G->huge32) + ser(G->hugeB32) + ser(G->mid32) +
        ser(G->a16) + ser(G->long16) + ser(G->bad16) + ser(G->tail16) + ser(G->ws16) + ser(G->csv16) + ser(G->pair16) + ser(G->a32) + ser(G->long32) + ser(G->bad32) + ser(G->big32) + ser(G->ws32) + ser(G->csv32) + ser(G->aw) + ser(G->badw) + ser(G->list) + ser(G->list32) +
        ser(G->assigned == validIf(kIsAssigned)) + ser(G->noWs == validIfNot(kIsWhitespace)) + ser(G->combo == validIf(kIsAssigned).andIfNot(kIsControl).andIfNot(kIsPrivate)) + ser(G->contra(U'\x01'));
}
#define OP(name, expr) { name, [] { return ser(lib([&] { return expr; })); } }
// a string being trimmed keeps what is between its first and last ASCII letter, also when the call fails
template <typename S> S core(const S& s)
{
    size_t a = s.size(), b = 0;
    for (size_t i = 0; i < s.size(); ++i) if ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z')) { if (a > i) a = i; b = i + 1; }
    return a < b ? s.substr(a, b - a) : S();
}
template <typename S> std::string trimmed(const S& s, void (*f)(S&))
{
    S v = s, c = core(s);
    try { lib([&] { f(v); return 0; }); }
    catch (...) { if (v.find(c) == S::npos) throw std::runtime_error("the string being trimmed lost its content"); throw; }
    return ser(v);
}
// the same buffer address with different contents
static const char* in8(const char* s) { char* b = scratch(); strcpy(b, s); return b; }
static const char16_t* in16(const char16_t* s) { char16_t* b = (char16_t*)scratch(); size_t n = std::char_traits<char16_t>::length(s); memcpy(b, s, (n + 1) * 2); return b; }
static const char32_t* in32(const char32_t* s) { char32_t* b = (char32_t*)scratch(); size_t n = std::char_traits<char32_t>::length(s); memcpy(b, s, (n + 1) * 4); return b; }
// heap strings rebuilt at (usually) the same address, alike in length, beginning and end
static std::string like8(const char* mid) { return std::string("the same beginning \xc3\x89 ") + mid + " the same end\xe2\x82\xac"; }
static std::u16string like16(const char16_t* mid) { return std::u16string(u"the same beginning \u00c9 ") + mid + u" the same end\u20ac"; }
static std::u32string like32(const char32_t* mid) { return std::u32string(U"the same beginning \u00c9 ") + mid + U" the same end\u20ac"; }
static std::string decodeAll(const std::string& s)
{
    std::string r; const char* p = s.c_str();
    while (p && *p) { char32_t c = lib([&] { return internal::decodeUtf8(p); }); char b[24]; snprintf(b, sizeof b, "%x ", (unsigned)c); r += b; if (p && *p) ++p; }
    r += p ? "end" : "err";
    return r;
}
static std::string predCopies()
{
    EncodingCheckPredicate a = lib([] { return validIf(kIsAssigned); }), b = a;
    lib([&] { return b.andIfNot(kIsWhitespace); });
    EncodingCheckPredicate c = b;
    lib([&] { return c.andIf(kIsPrivate); });
    return ser(a(U' ')) + ser(b(U' ')) + ser(b(U'x')) + ser(c(U'x')) + ser(a == validIf(kIsAssigned)) + ser(a == b) + ser(b == c) + ser(a(u'\u0378')) + ser(a('\x09'));
}
static std::string digest(unsigned n, uint64_t h) { char b[48]; snprintf(b, sizeof b, "%u %llx", n, (unsigned long long)h); return b; }
template <typename F> std::string sweepChars(uint32_t last, uint32_t step, F f)
{
    unsigned n = 0; uint64_t h = 1;
    for (uint32_t c = 1; c <= last; c += step) { uint32_t r = f((char32_t)c); n += r != 0; h = (h ^ r) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; }
    return digest(n, h);
}
static std::string lowerTable() { std::u32string s; for (uint32_t c = 1; c < 0x1f000; c += 3) if (c < 0xd800 || c > 0xdfff) s += (char32_t)c; return ser(lib([&] { return toLower(s); })); }
const Op table[] = {
    { "tables: assigned", [] { EncodingCheckPredicate p = validIf(kIsAssigned); return lib([&] { return sweepChars(0x10ffff, 61, [&](char32_t c) { return (uint32_t)p(c); }); }); } },
    { "tables: assigned, descending", [] { EncodingCheckPredicate p = validIf(kIsAssigned); return lib([&] { return sweepChars(0x31000, 13, [&](char32_t c) { return (uint32_t)p((char32_t)(0x31000 - c)); }); }); } },
    { "tables: classes", [] { EncodingCheckPredicate p = validIf(kIsPrivate), q = validIf(kIsControl), r = validIf(kIsWhitespace); return lib([&] { return sweepChars(0x12000, 7, [&](char32_t c) { return (uint32_t)(p(c) + 2 * q(c) + 4 * r(c)); }); }); } },
    { "tables: toLower", [] { return lowerTable(); } },
    { "tables: toLower one by one", [] { return lib([&] { return sweepChars(0x2100, 3, [&](char32_t c) { return (uint32_t)toLower(std::u32string(1, c))[0]; }); }); } },
    OP("isUtf8(huge8)", isUtf8(G->huge8)), OP("isUtf8(hugeBad8)", isUtf8(G->hugeBad8)), OP("isUtf8(huge8,combo)", isUtf8(G->huge8, kUnicode, G->combo)), OP("toUcs4(huge8)", toUcs4(G->huge8)), OP("toUcs4(hugeB8)", toUcs4(G->hugeB8)), OP("toUcs4(hugeBad8)", toUcs4(G->hugeBad8)), OP("toUtf16(huge8)", toUtf16(G->huge8)), OP("toUtf16(hugeB8)", toUtf16(G->hugeB8)), OP("toUcs2(hugeBad8)", toUcs2(G->hugeBad8)),
    OP("toLower(huge8)", toLower(G->huge8)), OP("toLower(hugeB8,tr)", toLower(G->hugeB8, "tr")), OP("toLower(huge16)", toLower(G->huge16)), OP("toLower(hugeB16)", toLower(G->hugeB16)), OP("toLower(huge32)", toLower(G->huge32)), OP("toLower(hugeB32)", toLower(G->hugeB32)), OP("unicodeLength(huge8)", unicodeLength(G->huge8)), OP("unicodeLength(hugeBad8)", unicodeLength(G->hugeBad8)), OP("unicodeLength(huge16)", unicodeLength(G->huge16)),
    OP("toUtf8(huge16)", toUtf8(G->huge16)), OP("toUtf8(hugeB16)", toUtf8(G->hugeB16)), OP("toUcs4(huge16)", toUcs4(G->huge16)), OP("toUtf8(huge32)", toUtf8(G->huge32)), OP("toUtf8(hugeB32)", toUtf8(G->hugeB32)), OP("toUtf16(huge32)", toUtf16(G->huge32)), OP("toUtf16(hugeB32)", toUtf16(G->hugeB32)), OP("isUtf16(huge16)", isUtf16(G->huge16)), OP("isUcs4(huge32,kUcs2)", isUcs4(G->huge32, kUcs2)),
    OP("toUtf8(huge8,1250)", toUtf8(G->huge8.c_str(), kSrcCP1250)), OP("toWstring(huge8)", toWstring(G->huge8)), OP("split(hugeCsv)", split(G->hugeCsv, ',')), OP("join(split(hugeCsv))", join(split(G->hugeCsv, ','), ';')), { "trim(hugeWs)", [] { return trimmed<std::string>(G->hugeWs, trim<char>); } }, { "trimWhiteSpace(hugeWs)", [] { return trimmed<std::string>(G->hugeWs, trimWhiteSpace); } },
    OP("toUcs4(mid8)", toUcs4(G->mid8)), OP("toUtf16(mid8)", toUtf16(G->mid8)), OP("toLower(mid8)", toLower(G->mid8)), OP("toLower(mid16,az)", toLower(G->mid16, "az")), OP("toLower(mid32)", toLower(G->mid32)), OP("toUtf8(mid16)", toUtf8(G->mid16)), OP("toUtf8(mid32)", toUtf8(G->mid32)), OP("toUtf16(mid32)", toUtf16(G->mid32)), OP("toUcs4(mid16)", toUcs4(G->mid16)),
    OP("isUtf8(a8)", isUtf8(G->a8)), OP("isUtf8(a8,kUcs2)", isUtf8(G->a8, kUcs2)), OP("isUtf8(long8,kUnicode)", isUtf8(G->long8.c_str(), kUnicode)), OP("isUtf8(bad8)", isUtf8(G->bad8)),
    OP("isUtf8(tail8)", isUtf8(G->tail8)), OP("isUtf8(split8,kUtf16)", isUtf8(G->split8, kUtf16)), OP("isUtf8(long8,assigned)", isUtf8(G->long8, G->assigned)), OP("isUtf8(ws8,noWs)", isUtf8(G->ws8, kUtf8, G->noWs)),
    OP("isUtf8(a8,9)", isUtf8(G->a8.c_str(), 9u)), OP("isUtf8(ascii,kAscii)", isUtf8(G->ascii, kAscii)), OP("isUtf8(a8,bad range)", isUtf8(G->a8, (RangeType)7)),
    OP("isUtf16(a16)", isUtf16(G->a16)), OP("isUtf16(bad16)", isUtf16(G->bad16)), OP("isUtf16(pair16,combo)", isUtf16(G->pair16, G->combo)), OP("isUcs2(a16)", isUcs2(G->a16)), OP("isUcs2(ws16,assigned)", isUcs2(G->ws16, G->assigned)),
    OP("isUcs4(a32)", isUcs4(G->a32)), OP("isUcs4(big32,kUtf16)", isUcs4(G->big32, kUtf16)), OP("isUcs4(long32,combo)", isUcs4(G->long32, G->combo)), OP("isUcs4(bad32)", isUcs4(G->bad32)), OP("isUcs4(a32,contra)", isUcs4(G->a32, G->contra)),
    OP("toUcs4(a8)", toUcs4(G->a8)), OP("toUcs4(b8)", toUcs4(G->b8)), OP("toUcs4(long8)", toUcs4(G->long8)), OP("toUcs4(badLong8)", toUcs4(G->badLong8)), OP("toUcs4(tail8)", toUcs4(G->tail8.c_str())), OP("toUcs4(split8)", toUcs4(G->split8)), OP("toUcs4(big8)", toUcs4(G->big8)),
    OP("toUtf16(a8)", toUtf16(G->a8)), OP("toUtf16(long8)", toUtf16(G->long8)), OP("toUtf16(bad8)", toUtf16(G->bad8)), OP("toUtf16(big8)", toUtf16(G->big8)), OP("toUcs2(b8)", toUcs2(G->b8)), OP("toUcs2(deep8)", toUcs2(G->deep8)),
    OP("toUtf8(a16)", toUtf8(G->a16)), OP("toUtf8(long16)", toUtf8(G->long16)), OP("toUtf8(bad16)", toUtf8(G->bad16)), OP("toUtf8(tail16)", toUtf8(G->tail16)), OP("toUcs4(long16)", toUcs4(G->long16)), OP("toUcs4(bad16)", toUcs4(G->bad16)),
    OP("toUtf8(a32)", toUtf8(G->a32)), OP("toUtf8(long32)", toUtf8(G->long32)), OP("toUtf8(bad32)", toUtf8(G->bad32)), OP("toUtf8(big32)", toUtf8(G->big32)), OP("toUtf16(long32)", toUtf16(G->long32)), OP("toUtf16(big32)", toUtf16(G->big32)), OP("toUcs2(ws32)", toUcs2(G->ws32)),
    OP("unicodeLength(a8)", unicodeLength(G->a8)), OP("unicodeLength(a8,5)", unicodeLength(G->a8.c_str(), 5)), OP("unicodeLength(bad8)", unicodeLength(G->bad8)), OP("unicodeLength(long16)", unicodeLength(G->long16)), OP("unicodeLength(a32)", unicodeLength(G->a32)), OP("unicodeLength(a16,3)", unicodeLength(G->a16.c_str(), 3)),
    OP("toLower(a8)", toLower(G->a8)), OP("toLower(a8,tr)", toLower(G->a8, "tr")), OP("toLower(long8)", toLower(G->long8)), OP("toLower(long8,aze)", toLower(G->long8, "aze")), OP("toLower(bad8)", toLower(G->bad8)), OP("toLower(long16)", toLower(G->long16)), OP("toLower(a16,tur)", toLower(G->a16, "tur")), OP("toLower(long32)", toLower(G->long32)), OP("toLower(a32,kk)", toLower(G->a32, "kk")), OP("toLower(a32,en)", toLower(G->a32, "en")),
    OP("toUtf8(cp,1252)", toUtf8(G->cp.c_str(), kSrcCP1252)), OP("toUtf8(cp,1250)", toUtf8(G->cp.c_str(), kSrcCP1250)), OP("toUtf8(cpBad,1252)", toUtf8(G->cpBad.c_str(), kSrcCP1252)), OP("toUtf8(long8,unicode)", toUtf8(G->long8.c_str(), kSrcUnicode)), OP("toUtf8(cp,bad)", toUtf8(G->cp.c_str(), (SourceEncoding)9)),
    OP("toWstring(long8)", toWstring(G->long8)), OP("toUtf8(aw)", toUtf8(G->aw)), OP("toUcs4(badw)", toUcs4(G->badw)), OP("isUtf16(aw)", isUtf16(G->aw)), OP("isWstring(big8)", isWstring(G->big8)),
    OP("split(csv)", split(G->csv, ',')), OP("split(csv16)", split(G->csv16, u';')), OP("split(csv32)", split(G->csv32, U'|')), OP("join(list)", join(G->list, '/')), OP("join(list32)", join(G->list32, U'\0')),
    { "trim(ws8)", [] { return trimmed<std::string>(G->ws8, trim<char>); } }, { "trimWhiteSpace(ws8)", [] { return trimmed<std::string>(G->ws8, trimWhiteSpace); } }, { "trimWhiteSpace(ws16)", [] { return trimmed<std::u16string>(G->ws16, trimWhiteSpace); } }, { "trimWhiteSpace(ws32)", [] { return trimmed<std::u32string>(G->ws32, trimWhiteSpace); } }, { "trimAscii7WhiteSpace(ws8)", [] { return trimmed<std::string>(G->ws8, trimAscii7WhiteSpace); } }, { "trimWhiteSpace(long8)", [] { return trimmed<std::string>(G->long8, trimWhiteSpace); } },
    { "validIf(assigned)(...)", [] { std::string r; for (uint32_t c : { 0x20u, 0x378u, 0xe000u, 0xffffu, 0x1f600u, 0x110000u, 0x10ffffu }) r += ser(lib([&] { return G->combo((char32_t)c); })) + ser(lib([&] { return G->noWs((char16_t)c); })); return r; } },
    { "predicate copies", predCopies }, { "decodeUtf8(a8)", [] { return decodeAll(G->a8); } }, { "decodeUtf8(tail8)", [] { return decodeAll(G->tail8); } }, { "decodeUtf8(split8)", [] { return decodeAll(G->split8); } }, { "decodeUtf8(bad8)", [] { return decodeAll(G->bad8); } },
    OP("getUnicodeVersionSupported", getUnicodeVersionSupported()),
    OP("isUtf8(buf=ok)", isUtf8(in8("\xc3\xa9" "ab"))), OP("isUtf8(buf=bad)", isUtf8(in8("\xc3(ab"))), OP("toUcs4(buf=1)", toUcs4(in8("xyz\xc3\xa9"))), OP("toUcs4(buf=2)", toUcs4(in8("xYz\xc3\x89"))), OP("toUcs4(buf=3)", toUcs4(in8("xYz\xc3Z"))), OP("toUtf16(buf=2)", toUtf16(in8("xYz\xc3\x89"))), OP("unicodeLength(buf=1)", unicodeLength(in8("xyz\xc3\xa9"))), OP("unicodeLength(buf=3)", unicodeLength(in8("xYz\xc3Z"))), OP("toUcs2(buf=2)", toUcs2(in8("xYz\xc3\x89"))),
    OP("toLower(a32,buf=tr)", toLower(G->a32, in8("tr"))), OP("toLower(a32,buf=tq)", toLower(G->a32, in8("tq"))), OP("toLower(a32,buf=az)", toLower(G->a32, in8("az"))), OP("toLower(a32,buf=azz)", toLower(G->a32, in8("azz"))),
    OP("isUtf16(buf=ok)", isUtf16(in16(u"x\u00e9\U0001f600q"))), OP("isUtf16(buf=bad)", isUtf16(in16(u"x\xdc00\xd83dzq"))), OP("toUtf8(buf16=1)", toUtf8(in16(u"x\u00e9\U0001f600q"))), OP("toUtf8(buf16=2)", toUtf8(in16(u"x\u00c9\U00010400q"))), OP("toUcs4(buf16=1)", toUcs4(in16(u"x\u00e9\U0001f600q"))), OP("toUcs4(buf16=2)", toUcs4(in16(u"x\u00e9\xd83dzq"))), OP("isUcs2(buf=ok)", isUcs2(in16(u"xyz"))), OP("isUcs2(buf=bad)", isUcs2(in16(u"x\xd83dz"))), OP("unicodeLength(buf16=1)", unicodeLength(in16(u"x\u00e9\U0001f600q"))), OP("unicodeLength(buf16=2)", unicodeLength(in16(u"xyzwq"))),
    OP("isUcs4(buf=ok)", isUcs4(in32(U"x\u00e9\U0001f600q"), kUnicode)), OP("isUcs4(buf=bad)", isUcs4(in32(U"x\u00e9\x110000q"), kUnicode)), OP("toUtf8(buf32=1)", toUtf8(in32(U"x\u00e9\U0001f600q"))), OP("toUtf8(buf32=2)", toUtf8(in32(U"x\u00c9\xd800q"))), OP("toUtf16(buf32=1)", toUtf16(in32(U"x\u00e9\U0001f600q"))), OP("toUtf16(buf32=2)", toUtf16(in32(U"x\u00c9\U00010400q"))), OP("toUcs2(buf32=1)", toUcs2(in32(U"xyz"))), OP("toUcs2(buf32=2)", toUcs2(in32(U"xYz"))),
    OP("toUtf8(buf,1252)", toUtf8(in8("\x80\x9a"), kSrcCP1252)), OP("toUtf8(buf,1250)", toUtf8(in8("\x80\xb9"), kSrcCP1250)), OP("toUtf8(buf=2,1250)", toUtf8(in8("\x8a\xb9"), kSrcCP1250)), OP("isUtf8(buf,3)", isUtf8(in8("ab\xc3\xa9"), 3u)), OP("isUtf8(buf=2,3)", isUtf8(in8("ab\xff\xa9"), 3u)), OP("unicodeLength(buf,3)", unicodeLength(in8("ab\xc3\xa9"), 3)), OP("unicodeLength(buf=2,3)", unicodeLength(in8("abcd"), 3)),
    OP("isUtf8(like)", isUtf8(like8("one \xc3\xa9 1"))), OP("isUtf8(like,bad)", isUtf8(like8("two \xa9\xa9 2"))), OP("isUtf8(like,kAscii)", isUtf8(like8("one \xc3\xa9 1"), kAscii)), OP("isUtf8(like,noWs)", isUtf8(like8("one \xc3\xa9 1"), G->noWs)), OP("toUcs4(like=1)", toUcs4(like8("one \xc3\xa9 1"))), OP("toUcs4(like=2)", toUcs4(like8("two \xc3\x89 2"))), OP("toUcs4(like=bad)", toUcs4(like8("two \xa9\xa9 2"))), OP("toUtf16(like=1)", toUtf16(like8("one \xc3\xa9 1"))), OP("toUtf16(like=2)", toUtf16(like8("two \xc3\x89 2"))), OP("toLower(like=1)", toLower(like8("ONE \xc3\xa9 1"))), OP("toLower(like=2)", toLower(like8("TWO \xc3\x89 I"))), OP("toLower(like=2,tr)", toLower(like8("TWO \xc3\x89 I"), "tr")), OP("unicodeLength(like=1)", unicodeLength(like8("one \xc3\xa9 1"))), OP("unicodeLength(like=2)", unicodeLength(like8("two e\xcc 2"))), OP("unicodeLength(like=3)", unicodeLength(like8("three 33"))),
    OP("toUtf8(like16=1)", toUtf8(like16(u"one"))), OP("toUtf8(like16=2)", toUtf8(like16(u"t\u0416o"))), OP("toLower(like16=1)", toLower(like16(u"ONI"))), OP("toLower(like16=1,az)", toLower(like16(u"ONI"), "az")), OP("toLower(like16=2)", toLower(like16(u"T\u0416O"))), OP("isUtf16(like)", isUtf16(like16(u"one"), G->assigned)), OP("isUtf16(like=2)", isUtf16(like16(u"o\u0378e"), G->assigned)), OP("isUcs2(like)", isUcs2(like16(u"\U0001f600."))), OP("toUcs4(like16)", toUcs4(like16(u"\U0001f600."))),
    OP("toUtf8(like32=1)", toUtf8(like32(U"one"))), OP("toUtf8(like32=2)", toUtf8(like32(U"t\u0416o"))), OP("toUtf16(like32=1)", toUtf16(like32(U"one"))), OP("toUtf16(like32=2)", toUtf16(like32(U"t\U00010416o"))), OP("toLower(like32=1)", toLower(like32(U"ONI"))), OP("toLower(like32=1,tt)", toLower(like32(U"ONI"), "tt")), OP("toLower(like32=2)", toLower(like32(U"T\u0416O"))), OP("isUcs4(like)", isUcs4(like32(U"one"), kUcs2)), OP("isUcs4(like=2)", isUcs4(like32(U"o\U00010416e"), kUcs2)),
    OP("toWstring(like)", toWstring(like8("one \xc3\xa9 1"))), OP("toWstring(like=2)", toWstring(like8("two \xc3\x89 2"))), OP("toUtf8(badw)", toUtf8(G->badw)), OP("split(like,e)", split(like8("one"), 'e')), OP("split(like=2,e)", split(like8("two"), 'e')), OP("split(like,t)", split(like8("two"), 't')), OP("split(empty)", split(std::string(), ',')), OP("join(list,-)", join(G->list, '-')), OP("join(empty)", join(std::vector<std::string>(), ',')), OP("join(split)", join(split(G->csv, ','), ';')),
    { "trim(set a)", [] { std::string v = like8("x"); lib([&] { trim(v, std::string("et\xac\x82\xe2")); return 0; }); return ser(v); } }, { "trim(set b)", [] { std::string v = like8("x"); lib([&] { trim(v, std::string("th ")); return 0; }); return ser(v); } }, { "trim(all blank)", [] { std::string v = "   "; lib([&] { trim(v); return 0; }); return ser(v); } }, { "trimWhiteSpace(all blank)", [] { std::string v = " \xe3\x80\x80\t"; lib([&] { trimWhiteSpace(v); return 0; }); return ser(v); } }, { "trim(u32)", [] { std::u32string v = U"  \u3000x  "; lib([&] { trim(v); return 0; }); return ser(v); } },
    OP("validIf(private)(x)", validIf(kIsPrivate)(U'\ue000')), OP("validIf(private)(y)", validIf(kIsPrivate)(U'y')), OP("validIfNot(private)(x)", validIfNot(kIsPrivate)(U'\ue000')), OP("validIf(control)(x)", validIf(kIsControl)('\x09')), OP("validIf(whitespace)(x)", validIf(kIsWhitespace)('\x09')), OP("validIf(unknown)(x)", validIf((EncodingType)9)('\x09')), OP("none(x)", EncodingCheckPredicate()(U'x')), OP("assigned(0x378)", G->assigned(U'\u0378')), OP("assigned(0x377)", G->assigned(U'\u0377')), OP("combo(0x1f600)", G->combo(U'\U0001f600')), OP("combo(0x09)", G->combo('\x09')), OP("isUtf8(null)", isUtf8((const char*)nullptr)), OP("toUcs4(null)", toUcs4((const char*)nullptr)), OP("toUtf16(empty)", toUtf16(std::string())), OP("unicodeLength(null)", unicodeLength((const char16_t*)nullptr)),
};
const int count = sizeof table / sizeof table[0];
bool versioned(int op)
{
    const char* n = table[op].name;
    for (auto k : { "tables:", "toLower(long", "toLower(a32,kk)", "assigned", "combo", "noWs", "predicate copies" }) if (strstr(n, k)) return true;
    return false;
}
bool heavy(int op) { return strstr(table[op].name, "huge") || strstr(table[op].name, "tables"); }
// ---- many arguments: all strings of up to 4 of 8 tokens, bare and between a common beginning and end -------------
const int members = 1 + 8 + 64 + 512 + 4096, variants = 2;
template <typename S> static S nth(const S* tok, int i)
{
    int len = 0, n = 1; while (i >= n) { i -= n; n *= 8; ++len; }
    S s; for (int k = 0; k < len; ++k) { s += tok[i % 8]; i /= 8; }
    return s;
}
static std::string m8(int v, int i) { static const std::string t[8] = { "A", "B", "a", "b", "\xc3\x89", "\xc3\xa9", "\xf0\x90\x90\x80", "\xff" }; std::string s = nth(t, i); return v ? "a common beginning " + s + " and a common end" : s; }
static std::u16string m16(int v, int i) { static const std::u16string t[8] = { u"A", u"B", u"a", u"b", u"\u00c9", u"\u0189", u"\U00010400", std::u16string(1, 0xd801) }; std::u16string s = nth(t, i); return v ? u"a common beginning " + s + u" and a common end" : s; }
static std::u32string m32(int v, int i) { static const std::u32string t[8] = { U"A", U"B", U"a", U"b", U"\u00c9", U"\u0189", U"\U00010400", std::u32string(1, 0x110041) }; std::u32string s = nth(t, i); return v ? U"a common beginning " + s + U" and a common end" : s; }
static std::string mcp(int v, int i) { static const std::string t[8] = { "A", "B", "a", "b", "\x80", "\x9a", "\xe9", "\x81" }; std::string s = nth(t, i); return v ? "a common beginning " + s + " and a common end" : s; }
static std::string mlang(int i) { static const std::string t[8] = { "t", "r", "a", "z", "k", "e", "u", "A" }; return nth(t, i); }
// the i-th of a cycle of k*k cases in which every one of k follows every other
static int after(int k, int i) { for (int a = 0; a < k; ++a) { int len = 1 + 2 * (k - 1 - a); if (i < len) return i == 0 || i & 1 ? a : a + i / 2; i -= len; } return 0; }
struct Fam { const char* name; std::string (*fn)(int, int); };
#define FAM(n, decl, e) { n, [](int v, int i) -> std::string { decl; return ser(lib([&] { return e; })); } }
static const Fam fams[] = {
    FAM("isUtf8", auto s = m8(v, i), isUtf8(s)), FAM("isUtf8 ascii", auto s = m8(v, i), isUtf8(s, kAscii)), FAM("isUtf8 predicate", auto s = m8(v, i), isUtf8(s, G->noWs)), FAM("isUtf8 n", auto s = m8(v, i), isUtf8(s.c_str(), (unsigned)s.size())),
    FAM("toUcs4(utf8)", auto s = m8(v, i), toUcs4(s)), FAM("toUtf16(utf8)", auto s = m8(v, i), toUtf16(s)), FAM("toUcs2(utf8)", auto s = m8(v, i), toUcs2(s)), FAM("toLower(utf8)", auto s = m8(v, i), toLower(s)), FAM("toLower(utf8,tr)", auto s = m8(v, i), toLower(s, "tr")), FAM("unicodeLength(utf8)", auto s = m8(v, i), unicodeLength(s)), FAM("unicodeLength(utf8,n)", auto s = m8(v, i), unicodeLength(s.c_str(), (unsigned)s.size())), FAM("toWstring", auto s = m8(v, i), toWstring(s)),
    FAM("isUtf16", auto s = m16(v, i), isUtf16(s)), FAM("isUcs2", auto s = m16(v, i), isUcs2(s)), FAM("toUtf8(utf16)", auto s = m16(v, i), toUtf8(s)), FAM("toUcs4(utf16)", auto s = m16(v, i), toUcs4(s)), FAM("toLower(utf16)", auto s = m16(v, i), toLower(s)), FAM("unicodeLength(utf16)", auto s = m16(v, i), unicodeLength(s)),
    FAM("isUcs4", auto s = m32(v, i), isUcs4(s, kUnicode)), FAM("isUcs4 ucs2", auto s = m32(v, i), isUcs4(s, kUcs2)), FAM("toUtf8(ucs4)", auto s = m32(v, i), toUtf8(s)), FAM("toUtf16(ucs4)", auto s = m32(v, i), toUtf16(s)), FAM("toUcs2(ucs4)", auto s = m32(v, i), toUcs2(s)), FAM("toLower(ucs4)", auto s = m32(v, i), toLower(s)),
    FAM("toUtf8(1252)", auto s = mcp(v, i), toUtf8(s.c_str(), kSrcCP1252)), FAM("toUtf8(1250)", auto s = mcp(v, i), toUtf8(s.c_str(), kSrcCP1250)), FAM("toLower(x,language)", auto s = mlang(i), v ? toLower(G->a8, s.c_str()).size() ? toUcs4(toLower(G->a8, s.c_str())) : std::u32string() : toLower(std::u32string(U"I\u0130"), s.c_str())),
    FAM("split", auto s = m8(v, i), split(s, 'A')), FAM("join", auto s = split(m8(v, i), 'B'), join(s, ';')),
    { "trim", [](int v, int i) { std::string s = m8(v, i); lib([&] { trim(s, std::string("Aab ")); return 0; }); return ser(s); } }, { "trim set", [](int v, int i) { std::string s = v ? "BABabba" : "abcdAB\xff", t = m8(0, i); lib([&] { trim(s, t); return 0; }); return ser(s); } }, { "trimWhiteSpace", [](int v, int i) { std::string s = " " + m8(v, i) + "\xe3\x80\x80"; lib([&] { trimWhiteSpace(s); return 0; }); return ser(s); } },
    { "predicate", [](int v, int i) { char32_t c = v ? i * 61 : i; return ser(lib([&] { return G->assigned(c); })) + ser(lib([&] { return G->combo(c); })) + ser(lib([&] { return G->noWs(c); })); } },
    { "character to lower", [](int v, int i) { char32_t c = v ? 0x1000 + i * 27 : i; if (!c || (c >= 0xd800 && c < 0xe000)) c = 1; return ser(lib([&] { return toLower(std::u32string(1, c)); })); } },
    { "decodeUtf8", [](int v, int i) { return decodeAll(m8(v, i)); } },
    { "sizes", [](int v, int i) {
        static const int more[44] = { 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 700, 900, 1000, 1023, 1024, 1025, 1100, 1300, 1500, 2000, 2047, 2048, 2049, 2500, 3000, 4000, 4095, 4096, 4097, 5000, 6000, 7000, 8000, 8191, 8192, 8193, 10000, 12000, 14000, 16000, 16383, 16384, 16385, 20000 };
        int n = i / 24 < 151 ? i / 24 : more[(i / 24 - 151) % 44];
        static const char32_t k[2][7] = { { U'A', U'b', U',', U'I', U' ', U'z', U'Q' }, { 0xc9, U'I', 0x3a9, U' ', 0x20ac, 0x10400, U',' } };
        std::u32string t; for (int j = 0; j < n; ++j) t += k[v][(j * 5 + j / 9 + n) % 7];
        std::string a = own8(t); std::u16string b = own16(t);
        switch (i % 24)
        {
        case 0: return ser(lib([&] { return isUtf8(a); })); case 1: return ser(lib([&] { return isUtf8(a, G->combo); })); case 2: return ser(lib([&] { return toUcs4(a); }));
        case 3: return ser(lib([&] { return toUtf16(a); })); case 4: return ser(lib([&] { return toUcs2(a); })); case 5: return ser(lib([&] { return toLower(a); }));
        case 6: return ser(lib([&] { return toLower(a, "tr"); })); case 7: return ser(lib([&] { return unicodeLength(a); })); case 8: return ser(lib([&] { return isUtf16(b); }));
        case 9: return ser(lib([&] { return toUtf8(b); })); case 10: return ser(lib([&] { return toUcs4(b); })); case 11: return ser(lib([&] { return toLower(b); }));
        case 12: return ser(lib([&] { return isUcs4(t, kUnicode); })); case 13: return ser(lib([&] { return toUtf8(t); })); case 14: return ser(lib([&] { return toUtf16(t); }));
        case 15: return ser(lib([&] { return toLower(t); })); case 16: return ser(lib([&] { return toUtf8(a.c_str(), v ? kSrcUnicode : kSrcCP1252); })); case 17: return ser(lib([&] { return toUtf8(a.c_str(), v ? kSrcUnicode : kSrcCP1250); }));
        case 18: return ser(lib([&] { return split(a, ','); })); case 19: { auto l = split(a, ' '); return ser(lib([&] { return join(l, ';'); })); }
        case 20: lib([&] { trim(a, std::string("A, I")); return 0; }); return ser(a); case 21: lib([&] { trimWhiteSpace(a); return 0; }); return ser(a);
        case 22: return ser(lib([&] { return toWstring(a); })); default: return ser(lib([&] { return isUtf8(a.c_str(), (unsigned)a.size()); }));
        } } },
    // in order, the members of the following call every one of k cases after every other
    { "predicates one after another", [](int v, int i) {
        static const uint32_t near[24] = { 0x20ac, 0x120ac, 0x220ac, 0x41, 0x141, 0x10041, 0x100041, 0x80000041, 0x20, 0x120, 0x10020, 0x85, 0x10085, 0x378, 0x10378, 0x178, 0xe000, 0x1e000, 0xf000, 0xf0000, 0x3000, 0x13000, 0xffff, 0x110000 };
        int p = v ? i / 576 % 16 : after(16, i % 256); char32_t c = v ? near[after(24, i % 576)] : near[i / 256 % 24];
        EncodingCheckPredicate q = p & 4 ? validIf((EncodingType)(1 + p % 4)) : validIfNot((EncodingType)(1 + p % 4));
        if (p >= 8) q.andIfNot((EncodingType)(1 + (p + 1) % 4));
        return ser(lib([&] { return q(c); })) + ser(lib([&] { return q((char16_t)c); })) + ser(lib([&] { return q((char)c); })); } },
    { "characters to lower one after another", [](int v, int i) {
        char32_t c = 0; int k = after(68, i % 4624); static const uint32_t base[17] = { 0x41, 0x49, 0xc9, 0x130, 0x131, 0x391, 0x3a3, 0x410, 0x10a0, 0x13a0, 0x1e9e, 0x2126, 0x2c00, 0xa640, 0xff21, 0x69, 0x7f }, add[4] = { 0, 0x100, 0x10000, 0x400 };
        c = base[k % 17] + add[k / 17];
        return ser(lib([&] { return toLower(std::u32string(1, c), v ? "tr" : nullptr); })); } },
    { "languages one after another", [](int v, int i) {
        static const char* l[22] = { nullptr, "", "tr", "tur", "az", "aze", "azb", "azj", "kk", "kaz", "tt", "tat", "en", "TR", "t", "trx", "tu", "azz", "kz", "ta", "tr-TR", "turk" };
        const char* q = l[after(22, i % 484)]; char b[16];
        if (q && v) { strcpy(b, q); q = b; }
        switch (i / 484 % 3) { case 0: return ser(lib([&] { return toLower(G->a8, q); })); case 1: return ser(lib([&] { return toLower(G->a16, q); })); default: return ser(lib([&] { return toLower(G->a32, q); })); } } },
    { "ranges one after another", [](int v, int i) {
        int k = after(66, i % 4356); RangeType r = (RangeType)(k % 6);
        static const char* a[11] = { "A", "A\xc3\xa9", "A\xe2\x82\xac", "A\xf0\x9f\x98\x80", "A\xf4\x90\x80\x80", "A\xfd\xbf\xbf\xbf\xbf\xbf", "A\xff", "A\xc3", "A\xed\xa0\xbd\xed\xb8\x80", "A\xed\xa0\xbd", "" };
        static const char32_t* b[11] = { U"A", U"A\u00e9", U"A\u20ac", U"A\U0001f600", U"A\x110000", U"A\x7fffffff", U"A\x80000000", U"A\xd800", U"A\xdc00", U"A\x10ffff", U"" };
        if (v) { const char32_t* p = in32(b[k / 6]); return ser(lib([&] { return isUcs4(p, r); })); }
        const char* p = in8(a[k / 6]); return ser(lib([&] { return isUtf8(p, r); })); } },
    { "lengths one after another", [](int v, int i) {
        int k = after(60, i % 3600); unsigned n = 1 + k % 10;
        static const char* a[6] = { "A\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80\xe2\x82\xac\xc3\xa9""A", "ABCDEFGHIJ", "A\xed\xa0\xbd\xed\xb8\x80\xffxx", "AB\xff""DEFGHIJ", "A\xc3\xa9\xe2\x82\xacxyzt" };
        const char* p = in8(a[k / 10]);
        return v ? ser(lib([&] { return isUtf8(p, n); })) : ser(lib([&] { return unicodeLength(p, n); })); } },
};
const int families = sizeof fams / sizeof fams[0];
const char* familyName(int f) { return fams[f].name; }
std::string member(int f, int v, int i) { return fams[f].fn(v, i); }
}
