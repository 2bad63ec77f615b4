// C16: Turkic lower-casing is selected by exactly the ten codes
#include "common.hpp"
static int KL, KC, KT;
static const char* CODES[] = { "az", "aze", "azb", "azj", "kk", "kaz", "tt", "tat", "tr", "tur" };
static const char* OTHER[] = { nullptr, "", "en", "TR", "tr-TR", "t", "turk", "az_AZ", "de" };
static bool turkic(const s8& l) { for (auto c : CODES) if (l == c) return true; return false; }
static uint32_t tl(uint32_t c, uint32_t dflt) { return c == 0x49 ? 0x131 : c == 0x130 ? 0x69 : dflt; }
static const s32 PROBE = U"I\u0130";
static s32 DEF;
static void fl(const In& in)    // a language code
{
    const s8& l = *in.b;
    const char* z = guard.z(l);
    static const s32 TUR = U"\u0131i";
    ++steps;
    eq("toLower(\"I\\u0130\", lang)", toLower(PROBE, z), turkic(l) ? TUR : DEF);
    if (in.a[0])
    {
        // every encoding, nothing else changed
        s32 s = U"AI\u0130\u0131iZ\u00c0\u00cc\u00cd\u0128\u012a\u012c\u012e\u0132\u0406\u0407\u1f38\u1d35\u2160\uff29\U00010400\U0001f600J\u0049", d = toLower(s), w;
        for (size_t i = 0; i < s.size(); ++i) w.push_back(turkic(l) ? tl(s[i], d[i]) : d[i]);
        eq("toLower(ucs4,lang)", toLower(s, z), w);
        eq("toLower(utf8,lang)", toLower(enc8(s), z), enc8(w));
        eq("toLower(utf16,lang)", toLower(enc16(s), z), enc16(w));
    }
}
static void fc(const In& in)    // every code point with a code
{
    const s32& s = *in.d;
    bool t = in.a[0] < 10;
    const char* lang = t ? CODES[in.a[0]] : OTHER[in.a[0] - 10];
    s32 d = toLower(s), w;
    ++steps;
    for (size_t i = 0; i < s.size(); ++i) w.push_back(t ? tl(s[i], d[i]) : d[i]);
    eq("toLower(ucs4,lang)", toLower(s, lang), w);
    if (in.a[1] && s[0] && !isSur(s[0]) && s[0] <= 0x10ffff) { eq("toLower(utf8,lang)", toLower(enc8(s), lang), enc8(w)); eq("toLower(utf16,lang)", toLower(enc16(s), lang), enc16(w)); }
}
void registerKinds() { KL = reg("lang", 8, fl); KC = reg("codepoint", 32, fc); DEF = toLower(PROBE); }
void explore()
{
    bool main = version == 16;
    if (main)
    {
        auto f = [](const s8& s) { run(KL, s); };
        auto full = [](const s8& s) { run(KL, s, 1); };
        if (mine(0)) full("");
        gen::allBytes(1, full); gen::allBytes(2, full); gen::allBytes(3, f);
        std::vector<s8> ab; for (char c : s8("abejkrtuzgsAZKTRJEBU-_ ;1\xc1\xf4\x01")) ab.push_back(s8(1, c));
        gen::tree(ab, thorough ? 5 : 4, f);
        // language tags and locale names: up to four words and the separators between them
        std::vector<s8> words, seps = { "-", "_", ".", "@", ",", ";", ":", "=", " ", "" };
        for (auto c : CODES) words.push_back(c);
        for (auto w : { "TR", "AZ", "KZ", "RU", "Tr", "Latn", "Cyrl", "Arab", "UTF-8", "utf8", "euro", "u", "x", "t", "co", "en", "und", "i", "C", "POSIX", "ISO-8859-9", "CP1254", "lower", "q", "1", "0.8", "*", "Turkish", "Turkey", "default" }) words.push_back(w);
        uint64_t item = 0;
        for (auto& a : words) for (auto& x : seps) for (auto& b : words)
        {
            if (!mine(item++)) continue;
            s8 p = a + x + b; f(p);
            for (auto& y : seps) for (auto& c : words)
            {
                f(p + y + c);
                if (thorough || (turkic(a) && x != "" && y != "")) for (auto& z : seps) { if (z == "" || z == " ") continue; for (auto& d : words) f(p + y + c + z + d); }
            }
        }
        item = 0;
        for (auto c : CODES)
        {
            if (!mine(item++)) continue;
            s8 k = c; full(k);
            for (int a = 1; a < 256; ++a)
            {
                full(k + (char)a); full((char)a + k);
                for (int b = 1; b < 256; ++b) { f(k + (char)a + (char)b); f((char)a + k + (char)b); f(s8(1, (char)a) + (char)b + k); }
                s8 m = k; for (size_t i = 0; i < k.size(); ++i) { s8 n = k; n[i] = (char)a; full(n); n = k; n.insert(i, 1, (char)a); full(n); }
            }
            for (auto e : { "-TR", "_TR", "-Latn", "-Cyrl-KZ", ".UTF-8", "kish", "kic", "-x-private", " ", "\t" }) { full(k + e); }
            for (auto d : CODES) { full(k + d); full(k + "-" + d); full(k + "," + d); }
            for (int n = 1; n <= 520; ++n) { f(k + s8(n, 'x')); f(k + s8(n, '\xff')); f(s8(n, ' ') + k); }
            for (int n : { 1021, 1022, 1023, 1024, 4094, 4096, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 131072 }) { f(k + s8(n, 'x')); f(k + s8(n, 'z')); f(s8(n, 'x') + k); }
            for (size_t i = 1; i < k.size(); ++i) { full(k.substr(0, i)); full(k.substr(i)); }
        }
    }
    for (long l = 0; l < 19; ++l)
    {
        bool deep = main || thorough;
        gen::sweep(0, 0x10ffff, [&](uint32_t c) {
            if (!deep && l != 0 && l != 9 && l != 12 && c > 0x600 && (c & 0xff) != 0x49 && (c & 0xff) != 0x30) return;
            run(KC, s32(1, c), l, c < 0x3000 || (c & 0xff) == 0x49);
        });
        if (mine(l)) for (uint32_t b = 0; b < 0x1100; ++b) { s32 s; for (uint32_t c = b << 8; c < (b + 1) << 8; ++c) s.push_back(c); run(KC, s, l, 0); }
        if (mine(l)) for (int i = 0; i < 40; ++i) for (auto x : { U"I", U"\u0130", U"i", U"\u0131" })
        {
            s32 s(i, U'A'); s += x; s += s32(U"\u00c0I"); run(KC, s, l, 1);
        }
        gen::bigValues([&](uint32_t c) { if (deep || l == 0) run(KC, s32(1, c), l, 0); }, true);
    }
}
