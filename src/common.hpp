// Oracles shared by the drivers.
#pragma once
#include "gen.hpp"
using namespace hx; using namespace model; using namespace ansak;

static const RangeType RT[] = { kAscii, kUtf8, kUcs2, kUtf16, kUcs4, kUnicode };

// the re-encodings of a code point string
template <typename S> struct Enc;
template <> struct Enc<s8> { static s8 of(const s32& c) { return enc8(c); } };
template <> struct Enc<s16> { static s16 of(const s32& c) { return enc16(c); } };
template <> struct Enc<s32> { static s32 of(const s32& c) { return c; } };
template <> struct Enc<std::wstring> { static std::wstring of(const s32& c) { return std::wstring(c.begin(), c.end()); } };

// what a conversion may return: nothing for ill-formed or unrepresentable text, the whole
// re-encoding otherwise; a tail that could only be completed outside the range leaves both open
template <typename S> void conv(const char* what, const S& got, const Parse& p, int r)
{
    if (p.st == Bad || !p.allIn(r)) { eq(what, got, S()); return; }
    S want = Enc<S>::of(p.cps);
    if (p.st == Tail && p.tailMin > rangeMax(r) && got.empty()) { ++calls; return; }
    eq(what, got, want);
}
// as conv, but only "whole or nothing" (and nothing if ill-formed)
template <typename S> void wholeOrNothing(const char* what, const S& got, const Parse& p, int r)
{
    ++calls;
    if (got.empty()) return;
    if (p.st == Bad || !p.allIn(r)) fail(what, show(got), show(S()));
    eq(what, got, Enc<S>::of(p.cps));
}
inline std::wstring wide(const s32& s) { return std::wstring(s.begin(), s.end()); }
inline s32 narrow(const std::wstring& s) { return s32(s.begin(), s.end()); }
inline const wchar_t* wz(const s32& s) { return reinterpret_cast<const wchar_t*>(guard.z(s)); }
inline bool in(const s32& s, uint32_t m) { for (auto c : s) if (c > m) return false; return true; }
