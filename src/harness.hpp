// Exploration harness: case bookkeeping, guard-page buffers, crash/hang
// capture, replay, sharding.  One process explores one shard.
#pragma once
#include "model.hpp"
#include "string.hxx"
#include "internal/string_decode_utf8.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include <exception>
#include <functional>
#include <initializer_list>

namespace hx {

struct In {
    int width;                    // 8, 16, 32
    const std::string* b;
    const std::u16string* w;
    const std::u32string* d;
    long a[4];
    mutable int patience;         // more watchdog ticks for a slow case
};
typedef void (*Fn)(const In&);

struct Kind { const char* name; int width; Fn fn; };
extern std::vector<Kind> kinds;
int reg(const char* name, int width, Fn fn);

extern bool thorough;
extern int shard, nshards;
extern int version;                       // Unicode version of this build
extern model::Ucd ucd;
extern uint64_t states, calls;
extern std::string dataDir, selfProp;
extern bool replaying;

// run one case
void run(int kind, const std::string& s, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0);
void run(int kind, const std::u16string& s, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0);
void run(int kind, const std::u32string& s, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0);

// report: never returns (a shard ends at its first violation)
[[noreturn]] void fail(const char* what, const std::string& got, const std::string& want);
// a listed defect: counted, first instance kept; the runner compares the key with known_findings.txt
void known(const char* key, const std::string& detail);

std::string show(const std::string&);
std::string show(const std::u16string&);
std::string show(const std::u32string&);
std::string show(const std::wstring&);
std::string show(unsigned long v);
inline std::string show(bool v) { return v ? "true" : "false"; }
inline std::string show(unsigned v) { return show((unsigned long)v); }
inline std::string show(int v) { return show((unsigned long)v); }
template <typename C> std::string show(const std::vector<std::basic_string<C>>& v)
{
    std::string r = "[";
    for (auto& s : v) r += show(s) + ";";
    return r + "]";
}

// every comparison of an implementation result with the model's prediction
template <typename T, typename U>
inline void eq(const char* what, const T& got, const U& want)
{
    ++calls;
    if (__builtin_expect(!(got == want), 0)) fail(what, show(got), show(want));
}
inline void holds(const char* what, bool ok, const std::string& got = "", const std::string& want = "")
{
    ++calls;
    if (__builtin_expect(!ok, 0)) fail(what, got, want);
}

// Buffers ending (or starting) exactly at an inaccessible page, filled through one mapping and handed out
// through a second, read-only one.
class Guard {
    unsigned char* base; const unsigned char* ro; size_t cap;
    template <typename C> const C* out(C* p) const { return reinterpret_cast<const C*>(ro + (reinterpret_cast<unsigned char*>(p) - base)); }
public:
    explicit Guard(size_t bytes = 1 << 20);
    // NUL-terminated copy whose terminator is the last accessible unit
    template <typename C> const C* z(const C* s, size_t n)
    {
        C* p = reinterpret_cast<C*>(base + cap) - (n + 1);
        std::memcpy(p, s, n * sizeof(C)); p[n] = 0; return out(p);
    }
    template <typename C> const C* z(const std::basic_string<C>& s) { return z(s.data(), s.size()); }
    // exactly n units, nothing readable after them
    template <typename C> const C* raw(const C* s, size_t n)
    {
        C* p = reinterpret_cast<C*>(base + cap) - n;
        std::memcpy(p, s, n * sizeof(C)); return out(p);
    }
    // NUL-terminated copy whose first unit is the first accessible one
    template <typename C> const C* left(const std::basic_string<C>& s)
    {
        C* p = reinterpret_cast<C*>(base);
        std::memcpy(p, s.data(), s.size() * sizeof(C)); p[s.size()] = 0; return out(p);
    }
};
extern Guard& guard;
extern Guard& guard2;

// shard a coarse-grained work item
inline bool mine(uint64_t item) { return (int)(item % (unsigned)nshards) == shard; }

void progress();             // tells the watchdog a long case is getting on
void armWatchdog();          // timers are not inherited by fork()
void sample(const std::string& s);
void note(const std::string& key, uint64_t n);   // extra measured counters

}

// supplied by each property driver
void registerKinds();
void explore();
