// C23: purity over histories.  The state of the library is everything it can write: the writable
// segments and thread-local block of the shared object it is linked into, and the heap blocks it keeps.
// Transitions are the operations of the table.  Depth-first exploration with fork() as save/restore:
//  - reduced: from every distinct state reached, every operation (iterative deepening to a fixpoint or
//    to the transition cap); - unreduced: every sequence a b a b (thorough: every a b c) regardless of hashes;
//  - long: every operation repeated, and all in turn, many times.
// Only a wrong result or a changed argument is a violation; a changed state is not.
#include "harness.hpp"
#include "ops.hpp"
#include <new>
#include <cerrno>
#include <ctime>
#include <clocale>
#include <locale>
#include <malloc.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hx;

// ---- heap blocks allocated inside library calls -------------------------------
struct Blk { Blk *next, *prev; size_t size; size_t lib; };
static Blk head = { &head, &head, 0, 0 };
static bool inLib;
static void* alloc(std::size_t n)
{
    Blk* b = (Blk*)malloc(sizeof(Blk) + n);
    if (!b) throw std::bad_alloc();
    b->size = n; b->lib = inLib;
    if (inLib) { b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b; }
    return b + 1;
}
static void release(void* p) noexcept
{
    if (!p) return;
    Blk* b = (Blk*)p - 1;
    if (b->lib) { b->next->prev = b->prev; b->prev->next = b->next; }
    free(b);
}
void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
static void on() { inLib = true; }
static void off() { inLib = false; }

// ---- library state ----------------------------------------------------------------
struct Seg { const unsigned char* p; size_t n; };
static std::vector<Seg> segs;
static int findSegs(struct dl_phdr_info* i, size_t, void*)
{
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libut")) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        const ElfW(Phdr)& h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) segs.push_back({ (const unsigned char*)i->dlpi_addr + h.p_vaddr, h.p_memsz });
        if (h.p_type == PT_TLS && i->dlpi_tls_data) segs.push_back({ (const unsigned char*)i->dlpi_tls_data, h.p_memsz });
    }
    return 0;
}
static uint64_t fnv(uint64_t h, const void* p, size_t n)
{
    const unsigned char* b = (const unsigned char*)p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, b + i, 8); h = (h ^ w) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    for (; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
static uint64_t stateHash()
{
    uint64_t h = 1469598103934665603ull;
    segs.clear(); dl_iterate_phdr(findSegs, nullptr);   // the thread-local block may appear late
    for (auto& s : segs) h = fnv(h, s.p, s.n);
    for (Blk* b = head.next; b != &head; b = b->next) { h = fnv(h, &b->size, sizeof b->size); h = fnv(h, b + 1, b->size); }
    return h ? h : 1;
}

// ---- one step -----------------------------------------------------------------------
static int KH, KM;
static std::vector<std::string> base; static std::string argsBase;
static char scratchBuf[256];
static char* scr() { return scratchBuf; }
enum { ENV = 5 };       // environment steps: errno, C locale, dirty heap, environment variables, C++ locale
static int total() { return ops::count + ENV; }
static bool use(int op) { return version == 16 || op >= ops::count || ops::versioned(op); }
static const char* nameOf(int op) { static const char* e[] = { "errno = ERANGE", "setlocale(C.UTF-8)", "dirty heap", "LANG=tr_TR.UTF-8", "std::locale::global(strange)" }; return op < ops::count ? ops::table[op].name : e[op - ops::count]; }
// a locale in which nothing is what it seems
struct Strange : std::ctype<char>
{
    static const mask* tab() { static mask t[256]; static bool once; if (!once) { once = true; for (int i = 0; i < 256; ++i) t[i] = i & 1 ? (mask)(space | upper) : (mask)(cntrl | punct); } return t; }
    Strange() : std::ctype<char>(tab()) {}
    char do_tolower(char c) const override { return c ^ 1; }
    char do_toupper(char c) const override { return c ^ 2; }
};
struct StrangeW : std::ctype<wchar_t>
{
    bool do_is(mask, wchar_t c) const override { return c & 1; }
    wchar_t do_tolower(wchar_t c) const override { return c ^ 1; }
    wchar_t do_toupper(wchar_t c) const override { return c ^ 2; }
};
__attribute__((noinline)) static void poison(unsigned char v) { volatile unsigned char b[12000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = v; }
static unsigned char pat = 0x5a;
static void step(int op, bool judge)
{
    if (op >= ops::count)
    {
        if (op == ops::count) errno = ERANGE;
        else if (op == ops::count + 1) setlocale(LC_ALL, "C.UTF-8");
        else if (op == ops::count + 3) { for (auto v : { "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "LC_MESSAGES" }) setenv(v, "tr_TR.UTF-8", 1); setenv("TZ", "Asia/Baku", 1); }
        else if (op == ops::count + 4) { static bool once; if (!once) { once = true; std::locale l(std::locale(), new Strange); l = std::locale(l, new StrangeW); std::locale::global(l); } }
        else { mallopt(M_PERTURB, 0x3c); std::vector<void*> v; for (int i = 1; i < 60; ++i) { void* p = malloc(i * 24); memset(p, 0xee, i * 24); v.push_back(p); } for (auto p : v) free(p); }
        return;
    }
    poison(pat); pat = pat * 5 + 3;
    std::string r = ops::table[op].fn();
    if (judge && r != base[op]) fail(ops::table[op].name, r.substr(0, 300), base[op].substr(0, 300) + " (as in a fresh process)");
}
// a whole history given as op indices; every step is judged
static void f(const In& in)
{
    long rep = in.a[0] ? in.a[0] : 1;
    for (long k = 0; k < rep; ++k, progress()) for (auto c : *in.w) { if ((int)c < total()) step(c, true); }
    ++calls;
    if (ops::args() != argsBase) fail("arguments shared by the calls", "changed", "unchanged");
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// ---- many arguments: each of ~4700 strings in turn, again in other orders, and again after every power of two of others ----
static std::vector<std::string>* mbase;
static void manyBase(int fam, int v)            // the result of each in a fresh process
{
    mbase->resize(ops::members);
    int fd[2]; if (pipe(fd)) _exit(2);
    fflush(nullptr);
    pid_t w = fork();
    if (!w)                                      // collector: one child per member, in order
    {
        close(fd[0]);
        for (int i = 0; i < ops::members; ++i)
        {
            pid_t p = fork();
            if (!p)
            {
                std::string r; try { r = ops::member(fam, v, i); } catch (...) { r = "exception"; }
                r += '\n'; size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
                _exit(0);
            }
            int s; waitpid(p, &s, 0); if (!WIFEXITED(s) && write(fd[1], "died\n", 5) < 0) _exit(1);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string all; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) all.append(b, n);
    close(fd[0]); int s; waitpid(w, &s, 0);
    size_t at = 0; for (auto& m : *mbase) { size_t e = all.find('\n', at); if (e == std::string::npos) { fprintf(stderr, "members\n"); _exit(2); } m = all.substr(at, e - at); at = e + 1; }
}
static void many(const In& in)
{
    int fam = (int)in.a[0], v = (int)in.a[1], N = ops::members;
    if (!mbase) { mbase = new std::vector<std::string>; manyBase(fam, v); }
    auto one = [&](int i) {
        std::string r = ops::member(fam, v, i); ++calls;
        if (r != (*mbase)[i]) fail((std::string(ops::familyName(fam)) + " of argument " + std::to_string(i) + " after others").c_str(), r.substr(0, 300), (*mbase)[i].substr(0, 300) + " (as in a fresh process)");
    };
    for (int i = 0; i < N; ++i) one(i);
    progress();
    for (int i = N; i-- > 0; ) { one(i); one(i); }
    progress();
    for (int st : { 7, 64, 257, 1000, 2048 }) { for (int k = 0; k < N; ++k) one((int)((long)k * st % N)); progress(); }
    // again after 1, 2, 4 ... others
    for (int i = 0; i < N; ++i) { one(i); for (int d = 1; d <= i && d < N; d *= 2) one(i - d); if (!(i & 255)) progress(); }
}
// ---- shared between the processes of one exploration ----------------------------------
struct Shared { uint64_t transitions, judged, states, capped, maxDepth, cap; struct { uint64_t h; uint32_t depth; } seen[1 << 16]; };
static Shared* sh;
static bool visit(uint64_t h, uint32_t remaining)      // true: (re-)expand
{
    for (size_t i = h & 0xffff, k = 0; k < 65536; ++k, i = (i + 1) & 0xffff)
    {
        if (sh->seen[i].h == 0) { sh->seen[i].h = h; sh->seen[i].depth = remaining; ++sh->states; return true; }
        if (sh->seen[i].h == h) { if (sh->seen[i].depth >= remaining) return false; sh->seen[i].depth = remaining; return true; }
    }
    sh->capped = 1; return false;
}
static std::u16string hist;
// run body in a child; a violation there has been written to the output file
template <typename B> static void child(B body)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (!p) { armWatchdog(); body(); _exit(0); }
    int s = 0;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(s) && WEXITSTATUS(s) == 0) return;
    if (WIFEXITED(s)) _exit(WEXITSTATUS(s));
    fail("history", "process died of signal " + std::to_string(WTERMSIG(s)), "no crash");
}
// judge one more operation with the history on record for the report
static void judged(int op)
{
    hist.push_back((char16_t)op);
    struct Cur { static void body(const In&) { step(hist.back(), true); } };
    static int k = -1; if (k < 0) { k = KH; }
    kinds[KH].fn = Cur::body; run(KH, hist); kinds[KH].fn = f;
    ++sh->judged; ++sh->transitions;
}
static void checkArgs() { struct C { static void body(const In&) { if (ops::args() != argsBase) fail("arguments shared by the calls", "changed", "unchanged"); } }; kinds[KH].fn = C::body; run(KH, hist); kinds[KH].fn = f; ++sh->judged; }
static void expand(int remaining, bool root)
{
    for (int b = 0; b < total(); ++b)
    {
        if (!use(b) || (root && !mine(b))) continue;
        if (sh->transitions >= sh->cap) { sh->capped = 1; return; }
        child([&] {
            judged(b);
            uint64_t h = stateHash();
            if (hist.size() > sh->maxDepth) sh->maxDepth = hist.size();
            if (visit(h, remaining - 1)) { if (remaining > 1) expand(remaining - 1, false); else sh->capped |= 2; }
            checkArgs();
        });
    }
}
void registerKinds()
{
    KH = reg("history", 16, f); KM = reg("many", 16, many);
    ops::scratch = scr;
    ops::init();
    base.resize(ops::count);
    // the result of each call in a fresh process (nothing but the construction of the arguments before it)
    for (int i = 0; i < ops::count; ++i)
    {
        if (!use(i)) continue;
        int fd[2]; if (pipe(fd)) _exit(2);
        pid_t p = fork();
        if (!p)
        {
            poison(0xa5);
            std::string r; try { r = ops::table[i].fn(); } catch (...) { r = "exception"; }
            size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
            _exit(0);
        }
        close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) base[i].append(b, n);
        int s; waitpid(p, &s, 0); close(fd[0]);
    }
    { int fd[2]; if (pipe(fd)) _exit(2); pid_t p = fork();
      if (!p) { std::string r = ops::args(); size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; } _exit(0); }
      close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) argsBase.append(b, n); int s; waitpid(p, &s, 0); close(fd[0]); }
    ops::enter = on; ops::leave = off;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void explore()
{
    sh->cap = thorough ? 400000 : 12000;
    // reduced exploration, iteratively deepened until no unexpanded state is left
    uint64_t h0 = stateHash(); size_t bytes = 0; for (auto& s : segs) bytes += s.n;
    if (segs.empty()) { fprintf(stderr, "library segments not found\n"); _exit(2); }
    if (mine(0)) note("library_state_bytes", bytes);
    for (int d = 1; d <= 64; ++d)
    {
        sh->capped = 0; memset(sh->seen, 0, sizeof sh->seen); sh->states = 0;
        visit(h0, d);
        expand(d, true);
        if (!(sh->capped & 2) || (sh->capped & 1)) break;
    }
    note("library_states", sh->states); note("shards_at_fixpoint", !sh->capped); note("reduced_transitions", sh->transitions);
    states += sh->states;
    // unreduced
    sh->cap = ~0ull;
    for (int a = 0; a < total(); ++a)
    {
        if (!use(a) || !mine(a)) continue;
        child([&] {
            judged(a);
            for (int b = 0; b < total(); ++b)
                if (use(b)) child([&] {
                    judged(b);
                    if (thorough) for (int c = 0; c < total(); ++c) if (use(c)) child([&] { judged(c); checkArgs(); ++sh->states; });
                    judged(a); judged(b); checkArgs(); ++sh->states;
                });
        });
        if (a < 12) sample(std::string("a = ") + nameOf(a) + "; every b: a b a b");
    }
    // long histories
    uint64_t item = 0;
    for (int a = 0; a < ops::count; ++a)
    {
        if (!use(a) || !mine(item++)) continue;
        double t0 = now();  child([&] { for (int k = 0; k < 20; ++k) ops::table[a].fn(); });
        double each = (now() - t0) / 20 + 1e-7;
        long n = (long)((thorough ? 4.0 : version == 16 ? 0.2 : 0.04) / each), most = thorough ? 1100000 : 140000; if (n > most) n = most; if (n < 70) n = 70;
        child([&] { run(KH, std::u16string(1, (char16_t)a), n); sh->judged += n; sh->transitions += n; ++sh->states; });
    }
    std::u16string all, rev; for (int a = 0; a < ops::count; ++a) if (use(a)) all.push_back((char16_t)a);
    rev.assign(all.rbegin(), all.rend());
    for (int k = 0; k < 8; ++k)
    {
        if (!mine(item++)) continue;
        std::u16string s = (k & 1) ? rev : all;
        for (int r = 0; r < k; ++r) { std::u16string t; size_t st = 2 * r + 3; for (size_t x = 0; x < s.size(); ++x) t.push_back(s[(x * st + r) % s.size()]); s = t; }
        long n = thorough ? 1000 : 20;
        child([&] { run(KH, s, n); sh->judged += n * s.size(); sh->transitions += n * s.size(); ++sh->states; });
    }
    // many different arguments
    for (int fam = 0; fam < ops::families; ++fam) for (int v = 0; v < ops::variants; ++v)
    {
        if (!mine(item++)) continue;
        if (version != 16 && strncmp(ops::familyName(fam), "char", 4) && strncmp(ops::familyName(fam), "pred", 4)) continue;
        mbase = new std::vector<std::string>; manyBase(fam, v);
        child([&] { run(KM, std::u16string(), fam, v); sh->judged += calls; sh->transitions += calls; ++sh->states; });
        delete mbase; mbase = nullptr;
    }
    states = sh->states; model::steps = sh->transitions; calls = sh->judged;
    note("operations", shard || version != 16 ? 0 : ops::count);
}
