// C25: allocation failure.  Every operation, every allocation it makes: that one fails (and, second
// pass, that one and all later ones).  Each schedule of failures runs in a fresh process image.
#include "harness.hpp"
#include "ops.hpp"
#include <new>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
static bool armed, sticky; static long countdown, seen; static long live; static bool fired;
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
static bool cFails() { if (!armed) return false; ++seen; if (countdown > 0 && --countdown == 0) { fired = true; if (sticky) countdown = 1; return true; } return false; }
// memory the library takes from the C allocator itself
extern "C" void* __wrap_malloc(size_t n) { if (cFails()) return nullptr; void* p = __real_malloc(n); if (p && armed) ++live; return p; }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (cFails()) return nullptr; void* p = __real_calloc(a, b); if (p && armed) ++live; return p; }
extern "C" void* __wrap_realloc(void* q, size_t n) { if (cFails()) return nullptr; void* p = __real_realloc(q, n); if (p && !q && armed) ++live; return p; }
extern "C" void __wrap_free(void* p) { if (p && armed) --live; __real_free(p); }
#define malloc __real_malloc
#define free __real_free
static void* alloc(std::size_t n)
{
    if (armed) { ++seen; if (countdown > 0 && --countdown == 0) { fired = true; if (sticky) countdown = 1; throw std::bad_alloc(); } }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++live;
    return p;
}
void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { --live; free(p); } }
static void on() { armed = true; }
static void off() { armed = false; }
static std::vector<std::string> base;
static std::string argsBase;
static int KA;
using namespace hx;
// outcome: "" ok, else what went wrong
static std::string attempt(int op, long k, bool st)
{
    countdown = k; sticky = st; fired = false; seen = 0;
    std::string why;
    try
    {
        std::string r = ops::table[op].fn();
        countdown = 0; sticky = false;
        if (r != base[op]) why = fired ? "wrong result after a failed allocation" : "wrong result";
    }
    catch (const std::bad_alloc&) { armed = false; countdown = 0; if (!fired) why = "std::bad_alloc without a failed allocation"; }
    catch (const std::exception& e) { armed = false; countdown = 0; why = std::string("another exception: ") + e.what(); }
    catch (...) { armed = false; countdown = 0; why = "another exception"; }
    countdown = 0; sticky = false; armed = false;
    return why;
}
static void f(const In& in)
{
    int op = (int)in.a[0]; long k = in.a[1]; bool st = in.a[2];
    std::string w = attempt(op, k, st);
    if (!w.empty()) fail(ops::table[op].name, w + " (allocation " + std::to_string(k) + ")", "std::bad_alloc, or the right result");
    ++calls; ++model::steps;
    if (ops::args() != argsBase) fail(ops::table[op].name, "arguments changed by the failed call", "unchanged");
    // afterwards everything works as usual: this operation and its neighbours
    for (int o : { op, (op + 1) % ops::count, (op + ops::count / 2) % ops::count }) { w = attempt(o, 0, false); ++calls; ++model::steps; if (!w.empty()) fail(ops::table[o].name, w + " after a failed call", "as usual"); }
    // nothing left behind: repeating the failure does not accumulate
    attempt(op, k, st); long l0 = live;
    for (int i = 0; i < 3; ++i) attempt(op, k, st);
    if (live > l0) fail(ops::table[op].name, std::to_string(live - l0) + " allocations leaked by three failed calls", "none");
    ++calls;
    for (int i = 0; i < 2; ++i) attempt(op, 0, false);
    l0 = live; for (int i = 0; i < 3; ++i) attempt(op, 0, false);
    if (live > l0) fail(ops::table[op].name, std::to_string(live - l0) + " allocations leaked by three calls", "none");
    ++calls;
}
void registerKinds()
{
    KA = reg("failure", 8, f);
    ops::init();
    // expected results come from a process that never saw a failure
    base.resize(ops::count);
    int fd[2]; if (pipe(fd)) _exit(2);
    pid_t p = fork();
    if (!p)
    {
        std::string out;
        for (int i = 0; i < ops::count; ++i) { std::string r; try { r = ops::table[i].fn(); } catch (...) { r = "exception"; } out += r; out += '\n'; }
        size_t o = 0; while (o < out.size()) { ssize_t n = write(fd[1], out.data() + o, out.size() - o); if (n <= 0) break; o += n; }
        _exit(0);
    }
    close(fd[1]); std::string all; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, n);
    waitpid(p, nullptr, 0); close(fd[0]);
    size_t at = 0; for (auto& s : base) { size_t e = all.find('\n', at); if (e == std::string::npos) break; s = all.substr(at, e - at); at = e + 1; }
    argsBase = ops::args();
    ops::enter = on; ops::leave = off;
}
// run one case in a child, so that it starts from the state of a fresh process
static bool isolated(int op, long k, long st)
{
    fflush(nullptr);
    pid_t p = fork();
    if (!p) { run(KA, std::string(), op, k, st); _exit(0); }
    int s = 0; waitpid(p, &s, 0);
    return WIFEXITED(s) && WEXITSTATUS(s) == 0;
}
void explore()
{
    uint64_t item = 0; uint64_t total = 0;
    for (int op = 0; op < ops::count; ++op)
    {
        if (!mine(item++)) continue;
        for (long st = 0; st < 2; ++st)
        {
            // count the allocations in a child too (first call in a fresh process), then fail each
            int fd[2]; if (pipe(fd)) _exit(2);
            pid_t p = fork();
            if (!p) { seen = 0; countdown = 0; try { ops::table[op].fn(); } catch (...) {} long c[2] = { seen, 0 }; seen = 0; try { ops::table[op].fn(); } catch (...) {} c[1] = seen; ssize_t w = write(fd[1], c, sizeof c); _exit(w == sizeof c ? 0 : 1); }
            long c[2] = { 0, 0 }; ssize_t n = read(fd[0], c, sizeof c); waitpid(p, nullptr, 0); close(fd[0]); close(fd[1]);
            if (n != sizeof c) { fprintf(stderr, "counting failed\n"); }
            long m = c[0] > c[1] ? c[0] : c[1];
            note("failure_points", (uint64_t)m); total += m;
            if (!st) sample(std::string(ops::table[op].name) + ": " + std::to_string(m) + " allocations");
            for (long k = 1; k <= m + 1; ++k)
            {
                if (isolated(op, k, st)) { ++states; model::steps += 8; calls += 7; continue; }
                // the child has written its verdict to the output file and may have crashed: repeat here
                run(KA, std::string(), op, k, st);
                fail(ops::table[op].name, "failed in a fresh process", "as usual");
            }
        }
    }
}
