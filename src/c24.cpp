// C24: concurrent calls.  The library and the operations are compiled with the compiler's thread
// instrumentation, but linked with the run time below: it runs real threads one at a time, takes the
// scheduling decisions, and checks every access with vector clocks.
//  - a program is a list of operations per thread (plus a prelude run before the threads start);
//  - scheduling points are the synchronisation operations (atomics, locks, once, static guards), thread
//    starts and ends; every schedule up to a preemption bound is executed, each in a fresh process;
//  - an access that conflicts with another thread's and is not ordered by synchronisation is a violation
//    (so scheduling at synchronisation operations loses no behaviour);
//  - every result must be what the operation returns alone; a deadlock is a violation.
#include "harness.hpp"
#include "ops.hpp"
#include <cerrno>
#include <new>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <ctime>
#include <set>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hx;

enum { MAXT = 4, MAXCH = 4000 };
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { Clk w[MAXT], r[MAXT], wa[MAXT], ra[MAXT]; };

// ---- shared with the parent ------------------------------------------------------
struct Choice { uint8_t enabled, chosen, cur, forced; };
struct Shared { uint64_t accesses, syncs, globalWrites, nch, truncated; Choice ch[MAXCH]; };
static Shared* sh;

// ---- per execution -----------------------------------------------------------------
static bool running;                    // inside the concurrent phase
static __thread int me = -1;            // thread index, -1: controller
static __thread uintptr_t stackLo, stackHi;
static __thread char scratchBuf[256];
static __thread bool muted;             // inside the run time or a wrapped function
static __thread bool outside;           // between the library calls of a batch
static int nthreads; static int cur;
static sem_t sems[MAXT]; static sem_t mainSem;
static bool finished[MAXT]; static const void* blockedOn[MAXT];
static VC vc[MAXT], relFence[MAXT], acqPend[MAXT];
static std::unordered_map<uintptr_t, Cell>* shadow;
static std::unordered_map<uintptr_t, VC>* syncVC;
struct Lock { int owner; int depth; int readers[MAXT]; };
static std::unordered_map<uintptr_t, Lock>* locks;
static std::map<uintptr_t, size_t>* heap;       // live blocks allocated by the threads
static std::vector<uint8_t> prefix; static size_t pos; static uint64_t run_len; static uint64_t totalSync;
static const char* curOp[MAXT];
static char* scr() { return scratchBuf; }

struct Mute { bool was; Mute() : was(muted) { muted = true; } ~Mute() { muted = was; } };

static bool enabledT(int t)
{
    if (finished[t]) return false;
    if (!blockedOn[t]) return true;
    auto l = locks->find((uintptr_t)blockedOn[t]);
    if (l == locks->end() || l->second.owner < 0) { if (l != locks->end()) for (int k = 0; k < MAXT; ++k) if (k != t && l->second.readers[k]) return false; return true; }
    return l->second.owner == t;
}
static int decide(bool canStay, bool yielding)
{
    int en = 0, n = 0;
    for (int t = 0; t < nthreads; ++t) if (enabledT(t) && !(yielding && t == cur)) { en |= 1 << t; ++n; }
    if (!n && yielding && enabledT(cur)) return cur;
    if (!n) return -1;
    if (n == 1) { for (int t = 0; t < nthreads; ++t) if (en >> t & 1) return t; }
    bool stay = canStay && !yielding && (en >> cur & 1);
    int pick;
    if (pos < prefix.size()) pick = prefix[pos];
    else if (stay) pick = cur;
    else { pick = 0; while (!(en >> pick & 1)) ++pick; }
    if (!(en >> pick & 1)) { pick = 0; while (!(en >> pick & 1)) ++pick; }
    ++pos;
    if (sh->nch < MAXCH) sh->ch[sh->nch++] = { (uint8_t)en, (uint8_t)pick, (uint8_t)cur, (uint8_t)(stay ? 0 : 1) };
    else sh->truncated = 1;
    return pick;
}
static void handOver(int next)
{
    int self = me;
    if (next == self) return;
    run_len = 0; cur = next;
    sem_post(&sems[next]);
    while (sem_wait(&sems[self]) != 0) {}
}
static std::string opNames() { std::string r; for (int t = 0; t < nthreads; ++t) r += std::string(t ? " | " : "") + (curOp[t] ? curOp[t] : "-"); return r; }
static void schedPoint(bool yielding = false)
{
    if (!running || me < 0) return;
    ++sh->syncs;
    if (++totalSync > 2000000) fail(opNames().c_str(), "does not end", "an end");
    if (++run_len > 300) { yielding = true; run_len = 0; }     // fairness: a spinning thread lets the others go on
    int n = decide(true, yielding);
    if (n < 0) fail(opNames().c_str(), "deadlock", "progress");
    handOver(n);
}
static void blockOn(const void* l)
{
    blockedOn[me] = l;
    int n = decide(false, false);
    if (n < 0) fail(opNames().c_str(), "deadlock", "progress");
    handOver(n);
    blockedOn[me] = nullptr;
}
static void access(const void* p, size_t n, bool wr, bool atomic)
{
    if (me < 0 || muted || outside || !running) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= stackLo && a < stackHi) return;
    Mute m;
    ++sh->accesses;
    if (wr)
    {
        auto h = heap->upper_bound(a);
        bool own = false; if (h != heap->begin()) { --h; own = a < h->first + h->second; }
        if (!own) ++sh->globalWrites;
    }
    int t = me;
    for (size_t i = 0; i < n; ++i)
    {
        Cell& c = (*shadow)[a + i];
        for (int u = 0; u < nthreads; ++u)
        {
            if (u == t) continue;
            Clk k = vc[t].c[u];
            bool bad = c.w[u] > k || (!atomic && c.wa[u] > k) || (wr && (c.r[u] > k || (!atomic && c.ra[u] > k)));
            if (bad) fail("conflicting unsynchronised accesses", opNames() + (wr ? " (write)" : " (read)") + " of " + std::to_string(n) + " bytes", "none");
        }
        Clk k = vc[t].c[t];
        if (atomic) (wr ? c.wa : c.ra)[t] = k; else (wr ? c.w : c.r)[t] = k;
    }
}
static void tick() { ++vc[me].c[me]; }
static void acquire(uintptr_t a) { auto i = syncVC->find(a); if (i != syncVC->end()) vc[me].join(i->second); }
static void release(uintptr_t a) { (*syncVC)[a].join(vc[me]); tick(); }
static bool live() { return running && me >= 0 && !muted && !outside; }
static bool tracked() { return running && me >= 0 && !muted; }

// ---- heap -------------------------------------------------------------------------------
static void forget(uintptr_t a, size_t n)
{
    if (n > 65536) { for (auto i = shadow->begin(); i != shadow->end();) { if (i->first >= a && i->first < a + n) i = shadow->erase(i); else ++i; } return; }
    for (size_t i = 0; i < n; ++i) shadow->erase(a + i);
}
static void* alloc(size_t n)
{
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (tracked()) { Mute m; forget((uintptr_t)p, n); (*heap)[(uintptr_t)p] = n; }
    return p;
}
static void dealloc(void* p) noexcept
{
    if (p && tracked()) { auto h = heap->find((uintptr_t)p); if (h != heap->end()) { access(p, h->second, true, false); Mute m; forget((uintptr_t)p, h->second); heap->erase(h); } }
    free(p);
}
void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, std::size_t) noexcept { dealloc(p); }
void operator delete[](void* p, std::size_t) noexcept { dealloc(p); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, false); } void __tsan_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }

enum { RLX, CONSUME, ACQ, REL, ACQ_REL, SC };
static bool isAcq(int m) { return m == ACQ || m == CONSUME || m == ACQ_REL || m == SC; }
static bool isRel(int m) { return m == REL || m == ACQ_REL || m == SC; }
static void loadHB(const volatile void* a, int mo)
{
    uintptr_t k = (uintptr_t)a; auto i = syncVC->find(k);
    if (i == syncVC->end()) return;
    if (isAcq(mo)) vc[me].join(i->second); else acqPend[me].join(i->second);
}
static void storeHB(const volatile void* a, int mo, bool rmw)
{
    VC& s = (*syncVC)[(uintptr_t)a];
    if (!rmw) s = VC();
    if (isRel(mo)) { s.join(vc[me]); tick(); } else s.join(relFence[me]);
}
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { if (live()) { schedPoint(); access((const void*)a, sizeof(T), false, true); Mute m; loadHB(a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { if (live()) { schedPoint(); access((const void*)a, sizeof(T), true, true); Mute m; storeHB(a, mo, false); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
static void rmw##N(volatile T* a, int mo) { if (live()) { schedPoint(); access((const void*)a, sizeof(T), true, true); Mute m; loadHB(a, mo); storeHB(a, mo, true); } } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { rmw##N(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (live()) { schedPoint(); Mute m; bool ok = __atomic_load_n(a, __ATOMIC_SEQ_CST) == *c; muted = false; access((const void*)a, sizeof(T), ok, true); muted = true; loadHB(a, ok ? mo : fmo); if (ok) storeHB(a, mo, true); } \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (live()) { schedPoint(); if (isAcq(mo)) vc[me].join(acqPend[me]); if (isRel(mo)) { relFence[me] = vc[me]; tick(); } } }
void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented code
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*); char* __real_strcpy(char*, const char*); char* __real_strchr(const char*, int); int __real_strncmp(const char*, const char*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, false); access(d, n, true, false); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, false); access(d, n, true, false); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (live()) access(d, n, true, false); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (live()) { access(a, n, false, false); access(b, n, false, false); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (live()) access(a, r ? (char*)r - (char*)a + 1 : n, false, false); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (live()) access(s, n + 1, false, false); return n; }
int __wrap_strcmp(const char* a, const char* b) { if (live()) { access(a, __real_strlen(a) + 1, false, false); access(b, __real_strlen(b) + 1, false, false); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (live()) { access(a, strnlen(a, n), false, false); access(b, strnlen(b, n), false, false); } return __real_strncmp(a, b, n); }
char* __wrap_strcpy(char* d, const char* s) { if (live()) { size_t n = __real_strlen(s) + 1; access(s, n, false, false); access(d, n, true, false); } return __real_strcpy(d, s); }
char* __wrap_strchr(const char* s, int c) { if (live()) access(s, __real_strlen(s) + 1, false, false); return __real_strchr(s, c); }

// locks
static Lock& lk(const void* m) { auto i = locks->find((uintptr_t)m); if (i == locks->end()) { Lock l; l.owner = -1; l.depth = 0; memset(l.readers, 0, sizeof l.readers); i = locks->emplace((uintptr_t)m, l).first; } return i->second; }
static void doLock(const void* m, bool recursive)
{
    Mute q; schedPoint();
    Lock* l = &lk(m);
    if (l->owner == me && recursive) { ++l->depth; return; }
    for (;;)
    {
        bool busy = l->owner >= 0;
        for (int k = 0; k < MAXT; ++k) if (l->readers[k]) busy = true;
        if (!busy) break;
        blockOn(m); l = &lk(m);
        if (l->owner == me) fail(opNames().c_str(), "deadlock (locking twice)", "progress");
    }
    l->owner = me; l->depth = 1; acquire((uintptr_t)m);
}
static void doUnlock(const void* m)
{
    Mute q; schedPoint();
    Lock& l = lk(m);
    if (l.owner == me) { if (--l.depth == 0) { release((uintptr_t)m); l.owner = -1; } }
    else if (l.readers[me]) { --l.readers[me]; release((uintptr_t)m); }
}
static bool isRec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!live()) return __real_pthread_mutex_lock(m); doLock(m, isRec(m)); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!live()) return __real_pthread_mutex_unlock(m); doUnlock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!live()) return __real_pthread_mutex_trylock(m);
    { Mute q; schedPoint(); Lock& l = lk(m); if (l.owner >= 0 && !(l.owner == me && isRec(m))) return EBUSY; if (l.owner == me) ++l.depth; else { l.owner = me; l.depth = 1; acquire((uintptr_t)m); } }
    return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!live()) return __real_pthread_rwlock_wrlock(m); doLock(m, false); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!live()) return __real_pthread_rwlock_rdlock(m);
    Mute q; schedPoint();
    while (lk(m).owner >= 0) blockOn(m);
    ++lk(m).readers[me]; acquire((uintptr_t)m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!live()) return __real_pthread_rwlock_unlock(m); doUnlock(m); return 0; }
int __real_pthread_spin_lock(pthread_spinlock_t*); int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (!live()) return __real_pthread_spin_lock(m); doLock((void*)m, false); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { if (!live()) return __real_pthread_spin_unlock(m); doUnlock((void*)m); return 0; }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if (!live()) return __real_pthread_once(o, f);
    doLock(o, false);
    if (*(volatile int*)o != 2) { f(); *(volatile int*)o = 2; }
    doUnlock(o);
    return 0;
}
int __real_sched_yield();
int __wrap_sched_yield() { if (!live()) return __real_sched_yield(); { Mute q; schedPoint(true); } return 0; }
// static initialisation
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    if (!live()) return __real___cxa_guard_acquire(g);
    doLock(g, false);
    if (*(volatile char*)g) { doUnlock(g); return 0; }
    return 1;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (!live()) { __real___cxa_guard_release(g); return; }
    *(volatile char*)g = 1;
    { Mute m; (*syncVC)[(uintptr_t)g].join(vc[me]); }
    doUnlock(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) { if (!live()) { __real___cxa_guard_abort(g); return; } doUnlock(g); }
}

// ---- executing a program under a schedule ------------------------------------------------------
static int KP;
static std::vector<std::string> base; static std::string argsBase;
struct Prog { std::vector<int> prelude; std::vector<std::vector<int>> th; };
static Prog prog;
// batches: the operations of the threads are members of a family (one function on many generated arguments)
static int batchFam = -1, batchVar; static std::map<int, std::string>* expected; static int expectedFam = -1, expectedVar;
static char batchOp[MAXT][100];
static void inLib() { outside = false; }
static void outOfLib() { if (batchFam >= 0) outside = true; }
static void expect(const std::vector<int>& ix)     // what each returns alone
{
    expected = new std::map<int, std::string>; expectedFam = batchFam; expectedVar = batchVar;
    int fd[2]; if (pipe(fd)) _exit(2);
    fflush(nullptr);
    pid_t p = fork();
    if (!p)
    {
        for (int i : ix) { std::string r; try { r = ops::member(batchFam, batchVar, i); } catch (...) { r = "exception"; } r += '\n'; size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; } }
        _exit(0);
    }
    close(fd[1]); std::string all; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) all.append(b, n);
    close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    size_t at = 0; for (int i : ix) { size_t e = all.find('\n', at); if (e == std::string::npos) { fprintf(stderr, "members\n"); _exit(3); } (*expected)[i] = all.substr(at, e - at); at = e + 1; }
}
static std::vector<int> membersOf(const Prog& p) { std::set<int> s(p.prelude.begin(), p.prelude.end()); for (auto& t : p.th) s.insert(t.begin(), t.end()); return std::vector<int>(s.begin(), s.end()); }
static std::string call(int op) { return batchFam >= 0 ? ops::member(batchFam, batchVar, op) : ops::table[op].fn(); }
static const std::string& want(int op) { return batchFam >= 0 ? (*expected)[op] : base[op]; }
static void* threadMain(void* arg)
{
    int t = (int)(intptr_t)arg;
    muted = true;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz);
    stackLo = (uintptr_t)lo; stackHi = stackLo + sz; pthread_attr_destroy(&at);
    me = t;
    sem_post(&mainSem);
    while (sem_wait(&sems[t]) != 0) {}
    for (int op : prog.th[t])
    {
        if (batchFam >= 0) { snprintf(batchOp[t], sizeof batchOp[t], "%s of argument %d/%d", ops::familyName(batchFam), batchVar, op); curOp[t] = batchOp[t]; if (!(op & 31)) progress(); }
        else curOp[t] = ops::table[op].name;
        std::string* r = new std::string;
        outside = batchFam >= 0;
        // only the operation itself is monitored; its result is compared by the run time
        try { muted = false; { std::string x = call(op); muted = true; *r = x; muted = false; } muted = true; }
        catch (const std::exception& e) { muted = true; fail(curOp[t], std::string("exception ") + e.what(), "no exception"); }
        outside = false;
        if (*r != want(op)) fail(curOp[t], r->substr(0, 200) + " in parallel with " + opNames(), want(op).substr(0, 200) + " (as alone)");
        ++calls;
        delete r;
    }
    finished[t] = true;
    int n = decide(false, false);
    if (n < 0)
    {
        for (int u = 0; u < nthreads; ++u) if (!finished[u]) fail(opNames().c_str(), "deadlock", "progress");
        sem_post(&mainSem);
    }
    else { run_len = 0; cur = n; sem_post(&sems[n]); }
    for (;;) pause();
    return nullptr;
}
static void parseProg(const std::u16string& s)
{
    // prelude, FFFD, thread ops separated by FFFF, FFFE, choices
    prog = Prog(); prefix.clear();
    size_t i = 0;
    for (; i < s.size() && s[i] != 0xfffd; ++i) prog.prelude.push_back(s[i]);
    ++i; prog.th.emplace_back();
    for (; i < s.size() && s[i] != 0xfffe; ++i) { if (s[i] == 0xffff) prog.th.emplace_back(); else prog.th.back().push_back(s[i]); }
    for (++i; i < s.size(); ++i) prefix.push_back((uint8_t)s[i]);
}
static void execute(const In& in)
{
    parseProg(*in.w);
    batchFam = (int)in.a[0] - 1; batchVar = (int)in.a[1];
    if (batchFam >= ops::families) return;
    if (batchFam >= 0 && (!expected || expectedFam != batchFam || expectedVar != batchVar)) expect(membersOf(prog));
    for (int op : prog.prelude) { std::string r = call(op); if (r != want(op)) fail(batchFam >= 0 ? ops::familyName(batchFam) : ops::table[op].name, r.substr(0, 200), want(op).substr(0, 200)); }
    nthreads = (int)prog.th.size();
    shadow = new std::unordered_map<uintptr_t, Cell>; syncVC = new std::unordered_map<uintptr_t, VC>; locks = new std::unordered_map<uintptr_t, Lock>; heap = new std::map<uintptr_t, size_t>;
    sem_init(&mainSem, 0, 0);
    sh->nch = 0; sh->truncated = 0; pos = 0;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    for (int t = 0; t < nthreads; ++t)
    {
        sem_init(&sems[t], 0, 0); finished[t] = false; blockedOn[t] = nullptr; vc[t] = VC(); vc[t].c[t] = 1;
        pthread_t p; if (pthread_create(&p, &at, threadMain, (void*)(intptr_t)t)) { perror("pthread_create"); _exit(3); }
        while (sem_wait(&mainSem) != 0) {}
    }
    cur = 0; running = true;
    int first = decide(false, false);
    cur = first;
    sem_post(&sems[first]);
    while (sem_wait(&mainSem) != 0) {}
    running = false;
    if (ops::args() != argsBase) fail("arguments shared by the calls", "changed", "unchanged");
    ++calls;
}
static bool inChild(const std::u16string& enc)
{
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (!p) { armWatchdog(); run(KP, enc, batchFam + 1, batchVar); _exit(0); }
    int s = 0;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(s) && WEXITSTATUS(s) == 0) return true;
    if (WIFEXITED(s)) _exit(WEXITSTATUS(s));        // the verdict is written
    fprintf(stderr, "execution died of signal %d\n", WTERMSIG(s)); _exit(3);
}
static uint64_t nSched, nAcc, nSync, nCapped, nProg, nWrites, nJudged;
static std::u16string encode(const std::vector<int>& pre, const std::vector<std::vector<int>>& th)
{
    std::u16string e; for (int o : pre) e.push_back((char16_t)o);
    e.push_back(0xfffd);
    for (size_t t = 0; t < th.size(); ++t) { if (t) e.push_back(0xffff); for (int o : th[t]) e.push_back((char16_t)o); }
    e.push_back(0xfffe);
    return e;
}
// every schedule with at most `bound` preemptions; returns whether the program synchronised or wrote shared memory
static bool exploreProg(const std::vector<int>& pre, const std::vector<std::vector<int>>& th, int bound, uint64_t cap)
{
    std::u16string enc = encode(pre, th);
    ++nProg;
    std::vector<Choice> path; std::vector<uint8_t> tried;      // tried: bitmask per choice
    bool active = false; uint64_t n = 0;
    std::u16string e = enc;
    for (;;)
    {
        sh->accesses = sh->syncs = sh->globalWrites = 0;
        inChild(e);
        ++n; ++nSched; nAcc += sh->accesses; nSync += sh->syncs; nWrites += sh->globalWrites; for (auto& t : th) nJudged += t.size();
        if (sh->syncs || sh->globalWrites) active = true;
        if (sh->truncated) { ++nCapped; return active; }
        size_t keep = tried.size();
        path.assign(sh->ch, sh->ch + sh->nch);
        if (keep > path.size()) keep = path.size();
        tried.resize(keep);
        for (size_t i = keep; i < path.size(); ++i) tried.push_back((uint8_t)(1u << path[i].chosen));
        if (n >= cap) { ++nCapped; return active; }
        // deepest choice with an untried alternative within the bound
        bool found = false;
        while (!path.empty() && !found)
        {
            size_t i = path.size() - 1;
            int used = 0; for (size_t k = 0; k < i; ++k) if (!path[k].forced && path[k].chosen != path[k].cur) ++used;
            for (int t = 0; t < MAXT && !found; ++t)
            {
                if (!(path[i].enabled >> t & 1) || (tried[i] >> t & 1)) continue;
                if (!path[i].forced && t != path[i].cur && used >= bound) continue;
                tried[i] |= 1u << t; path[i].chosen = (uint8_t)t; found = true;
            }
            if (!found) { path.pop_back(); tried.pop_back(); }
        }
        if (!found) return active;
        e = enc; for (auto& c : path) e.push_back(c.chosen);
    }
}
static bool use(int op) { return version == 16 || ops::versioned(op); }
void registerKinds()
{
    KP = reg("program", 16, execute);
    ops::scratch = scr; ops::enter = inLib; ops::leave = outOfLib;
    ops::init();
    base.resize(ops::count);
    for (int i = 0; i <= ops::count; ++i)
    {
        if (i < ops::count && !use(i)) continue;
        int fd[2]; if (pipe(fd)) _exit(2);
        pid_t p = fork();
        if (!p)
        {
            std::string r; try { r = i < ops::count ? ops::table[i].fn() : ops::args(); } catch (...) { r = "exception"; }
            size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
            _exit(0);
        }
        std::string& b = i < ops::count ? base[i] : argsBase;
        close(fd[1]); char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, n);
        int s; waitpid(p, &s, 0); close(fd[0]);
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline; static uint64_t nSkipped;
static void prog1(const std::vector<int>& pre, const std::vector<std::vector<int>>& th, int bound, uint64_t cap)
{
    if (now() > deadline) { ++nSkipped; return; }
    exploreProg(pre, th, bound, cap);
}
void explore()
{
    int bound = thorough ? 3 : 2; uint64_t cap = thorough ? 20000 : 60;
    double t0 = now(), unit = version == 16 ? (thorough ? 1800 : 30) : (thorough ? 200 : 8); int N = ops::count;
    std::vector<int> all; for (int a = 0; a < N; ++a) if (use(a)) all.push_back(a);
    uint64_t item = 0;
    // profile (in every shard): which calls synchronise or write memory that is not their own
    std::vector<int> d, q;
    for (int a : all) (exploreProg({}, { { a }, { a } }, 0, 1) ? d : q).push_back(a);
    nSched = nAcc = nSync = nWrites = nJudged = nProg = nCapped = 0;
    // every call against itself, and warm
    deadline = t0 + unit;
    for (int a : all) { if (!mine(item++)) continue; prog1({}, { { a }, { a } }, bound, cap); prog1({ a }, { { a }, { a } }, bound, cap); if (a < 6) sample(std::string(ops::table[a].name) + " | itself: all schedules"); }
    // each function on many arguments: all of them on one thread, then all on another without an ordering between the two
    deadline = now() + 2 * unit; uint64_t batches = 0, active = 0;
    for (int fam = 0; fam < ops::families; ++fam) for (int v = 0; v < ops::variants; ++v)
    {
        const char* name = ops::familyName(fam);
        if (version != 16 && !thorough && strncmp(name, "char", 4) && strncmp(name, "pred", 4)) continue;
        int step = thorough ? 1 : version != 16 ? 9 : (v && strcmp(name, "sizes")) ? 5 : 1, chunk = strcmp(name, "sizes") ? 512 * step : 96;
        for (int lo = 0; lo < ops::members; lo += chunk)
        {
            if (!mine(item++)) continue;
            if (now() > deadline) { ++nSkipped; continue; }
            std::vector<int> m; for (int i = lo; i < lo + chunk && i < ops::members; i += step) m.push_back(i);
            batchFam = fam; batchVar = v; expect(m);
            ++batches;
            uint64_t capped = nCapped;
            if (!exploreProg({}, { m, m }, 0, 1)) nCapped = capped;     // nothing shared: any order is equivalent
            else
            {
                // some of them share something: schedules of single calls, the first few that do
                std::vector<int> s; ++active;
                for (int i : m) { if (now() > deadline || s.size() >= (thorough ? 8 : 3)) break; if (exploreProg({}, { { i }, { i } }, 0, 1)) s.push_back(i); }
                for (int i : s) for (int k : s) { if (now() > deadline) break; exploreProg({}, { { i }, { k } }, bound, thorough ? 400 : 20); exploreProg({ i }, { { i }, { k } }, bound, thorough ? 400 : 20); }
            }
            delete expected; expected = nullptr; batchFam = -1;
        }
    }
    // every pair; calls with shared state first.  A call without any commutes with everything.
    deadline = now() + unit;
    for (size_t i = 0; i < d.size(); ++i) for (size_t k = i + 1; k < d.size(); ++k) { if (!mine(item++)) continue; prog1({}, { { d[i] }, { d[k] } }, bound, cap); }
    deadline = now() + unit;
    for (int a : all) for (int b : all)
    {
        if (b <= a) continue;
        bool da = std::find(d.begin(), d.end(), a) != d.end(), db = std::find(d.begin(), d.end(), b) != d.end();
        if (da && db) continue;
        // long calls that share nothing are paired with one in six of the others that share nothing
        if (!thorough && !da && !db && (ops::heavy(a) || ops::heavy(b)) && (a + b) % 6) continue;
        if (!mine(item++)) continue;
        prog1({}, { { a }, { b } }, da || db ? 1 : bound, da || db ? 4 : cap);
    }
    // three threads, and two calls per thread
    for (size_t i = 0; i < all.size(); i += thorough ? 1 : 3) { if (!mine(item++)) continue; int a = all[i], b = all[(i + 1) % all.size()], c = all[(i + 7) % all.size()]; prog1({}, { { a }, { b }, { a } }, bound, cap); prog1({}, { { a, c }, { c, a } }, bound, cap); }
    if (!d.empty())
    {
        // longer programs and warm starts over the calls concerned
        deadline = now() + unit;
        for (int p : d) for (int a : d) { if (!mine(item++)) continue; prog1({ p }, { { a }, { a } }, bound, cap); if (p != a) prog1({ p }, { { a }, { p } }, bound, cap); }
        deadline = now() + unit;
        for (int a : d) for (int b : d) { if (!mine(item++)) continue; prog1({}, { { a, b }, { b, a } }, bound, cap); prog1({}, { { a }, { b }, { a } }, bound, cap); }
    }
    states = nSched; model::steps = nAcc + nSync; calls = nJudged;
    note("programs", nProg); note("schedules", nSched); note("monitored_accesses", nAcc); note("synchronisation_points", nSync); note("writes_outside_own_memory", nWrites); note("programs_capped", nCapped);
    note("programs_skipped_for_time", nSkipped); note("calls_with_shared_state", shard ? 0 : d.size());
    note("argument_batches", batches); note("argument_batches_with_shared_state", active);
    note("preemption_bound", shard || version != 16 ? 0 : bound);
}
