#include "harness.hpp"
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <chrono>
#include <map>
#include <set>

namespace model { uint64_t steps = 0; }

namespace hx {

std::vector<Kind> kinds;
bool thorough = false, replaying = false;
int shard = 0, nshards = 1, version = 16;
model::Ucd ucd;
uint64_t states = 0, calls = 0;
std::string dataDir, selfProp;
static std::string outPath;
static std::vector<std::string> samples;
static std::map<std::string, uint64_t> notes;
static std::map<std::string, std::pair<uint64_t, std::string>> knowns;
static std::string firstCase, lastMid;
static uint64_t nextSample = 1;

static struct { int kind; const In* in; uint64_t seq; } cur = { -1, nullptr, 0 };

static Guard& mk() { static Guard* g = new Guard(96u << 20); return *g; }
static Guard& mk2() { static Guard* g = new Guard(96u << 20); return *g; }
Guard& guard = mk();
Guard& guard2 = mk2();

static unsigned char* fenced(size_t bytes, int prot, int flags, int fd)
{
    size_t pg = 4096;
    unsigned char* m = (unsigned char*)mmap(nullptr, bytes + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED || mmap(m + pg, bytes, prot, flags | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
    return m + pg;
}
Guard::Guard(size_t bytes) : base(nullptr), ro(nullptr), cap(bytes)
{
    int fd = memfd_create("guard", 0);
    if (fd >= 0 && ftruncate(fd, (off_t)bytes) == 0)
    {
        base = fenced(bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd);
        ro = fenced(bytes, PROT_READ, MAP_SHARED, fd);
    }
    else ro = base = fenced(bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1);
    if (fd >= 0) close(fd);
}

int reg(const char* name, int width, Fn fn) { kinds.push_back({ name, width, fn }); return (int)kinds.size() - 1; }

template <typename C> static std::string hex(const std::basic_string<C>& s, size_t lim)
{
    std::string r; char b[16];
    size_t n = s.size() < lim ? s.size() : lim;
    typedef typename std::conditional<sizeof(C) == 1, unsigned char, uint32_t>::type U;
    for (size_t i = 0; i < n; )
    {
        size_t k = i + 1;
        if (lim == ~size_t(0)) while (k < n && s[k] == s[i]) ++k;      // runs as value*count
        if (k - i < 4) k = i + 1;
        snprintf(b, sizeof b, "%s%x", i ? "," : "", (unsigned)(U)s[i]); r += b;
        if (k - i > 1) r += "*" + std::to_string(k - i);
        i = k;
    }
    if (n < s.size()) r += ",...(" + std::to_string(s.size()) + ")";
    return r;
}
std::string show(const std::string& s) { return "<" + hex(s, 40) + ">"; }
std::string show(const std::u16string& s) { return "<" + hex(s, 40) + ">"; }
std::string show(const std::u32string& s) { return "<" + hex(s, 40) + ">"; }
std::string show(const std::wstring& s) { return "<" + hex(s, 40) + ">"; }
std::string show(unsigned long v) { return std::to_string(v); }

static std::string caseText(size_t lim = ~size_t(0))
{
    if (cur.kind < 0 || !cur.in) return "kind=? units=";
    const In& in = *cur.in;
    std::string r = std::string("kind=") + kinds[cur.kind].name + " args=";
    for (int i = 0; i < 4; ++i) r += (i ? "," : "") + std::to_string(in.a[i]);
    r += " units=";
    r += in.width == 8 ? hex(*in.b, lim) : in.width == 16 ? hex(*in.w, lim) : hex(*in.d, lim);
    return r;
}
static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) r += '?'; else r += c; }
    return r + "\"";
}
static void writeOut(const std::string& status, const std::string& msg)
{
    std::string o = "{\"status\":" + js(status) + ",\"states\":" + std::to_string(states) +
        ",\"transitions\":" + std::to_string(model::steps) + ",\"calls\":" + std::to_string(calls) + ",\"samples\":[";
    if (!firstCase.empty()) samples.push_back(firstCase);
    for (size_t i = 0; i < samples.size(); ++i) o += (i ? "," : "") + js(samples[i]);
    o += "],\"notes\":{";
    bool f = true;
    for (auto& n : notes) { o += (f ? "" : ",") + js(n.first) + ":" + std::to_string(n.second); f = false; }
    o += "},\"known\":{";
    f = true;
    for (auto& k : knowns) { o += (f ? "" : ",") + js(k.first) + ":[" + std::to_string(k.second.first) + "," + js(k.second.second) + "]"; f = false; }
    o += "},\"message\":" + js(msg) + ",\"case\":" + js(status == "violation" ? caseText() : "") + ",\"version\":" + std::to_string(version) + "}\n";
    int fd = open(outPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { size_t off = 0; while (off < o.size()) { ssize_t k = write(fd, o.data() + off, o.size() - off); if (k <= 0) break; off += k; } close(fd); }
}

[[noreturn]] static void die(const std::string& msg)
{
    writeOut("violation", msg);
    if (replaying) printf("reproduced: %s\n  %s\n", msg.c_str(), caseText(200).c_str());
    fflush(stdout);
    _exit(1);
}
void fail(const char* what, const std::string& got, const std::string& want)
{
    die(std::string(what) + ": got " + got + " expected " + want);
}
void known(const char* key, const std::string& detail)
{
    auto& k = knowns[key];
    if (!k.first++) k.second = detail + " [" + caseText(60) + "]";
}
void sample(const std::string& s) { if (samples.size() < 12) samples.push_back(s); }
void note(const std::string& key, uint64_t n) { notes[key] += n; }

static void invoke(int kind, const In& in)
{
    cur.kind = kind; cur.in = &in; ++cur.seq; ++states;
    if (__builtin_expect(states == nextSample, 0)) { sample(caseText(24)); nextSample = nextSample * 17 + 5; }
    try { kinds[kind].fn(in); }
    catch (const std::exception& e) { fail("the call threw an exception", e.what(), "no exception"); }
    catch (...) { fail("the call threw an exception", "unknown", "no exception"); }
    cur.in = nullptr;
}
void run(int k, const std::string& s, long a0, long a1, long a2, long a3) { In i{ 8, &s, nullptr, nullptr, { a0, a1, a2, a3 }, 0 }; invoke(k, i); }
void run(int k, const std::u16string& s, long a0, long a1, long a2, long a3) { In i{ 16, nullptr, &s, nullptr, { a0, a1, a2, a3 }, 0 }; invoke(k, i); }
void run(int k, const std::u32string& s, long a0, long a1, long a2, long a3) { In i{ 32, nullptr, nullptr, &s, { a0, a1, a2, a3 }, 0 }; invoke(k, i); }

static void onCrash(int sig, siginfo_t*, void*)
{
    static volatile int once = 0;
    if (once++) _exit(3);
    const char* n = sig == SIGSEGV ? "memory access outside the argument (SIGSEGV)" : sig == SIGBUS ? "SIGBUS" :
                    sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "illegal instruction / trap" : "signal";
    if (cur.kind < 0 || !cur.in)
    {
        // every library call made before the first case works on the unchanged tree
        if (!outPath.empty()) die(std::string("a library call made while preparing the cases crashed: ") + n);
        _exit(3);
    }
    die(std::string("the call crashed: ") + n);
}
static void onTick(int)
{
    static uint64_t last = ~0ull; static int same = 0;
    int allowed = 3;
    if (cur.in)     // long inputs get longer
    {
        const In& in = *cur.in;
        allowed += (int)((in.width == 8 ? in.b->size() : in.width == 16 ? in.w->size() : in.d->size()) >> 20) * 4 + in.patience;
    }
    if (cur.in && cur.seq == last) { if (++same >= allowed) die("the call does not return"); }
    else { same = 0; last = cur.seq; }
}

void progress() { ++cur.seq; }
void armWatchdog() { struct itimerval tv; tv.it_interval.tv_sec = replaying ? 3 : 10; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval; setitimer(ITIMER_REAL, &tv, nullptr); }

template <typename C> static void parseUnits(const char* p, std::basic_string<C>& o)
{
    while (*p)
    {
        char* e; unsigned long v = strtoul(p, &e, 16);
        if (e == p) break;
        size_t n = 1;
        if (*e == '*') n = strtoul(e + 1, &e, 10);
        o.append(n, (C)v);
        p = *e == ',' ? e + 1 : e;
    }
}

}

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
static void asanDeath() { if (hx::cur.in || !hx::outPath.empty()) hx::writeOut("violation", hx::cur.in ? "sanitizer error during the call (see stderr)" : "sanitizer error in a library call made while preparing the cases"); }
extern "C" const char* __asan_default_options() { return "abort_on_error=0:exitcode=1:handle_segv=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=0:quarantine_size_mb=8:hard_rss_limit_mb=3000:max_allocation_size_mb=2500"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0"; }
#endif

int main(int argc, char** argv)
{
    using namespace hx;
    std::string rkind, runits, rargs;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard") { std::string s = nxt(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); }
        else if (a == "--tier") thorough = nxt() == "thorough";
        else if (a == "--version") version = atoi(nxt().c_str());
        else if (a == "--data") dataDir = nxt();
        else if (a == "--out") outPath = nxt();
        else if (a == "--prop") selfProp = nxt();
        else if (a == "--units") { std::ifstream f(nxt()); std::getline(f, runits); }
        else if (a == "--replay") { replaying = true; rkind = nxt(); rargs = nxt(); runits = nxt(); }
    }
    if (!ucd.load((dataDir + "/u" + std::to_string(version) + ".txt").c_str())) { fprintf(stderr, "no tables\n"); return 2; }
    static char altstack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
    struct sigaction st; memset(&st, 0, sizeof st); st.sa_handler = onTick; st.sa_flags = SA_RESTART; sigaction(SIGALRM, &st, nullptr);
    armWatchdog();
#if !defined(__SANITIZE_ADDRESS__) && !defined(VG)
    // a call that never stops allocating ends in bad_alloc, not in the end of the sandbox's memory
    struct rlimit rl; getrlimit(RLIMIT_AS, &rl); if (rl.rlim_max > 3ull << 30) { rl.rlim_cur = 3ull << 30; setrlimit(RLIMIT_AS, &rl); }
#endif
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(asanDeath);
#endif
    registerKinds();
    if (replaying)
    {
        long a[4] = { 0, 0, 0, 0 };
        sscanf(rargs.c_str(), "%ld,%ld,%ld,%ld", a, a + 1, a + 2, a + 3);
        for (size_t k = 0; k < kinds.size(); ++k)
            if (rkind == kinds[k].name)
            {
                if (kinds[k].width == 8) { std::string s; parseUnits(runits.c_str(), s); run((int)k, s, a[0], a[1], a[2], a[3]); }
                else if (kinds[k].width == 16) { std::u16string s; parseUnits(runits.c_str(), s); run((int)k, s, a[0], a[1], a[2], a[3]); }
                else { std::u32string s; parseUnits(runits.c_str(), s); run((int)k, s, a[0], a[1], a[2], a[3]); }
                writeOut("ok", "");
                printf("not reproduced\n");
                return 0;
            }
        fprintf(stderr, "unknown kind %s\n", rkind.c_str());
        return 2;
    }
    explore();
    writeOut("ok", "");
    return 0;
}
