// C28: the test data tool.  Every case runs the real executable (./tool.<version>, built from the tree) on scratch files.
#include "common.hpp"
#include <cstdlib>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
static int KF, KR, KW, KI, KX;
static std::string base() { return "c28." + std::to_string((long)getpid()); }
static void put(const std::string& p, const s8& c) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) _exit(2); fclose(f); }
static bool get(const std::string& p, s8& c)
{
    c.clear(); FILE* f = fopen(p.c_str(), "rb"); if (!f) return false;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n);
    fclose(f); return true;
}
// exit status; 1000 + signal if it died of one
static int tool(std::initializer_list<std::string> args, long fsize = -1, const std::vector<std::string>& env = {})
{
    progress();
    std::vector<const char*> v{ "./tool.16" };
    for (auto& a : args) v.push_back(a.c_str());
    v.push_back(nullptr);
    pid_t p = fork();
    if (!p)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (fsize >= 0) signal(SIGXFSZ, SIG_IGN);
        rlimit l; l.rlim_cur = l.rlim_max = fsize >= 0 ? fsize : 8 << 20; setrlimit(RLIMIT_FSIZE, &l);
        int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2);
        for (auto& e : env) putenv(const_cast<char*>(e.c_str()));
        alarm(20);
        execv(v[0], const_cast<char**>(v.data())); _exit(125);
    }
    int st; waitpid(p, &st, 0); ++calls;
    int r = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (r == 125) _exit(2);
    return r;
}
// the records up to the end of the data; ok = false if a line is no record
static std::vector<unsigned long> want(const s8& in, bool& ok)
{
    std::vector<unsigned long> r; ok = true;
    size_t i = 0;
    while (i < in.size())
    {
        size_t e = in.find('\n', i); if (e == s8::npos) e = in.size();
        s8 line = in.substr(i, e - i); i = e + 1; ++steps;
        if (line.empty()) break;
        size_t a = line.find(';');
        if (a == s8::npos) { ok = false; return r; }
        size_t b = line.find(';', a + 1); if (b == s8::npos) b = line.size();
        s8 name = line.substr(a + 1, b - a - 1);
        if (name.find("Surrogate") == s8::npos && name.find("Private") == s8::npos) r.push_back(strtoul(line.substr(0, a).c_str(), 0, 16));
    }
    r.push_back(0xffffffffUL);
    return r;
}
// the array initialiser as a C++ compiler reads it
static bool parse(const s8& t, std::vector<unsigned long>& r)
{
    r.clear();
    size_t a = t.find('{'), b = t.rfind('}');
    if (a == s8::npos || b == s8::npos || b < a) return false;
    s8 head = t.substr(0, a), tail = t.substr(b + 1), s;
    for (char c : tail) if (!isspace((unsigned char)c)) s += c;
    // the declaration, whatever its qualifiers, and nothing else
    s8 words, bare;
    for (char c : head) { if (isalnum((unsigned char)c) || c == '_') words += c; else { words += ' '; if (!isspace((unsigned char)c)) bare += c; } }
    std::istringstream ws(words); int type = 0, name = 0; s8 x;
    while (ws >> x) { if (x == "char32_t") ++type; else if (x == "validUnicodeCodePoints") ++name; else if (x != "const" && x != "static" && x != "constexpr" && x != "inline") return false; }
    if (s != ";" || type != 1 || name != 1 || bare != "[]=") return false;
    const char* p = t.c_str() + a + 1; const char* e = t.c_str() + b;
    for (;;)
    {
        while (p < e && isspace((unsigned char)*p)) ++p;
        if (p == e) return true;
        char* q; r.push_back(strtoul(p, &q, 0));
        if (q == p || q > e) return false;
        p = q;
        while (p < e && isspace((unsigned char)*p)) ++p;
        if (p < e && *p++ != ',') return false;
    }
}
static std::string list(const std::vector<unsigned long>& v)
{
    std::string s; char b[24];
    for (size_t i = 0; i < v.size() && i < 60; ++i) { snprintf(b, sizeof b, "%lx ", v[i]); s += b; }
    return s + "(" + std::to_string(v.size()) + ")";
}
static void good(const s8& content, const s8& written, int rc)
{
    bool ok; auto w = want(content, ok);
    if (!ok) { holds("a line that is no record is an error", rc > 0 && rc < 126, std::to_string(rc), "an exit status that says so"); return; }
    eq("exit status", rc, 0);
    std::vector<unsigned long> got;
    holds("the output is an array", parse(written, got), written.substr(0, 200), "char32_t validUnicodeCodePoints[] = { ... };");
    holds("the code points listed", got == w, list(got), list(w));
}
static void ff(const In& in)
{
    std::string i = base() + ".in", o = base() + ".out"; s8 t;
    put(i, *in.b);
    if (in.a[0]) put(o, s8(70000, 'x')); else unlink(o.c_str());
    int rc = tool({ i, o });
    if (!get(o, t) && rc == 0) fail("output", "none", "a file");
    if (!in.b->empty()) good(*in.b, t, rc);
    else eq("exit status for an empty file", rc < 126, true);
    s8 again; get(i, again); eq("the input afterwards", again, *in.b);
    unlink(i.c_str()); unlink(o.c_str());
}
// the character database of version a0
static void fr(const In& in)
{
    const char* r = getenv("VERIF_REPO");
    std::string i = std::string(r ? r : "/repo") + "/source/bits" + std::to_string(in.a[0]) + "/UnicodeData.txt", o = base() + ".out"; s8 c, t;
    if (!get(i, c)) return;
    int rc = tool({ i, o }); get(o, t); good(c, t, rc); unlink(o.c_str());
}
// the disk is full after a0 bytes
static void fw(const In& in)
{
    std::string i = base() + ".in", o = base() + ".out"; s8 t;
    put(i, *in.b); unlink(o.c_str());
    int rc = tool({ i, o }, in.a[0]);
    get(o, t); bool ok; auto w = want(*in.b, ok); std::vector<unsigned long> got;
    bool whole = parse(t, got) && got == w;
    if (rc == 0) holds("success means the whole array was written", whole, t.substr(0, 200), "all of it, or a failure status");
    else holds("a failed write is reported", rc < 126, std::to_string(rc), "an exit status");
    if (in.a[0] >= 1000000) eq("exit status", rc, 0);
    unlink(i.c_str()); unlink(o.c_str());
}
// a0: r w c R W (read, write, close fails; short reads, writes), a1: which one, a2: errno
static void fx(const In& in)
{
    std::string i = base() + ".in", o = base() + ".out", fi = base() + ".fired"; s8 t;
    put(i, *in.b); unlink(o.c_str()); unlink(fi.c_str());
    struct stat st; if (stat(i.c_str(), &st)) _exit(2);
    char b[64]; snprintf(b, sizeof b, "C28_FAULT=%c %ld %ld", (char)in.a[0], in.a[1], in.a[2]);
    int rc = tool({ i, o }, -1, { "LD_PRELOAD=./c28_faults.so", b, "C28_IN=" + std::to_string((unsigned long)st.st_ino), "C28_FIRED=" + fi });
    bool fired = access(fi.c_str(), F_OK) == 0; if (fired) note("faults_that_happened", 1);
    get(o, t); bool ok; auto w = want(*in.b, ok); std::vector<unsigned long> got;
    bool whole = parse(t, got) && got == w, mild = in.a[0] == 'R' || in.a[0] == 'W' || !fired;
    if (rc == 0) holds("success means the whole array was written", whole, t.substr(0, 200), "all of it, or a failure status");
    else holds("the failure is reported", rc < 126 && !mild, std::to_string(rc), mild ? "success: nothing failed" : "an exit status");
    unlink(i.c_str()); unlink(o.c_str()); unlink(fi.c_str());
}
// what cannot be done
static void fi(const In& in)
{
    std::string i = base() + ".in", o = base() + ".out", d = base() + ".d"; s8 t; int rc = -1;
    put(i, "0041;LATIN CAPITAL LETTER A;Lu;0;L;;;;;N;;;;0061;\n"); put(o, "keep"); mkdir(d.c_str(), 0700);
    bool kept = true;
    switch (in.a[0])
    {
    case 0: rc = tool({}); break;
    case 1: rc = tool({ i }); break;
    case 2: rc = tool({ i, o, o }); break;
    case 3: rc = tool({ base() + ".missing", o }); break;
    case 4: rc = tool({ base() + ".missing/x", o }); break;
    case 5: rc = tool({ i, base() + ".missing/x" }); break;
    case 6: rc = tool({ i, d }); break;
    case 7: rc = tool({ i, "/dev/full" }); break;
    case 8: rc = tool({ d, o }); kept = false; break;
    case 9: rc = tool({ i, i + "/x" }); break;
    case 10: rc = tool({ "", o }); break;
    case 11: rc = tool({ i, "" }); break;
    }
    holds("failure is reported", rc > 0 && rc < 126, std::to_string(rc), "a failure status");
    if (kept) { get(o, t); eq("a file that is not the output, or whose input is missing", t, s8("keep")); }
    unlink(i.c_str()); unlink(o.c_str()); rmdir(d.c_str());
}
void registerKinds() { KF = reg("file", 8, ff); KR = reg("database", 8, fr); KW = reg("full", 8, fw); KI = reg("impossible", 8, fi); KX = reg("fault", 8, fx); }
static s8 rec(unsigned long c) { char b[80]; snprintf(b, sizeof b, "%04lX;CHARACTER %lX;Lu;0;L;;;;;N;;;;;", c, c); return b; }
void explore()
{
    const std::vector<s8> T = {
        "0041;LATIN CAPITAL LETTER A;Lu;0;L;;;;;N;;;;0061;", "D800;<Non Private Use High Surrogate, First>;Cs;0;L;;;;;N;;;;;", "E000;<Private Use, First>;Co;0;L;;;;;N;;;;;",
        "DFFF;<Low Surrogate, Last>;Cs;0;L;;;;;N;;;;;", "0000;<control>;Cc;0;BN;;;;;N;NULL;;;;", "not a record at all",
        "10FFFD;<Plane 16 Private Use, Last>;Co;0;L;;;;;N;;;;;", "0091;<control>;Cc;0;BN;;;;;N;PRIVATE USE ONE;;;;", "0092;<control>;Cc;0;BN;;;;;N;Private Use;;Surrogate;;",
        "4E00;<CJK Ideograph, First>;Lo;0;L;;;;;N;;;;;", "1F600;GRINNING FACE;So;0;ON;;;;;N;;;;;", "FFFD;R;So;0", "00E9;LETTRE \xc3\xa9;Ll;0;L;;;;;N;;;00C9;;00C9",
        "0042;" + s8(300, 'N') + ";Lu;0;L;;;;;N;;;;;", "0043;" + s8(5000, 'N') + ";Lu;0;L;;;;;N;;;;;", "", "DB80;<Private Use High Surrogate, First>;Cs;0;L;;;;;N;;;;;", "00AD;SOFT HYPHEN;Cf;0;BN;;;;;N;;;;;\r" };
    uint64_t n = 0;
    auto f = [&](const s8& c, long pre) { if (mine(n++)) run(KF, c, pre); };
    auto tree = [&](size_t k, int depth) {
        std::vector<size_t> ix;
        std::function<void()> go = [&] {
            if (!ix.empty() && !T[ix[0]].empty())
            {
                s8 c; for (size_t j = 0; j < ix.size(); ++j) c += (j ? "\n" : "") + T[ix[j]];
                f(c, 0); f(c + "\n", 1);
            }
            if ((int)ix.size() == depth) return;
            for (size_t j = 0; j < k; ++j) { ix.push_back(j); go(); ix.pop_back(); }
        };
        go();
    };
    f("", 0); f("", 1);
    tree(T.size(), thorough ? 4 : 3);
    tree(6, thorough ? 6 : 4);
    // lists of each length, with each record at each position
    for (int len = 0; len <= (thorough ? 130 : 45); ++len)
        for (int at = -1; at <= len; ++at)
            for (size_t k = 1; k < T.size(); ++k)
            {
                if (at < 0 && k > 1) break;
                if (at >= 0 && len > 24 && k > 4) break;
                s8 c; for (int j = 0; j <= len; ++j) { if (j == at) c += T[k] + "\n"; if (j < len) c += rec(0x100 + j) + "\n"; }
                if (c.empty() || c[0] == '\n') continue;
                f(c, 0);
                if (at >= 0 && k == 1) { c.pop_back(); f(c, 0); }
            }
    for (int len : { 99, 100, 101, 1000, 4095, 4096, 4097, 40000, 70000, 140000 }) for (int end : { 0, 1 }) { s8 c; for (int j = 0; j < len; ++j) { if (j == len / 2 && end) c += T[2] + "\n"; c += rec(j * 27 % 0x110000) + "\n"; } f(c, end); }
    for (long v = 7; v <= 16; ++v) if (mine(n++)) run(KR, s8(), v);
    for (long k = 0; k < 12; ++k) if (mine(n++)) run(KI, s8(), k);
    // every point at which the disk can be full
    for (int len : { 1, 2, 9, 10, 11, 25 })
    {
        s8 c; for (int j = 0; j < len; ++j) c += rec(0x100 + j) + "\n";
        for (long k = 0; k <= 60 + 9 * len; ++k) if (mine(n++)) run(KW, c, k);
        if (mine(n++)) run(KW, c, 1000000);
    }
    // every read, write and close failing in turn; short reads and writes
    for (int len : { 0, 1, 10, 25, 400, 3000 })
    {
        s8 c; for (int j = 0; j < len; ++j) { c += rec(0x100 + j) + "\n"; } c += T[2] + "\n" + T[10] + "\n";
        for (long k = 1; k <= 3 + len / 8; ++k) for (long e : { EIO, EINTR }) if (mine(n++)) run(KX, c, 'r', k, e);
        for (long k = 1; k <= 3 + len; k += len > 400 ? 7 : 1) for (long e : { ENOSPC, EIO, EINTR }) if (mine(n++)) run(KX, c, 'w', k, e);
        for (long k = 1; k <= 2; ++k) for (long e : { EIO, EDQUOT }) if (mine(n++)) run(KX, c, 'c', k, e);
        for (long k : { 1, 2, 7, 4095 }) { if (mine(n++)) run(KX, c, 'R', k); if (mine(n++)) run(KX, c, 'W', k); }
    }
    // lines of each length
    for (int k : { 11, 12, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 200000 })
        for (auto name : { "X", "<Private Use, First>", "<Low Surrogate, Last>" }) for (int where = 0; where < 3; ++where)
        {
            s8 r = s8("0058;") + name + ";Lu;"; if (where == 1) r = s8("0058;") + s8(std::max(1, k - 30), 'Y') + name + ";Lu;"; if (where == 2) r = s8("0058;") + name + s8(std::max(1, k - 40), 'Y') + ";Lu;";
            if ((int)r.size() < k) r += s8(k - r.size(), where ? ';' : 'F');
            f(T[0] + "\n" + r + "\n" + T[10] + "\n", 0); f(r, 0);
        }
    // records of each number of fields, empty or not, and of each length to 200 (thorough 1100), first, in the middle and last
    for (int k = 2; k <= 40; ++k) for (auto field : { "", "F", "Private" }) for (int at = 0; at < 3; ++at)
    {
        s8 r = "00D8;LATIN CAPITAL LETTER O"; for (int j = 2; j < k; ++j) { r += ';'; r += field; }
        f((at ? T[0] + "\n" : s8()) + r + (at < 2 ? "\n" + T[10] + "\n" : s8("\n")), 0);
    }
    for (int k = 12; k <= (thorough ? 1100 : 200); ++k) for (int at = 0; at < 3; ++at)
    {
        s8 r = "00D8;" + s8(k - 6, 'N') + ";";
        f((at ? T[0] + "\n" : s8()) + r + (at < 2 ? "\n" + T[10] + "\n" : s8("\n")), 0);
    }
    // names that contain other words, at each place of the name
    for (auto w : { "Surrogate", "Private", "surrogate", "PRIVATE", "Privat", "Surrogat", "PrivateSurrogate", "<", ">", "First", "Last", "reserved", "unassigned", "noncharacter", "CJK", "Hangul", "control" })
        for (auto b : { "", "<", "X ", "a much longer beginning of a name ", "P", "S", "Priv", "Surr" }) for (auto e : { "", ">", " Y", " Use, First>" })
            f(T[0] + "\n0131;" + b + w + e + ";Lu;0;L;;;;;N;;;;;\n" + T[10] + "\n", 0);
    s8 big; for (int j = 0; j < 4000; ++j) big += rec(0x100 + j) + "\n";
    for (long k = 0; k <= 40000; k += thorough ? 13 : 97) if (mine(n++)) run(KW, big, k);
}
