#include <iostream>
// Runtime side of the contract harness interface: replays a counterexample tape, or draws random inputs, and
// evaluates the very same contract against the real, natively compiled code.
#include "vf.h"
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace {
thread_local std::map<const void*, long> held_locks;
std::atomic<long> acquisitions;
bool any_output, any_check;
std::set<std::pair<const void*, long>> output_locks;
std::set<const void*> common_locks;
void note_output() {
    std::set<std::pair<const void*, long>> now(held_locks.begin(), held_locks.end()), both;
    for (auto& x : now) if (!any_output || output_locks.count(x)) both.insert(x);
    output_locks = both;
    any_output = true;
}
void vf_reset_locks() { any_output = any_check = false; output_locks.clear(); common_locks.clear(); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
static void (*before_lock)();
void vf_on_lock(void (*f)()) { before_lock = f; }
void vf_share(const void*) {}
void vf_unshare() {}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (before_lock) before_lock(); int r = __real_pthread_mutex_lock(m); held_locks[(const void*)m] = ++acquisitions; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { held_locks.erase((const void*)m); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (before_lock) before_lock(); int r = __real_pthread_spin_lock(m); held_locks[(const void*)m] = ++acquisitions; return r; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { held_locks.erase((const void*)m); return __real_pthread_spin_unlock(m); }
void vf_touch() { note_output(); }
int vf_atomic_output() {
    if (!any_output) return 1;
    std::set<const void*> m;
    for (auto& x : output_locks) if (!any_check || common_locks.count(x.first)) m.insert(x.first);
    common_locks = m;
    any_check = true; any_output = false; output_locks.clear();
    return !m.empty();
}
}

namespace {
struct skip_iteration {};
struct event { std::string tag; long a, b; std::string s; };
bool operator==(const event& x, const event& y) { return x.tag == y.tag && x.a == y.a && x.b == y.b && x.s == y.s; }

std::map<std::string, long> ints;
std::map<std::string, std::string> strs;
std::map<std::string, int> occ;
std::vector<long> stack_;
std::vector<event> got, want;
std::vector<std::string*> keep;
bool replaying = false;
FILE* dump = nullptr;
unsigned long long rng;
struct prog { long iter; long checks; long covers; long skipped; char cov[64][48]; };
FILE* own = stdout;
prog* pg = nullptr;
prog localpg;

unsigned long long rnd() {
    rng += 0x9e3779b97f4a7c15ULL;
    unsigned long long z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

std::string key(const char* label, bool at, long idx) {
    std::string k = std::string(label) + "[";
    if (at) k += std::to_string(idx);
    else if (!stack_.empty()) {
        for (std::size_t i = 0; i < stack_.size(); ++i) k += (i ? "," : "") + std::to_string(stack_[i]);
    } else k += std::to_string(occ[label]++);
    return k + "]";
}

long draw(long lo, long hi, bool size) {
    unsigned long long span = (unsigned long long)hi - (unsigned long long)lo;
    if (span == ~0ULL) { if (rnd() % 2) return (long)rnd(); span--; }
    ++span;
    if (span == 0) return (long)rnd();
    if (size) {
        unsigned r = rnd() % 16;
        unsigned long long m = r < 11 ? 5 : r < 15 ? 14 : 300;
        if (m > span) m = span;
        return lo + (long)(rnd() % m);
    }
    if (span <= 64) return lo + (long)(rnd() % span);
    switch (rnd() % 8) {
    case 0: return (rnd() % 2) ? lo + (long)(rnd() % 3) : hi - (long)(rnd() % 3);
    case 1: case 2: {
        long v = (long)(rnd() % 24) - 8;
        if (v >= lo && v <= hi) return v;
        return lo + (long)(rnd() % 16);
    }
    case 3: case 4: {                                  // around a power of two
        int k = rnd() % 64;
        long v = (long)((1ULL << k) + (rnd() % 3) - 1);
        if (rnd() % 2) v = (long)(0ULL - (unsigned long long)v);
        if (v >= lo && v <= hi) return v;
    }   // fallthrough
    case 5: {
        int k = 1 + rnd() % 63;
        long v = (long)(rnd() >> k);
        if (v >= lo && v <= hi) return v;
    }   // fallthrough
    default: return lo + (long)(rnd() % span);
    }
}

std::string drawstr() {
    unsigned r = rnd() % 32;
    std::size_t n = r < 4 ? 0 : r < 20 ? rnd() % 6 : r < 29 ? rnd() % 24 : r < 31 ? rnd() % 120 : rnd() % 1200;
    static const char pool[] = "ab{}:=\\\t\n\r \0%\"'/-_.,0159Mscudnu[]\x01\x7f\x80\xff@{}:";
    std::string s;
    unsigned mode = rnd() % 3;
    for (std::size_t i = 0; i < n; ++i)
        s += mode == 0 ? (char)rnd() : mode == 1 ? (char)('a' + rnd() % 4) : pool[rnd() % (sizeof(pool) - 1)];
    return s;
}

void hex(FILE* f, const std::string& s) { for (unsigned char c : s) std::fprintf(f, "%02x", c); }

void failure(const char* what, const std::string& detail) {
    std::fprintf(own, "RT-FAIL %s: %s\n", what, detail.c_str());
    std::fflush(own);
    if (dump) std::fflush(dump);
    _exit(1);
}
std::string show(const event& e) {
    std::string s = e.tag + "(" + std::to_string(e.a) + "," + std::to_string(e.b) + ",\"";
    for (unsigned char c : e.s.substr(0, 400)) {
        char b[8];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c;
        else { std::snprintf(b, 8, "\\x%02x", c); s += b; }
    }
    return s + "\")";
}
long getint(const std::string& k, long lo, long hi, bool size) {
    auto it = ints.find(k);
    if (it != ints.end()) return it->second;
    long v = replaying ? (lo <= 0 && hi >= 0 ? 0 : lo) : draw(lo, hi, size);
    ints[k] = v;
    if (dump) { std::fprintf(dump, "%s %ld\n", k.c_str(), v); std::fflush(dump); }
    return v;
}
void getbytes(const std::string& k, const char** p, std::size_t* n, bool text = false) {
    auto it = strs.find(k);
    if (it == strs.end()) {
        std::string v = replaying ? std::string() : drawstr();
        if (text) for (auto& c : v) if (!c) c = '%';
        it = strs.insert(std::make_pair(k, v)).first;
        if (dump) { std::fprintf(dump, "%s s", k.c_str()); hex(dump, v); std::fprintf(dump, "\n"); std::fflush(dump); }
    }
    // exact-size block so that reads past the end are seen by the address sanitizer
    char* q = (char*)std::malloc(it->second.size() ? it->second.size() : 1);
    std::memcpy(q, it->second.data(), it->second.size());
    keep.push_back((std::string*)q);
    *p = q;
    *n = it->second.size();
}
void reset() {
    vf_reset_locks();
    vf_stream(nullptr); occ.clear(); stack_.clear(); got.clear(); want.clear();
    for (auto* p : keep) std::free(p);
    keep.clear();
}
void onsignal(int s) {
    std::fprintf(own, "RT-FAIL crash: signal %d\n", s);
    std::fflush(own);
    _exit(1);
}
void onterminate() {
    std::fprintf(own, "RT-FAIL no-uncaught-exception: std::terminate\n");
    std::fflush(own);
    _exit(1);
}
}

namespace {
struct ghostbuf : public std::streambuf {
    bool out;
    explicit ghostbuf(bool o) : out(o) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        if (out) { note_output(); vf_out(p, n); }
        else vf_ev("stray", 0, 0, p, n);
        return n;
    }
    int overflow(int c) override { char x = (char)c; xsputn(&x, 1); return (unsigned char)x; }
    int sync() override { if (out) vf_ev("flush", 0, 0, "", 0); return 0; }
};
}

extern "C" {
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1"; }
int vf_symbolic() { return 0; }
long vf_int(const char* l, long lo, long hi) { return getint(key(l, false, 0), lo, hi, false); }
long vf_size(const char* l, long lo, long hi) { return getint(key(l, false, 0), lo, hi, true); }
long vf_case(const char* l, long lo, long hi) { return vf_int(l, lo, hi); }
long vf_int_at(const char* l, long i, long lo, long hi) { return getint(key(l, true, i), lo, hi, false); }
void vf_bytes(const char* l, const char** p, std::size_t* n) { getbytes(key(l, false, 0), p, n); }
void vf_text(const char* l, const char** p, std::size_t* n) { getbytes(key(l, false, 0), p, n, true); }
void vf_bytes_at(const char* l, long i, const char** p, std::size_t* n) { getbytes(key(l, true, i), p, n); }
void* vf_array(std::size_t n, std::size_t stride, void (*gen)(void*, std::size_t, void*), void* ctx) {
    char* p = static_cast<char*>(::operator new(n * stride ? n * stride : 1));
    for (std::size_t i = 0; i < n; ++i) {
        stack_.push_back((long)i);
        gen(ctx, i, p + i * stride);
        stack_.pop_back();
    }
    return p;
}
void vf_assume(int c) { if (!c) throw skip_iteration(); }
void vf_check(int c, const char* name) { ++pg->checks; if (!c) failure(name, "contract condition is false"); }
void vf_generalise() {}
void vf_cover(const char* name) {
    for (int i = 0; i < 64; ++i) {
        if (!pg->cov[i][0]) { std::strncpy(pg->cov[i], name, 47); return; }
        if (!std::strncmp(pg->cov[i], name, 47)) return;
    }
}
void vf_ev(const char* t, long a, long b, const char* p, std::size_t n) { got.push_back({t, a, b, std::string(p, n)}); }
void vf_ex(const char* t, long a, long b, const char* p, std::size_t n) { want.push_back({t, a, b, std::string(p, n)}); }
void vf_out(const char* p, std::size_t n) { if (n) { if (got.empty() || got.back().tag != "out") got.push_back({"out", 0, 0, ""}); got.back().s.append(p, n); } }
void vf_xout(const char* p, std::size_t n) { if (n) { if (want.empty() || want.back().tag != "out") want.push_back({"out", 0, 0, ""}); want.back().s.append(p, n); } }
void vf_stream(const void* s) {
    auto* os = (std::ostream*)s;
    static ghostbuf out(true), stray(false);
    static std::streambuf* cout0 = std::cout.rdbuf();
    static std::streambuf* cerr0 = std::cerr.rdbuf();
    std::cout.rdbuf(os ? &stray : cout0);
    std::cerr.rdbuf(os ? &stray : cerr0);
    if (os) { os->rdbuf(&out); os->unsetf(std::ios_base::unitbuf); }  // only explicit flushes are events
}
void vf_trace_eq(const char* name) {
    ++pg->checks;
    for (std::size_t i = 0; i < got.size() || i < want.size(); ++i) {
        if (i < got.size() && i < want.size() && got[i] == want[i]) continue;
        failure(name, "event " + std::to_string(i) + ": observed " + (i < got.size() ? show(got[i]) : "nothing") +
                      ", contract requires " + (i < want.size() ? show(want[i]) : "nothing"));
    }
    got.clear();
    want.clear();
}
void vf_forget() { got.clear(); want.clear(); }
void vf_bytes_eq(const char* p, std::size_t pn, const char* q, std::size_t qn, const char* name) {
    ++pg->checks;
    if (pn != qn || std::memcmp(p, q, pn))
        failure(name, "observed " + show({"", 0, (long)pn, std::string(p, pn)}) + ", contract requires " + show({"", 0, (long)qn, std::string(q, qn)}));
}
int vf_held(const void* m) {
    auto* x = (pthread_mutex_t*)m;
    if (pthread_mutex_trylock(x) == 0) { pthread_mutex_unlock(x); return 0; }
    return 1;
}
int vf_spin_held(const void* m) {
    auto* x = (pthread_spinlock_t*)m;
    if (pthread_spin_trylock(x) == 0) { pthread_spin_unlock(x); return 0; }
    return 1;
}
}

int main(int argc, char** argv) {
    std::string mode = argv[1], fn = argv[2];
    auto entry = (void (*)())dlsym(RTLD_DEFAULT, fn.c_str());
    own = stdout;
    if (!entry) { std::fprintf(own, "RT-NOENTRY %s\n", fn.c_str()); return 3; }
    own = fdopen(dup(1), "w");
    if (!std::freopen("/dev/null", "w", stdout)) return 3;
    for (int s : {SIGABRT, SIGFPE, SIGILL, SIGALRM}) std::signal(s, onsignal);
    std::set_terminate(onterminate);
    pg = &localpg;
    auto one = [&]() {
        try { entry(); }
        catch (const skip_iteration&) { ++pg->skipped; }
    };
    if (mode == "replay") {
        replaying = true;
        FILE* f = std::fopen(argv[3], "r");
        if (!f) { std::fprintf(own, "RT-NOTAPE\n"); return 3; }
        std::vector<char> buf(1 << 20);
        while (std::fgets(buf.data(), buf.size(), f)) {
            std::string line(buf.data());
            while (!line.empty() && (line.back() == '\n' || line.back() == '\r')) line.pop_back();
            if (line.empty() || line[0] == '#') continue;
            auto sp = line.rfind(' ');
            if (sp == std::string::npos) continue;
            std::string k = line.substr(0, sp), v = line.substr(sp + 1);
            if (!v.empty() && v[0] == 's') {
                std::string s;
                for (std::size_t i = 1; i + 1 < v.size(); i += 2) s += (char)std::stoi(v.substr(i, 2), nullptr, 16);
                strs[k] = s;
            } else ints[k] = std::atol(v.c_str());
        }
        std::fclose(f);
        alarm(60);
        one();
        std::fprintf(own, "RT-OK %s %s\n", fn.c_str(), pg->skipped ? "assumption not met" : "");
        return 0;
    }
    unsigned long long seed = std::strtoull(argv[3], nullptr, 10);
    if (mode == "dump") {
        long it = std::atol(argv[4]);
        dump = std::fopen(argv[5], "w");
        rng = seed * 0x9e3779b97f4a7c15ULL + it * 0xd1342543de82ef95ULL;
        alarm(60);
        one();
        return 0;
    }
    // search FN SEED SECONDS MAXITER PROGRESS
    double secs = std::atof(argv[4]);
    long maxit = std::atol(argv[5]);
    int fd = open(argv[6], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (ftruncate(fd, sizeof(prog))) return 3;
    pg = (prog*)mmap(nullptr, sizeof(prog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    for (long i = 0; i < maxit; ++i) {
        pg->iter = i;
        alarm(60);
        ints.clear();
        strs.clear();
        reset();
        rng = seed * 0x9e3779b97f4a7c15ULL + i * 0xd1342543de82ef95ULL;
        one();
        clock_gettime(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > secs) { pg->iter = i + 1; break; }
        pg->iter = i + 1;
    }
    std::fprintf(own, "RT-DONE %ld iterations %ld checks %ld skipped\n", pg->iter, pg->checks, pg->skipped);
    return 0;
}
