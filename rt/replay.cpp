// Native side of the harness API: replays one counterexample against the real code.
// usage: replay ENTRY FILE ; exit 0 = nothing wrong, 42 = violation reproduced, 43 = path not followed
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <dlfcn.h>
#include <exception>
#include <stdexcept>
#include <fstream>
#include <deque>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

static std::map<std::string, std::deque<std::string>> vals;
static std::deque<int> sched;
static std::string next(const char *n, const char *dflt) {
    auto &q = vals[n];
    if (q.empty()) return dflt;
    std::string s = q.front();
    q.pop_front();
    return s;
}
[[noreturn]] static void finish(int rc, const char *msg) {
    printf("%s: %s\n", rc == 42 ? "REPRODUCED" : "NOTE", msg);
    fflush(stdout);
    _exit(rc);
}
extern "C" {
int sym_int(const char *n, int lo, int) { auto s = next(n, ""); return s.empty() ? lo : (int)strtol(s.c_str(), 0, 0); }
int sym_choice(const char *n, int lo, int) { auto s = next(n, ""); return s.empty() ? lo : (int)strtol(s.c_str(), 0, 0); }
int sym_concretize(int v) { return v; }
float sym_half(const char *n, int lo, int) { auto s = next(n, ""); return s.empty() ? lo / 2.f : (float)atof(s.c_str()); }
double sym_real(const char *n, double lo, double hi) {
    if (lo == hi) return lo;
    auto s = next(n, "");
    return s.empty() ? lo : atof(s.c_str());
}
double sym_angle(const char *n) { return atof(next(n, "0").c_str()); }
uint64_t sym_bits64(const char *n) { return strtoull(next(n, "0").c_str(), 0, 0); }
double sym_double(const char *n) {
    uint64_t b = sym_bits64(n);
    double d;
    memcpy(&d, &b, 8);
    return d;
}
void sym_bytes(const char *n, void *p, size_t k) {
    for (size_t i = 0; i < k; i++) ((unsigned char *)p)[i] = (unsigned char)strtoul(next(n, "0").c_str(), 0, 0);
}
void sym_assume(int c) { if (!c) finish(43, "assumption not met"); }
void sym_assert(int c, const char *m) { if (!c) finish(42, m); }
void sym_assert_near(double a, double b, double tol, const char *m) {
    double t = std::max(tol, 1e-9);
    if (!(std::fabs(a - b) <= t * 10 * (1 + std::fabs(a) + std::fabs(b))) && !(a == b)) {
        char buf[1000];
        snprintf(buf, sizeof buf, "%s: %.15g != %.15g", m, a, b);
        finish(42, buf);
    }
}
void sym_cover(const char *) {}
void sym_mode_real(int) {}
void sym_allow_divzero(int) {}
int sym_symbolic() { return 0; }
void sym_end() { finish(0, "end of path"); }
void sym_fail(const char *m) { finish(42, m); }
int sym_isconst(double) { return 1; }
void sym_print(const char *n, double v) { printf("%s = %.17g\n", n, v); }
double sym_uf1(const char *, double x) { return std::sin(3 * x + 1) + 2; }
double sym_uf2(const char *, double x, double y) { return std::sin(3 * x + 1) * std::cos(y - 2) + 2; }
struct Th { void (*f)(void *); void *a; };
static std::vector<Th> ths;
void sym_thread(void (*f)(void *), void *a) { ths.push_back({f, a}); }
}
// ---- Replays a schedule: the threads run one at a time and change where the engine let them change: at
// acquisitions of locks, at their end, and when they have to wait.  The hand-over is invisible to
// ThreadSanitizer (this file is not instrumented), so that it adds no happens-before edges.
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <set>
static std::atomic<int> turn{0};
static std::atomic<bool> scheduled{false};
static thread_local int me = 0;
struct Lk {
    int owner = -1, depth = 0;
    std::set<int> readers;
};
static std::map<void *, Lk> *lks;
struct St {
    bool done = false, started = false;
    void *wait = nullptr;
    bool shared = false;
    int held = 0;
};
static std::vector<St> *sts;
static bool free_running = false;
static bool runnable(int t) {
    St &s = (*sts)[t];
    if (s.done) return false;
    if (t == 0) {
        for (size_t i = 1; i < sts->size(); i++)
            if (!(*sts)[i].done) return false;
        return true;
    }
    if (s.wait) {
        Lk &l = (*lks)[s.wait];
        if (l.owner >= 0 && l.owner != t) return false;
        if (!s.shared)
            for (int r : l.readers)
                if (r != t) return false;
    }
    return true;
}
static void pass() { // hands over to the thread that is next in the schedule and waits for the own turn
    std::vector<int> rs;
    for (size_t i = 0; i < sts->size(); i++)
        if (runnable((int)i)) rs.push_back((int)i);
    if (rs.empty()) finish(42, "no thread can make progress (deadlock)");
    int n = rs[0];
    bool fresh = false;
    for (int r : rs)
        if (r && !fresh && !(*sts)[r].started) n = r, fresh = (*sts)[r].started = true;
    if (rs.size() > 1 && !fresh) {
        if (!sched.empty()) {
            n = sched.front();
            sched.pop_front();
            bool ok = false;
            for (int r : rs) ok |= r == n;
            if (!ok) finish(43, "schedule not followed");
        }
    }
    if (n == me) return;
    turn.store(n, std::memory_order_release);
    if ((*sts)[me].done) return;
    while (turn.load(std::memory_order_acquire) != me) sched_yield();
}
static void acquire(void *m, bool shared, bool recursive) {
    St &s = (*sts)[me];
    s.wait = m, s.shared = shared;
    pass();
    for (;;) {
        Lk &l = (*lks)[m];
        if (l.owner == me && recursive) {
            l.depth++;
            break;
        }
        if (l.owner == me || l.readers.count(me)) finish(42, "self deadlock on a mutex");
        if (l.owner < 0 && (shared || l.readers.empty())) {
            if (shared) l.readers.insert(me);
            else l.owner = me;
            s.held++;
            break;
        }
        pass();
    }
    s.wait = nullptr;
}
static void release(void *m) {
    Lk &l = (*lks)[m];
    if (l.readers.erase(me)) {
        (*sts)[me].held--;
        return;
    }
    if (l.owner != me) finish(42, "mutex unlocked by a thread that does not own it");
    if (l.depth > 0) {
        l.depth--;
        return;
    }
    l.owner = -1;
    (*sts)[me].held--;
}
// only locks used by the program itself, not those inside libraries
static bool mine(void *ra) {
    if (!scheduled.load(std::memory_order_relaxed) || me == 0) return false;
    Dl_info i, self;
    return dladdr(ra, &i) && dladdr((void *)&finish, &self) && i.dli_fbase == self.dli_fbase;
}
static void jitter() {
    if (free_running && me && rand() % 3 == 0) usleep(rand() % 200);
}
template <typename F>
static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
#define RA __builtin_return_address(0)
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static int (*f)(pthread_mutex_t *) = nullptr;
    if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (mine(RA)) acquire(m, false, (m->__data.__kind & 3) == 1);
    else jitter();
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    static int (*f)(pthread_mutex_t *) = nullptr;
    if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    int r = f(m);
    if (mine(RA)) release(m);
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    static int (*f)(pthread_rwlock_t *) = nullptr;
    if (!f) f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    if (mine(RA)) acquire(m, true, false);
    return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
    static int (*f)(pthread_rwlock_t *) = nullptr;
    if (!f) f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    if (mine(RA)) acquire(m, false, false);
    return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    static int (*f)(pthread_rwlock_t *) = nullptr;
    if (!f) f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    int r = f(m);
    if (mine(RA)) release(m);
    return r;
}
int __cxa_guard_acquire(long long *g) {
    static int (*f)(long long *) = nullptr;
    if (!f) f = real<int (*)(long long *)>("__cxa_guard_acquire");
    bool s = mine(RA);
    if (s) acquire(g, false, false);
    int r = f(g);
    if (s && !r) release(g);
    return r;
}
void __cxa_guard_release(long long *g) {
    static void (*f)(long long *) = nullptr;
    if (!f) f = real<void (*)(long long *)>("__cxa_guard_release");
    f(g);
    if (mine(RA)) release(g);
}
void __cxa_guard_abort(long long *g) {
    static void (*f)(long long *) = nullptr;
    if (!f) f = real<void (*)(long long *)>("__cxa_guard_abort");
    f(g);
    if (mine(RA)) release(g);
}
}
extern "C" void sym_join() {
    std::vector<std::thread> v;
    sts = new std::vector<St>(ths.size() + 1);
    lks = new std::map<void *, Lk>;
    if (!free_running) scheduled = true;
    for (size_t i = 0; i < ths.size(); i++)
        v.emplace_back([i] {
            me = (int)i + 1;
            if (!free_running)
                while (turn.load(std::memory_order_acquire) != me) sched_yield();
            try {
                ths[i].f(ths[i].a);
            } catch (std::exception &e) {
                finish(42, e.what());
            }
            if (free_running) return;
            if ((*sts)[me].held) finish(42, "a thread ended while holding a mutex");
            (*sts)[me].done = true;
            pass();
        });
    if (!free_running) pass();
    for (auto &t : v) t.join();
    scheduled = false;
    ths.clear();
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string l;
    while (std::getline(f, l)) {
        if (l.empty() || l[0] == '#') continue;
        if (l.size() > 2 && l.compare(l.size() - 2, 2, " ?") == 0) l.resize(l.size() - 2);
        size_t b = l.rfind(' '), a = b == std::string::npos || !b ? b : l.rfind(' ', b - 1);
        if (a == std::string::npos) continue;
        std::string n = l.substr(0, a), k = l.substr(a + 1, b - a - 1), v = l.substr(b + 1); // names may contain spaces
        if (k == "s") sched.push_back(atoi(v.c_str()));
        else vals[n].push_back(v);
    }
    if (const char *f = getenv("SYM_FREE")) free_running = true, srand(atoi(f));
    auto *e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    try {
        e();
    } catch (std::exception &x) {
        finish(42, (std::string("exception escapes: ") + x.what()).c_str());
    } catch (...) {
        finish(42, "exception escapes");
    }
    finish(0, "completed without violation");
}
