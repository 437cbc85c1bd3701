// Path condition, solver access, forking.
#include "core.h"
#include <algorithm>
#include <chrono>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

Shared *SH;
Z3_context Z;
std::vector<Z3_ast> PC;
static std::vector<std::set<unsigned>> PCvars;
static std::vector<pid_t> kids;

std::string gSolverTmp;
long gRlimit = 60000000, gExtTimeout = 60;
void dumpInputs(FILE *f, std::function<Z3_ast(Z3_ast)> eval);
std::string inputsString(std::function<Z3_ast(Z3_ast)> eval);
std::string whereAmI();

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------- sorts and constants
static Z3_sort bvs[129];
Z3_sort bvSort(unsigned w) {
    if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(Z, w);
    return bvs[w];
}
Z3_ast bvNum(u128 c, unsigned w) {
    c &= maskOf(w);
    if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)c, bvSort(w));
    Z3_ast hi = Z3_mk_unsigned_int64(Z, (uint64_t)(c >> 64), bvSort(w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(Z, (uint64_t)c, bvSort(64));
    return Z3_simplify(Z, Z3_mk_concat(Z, hi, lo));
}
bool isTrue(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_TRUE; }
bool isFalse(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_FALSE; }
Z3_ast simp(Z3_ast a) { return Z3_simplify(Z, a); }

// ---------- variables of a term
static std::unordered_map<unsigned, std::set<unsigned>> varMemo;
static std::unordered_map<unsigned, Z3_ast> constById;
const std::set<unsigned> &varsOf(Z3_ast a) {
    unsigned id = Z3_get_ast_id(Z, a);
    auto it = varMemo.find(id);
    if (it != varMemo.end()) return it->second;
    std::set<unsigned> s;
    if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, app);
        if (n == 0) {
            Z3_func_decl d = Z3_get_app_decl(Z, app);
            if (Z3_get_decl_kind(Z, d) == Z3_OP_UNINTERPRETED) {
                s.insert(id);
                constById[id] = a;
            }
        }
        for (unsigned i = 0; i < n; i++) {
            auto const &t = varsOf(Z3_get_app_arg(Z, app, i));
            s.insert(t.begin(), t.end());
        }
    }
    return varMemo[id] = s;
}
void collectVars(Z3_ast a, std::set<unsigned> &out) {
    auto const &s = varsOf(a);
    out.insert(s.begin(), s.end());
}
static std::unordered_map<unsigned, int> theoryMemo; // 1 real, 2 fp, 4 bv
static int theoryOf(Z3_ast a) {
    unsigned id = Z3_get_ast_id(Z, a);
    auto it = theoryMemo.find(id);
    if (it != theoryMemo.end()) return it->second;
    int r = 0;
    switch (Z3_get_sort_kind(Z, Z3_get_sort(Z, a))) {
    case Z3_REAL_SORT:
    case Z3_INT_SORT: r = 1; break;
    case Z3_FLOATING_POINT_SORT: r = 2; break;
    case Z3_BV_SORT: r = 4; break;
    default: break;
    }
    if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, app);
        for (unsigned i = 0; i < n; i++) r |= theoryOf(Z3_get_app_arg(Z, app, i));
    }
    return theoryMemo[id] = r;
}

// ---------- current assignment (satisfies PC)
static std::map<unsigned, Z3_ast> assign; // const id -> value
static Z3_model curModel = nullptr;
static bool modelOK = true; // assignment is known to satisfy PC
static void rebuildModel() {
    curModel = Z3_mk_model(Z);
    Z3_model_inc_ref(Z, curModel);
    for (auto &p : assign)
        Z3_add_const_interp(Z, curModel, Z3_get_app_decl(Z, Z3_to_app(Z, constById[p.first])), p.second);
}
static Z3_ast evalCur(Z3_ast a) {
    if (!curModel) rebuildModel();
    Z3_ast r = nullptr;
    if (!Z3_model_eval(Z, curModel, a, true, &r)) return nullptr;
    return r;
}

static int extSolve(const std::string &smt) {
    SH->extq++;
    std::string f = gOutDir + "/q" + std::to_string(getpid()) + ".smt2";
    FILE *o = fopen(f.c_str(), "w");
    if (!o) return -1;
    fputs(smt.c_str(), o);
    fclose(o);
    int res = -1;
    const char *cmds[] = {"cvc5 --tlimit=%ld000 %s 2>/dev/null", "z3-new -T:%ld %s 2>/dev/null"};
    for (auto c : cmds) {
        char buf[1024];
        snprintf(buf, sizeof buf, c, gExtTimeout, f.c_str());
        FILE *p = popen(buf, "r");
        if (!p) continue;
        char line[256] = {0};
        bool got = fgets(line, sizeof line, p) != nullptr;
        while (true) { char junk[4096]; if (!fgets(junk, sizeof junk, p)) break; }
        pclose(p);
        if (got && !strncmp(line, "unsat", 5)) { res = 0; break; }
        if (got && !strncmp(line, "sat", 3)) { res = 1; break; }
    }
    unlink(f.c_str());
    return res;
}

static Z3_solver bvSolver = nullptr;
static std::map<std::vector<unsigned>, int> qcache;
std::string astDump(Z3_ast a) {
    std::string s = Z3_ast_to_string(Z, a);
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    return s;
}
// updates assignment when sat and upd
int checkSat2(Z3_ast extra, bool upd) {
    extra = Z3_simplify(Z, extra);
    if (isFalse(extra)) return 0;
    if (isTrue(extra)) return 1;
    std::set<unsigned> vs = varsOf(extra);
    std::vector<Z3_ast> slice{extra};
    std::vector<char> in(PC.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < PC.size(); i++) {
            if (in[i]) continue;
            bool hit = false;
            for (auto v : PCvars[i])
                if (vs.count(v)) { hit = true; break; }
            if (hit) {
                in[i] = 1;
                slice.push_back(PC[i]);
                size_t b = vs.size();
                vs.insert(PCvars[i].begin(), PCvars[i].end());
                if (vs.size() != b) ch = true;
            }
        }
    }
    std::vector<unsigned> key;
    for (auto a : slice) key.push_back(Z3_get_ast_id(Z, a));
    std::sort(key.begin(), key.end());
    if (!upd) {
        auto it = qcache.find(key);
        if (it != qcache.end()) return it->second;
    }
    int th = 0;
    for (auto a : slice) th |= theoryOf(a);
    SH->queries++;
    double t0 = now();
    Z3_solver s;
    bool own = true;
    if (th == 4 || th == 0) {
        if (!bvSolver) {
            bvSolver = Z3_mk_simple_solver(Z);
            Z3_solver_inc_ref(Z, bvSolver);
            Z3_params p = Z3_mk_params(Z);
            Z3_params_inc_ref(Z, p);
            Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)gRlimit);
            Z3_solver_set_params(Z, bvSolver, p);
        }
        s = bvSolver;
        own = false;
        Z3_solver_push(Z, s);
    } else if (th == 1) {
        s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA"));
        Z3_solver_inc_ref(Z, s);
    } else {
        s = Z3_mk_solver(Z);
        Z3_solver_inc_ref(Z, s);
    }
    if (own) {
        Z3_params p = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)(th & 1 ? gRlimit / 4 : gRlimit));
        Z3_solver_set_params(Z, s, p);
    }
    for (auto a : slice) Z3_solver_assert(Z, s, a);
    Z3_lbool r = Z3_solver_check(Z, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == -1 && !own) { // second attempt: preprocessing (equation solving) and bit-blasting
        Z3_solver_pop(Z, s, 1);
        Z3_tactic t = Z3_mk_tactic(Z, "default");
        Z3_tactic_inc_ref(Z, t);
        s = Z3_mk_solver_from_tactic(Z, t);
        Z3_solver_inc_ref(Z, s);
        own = true;
        Z3_params p = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)gRlimit);
        Z3_solver_set_params(Z, s, p);
        for (auto a : slice) Z3_solver_assert(Z, s, a);
        r = Z3_solver_check(Z, s);
        res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    }
    if (res == 1 && upd) {
        Z3_model m = Z3_solver_get_model(Z, s);
        if (m) {
            Z3_model_inc_ref(Z, m);
            for (auto v : vs) {
                Z3_ast val;
                if (Z3_model_eval(Z, m, constById[v], true, &val)) assign[v] = val;
            }
            curModel = nullptr;
        }
    }
    if (res == -1 && own) {
        std::vector<Z3_ast> as(slice.begin() + 1, slice.end());
        std::string smt = Z3_benchmark_to_smtlib_string(Z, "q", th == 1 ? "QF_NRA" : "ALL", "unknown", "",
                                                        as.size(), as.data(), slice[0]);
        res = extSolve(smt);
        if (res == 1 && upd) { // no model available: retry z3 in-process with other engine
            modelOK = false;
        }
    }
    if (own)
        Z3_solver_dec_ref(Z, s);
    else
        Z3_solver_pop(Z, s, 1);
    long us = (long)((now() - t0) * 1e6);
    SH->solver_us += us;
    if (getenv("PISYM_SLOWQ") && us > 1000000) fprintf(stderr, "slow query %.1fs th=%d n=%zu res=%d: %s\n", us / 1e6, th, slice.size(), res, astDump(extra).c_str());
    if (res == 1) SH->qsat++;
    else if (res == 0) SH->qunsat++;
    else SH->qunk++;
    qcache[key] = res;
    return res;
}
int checkSat(Z3_ast extra) { return checkSat2(extra, false); }

void addPC(Z3_ast c) {
    c = Z3_simplify(Z, c);
    if (isTrue(c)) return;
    // split conjunctions: better slicing
    if (Z3_get_ast_kind(Z, c) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(Z, c);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app)) == Z3_OP_AND) {
            for (unsigned i = 0; i < Z3_get_app_num_args(Z, app); i++) addPC(Z3_get_app_arg(Z, app, i));
            return;
        }
    }
    for (auto p : PC)
        if (p == c) return;
    if (modelOK) {
        Z3_ast e = evalCur(c);
        if (!e || !isTrue(e)) {
            PC.push_back(c);
            PCvars.push_back(varsOf(c));
            int r = checkSat2(c, true);
            if (r == -1) modelOK = false;
            // r == 0: infeasible path; detected by callers
            return;
        }
    }
    PC.push_back(c);
    PCvars.push_back(varsOf(c));
}

// ---------- processes
static void waitKids() {
    for (auto k : kids) {
        int st = 0;
        if (waitpid(k, &st, 0) == k && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (!SH->stop) {
                SH->errors++;
                if (SH->errlock.fetch_add(1) == 0)
                    snprintf(SH->errmsg, sizeof SH->errmsg, "worker died (status %d)", st);
            }
        }
    }
    kids.clear();
}
[[noreturn]] static void leave() {
    extern void flushStats();
    flushStats();
    if (!kids.empty()) {
        SH->tokens++;
        waitKids();
        SH->tokens--;
    }
    SH->tokens++;
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}
static bool isSeqChild = false; // runs on its (blocked) parent's token
[[noreturn]] static void leave2() {
    if (isSeqChild) {
        extern void flushStats();
        flushStats();
        if (!kids.empty()) {
            SH->tokens++;
            waitKids();
            while (true) { // take the token back for the parent
                int t = SH->tokens.load();
                if (t > 0 && SH->tokens.compare_exchange_strong(t, t - 1)) break;
                if (SH->stop) break;
                usleep(500);
            }
        }
        fflush(stdout);
        fflush(stderr);
        _exit(0);
    }
    leave();
}
[[noreturn]] void pathEnd(const char *why) {
    if (!strcmp(why, "done")) {
        SH->paths++;
        SH->entryPaths[gEntryIdx & 255]++;
        int k = SH->entrySamples[gEntryIdx & 255].load();
        long np = SH->entryPaths[gEntryIdx & 255].load();
        // paths 1, 2, 5, 17, 50, ... of every entry
        if (k < 5 && modelOK && (k < 2 || np >= (k == 2 ? 5 : k == 3 ? 17 : 50))) {
            k = SH->entrySamples[gEntryIdx & 255].fetch_add(1);
            if (k < 5) {
                std::string f = gOutDir + "/sample." + gEntry + "." + std::to_string(k);
                FILE *o = fopen((f + ".tmp").c_str(), "w");
                if (o) {
                    dumpInputs(o, [](Z3_ast a) { return evalCur(a); });
                    fclose(o);
                    rename((f + ".tmp").c_str(), f.c_str());
                }
                int j = SH->nsamples.fetch_add(1);
                if (j < 8) {
                    std::string s = inputsString([](Z3_ast a) { return evalCur(a); });
                    snprintf(SH->samples[j], sizeof SH->samples[j], "%s", s.c_str());
                }
            }
        }
    } else
        SH->cut++;
    leave2();
}
[[noreturn]] void fatal(const char *fmt, ...) {
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    SH->errors++;
    if (SH->errlock.fetch_add(1) == 0)
        snprintf(SH->errmsg, sizeof SH->errmsg, "%s @ %s", buf, whereAmI().c_str());
    if (getenv("PISYM_DEBUG")) fprintf(stderr, "FATAL %s: %s @ %s\n", gEntry.c_str(), buf, whereAmI().c_str());
    leave2();
}
[[noreturn]] void violation(const std::string &kind, const std::string &msg, Z3_ast cond) {
    if (cond) addPC(cond);
    if (!modelOK) {
        // need a model of the entire path condition
        modelOK = true;
        for (auto c : std::vector<Z3_ast>(PC)) {
            int r = checkSat2(c, true);
            if (r != 1) modelOK = false;
        }
        for (auto c : PC) {
            Z3_ast e = evalCur(c);
            if (!e || !isTrue(e)) modelOK = false;
        }
    }
    int n = SH->viols.fetch_add(1);
    if (n < 20) {
        std::string f = gOutDir + "/viol." + gEntry + "." + std::to_string(n);
        FILE *o = fopen((f + ".tmp").c_str(), "w");
        if (o) {
            fprintf(o, "# entry %s\n# kind %s\n# msg %s\n# where %s\n# model %s\n", gEntry.c_str(), kind.c_str(), msg.c_str(),
                    whereAmI().c_str(), modelOK ? "exact" : "approximate");
            dumpInputs(o, [](Z3_ast a) { return evalCur(a); });
            fclose(o);
            rename((f + ".tmp").c_str(), f.c_str());
        }
    }
    if (getenv("PISYM_DEBUG")) fprintf(stderr, "VIOL %s: %s %s\n", gEntry.c_str(), kind.c_str(), msg.c_str());
    if (n >= 8) SH->stop = 1;
    leave2();
}

// returns true in the child
static bool forkState() {
    if (SH->stop) leave2();
    if (getenv("PISYM_FORKS")) fprintf(stderr, "FORK %s\n", whereAmI().substr(0, 200).c_str());
    SH->forks++;
    fflush(stdout);
    fflush(stderr);
    bool conc = false;
    int t = SH->tokens.load();
    while (t > 0) {
        if (SH->tokens.compare_exchange_weak(t, t - 1)) { conc = true; break; }
    }
    pid_t p = -1;
    for (int tries = 0; tries < 50 && p < 0; tries++) {
        p = fork();
        if (p < 0) usleep(20000);
    }
    if (p < 0) fatal("fork failed");
    extern void resetStats();
    if (p == 0) {
        kids.clear();
        isSeqChild = !conc;
        resetStats();
        return true;
    }
    if (conc)
        kids.push_back(p);
    else {
        int st = 0;
        if (waitpid(p, &st, 0) == p && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            SH->errors++;
            if (SH->errlock.fetch_add(1) == 0)
                snprintf(SH->errmsg, sizeof SH->errmsg, "worker died (status %d)", st);
        }
        if (SH->stop) leave2();
    }
    // reap finished concurrent children
    for (size_t i = 0; i < kids.size();) {
        int st;
        if (waitpid(kids[i], &st, WNOHANG) == kids[i]) {
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                SH->errors++;
                if (SH->errlock.fetch_add(1) == 0)
                    snprintf(SH->errmsg, sizeof SH->errmsg, "worker died (status %d)", st);
            }
            kids.erase(kids.begin() + i);
        } else
            i++;
    }
    return false;
}

bool decide(Z3_ast c) {
    c = Z3_simplify(Z, c);
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    for (auto p : PC) {
        if (p == c) return true;
    }
    Z3_ast nc = Z3_simplify(Z, Z3_mk_not(Z, c));
    for (auto p : PC)
        if (p == nc) return false;
    int t = -2, f = -2;
    if (modelOK) {
        Z3_ast e = evalCur(c);
        if (e && isTrue(e)) t = 1;
        else if (e && isFalse(e)) f = 1;
    }
    if (t == -2) t = checkSat2(c, false);
    if (f == -2) f = checkSat2(nc, false);
    if (t == -1 || f == -1) {
        if (t == 0) { addPC(nc); return false; }
        if (f == 0) { addPC(c); return true; }
        fatal("solver could not decide a branch: %s", astDump(c).c_str());
    }
    if (t == 0 && f == 0) pathEnd("infeasible");
    if (t == 0) return false; // implied, no need to add
    if (f == 0) return true;
    SH->transitions++;
    if (forkState()) {
        addPC(nc);
        return false;
    }
    addPC(c);
    return true;
}

static std::map<std::string, int> chooseCount;
void recordChoice(const std::string &name, long v);
long chooseFork(const std::string &name, long lo, long hi, bool record) {
    long v = lo;
    while (v < hi) {
        SH->transitions++;
        if (!forkState()) break; // parent explores v; child goes on to the next value
        v++;
    }
    if (record) recordChoice(name, v);
    return v;
}

bool knownTrue(Z3_ast c) {
    c = Z3_simplify(Z, c);
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    if (modelOK) {
        Z3_ast e = evalCur(c);
        if (!e || !isTrue(e)) return false;
    }
    return checkSat(Z3_mk_not(Z, c)) == 0;
}
// the value if the path condition leaves only one
Val uniqueVal(const Val &v) {
    if (v.k != SBV || v.w > 64 || !modelOK) return v;
    Z3_ast e = evalCur(v.a);
    uint64_t n;
    if (!e || Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(Z, e, &n)) return v;
    if (checkSat(Z3_mk_not(Z, Z3_mk_eq(Z, v.a, e))) == 0) return mkC(n, v.w);
    return v;
}
uint64_t concretizeU(const Val &v, const char *what) {
    Val c = concretizeV(v, what);
    if (c.k == UNI) fatal("use of uninitialised value (%s)", what);
    return (uint64_t)c.c;
}
Val concretizeV(const Val &v, const char *what) {
    if (v.k == CONC) return v;
    if (v.k == UNI) fatal("use of uninitialised value (%s)", what);
    if (v.k == BOO) return mkC(decide(v.a), 1);
    Z3_ast a;
    if (v.k == DY) a = v.dy->num;
    else if (v.k == RE) {
        if (v.p->isConst()) {
            mpq_class q = v.p->constVal();
            double d = q.get_d();
            uint64_t b;
            memcpy(&b, &d, 8);
            if (v.w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return mkC(x, 32); }
            return mkC(b, 64);
        }
        fatal("cannot concretise a real (%s): %s", what, pStr(v.p).c_str());
    } else
        a = toBV(v);
    int limit = 4096;
    while (limit--) {
        Z3_ast e = modelOK ? evalCur(a) : nullptr;
        if (!e) fatal("no model for concretisation (%s)", what);
        uint64_t n;
        unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a));
        if (w > 64 || Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(Z, e, &n))
            fatal("cannot concretise (%s)", what);
        Z3_ast eq = Z3_mk_eq(Z, a, e);
        if (decide(eq)) {
            if (v.k == DY) {
                double d = std::ldexp((double)(int64_t)n, -v.dy->sc);
                if (v.w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return mkC(x, 32); }
                uint64_t x;
                memcpy(&x, &d, 8);
                return mkC(x, 64);
            }
            return mkC(n, v.w);
        }
    }
    fatal("too many values to concretise (%s)", what);
}

// used by assertions: is (cond) violated on some input of this path?
bool assertHolds(Z3_ast cond, const std::string &kind, const std::string &msg, Z3_ast strong) {
    SH->asserts++;
    Z3_ast n = Z3_simplify(Z, Z3_mk_not(Z, cond));
    if (isFalse(n)) return true;
    SH->assertq++;
    int r = checkSat2(n, false);
    if (r == 0) return true;
    if (r == -1) fatal("solver could not decide assertion: %s", msg.c_str());
    // prefer a robust counterexample
    if (strong) {
        int r2 = checkSat2(strong, false);
        if (r2 == 1) violation(kind, msg, strong);
    }
    violation(kind, msg, n);
}
