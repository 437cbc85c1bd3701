// Models of LLVM intrinsics, the C/C++ runtime and the sym_* harness API.
#include "interp.h"
#include <unistd.h>
#include <cerrno>

extern bool racing;
Val mkBOO(Z3_ast a);
Val mkSBV(Z3_ast a, unsigned w);
Val mkRE(PolyP p, unsigned w);
Val mkDY(Z3_ast num, int sc, int64_t lo, int64_t hi, unsigned w);
Val extractV(const Val &v, unsigned lo, unsigned w);
Val zextV(const Val &v, unsigned w, bool sign);
Val truncV(const Val &v, unsigned w);
Z3_ast toFP(const Val &v, unsigned w);
int typeId(uint64_t ti);
uint64_t allocExc(uint64_t size);
void registerExc(uint64_t obj, uint64_t ti, uint64_t dtor);
bool tiDerives(const std::string &n, const std::string &base, long &off);
bool lockMutex(Thread &t, uint64_t a, bool shared);
bool tryLock(Thread &t, uint64_t a, bool shared);
void unlockMutex(Thread &t, uint64_t a);
bool mutexHeld(uint64_t a);
void syncAcqRel(Thread &t, uint64_t a, bool acq, bool rel);
uint64_t tlsAddr(Thread &t, const GlobalVariable *g);
int newThread(uint64_t fn, uint64_t arg);
void joinAll();
bool assertHolds(Z3_ast cond, const std::string &kind, const std::string &msg, Z3_ast strong);
std::string whereAmI();
Val undefOf(Type *t);
extern std::map<unsigned, std::pair<int64_t, int64_t>> gRange;
bool pQuickBound(PolyP a, mpq_class &lo, mpq_class &hi);
extern bool gAllowDivZero;

typedef std::vector<Val> Args;
#define HARGS Thread &t, const DInst &D, Args &a, Val &ret
static std::unordered_map<std::string, Handler> H;
static std::unordered_map<std::string, std::string> R;
std::map<std::string, int> labelIdx;

static uint64_t P(const Val &v) {
    if (v.k == CONC) return (uint64_t)v.c;
    if (v.k == UNI) violation("uninitialised", "uninitialised pointer is passed to a library function");
    return concretizeU(v, "pointer");
}
static uint64_t N(const Val &v, const char *what) {
    if (v.k == CONC) return (uint64_t)v.c;
    if (v.k == UNI) violation("uninitialised", std::string("uninitialised value is passed as ") + what);
    return concretizeU(v, what);
}
static Val agg2(const Val &x, const Val &y) {
    Val r;
    r.k = AGGR;
    r.agg = new Agg{{x, y}};
    return r;
}
static HRes callShim(Thread &t, const DInst &D, const char *fn, const Args &a) {
    Function *F = M->getFunction(fn);
    if (!F || F->isDeclaration()) fatal("shim function %s missing", fn);
    pushCall(t, getFunc(F), a, &D);
    return H_PUSHED;
}

// ------------------------------------------------------------ inputs
struct Input {
    std::string name;
    char kind; // i int, c choice, h half, r real, g angle, b bits, s sched, d double
    long v = 0;
    Val val;
    int gen = -1;
};
static std::vector<Input> inputs;
static std::map<std::string, int> symCount;
void recordChoice(const std::string &name, long v) {
    Input i;
    i.name = name, i.kind = name == "sched" ? 's' : 'c', i.v = v;
    inputs.push_back(i);
}
static double numToD(Z3_ast e) {
    if (!e) return 0;
    if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) return mpq_class(Z3_get_numeral_string(Z, e)).get_d();
    if (Z3_is_algebraic_number(Z, e)) {
        std::string s = Z3_get_numeral_decimal_string(Z, e, 20);
        return atof(s.c_str());
    }
    std::string s = Z3_ast_to_string(Z, e);
    return atof(s.c_str());
}
static std::string valueOf(const Input &i, std::function<Z3_ast(Z3_ast)> eval, bool &ok) {
    char b[100];
    ok = true;
    auto bvd = [&](const Val &v) -> uint64_t {
        if (v.k == CONC) return (uint64_t)v.c;
        Z3_ast e = eval(toBV(v));
        uint64_t n = 0;
        if (!e || !Z3_get_numeral_uint64(Z, e, &n)) ok = false;
        return n;
    };
    switch (i.kind) {
    case 's':
    case 'c': return std::to_string(i.v);
    case 'i': {
        uint64_t n = bvd(i.val);
        return std::to_string(sx64(n, i.val.w));
    }
    case 'b':
    case 'd': {
        snprintf(b, sizeof b, "0x%lx", (unsigned long)bvd(i.val));
        return b;
    }
    case 'h': {
        uint64_t n = 0;
        Z3_ast e = eval(i.val.dy->num);
        if (!e || !Z3_get_numeral_uint64(Z, e, &n)) ok = false;
        snprintf(b, sizeof b, "%.17g", std::ldexp((double)(int64_t)n, -i.val.dy->sc));
        return b;
    }
    case 'r': {
        snprintf(b, sizeof b, "%.17g", numToD(eval(gens[i.gen].z3)));
        return b;
    }
    case 'g': {
        double c = numToD(eval(gens[gens[i.gen].gc].z3)), s = numToD(eval(gens[gens[i.gen].gs].z3));
        snprintf(b, sizeof b, "%.17g", 2 * std::atan2(s, c));
        return b;
    }
    }
    return "?";
}
void dumpInputs(FILE *f, std::function<Z3_ast(Z3_ast)> eval) {
    for (auto &i : inputs) {
        bool ok;
        std::string v = valueOf(i, eval, ok);
        fprintf(f, "%s %c %s%s\n", i.name.c_str(), i.kind, v.c_str(), ok ? "" : " ?");
    }
}
std::string inputsString(std::function<Z3_ast(Z3_ast)> eval) {
    std::string s = gEntry + ":";
    for (auto &i : inputs) {
        bool ok;
        s += " " + i.name + "=" + valueOf(i, eval, ok);
        if (s.size() > 900) break;
    }
    return s;
}

// ------------------------------------------------------------ byte functions
static Val byteAt(uint64_t a) { return loadBits(a, 1, 8); }
static Val cmpBytes(uint64_t x, uint64_t y, uint64_t n, bool str) {
    // lexicographic comparison as one term; forks only for the end of strings with symbolic bytes
    std::vector<std::pair<Z3_ast, Z3_ast>> v;
    int fin = 0;
    bool uni = false;
    for (uint64_t i = 0; i < n; i++) {
        Val p = byteAt(x + i), q = byteAt(y + i);
        if (p.k == UNI || q.k == UNI) { uni = true; break; }
        if (p.k == CONC && q.k == CONC) {
            if (p.c != q.c) { fin = p.c < q.c ? -1 : 1; break; }
        } else
            v.push_back({toBV(p), toBV(q)});
        if (str) {
            Val e = icmp(CmpInst::ICMP_EQ, p, mkC(0, 8));
            if (branchOn(e)) break;
        }
    }
    if (uni) return mkU(32);
    Z3_ast r = bvNum((u128)(i128)fin, 32);
    for (int i = (int)v.size() - 1; i >= 0; i--)
        r = Z3_mk_ite(Z, Z3_mk_eq(Z, v[i].first, v[i].second), r,
                      Z3_mk_ite(Z, Z3_mk_bvult(Z, v[i].first, v[i].second), bvNum(~(u128)0, 32), bvNum(1, 32)));
    return mkSBV(r, 32);
}
static uint64_t strLen(uint64_t p) {
    uint64_t n = 0;
    while (!branchOn(icmp(CmpInst::ICMP_EQ, byteAt(p + n), mkC(0, 8)))) n++;
    return n;
}
struct HashApp {
    uint64_t len, seed;
    std::vector<Val> b;
    Z3_ast h;
    Val whole; // the hashed value when it is a single floating point number kept as a dyadic
};
static std::vector<HashApp> hashApps;
int gHashBits = 64; // fewer: all hashes are reduced to that many bits (collisions become likely)
namespace std { size_t _Hash_bytes(const void *, size_t, size_t); }
bool knownTrue(Z3_ast c); // implied by the path condition
static Val hashBytes(uint64_t p, uint64_t len, uint64_t seed) {
    HashApp A{len, seed, {}, nullptr};
    bool conc = true;
    std::string s;
    for (uint64_t i = 0; i < len; i++) {
        Val v = byteAt(p + i);
        if (v.k == UNI) violation("uninitialised", "uninitialised byte is hashed");
        if (v.k != CONC) conc = false;
        else s += (char)v.c;
        A.b.push_back(v);
    }
    if (conc) {
        uint64_t h = std::_Hash_bytes(s.data(), s.size(), seed);
        if (gHashBits < 64) h &= (1ull << gHashBits) - 1;
        A.h = bvNum(h, 64);
        if (len == 4 || len == 8) A.whole = loadBits(p, len, len * 8);
        if (hashApps.size() < 4000) hashApps.push_back(A);
        return mkC(h, 64);
    }
    std::string nm = "hash!" + std::to_string(hashApps.size());
    A.h = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvSort(gHashBits));
    if (gHashBits < 64) A.h = Z3_mk_zero_ext(Z, 64 - gHashBits, A.h);
    if (len == 4 || len == 8) {
        Val v = loadBits(p, len, len * 8);
        if (v.k == DY) A.whole = v;
    }
    for (auto &o : hashApps) {
        if (o.len != len || o.seed != seed) continue;
        std::vector<Z3_ast> eq;
        bool dif = false;
        if (A.whole.k == DY && (o.whole.k == DY || (o.whole.k == CONC && o.whole.w))) {
            Val e = fcmp(CmpInst::FCMP_OEQ, A.whole, o.whole, len * 8);
            if (e.k == CONC && !e.c) continue;
            if (e.k == CONC) return mkSBV(o.h, 64);
            if (knownTrue(toBool(e))) return mkSBV(o.h, 64);
            addPC(Z3_mk_implies(Z, toBool(e), Z3_mk_eq(Z, A.h, o.h)));
            continue;
        }
        for (uint64_t i = 0; i < len && !dif; i++) {
            Val e = icmp(CmpInst::ICMP_EQ, o.b[i], A.b[i]);
            if (e.k == CONC) { if (!e.c) dif = true; }
            else eq.push_back(toBool(e));
        }
        if (dif) continue;
        Z3_ast c = eq.empty() ? Z3_mk_true(Z) : Z3_mk_and(Z, eq.size(), eq.data());
        if (eq.empty() || knownTrue(c)) return mkSBV(o.h, 64);
        addPC(Z3_mk_implies(Z, c, Z3_mk_eq(Z, A.h, o.h)));
    }
    hashApps.push_back(A);
    return mkSBV(A.h, 64);
}
static uint64_t errnoObj() {
    static uint64_t o = 0;
    if (!o) {
        o = newObj(4, 0, "errno", true);
    }
    return o;
}
static void writeStr(uint64_t d, const std::string &s, uint64_t cap) {
    if (!cap) return;
    uint64_t n = std::min<uint64_t>(s.size(), cap - 1);
    for (uint64_t i = 0; i < n; i++) storeBits(d + i, mkC((uint8_t)s[i], 8), 1);
    storeBits(d + n, mkC(0, 8), 1);
}
static std::string formatC(const std::string &f, std::function<Val(bool)> next) {
    std::string o;
    for (size_t i = 0; i < f.size();) {
        if (f[i] != '%') { o += f[i++]; continue; }
        if (f[i + 1] == '%') { o += '%'; i += 2; continue; }
        std::string sp = "%";
        i++;
        while (i < f.size() && strchr("-+ #0123456789.*", f[i])) {
            if (f[i] == '*') sp += std::to_string((int)N(next(false), "format"));
            else sp += f[i];
            i++;
        }
        bool lng = false;
        while (i < f.size() && strchr("hlLzjt", f[i])) lng |= f[i] != 'h', i++;
        char c = f[i++];
        char b[600];
        if (strchr("di", c)) { snprintf(b, sizeof b, (sp + "ld").c_str(), lng ? (long)N(next(false), "format") : (long)(int)N(next(false), "format")); }
        else if (strchr("uxXo", c)) { snprintf(b, sizeof b, (sp + "l" + c).c_str(), lng ? (unsigned long)N(next(false), "format") : (unsigned long)(unsigned)N(next(false), "format")); }
        else if (c == 'c') snprintf(b, sizeof b, "%c", (int)N(next(false), "format"));
        else if (c == 's') { o += readCStr(P(next(false))); continue; }
        else if (c == 'p') snprintf(b, sizeof b, "%lx", (long)N(next(false), "format"));
        else { Val v = next(true); snprintf(b, sizeof b, (sp + c).c_str(), toD(concretizeV(v, "format"))); }
        o += b;
    }
    return o;
}
static std::function<Val(bool)> vaList(uint64_t va) {
    // always read from the overflow area (see va_start)
    return [va](bool fp) {
        (void)fp;
        uint64_t p = P(loadBits(va + 8, 8, 64));
        Val v = loadBits(p, 8, 64);
        storeBits(va + 8, mkC(p + 8, 64), 8);
        return v;
    };
}

// ------------------------------------------------------------ sym API helpers
static std::string uniq(const std::string &n) {
    int k = symCount[n]++;
    return n + "#" + std::to_string(k);
}
static Val symBV(const std::string &name, unsigned w, char kind) {
    Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, uniq(name).c_str()), bvSort(w));
    Val r;
    r.k = SBV, r.w = w, r.a = v;
    Input i;
    i.name = name, i.kind = kind, i.val = r;
    inputs.push_back(i);
    return r;
}
static mpq_class q(double d) { return mpq_class(d); }
static Z3_ast rnum(const mpq_class &x) { return Z3_mk_numeral(Z, x.get_str().c_str(), Z3_mk_real_sort(Z)); }
static double cd(const Val &v) {
    if (v.k != CONC) fatal("constant expected");
    return toD(v);
}
static void symAssertNear(const Val &x, const Val &y, double tol, const std::string &msg) {
    SH->asserts++;
    if (x.k == UNI || y.k == UNI) violation("uninitialised", msg + " (uninitialised value)");
    if (x.k == CONC && y.k == CONC) {
        double p = toD(x), r = toD(y);
        if (!(std::fabs(p - r) <= tol * (1 + std::fabs(p) + std::fabs(r))) && !(p == r)) {
            char b[100];
            snprintf(b, sizeof b, " (%.12g vs %.12g)", p, r);
            violation("assert", msg + b);
        }
        return;
    }
    if (x.k == RE || y.k == RE) {
        PolyP d = pSub(toRE(x), toRE(y));
        d = pNorm(d);
        if (d->t.empty()) return;
        mpq_class lo, hi, T = q(tol);
        if (pQuickBound(d, lo, hi) && lo >= -T && hi <= T) return;
        // drop terms whose contribution is provably tiny
        Z3_ast z = pZ3(d);
        Z3_ast c[2] = {Z3_mk_le(Z, z, rnum(T)), Z3_mk_ge(Z, z, rnum(-T))};
        mpq_class S = 1000 * T;
        if (S < mpq_class(1, 1000)) S = mpq_class(1, 1000);
        Z3_ast st[2] = {Z3_mk_gt(Z, z, rnum(S)), Z3_mk_lt(Z, z, rnum(-S))};
        std::string m = msg + " (difference " + pStr(d) + ")";
        SH->asserts--;
        assertHolds(Z3_mk_and(Z, 2, c), "assert", m, Z3_mk_or(Z, 2, st));
        return;
    }
    Val lhs = fpUn("fabs", fpBin(Instruction::FSub, x, y, 64), 64);
    Val le = fcmp(CmpInst::FCMP_OLE, lhs, fromD(tol, 64), 64);
    SH->asserts--;
    if (le.k == CONC) {
        if (!le.c) violation("assert", msg);
        return;
    }
    assertHolds(toBool(le), "assert", msg, nullptr);
}

static void reg(const std::string &n, Handler h) { H[n] = h; }
static HRes intrinsic(const std::string &n, HARGS);

void initHandlers() {
    auto nop = [](HARGS) { (void)t, (void)a; if (D.w) ret = mkC(0, D.w); return H_DONE; };
    // ---- allocation
    auto mall = [](HARGS) {
        uint64_t n;
        if (a[0].k != CONC && a[0].k != UNI) {
            if (branchOn(icmp(CmpInst::ICMP_UGT, a[0], mkC(1 << 20, 64)))) return callShim(t, D, "pisym_throw_bad_alloc", {});
        }
        n = N(a[0], "allocation size");
        if (n > (1ull << 27)) return callShim(t, D, "pisym_throw_bad_alloc", {});
        ret = mkC(newObj(n, 2, "heap"), 64);
        return H_DONE;
    };
    reg("_Znwm", mall), reg("_Znam", mall), reg("_ZnwmSt11align_val_t", mall), reg("_ZnamSt11align_val_t", mall);
    auto mallN = [](HARGS) {
        (void)t, (void)D;
        if (a[0].k != CONC && a[0].k != UNI) {
            if (branchOn(icmp(CmpInst::ICMP_UGT, a[0], mkC(1 << 20, 64)))) { ret = mkC(0, 64); return H_DONE; }
        }
        uint64_t n = N(a[0], "allocation size");
        ret = n > (1ull << 27) ? mkC(0, 64) : mkC(newObj(n, 2, "heap"), 64);
        return H_DONE;
    };
    reg("malloc", mallN), reg("_ZnwmRKSt9nothrow_t", mallN), reg("_ZnamRKSt9nothrow_t", mallN);
    reg("calloc", [](HARGS) {
        (void)t, (void)D;
        uint64_t n = N(a[0], "allocation size"), m = N(a[1], "allocation size");
        ret = (u128)n * m > (1ull << 27) ? mkC(0, 64) : mkC(newObj(n * m, 2, "heap", true), 64);
        return H_DONE;
    });
    reg("aligned_alloc", [](HARGS) { (void)t, (void)D; ret = mkC(newObj(N(a[1], "allocation size"), 2, "heap"), 64); return H_DONE; });
    reg("posix_memalign", [](HARGS) {
        (void)t, (void)D;
        uint64_t o = newObj(N(a[2], "allocation size"), 2, "heap");
        storeBits(P(a[0]), mkC(o, 64), 8);
        ret = mkC(0, 32);
        return H_DONE;
    });
    reg("realloc", [](HARGS) {
        (void)t, (void)D;
        uint64_t p = P(a[0]), n = N(a[1], "allocation size");
        if (n > (1ull << 27)) { ret = mkC(0, 64); return H_DONE; }
        uint64_t o = newObj(n, 2, "heap");
        if (p) {
            objAt(p, 0, "realloc", false);
            copyMem(o, p, std::min<uint64_t>(n, objs[p >> 32].size));
            freeObj(p, "realloc");
        }
        ret = mkC(o, 64);
        return H_DONE;
    });
    auto fr = [](HARGS) { (void)t, (void)D, (void)ret; freeObj(P(a[0]), "free"); return H_DONE; };
    for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, fr);
    // ---- memory and strings
    auto cpy = [](HARGS) {
        (void)t, (void)D;
        uint64_t n = N(a[2], "memcpy size");
        if (n) copyMem(P(a[0]), P(a[1]), n);
        ret = a[0];
        return H_DONE;
    };
    reg("memcpy", cpy), reg("memmove", cpy);
    auto mset = [](HARGS) {
        (void)t, (void)D;
        uint64_t n = N(a[2], "memset size");
        if (n) {
            uint64_t p = P(a[0]);
            objAt(p, n, "write (memset)", true);
            Val b = a[1].w == 8 ? a[1] : truncV(a[1], 8);
            if (b.k == CONC) {
                u128 c = 0;
                for (int i = 0; i < 16; i++) c |= (u128)(uint8_t)b.c << (8 * i);
                uint64_t i = 0;
                for (; i + 8 <= n; i += 8) storeBits(p + i, mkC(c, 64), 8);
                for (; i < n; i++) storeBits(p + i, mkC(c, 8), 1);
            } else
                for (uint64_t i = 0; i < n; i++) storeBits(p + i, b, 1);
        }
        ret = a[0];
        return H_DONE;
    };
    reg("memset", mset);
    reg("memcmp", [](HARGS) { (void)t, (void)D; uint64_t n = N(a[2], "memcmp size"); ret = n ? cmpBytes(P(a[0]), P(a[1]), n, false) : mkC(0, 32); return H_DONE; });
    H["bcmp"] = H["memcmp"];
    reg("strcmp", [](HARGS) { (void)t, (void)D; ret = cmpBytes(P(a[0]), P(a[1]), ~0ull, true); return H_DONE; });
    reg("strncmp", [](HARGS) { (void)t, (void)D; ret = cmpBytes(P(a[0]), P(a[1]), N(a[2], "size"), true); return H_DONE; });
    reg("strlen", [](HARGS) { (void)t, (void)D; ret = mkC(strLen(P(a[0])), 64); return H_DONE; });
    reg("memchr", [](HARGS) {
        (void)t, (void)D;
        uint64_t n = N(a[2], "memchr size"), p = P(a[0]);
        Val c = truncV(a[1], 8);
        ret = mkC(0, 64);
        for (uint64_t i = 0; i < n; i++)
            if (branchOn(icmp(CmpInst::ICMP_EQ, byteAt(p + i), c))) { ret = mkC(p + i, 64); break; }
        return H_DONE;
    });
    reg("strchr", [](HARGS) {
        (void)t, (void)D;
        uint64_t p = P(a[0]);
        Val c = truncV(a[1], 8);
        for (uint64_t i = 0;; i++) {
            Val b = byteAt(p + i);
            if (branchOn(icmp(CmpInst::ICMP_EQ, b, c))) { ret = mkC(p + i, 64); break; }
            if (branchOn(icmp(CmpInst::ICMP_EQ, b, mkC(0, 8)))) { ret = mkC(0, 64); break; }
        }
        return H_DONE;
    });
    reg("_ZSt11_Hash_bytesPKvmm", [](HARGS) { (void)t, (void)D; ret = hashBytes(P(a[0]), N(a[1], "hash length"), N(a[2], "hash seed")); return H_DONE; });
    reg("__errno_location", [](HARGS) { (void)t, (void)D, (void)a; ret = mkC(errnoObj(), 64); return H_DONE; });
    auto strto = [](const std::string &fn) {
        return [fn](HARGS) {
            (void)t, (void)D;
            uint64_t p = P(a[0]);
            std::string s = readCStr(p);
            char *e = nullptr;
            errno = 0;
            uint64_t bits;
            if (fn == "d") {
                double d = strtod(s.c_str(), &e);
                memcpy(&bits, &d, 8);
            } else if (fn == "f") {
                float d = strtof(s.c_str(), &e);
                uint32_t b32;
                memcpy(&b32, &d, 4);
                bits = b32;
            } else if (fn == "u") bits = strtoul(s.c_str(), &e, a.size() > 2 ? (int)N(a[2], "base") : 10);
            else bits = strtol(s.c_str(), &e, a.size() > 2 ? (int)N(a[2], "base") : 10);
            if (errno) storeBits(errnoObj(), mkC(errno, 32), 4);
            if (a.size() > 1 && P(a[1])) storeBits(P(a[1]), mkC(p + (e - s.c_str()), 64), 8);
            ret = mkC(bits, D.w);
            return H_DONE;
        };
    };
    reg("strtod", strto("d")), reg("strtof", strto("f")), reg("atof", strto("d")), reg("strtol", strto("l")), reg("strtoll", strto("l")), reg("atoi", strto("l")), reg("atol", strto("l")), reg("strtoul", strto("u")), reg("strtoull", strto("u"));
    for (auto n : {"__isoc23_strtol", "__isoc23_strtoll"}) reg(n, strto("l"));
    for (auto n : {"__isoc23_strtoul", "__isoc23_strtoull"}) reg(n, strto("u"));
    reg("vsnprintf", [](HARGS) {
        (void)t, (void)D;
        std::string s = formatC(readCStr(P(a[2])), vaList(P(a[3])));
        uint64_t cap = N(a[1], "size");
        if (cap) writeStr(P(a[0]), s, cap);
        ret = mkC(s.size(), 32);
        return H_DONE;
    });
    reg("snprintf", [](HARGS) {
        (void)t, (void)D;
        size_t k = 3;
        std::string s = formatC(readCStr(P(a[2])), [&](bool) { return a.at(k++); });
        uint64_t cap = N(a[1], "size");
        if (cap) writeStr(P(a[0]), s, cap);
        ret = mkC(s.size(), 32);
        return H_DONE;
    });
    for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "vfprintf", "perror", "setvbuf", "fwide"}) reg(n, nop);
    // ---- C++ runtime
    reg("__cxa_allocate_exception", [](HARGS) { (void)t, (void)D; ret = mkC(allocExc(N(a[0], "size")), 64); return H_DONE; });
    reg("__cxa_free_exception", nop);
    reg("__cxa_throw", [](HARGS) {
        (void)D, (void)ret;
        uint64_t o = P(a[0]);
        registerExc(o, P(a[1]), P(a[2]));
        throwExc(t, o);
        return H_THROW;
    });
    reg("__cxa_begin_catch", [](HARGS) { (void)D; t.caught.push_back(P(a[0])); ret = a[0]; return H_DONE; });
    reg("__cxa_get_exception_ptr", [](HARGS) { (void)t, (void)D; ret = a[0]; return H_DONE; });
    reg("__cxa_end_catch", [](HARGS) { (void)D, (void)a, (void)ret; if (!t.caught.empty()) t.caught.pop_back(); return H_DONE; });
    reg("__cxa_rethrow", [](HARGS) {
        (void)D, (void)a, (void)ret;
        if (t.caught.empty()) violation("exception", "rethrow without an exception (terminate)");
        throwExc(t, t.caught.back());
        return H_THROW;
    });
    auto term = [](HARGS) -> HRes { (void)t, (void)D, (void)a, (void)ret; violation("terminate", "the program terminates abnormally"); };
    for (auto n : {"__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_call_unexpected", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) reg(n, term);
    reg("__assert_fail", [](HARGS) -> HRes { (void)t, (void)D, (void)ret; violation("assertion", "assertion of the code fails: " + readCStr(P(a[0]))); });
    reg("exit", [](HARGS) -> HRes { (void)t, (void)D, (void)ret, (void)a; violation("exit", "the program exits"); });
    H["_exit"] = H["exit"];
    reg("__cxa_atexit", nop), reg("__cxa_thread_atexit", nop), reg("atexit", nop);
    reg("__cxa_guard_acquire", [](HARGS) {
        (void)D;
        uint64_t g = P(a[0]);
        bool rc = racing;
        racing = false;
        Val b = loadBits(g, 1, 8);
        racing = rc;
        if (b.c) { syncAcqRel(t, g, true, false); ret = mkC(0, 32); return H_DONE; }
        if (!racing && mutexHeld(g)) violation("deadlock", "recursive initialisation of a static variable");
        if (!lockMutex(t, g, false)) return H_THROW;
        racing = false;
        b = loadBits(g, 1, 8);
        racing = rc;
        if (b.c) { unlockMutex(t, g); ret = mkC(0, 32); return H_DONE; }
        ret = mkC(1, 32);
        return H_DONE;
    });
    reg("__cxa_guard_release", [](HARGS) {
        (void)D, (void)ret;
        uint64_t g = P(a[0]);
        bool rc = racing;
        racing = false;
        storeBits(g, mkC(1, 8), 1);
        racing = rc;
        syncAcqRel(t, g, true, true);
        unlockMutex(t, g);
        return H_DONE;
    });
    reg("__cxa_guard_abort", [](HARGS) { (void)D, (void)ret; unlockMutex(t, P(a[0])); return H_DONE; });
    reg("__dynamic_cast", [](HARGS) {
        (void)t, (void)D;
        uint64_t s = P(a[0]);
        uint64_t vp = P(loadBits(s, 8, 64));
        int64_t top = (int64_t)P(loadBits(vp - 16, 8, 64));
        uint64_t ti = P(loadBits(vp - 8, 8, 64));
        uint64_t md = s + top;
        long off = 0;
        bool ok = tiDerives(objs[ti >> 32].name, objs[P(a[2]) >> 32].name, off);
        ret = mkC(ok ? md + off : 0, 64);
        return H_DONE;
    });
    for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__gxx_personality_v0"}) reg(n, nop);
    reg("_ZSt18uncaught_exceptionv", nop), reg("_ZSt19uncaught_exceptionsv", nop);
    // output streams: text sent to the global ones is discarded, string streams are modelled in shim.cpp
    auto os = [](const char *shim) -> Handler {
        return [shim](HARGS) {
            const std::string &n = objs[P(a[0]) >> 32].name;
            if (!shim || n.find("_ZSt4cout") != std::string::npos || n.find("_ZSt4cerr") != std::string::npos || n.find("_ZSt4clog") != std::string::npos) {
                ret = a[0];
                return H_DONE;
            }
            return callShim(t, D, shim, a);
        };
    };
    reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", os("pisym_os_s"));
    reg("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", os("pisym_os_endl"));
    reg("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", os(nullptr));
    reg("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", os("pisym_os_n"));
    reg("_ZNSolsEPFRSoS_E", os("pisym_os_man"));
    reg("_ZNSolsEPFRSt8ios_baseS0_E", os("pisym_os_iosman"));
    reg("_ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE", os("pisym_os_buf"));
    reg("_ZNSolsEi", os("pisym_os_i")), reg("_ZNSolsEs", os("pisym_os_i"));
    reg("_ZNSolsEl", os("pisym_os_l")), reg("_ZNSolsEx", os("pisym_os_l")), reg("_ZNSo9_M_insertIlEERSoT_", os("pisym_os_l"));
    reg("_ZNSolsEm", os("pisym_os_u")), reg("_ZNSolsEy", os("pisym_os_u")), reg("_ZNSo9_M_insertImEERSoT_", os("pisym_os_u"));
    reg("_ZNSolsEj", os("pisym_os_ui")), reg("_ZNSolsEt", os("pisym_os_ui"));
    reg("_ZNSolsEb", os("pisym_os_b")), reg("_ZNSo9_M_insertIbEERSoT_", os("pisym_os_b"));
    reg("_ZNSolsEd", os("pisym_os_d")), reg("_ZNSo9_M_insertIdEERSoT_", os("pisym_os_d"));
    reg("_ZNSolsEf", os("pisym_os_f"));
    reg("_ZNSolsEPKv", os(nullptr)), reg("_ZNSo9_M_insertIPKvEERSoT_", os(nullptr));
    reg("_ZNSo5flushEv", os(nullptr)), reg("_ZNSo3putEc", os("pisym_os_put"));
    reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", os("pisym_os_c"));
    reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", os("pisym_os_str"));
    reg("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E", [](HARGS) { return callShim(t, D, "pisym_ios_init", a); });
    reg("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", [](HARGS) { return callShim(t, D, "pisym_ios_clear", a); });
    // ---- threads
    auto lock = [](HARGS) {
        (void)D;
        if (!lockMutex(t, P(a[0]), false)) return H_THROW; // another thread runs; retried later
        ret = mkC(0, 32);
        return H_DONE;
    };
    reg("pthread_mutex_lock", lock), reg("pthread_rwlock_wrlock", lock);
    reg("pthread_rwlock_rdlock", [](HARGS) {
        (void)D;
        if (!lockMutex(t, P(a[0]), true)) return H_THROW;
        ret = mkC(0, 32);
        return H_DONE;
    });
    reg("pthread_rwlock_init", nop), reg("pthread_rwlock_destroy", nop);
    reg("pthread_rwlock_trywrlock", [](HARGS) { (void)D; ret = mkC(tryLock(t, P(a[0]), false) ? 0 : 16, 32); return H_DONE; });
    reg("pthread_rwlock_tryrdlock", [](HARGS) { (void)D; ret = mkC(tryLock(t, P(a[0]), true) ? 0 : 16, 32); return H_DONE; });
    auto unlock = [](HARGS) { (void)D; unlockMutex(t, P(a[0])); ret = mkC(0, 32); return H_DONE; };
    reg("pthread_mutex_unlock", unlock), reg("pthread_rwlock_unlock", unlock);
    reg("pthread_mutex_trylock", [](HARGS) { (void)D; ret = mkC(tryLock(t, P(a[0]), false) ? 0 : 16, 32); return H_DONE; });
    reg("pthread_mutex_init", nop), reg("pthread_mutex_destroy", nop);
    reg("pthread_self", [](HARGS) { (void)D, (void)a; ret = mkC(t.id + 1, 64); return H_DONE; });
    reg("nanosleep", nop), reg("clock_nanosleep", nop), reg("sched_yield", nop);
    reg("sym_thread", [](HARGS) { (void)t, (void)D, (void)ret; newThread(P(a[0]), P(a[1])); return H_DONE; });
    reg("sym_join", [](HARGS) {
        (void)D, (void)ret, (void)a;
        static bool joined = false;
        if (joined) { joined = false; racing = false; return H_DONE; }
        bool all = true;
        for (auto *x : threads) if (x->id && !x->done) all = false;
        (void)t;
        if (all && racing) { racing = false; return H_DONE; }
        joinAll();
        return H_THROW; // re-executed when thread 0 is scheduled again
    });
    // ---- mathematics
    for (auto n : {"sqrt", "fabs", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "floor",
                   "ceil", "trunc", "round", "rint", "nearbyint", "cbrt", "tgamma", "lgamma", "erf", "erfc"}) {
        std::string s = n;
        auto f = [s](HARGS) { (void)t; ret = fpUn(s, a[0], D.w); return H_DONE; };
        reg(s, f), reg(s + "f", f), reg(s + "l", f);
    }
    for (auto n : {"pow", "atan2", "hypot", "fmod", "copysign", "remainder", "fmax", "fmin"}) {
        std::string s = n;
        auto f = [s](HARGS) { (void)t; ret = fpFn2(s, a[0], a[1], D.w); return H_DONE; };
        reg(s, f), reg(s + "f", f), reg(s + "l", f);
    }
    reg("lround", [](HARGS) {
        (void)t;
        Val fptoi(const Val &v, unsigned sw, unsigned w, bool sign);
        ret = fptoi(fpUn("round", a[0], a[0].w), a[0].w, D.w, true);
        return H_DONE;
    });
    H["lroundf"] = H["llround"] = H["lround"];
    reg("abs", [](HARGS) {
        (void)t;
        Val ng = intBin(Instruction::Sub, mkC(0, D.w), a[0], D.w);
        ret = selectV(icmp(CmpInst::ICMP_SLT, a[0], mkC(0, D.w)), ng, a[0]);
        return H_DONE;
    });
    H["labs"] = H["llabs"] = H["abs"];
    reg("time", [](HARGS) { (void)t, (void)a; ret = mkC(1000000000, D.w); return H_DONE; });
    // ---- sym API
    reg("sym_int", [](HARGS) {
        (void)t, (void)D;
        std::string n = readCStr(P(a[0]));
        int64_t lo = sx64(N(a[1], "lo"), 32), hi = sx64(N(a[2], "hi"), 32);
        if (lo == hi) { ret = mkC((u128)(i128)lo, 32); recordChoice(n, lo); return H_DONE; }
        Val v = symBV(n, 32, 'i');
        gRange[Z3_get_ast_id(Z, v.a)] = {lo, hi};
        if (lo != INT32_MIN) addPC(Z3_mk_bvsge(Z, v.a, bvNum((u128)(i128)lo, 32)));
        if (hi != INT32_MAX) addPC(Z3_mk_bvsle(Z, v.a, bvNum((u128)(i128)hi, 32)));
        ret = v;
        return H_DONE;
    });
    reg("sym_choice", [](HARGS) {
        (void)t, (void)D;
        std::string n = readCStr(P(a[0]));
        ret = mkC((u128)(i128)chooseFork(n, sx64(N(a[1], "lo"), 32), sx64(N(a[2], "hi"), 32)), 32);
        return H_DONE;
    });
    reg("sym_concretize", [](HARGS) { (void)t, (void)D; ret = concretizeV(a[0], "sym_concretize"); return H_DONE; });
    reg("sym_half", [](HARGS) {
        (void)t, (void)D;
        std::string n = readCStr(P(a[0]));
        int64_t lo = sx64(N(a[1], "lo"), 32), hi = sx64(N(a[2], "hi"), 32);
        Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, uniq(n).c_str()), bvSort(64));
        gRange[Z3_get_ast_id(Z, v)] = {lo, hi};
        Val r = mkDY(v, 1, lo, hi, 32);
        Input i;
        i.name = n, i.kind = 'h', i.val = r;
        inputs.push_back(i);
        addPC(Z3_mk_bvsge(Z, v, bvNum((u128)(i128)lo, 64)));
        addPC(Z3_mk_bvsle(Z, v, bvNum((u128)(i128)hi, 64)));
        ret = r;
        return H_DONE;
    });
    reg("sym_real", [](HARGS) {
        (void)t, (void)D;
        std::string n = readCStr(P(a[0]));
        double lo = cd(a[1]), hi = cd(a[2]);
        if (lo == hi) { ret = fromD(lo, 64); return H_DONE; }
        Gen g;
        g.k = Gen::VAR, g.name = n, g.bounded = true, g.lo = q(lo), g.hi = q(hi);
        g.z3 = Z3_mk_const(Z, Z3_mk_string_symbol(Z, uniq(n).c_str()), Z3_mk_real_sort(Z));
        int k = newGen(g);
        Input i;
        i.name = n, i.kind = 'r', i.gen = k;
        inputs.push_back(i);
        addPC(Z3_mk_ge(Z, g.z3, rnum(g.lo)));
        addPC(Z3_mk_le(Z, g.z3, rnum(g.hi)));
        ret = mkRE(pGen(k), 64);
        return H_DONE;
    });
    reg("sym_angle", [](HARGS) {
        (void)t, (void)D;
        std::string n = readCStr(P(a[0]));
        Gen gc, gs, ga;
        gc.k = Gen::COSH, gs.k = Gen::SINH, ga.k = Gen::ANGLE;
        gc.name = "cos(" + n + "/2)", gs.name = "sin(" + n + "/2)", ga.name = n;
        gc.bounded = gs.bounded = ga.bounded = true;
        gc.lo = gs.lo = -1, gc.hi = gs.hi = 1;
        ga.lo = -7, ga.hi = 7;
        int c = newGen(gc), s = newGen(gs);
        gens[s].rule2 = pSub(pConst(1), pMul(pGen(c), pGen(c)));
        ga.gc = c, ga.gs = s;
        int k = newGen(ga);
        Z3_ast cc[2] = {gens[c].z3, gens[c].z3}, ss[2] = {gens[s].z3, gens[s].z3};
        Z3_ast su[2] = {Z3_mk_mul(Z, 2, cc), Z3_mk_mul(Z, 2, ss)};
        addPC(Z3_mk_eq(Z, Z3_mk_add(Z, 2, su), rnum(1)));
        Input i;
        i.name = n, i.kind = 'g', i.gen = k;
        inputs.push_back(i);
        ret = mkRE(pGen(k), 64);
        return H_DONE;
    });
    reg("sym_double", [](HARGS) { (void)t, (void)D; ret = symBV(readCStr(P(a[0])), 64, 'd'); return H_DONE; });
    reg("sym_bits64", [](HARGS) { (void)t, (void)D; ret = symBV(readCStr(P(a[0])), 64, 'b'); return H_DONE; });
    reg("sym_bytes", [](HARGS) {
        (void)t, (void)D, (void)ret;
        std::string n = readCStr(P(a[0]));
        uint64_t p = P(a[1]), len = N(a[2], "length");
        for (uint64_t i = 0; i < len; i++) storeBits(p + i, symBV(n, 8, 'b'), 1);
        return H_DONE;
    });
    reg("sym_assume", [](HARGS) {
        (void)t, (void)D, (void)ret;
        if (a[0].k == UNI) violation("uninitialised", "assumption on an uninitialised value");
        if (a[0].k == CONC) {
            if (!a[0].c) pathEnd("assume");
            return H_DONE;
        }
        Z3_ast c = Z3_mk_not(Z, Z3_mk_eq(Z, toBV(a[0]), bvNum(0, a[0].w)));
        int r = checkSat(c);
        if (r == 0) pathEnd("assume");
        if (r == -1) fatal("solver could not decide an assumption");
        addPC(c);
        return H_DONE;
    });
    reg("sym_assert", [](HARGS) {
        (void)t, (void)D, (void)ret;
        std::string m = readCStr(P(a[1]));
        if (a[0].k == UNI) violation("uninitialised", m + " (depends on an uninitialised value)");
        if (a[0].k == CONC) {
            SH->asserts++;
            if (!a[0].c) violation("assert", m);
            return H_DONE;
        }
        assertHolds(Z3_mk_not(Z, Z3_mk_eq(Z, toBV(a[0]), bvNum(0, a[0].w))), "assert", m, nullptr);
        return H_DONE;
    });
    reg("sym_assert_near", [](HARGS) {
        (void)t, (void)D, (void)ret;
        symAssertNear(a[0], a[1], cd(a[2]), readCStr(P(a[3])));
        return H_DONE;
    });
    reg("sym_cover", [](HARGS) {
        (void)t, (void)D, (void)ret;
        auto it = labelIdx.find(readCStr(P(a[0])));
        if (it != labelIdx.end()) SH->lab[it->second]++;
        return H_DONE;
    });
    reg("sym_mode_real", [](HARGS) { (void)t, (void)D, (void)ret; gRealMode = N(a[0], "mode") != 0; return H_DONE; });
    reg("sym_allow_divzero", [](HARGS) { (void)t, (void)D, (void)ret; gAllowDivZero = N(a[0], "mode") != 0; return H_DONE; });
    reg("sym_symbolic", [](HARGS) { (void)t, (void)D, (void)a; ret = mkC(1, 32); return H_DONE; });
    reg("sym_end", [](HARGS) -> HRes { (void)t, (void)D, (void)a, (void)ret; pathEnd("done"); });
    reg("sym_fail", [](HARGS) -> HRes { (void)t, (void)D, (void)ret; violation("assert", readCStr(P(a[0]))); });
    reg("sym_isconst", [](HARGS) { (void)t, (void)D; ret = mkC(a[0].k == CONC, 32); return H_DONE; });
    reg("sym_print", [](HARGS) {
        (void)t, (void)D, (void)ret;
        if (!getenv("PISYM_DEBUG")) return H_DONE;
        std::string m = readCStr(P(a[0]));
        fprintf(stderr, "%s = ", m.c_str());
        if (a[1].k == CONC) fprintf(stderr, "%.17g\n", toD(a[1]));
        else if (a[1].k == RE) fprintf(stderr, "%s\n", pStr(a[1].p).c_str());
        else fprintf(stderr, "kind %d\n", a[1].k);
        return H_DONE;
    });
    // abstract function of real arguments (uninterpreted): sym_uf1/2(name, x [,y])
    reg("sym_uf1", [](HARGS) { (void)t, (void)D; ret = mkRE(pFn("uf_" + readCStr(P(a[0])), toRE(a[1])), 64); return H_DONE; });
    reg("sym_uf2", [](HARGS) { (void)t, (void)D; ret = mkRE(pFn("uf_" + readCStr(P(a[0])), toRE(a[1]), toRE(a[2])), 64); return H_DONE; });
    reg("<asm>", nop);
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
Handler *findHandler(const std::string &n) {
    auto it = H.find(n);
    if (it != H.end()) return &it->second;
    if (starts(n, "llvm.")) {
        H[n] = [n](HARGS) { return intrinsic(n, t, D, a, ret); };
        return &H[n];
    }
    return nullptr;
}
void addRedirect(const std::string &from, const std::string &to) { R[from] = to; }
std::string findRedirect(const std::string &n) {
    auto it = R.find(n);
    return it == R.end() ? "" : it->second;
}
static HRes intrinsic(const std::string &n, HARGS) {
    auto is = [&](const char *p) { return starts(n, p); };
    unsigned w = D.w;
    auto vec1 = [&](std::function<Val(const Val &)> f) {
        if (a[0].k == AGGR) {
            std::vector<Val> v;
            for (auto &x : a[0].agg->v) v.push_back(f(x));
            ret.k = AGGR;
            ret.agg = new Agg{v};
        } else
            ret = f(a[0]);
        return H_DONE;
    };
    auto vec2 = [&](std::function<Val(const Val &, const Val &)> f) {
        if (a[0].k == AGGR) {
            std::vector<Val> v;
            for (size_t i = 0; i < a[0].agg->v.size(); i++) v.push_back(f(a[0].agg->v[i], a[1].agg->v[i]));
            ret.k = AGGR;
            ret.agg = new Agg{v};
        } else
            ret = f(a[0], a[1]);
        return H_DONE;
    };
    if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.experimental.noalias") || is("llvm.invariant") || is("llvm.prefetch") || is("llvm.va_end") || is("llvm.donothing")) return H_DONE;
    if (is("llvm.memcpy") || is("llvm.memmove")) return H["memcpy"](t, D, a, ret);
    if (is("llvm.memset")) return H["memset"](t, D, a, ret);
    if (is("llvm.expect")) { ret = a[0]; return H_DONE; }
    if (is("llvm.assume")) return H_DONE;
    if (is("llvm.launder") || is("llvm.strip.invariant") || is("llvm.ssa.copy")) { ret = a[0]; return H_DONE; }
    if (is("llvm.stacksave")) { ret = mkC(1, 64); return H_DONE; }
    if (is("llvm.stackrestore")) return H_DONE;
    if (is("llvm.is.constant")) { ret = mkC(0, 1); return H_DONE; }
    if (is("llvm.objectsize")) { ret = mkC(~(u128)0, w); return H_DONE; }
    if (is("llvm.trap") || is("llvm.ubsantrap")) violation("trap", "trap executed");
    if (is("llvm.eh.typeid.for")) { ret = mkC(typeId(P(a[0])), 32); return H_DONE; }
    if (is("llvm.threadlocal.address")) {
        auto *g = dyn_cast<GlobalVariable>(cast<CallBase>(D.I)->getArgOperand(0)->stripPointerCasts());
        ret = g ? mkC(tlsAddr(t, g), 64) : a[0];
        return H_DONE;
    }
    if (is("llvm.va_start")) {
        auto &va = t.st.back()->varargs;
        uint64_t o = newObj(va.size() * 8 + 8, 2, "varargs");
        for (size_t i = 0; i < va.size(); i++) {
            Val v = va[i];
            if (v.w < 64) v = zextV(v, 64, false);
            storeBits(o + 8 * i, v, 8);
        }
        uint64_t p = P(a[0]);
        storeBits(p, mkC(48, 32), 4);
        storeBits(p + 4, mkC(304, 32), 4);
        storeBits(p + 8, mkC(o, 64), 8);
        storeBits(p + 16, mkC(0, 64), 8);
        return H_DONE;
    }
    if (is("llvm.va_copy")) { copyMem(P(a[0]), P(a[1]), 24); return H_DONE; }
    if (is("llvm.umin") || is("llvm.umax") || is("llvm.smin") || is("llvm.smax")) {
        unsigned pr = is("llvm.umin") ? CmpInst::ICMP_ULT : is("llvm.umax") ? CmpInst::ICMP_UGT : is("llvm.smin") ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        return vec2([&](const Val &x, const Val &y) { return selectV(icmp(pr, x, y), x, y); });
    }
    if (is("llvm.abs."))
        return vec1([&](const Val &x) {
            return selectV(icmp(CmpInst::ICMP_SLT, x, mkC(0, x.w)), intBin(Instruction::Sub, mkC(0, x.w), x, x.w), x);
        });
    if (is("llvm.ctlz") || is("llvm.cttz") || is("llvm.ctpop") || is("llvm.bswap") || is("llvm.bitreverse")) {
        Val v = a[0];
        if (v.k == UNI) { ret = mkU(w); return H_DONE; }
        if (v.k != CONC) {
            if (is("llvm.bswap")) {
                Z3_ast b = toBV(v), r = nullptr;
                for (unsigned i = 0; i < w / 8; i++) {
                    Z3_ast e = Z3_mk_extract(Z, i * 8 + 7, i * 8, b);
                    r = r ? Z3_mk_concat(Z, r, e) : e;
                }
                ret = mkSBV(r, w);
                return H_DONE;
            }
            v = concretizeV(v, "bit count");
        }
        u128 c = v.c;
        unsigned r = 0;
        if (is("llvm.ctpop")) { for (unsigned i = 0; i < w; i++) r += (c >> i) & 1; }
        else if (is("llvm.cttz")) { while (r < w && !((c >> r) & 1)) r++; }
        else if (is("llvm.ctlz")) { while (r < w && !((c >> (w - 1 - r)) & 1)) r++; }
        else {
            u128 o = 0;
            for (unsigned i = 0; i < w / 8; i++) o |= ((c >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
            ret = mkC(o, w);
            return H_DONE;
        }
        ret = mkC(r, w);
        return H_DONE;
    }
    if (is("llvm.fshl") || is("llvm.fshr")) {
        uint64_t s = N(a[2], "shift") % w;
        if (s == 0) { ret = is("llvm.fshl") ? a[0] : a[1]; return H_DONE; }
        unsigned l = is("llvm.fshl") ? s : w - s;
        ret = intBin(Instruction::Or, intBin(Instruction::Shl, a[0], mkC(l, w), w), intBin(Instruction::LShr, a[1], mkC(w - l, w), w), w);
        return H_DONE;
    }
    if (n.find(".with.overflow") != std::string::npos) {
        unsigned vw = a[0].w;
        bool sg = n[5] == 's';
        unsigned op = is("llvm.sadd") || is("llvm.uadd") ? Instruction::Add : is("llvm.ssub") || is("llvm.usub") ? Instruction::Sub : Instruction::Mul;
        Val r = intBin(op, a[0], a[1], vw);
        unsigned W = std::min(128u, vw * 2);
        Val X = intBin(op, zextV(a[0], W, sg), zextV(a[1], W, sg), W);
        Val o = icmp(CmpInst::ICMP_NE, X, zextV(r, W, sg));
        if (!sg && op == Instruction::Sub) o = icmp(CmpInst::ICMP_ULT, a[0], a[1]);
        ret = agg2(r, o);
        return H_DONE;
    }
    if (is("llvm.usub.sat")) { ret = selectV(icmp(CmpInst::ICMP_ULT, a[0], a[1]), mkC(0, w), intBin(Instruction::Sub, a[0], a[1], w)); return H_DONE; }
    if (is("llvm.uadd.sat")) {
        Val s = intBin(Instruction::Add, a[0], a[1], w);
        ret = selectV(icmp(CmpInst::ICMP_ULT, s, a[0]), mkC(~(u128)0, w), s);
        return H_DONE;
    }
    for (auto f : {"fabs", "sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round", "exp2", "exp", "log2", "log10", "log", "sin", "cos"})
        if (is((std::string("llvm.") + f + ".").c_str())) return vec1([&](const Val &x) { return fpUn(f, x, x.w); });
    if (is("llvm.pow.")) return vec2([&](const Val &x, const Val &y) { return fpFn2("pow", x, y, x.w); });
    if (is("llvm.copysign.")) return vec2([&](const Val &x, const Val &y) { return fpFn2("copysign", x, y, x.w); });
    if (is("llvm.maxnum.") || is("llvm.minnum.")) return vec2([&](const Val &x, const Val &y) { return fpFn2(is("llvm.max") ? "fmax" : "fmin", x, y, x.w); });
    if (is("llvm.powi.")) {
        long k = sx64(N(a[1], "exponent"), 32);
        if (a[0].k == CONC) { ret = fromD(w == 32 ? (float)__builtin_powif((float)toD(a[0]), (int)k) : __builtin_powi(toD(a[0]), (int)k), w); return H_DONE; }
        ret = mkRE(pPowi(toRE(a[0]), k), w);
        return H_DONE;
    }
    if (is("llvm.fmuladd.") || is("llvm.fma.")) {
        ret = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1], w), a[2], w);
        return H_DONE;
    }
    if (is("llvm.is.fpclass")) {
        unsigned m = (unsigned)N(a[1], "class");
        Val v = a[0];
        if (v.k == UNI) { ret = mkU(1); return H_DONE; }
        if (v.k == SFP || v.k == SBV) {
            Z3_ast x = toFP(v, v.w);
            std::vector<Z3_ast> c;
            Z3_ast neg = Z3_mk_fpa_is_negative(Z, x), pos = Z3_mk_not(Z, neg);
            auto add = [&](Z3_ast k, Z3_ast s) { Z3_ast p[2] = {k, s}; c.push_back(Z3_mk_and(Z, 2, p)); };
            if (m & 3) c.push_back(Z3_mk_fpa_is_nan(Z, x));
            if (m & 4) add(Z3_mk_fpa_is_infinite(Z, x), neg);
            if (m & 8) add(Z3_mk_fpa_is_normal(Z, x), neg);
            if (m & 16) add(Z3_mk_fpa_is_subnormal(Z, x), neg);
            if (m & 32) add(Z3_mk_fpa_is_zero(Z, x), neg);
            if (m & 64) add(Z3_mk_fpa_is_zero(Z, x), pos);
            if (m & 128) add(Z3_mk_fpa_is_subnormal(Z, x), pos);
            if (m & 256) add(Z3_mk_fpa_is_normal(Z, x), pos);
            if (m & 512) add(Z3_mk_fpa_is_infinite(Z, x), pos);
            ret = mkBOO(Z3_mk_or(Z, c.size(), c.data()));
            return H_DONE;
        }
        if (v.k != CONC) { // finite real
            if ((m & (4 | 512 | 3)) && !(m & (8 | 16 | 32 | 64 | 128 | 256))) { ret = mkC(0, 1); return H_DONE; }
            if ((m & (8 | 16 | 32 | 64 | 128 | 256)) == (8 | 16 | 32 | 64 | 128 | 256)) { ret = mkC(1, 1); return H_DONE; }
            fatal("fpclass of an exact value");
        }
        double d = toD(v);
        bool s = std::signbit(d);
        unsigned k = std::isnan(d) ? 3 : std::isinf(d) ? (s ? 4 : 512) : d == 0 ? (s ? 32 : 64) : std::fpclassify(d) == FP_SUBNORMAL ? (s ? 16 : 128) : (s ? 8 : 256);
        ret = mkC((m & k) != 0, 1);
        return H_DONE;
    }
    fatal("unmodelled intrinsic %s", n.c_str());
}
