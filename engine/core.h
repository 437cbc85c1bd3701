// pisym: a symbolic executor for LLVM bitcode (values, solver, state).  See DESIGN.md.
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "poly.h"

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t { UNI, CONC, SBV, BOO, SFP, DY, RE, AGGR, PACK };
struct Agg;
struct Pack;
struct Dy {
    Z3_ast num; // BV64, signed
    int sc;     // value = num * 2^-sc
    int64_t lo, hi;
    Z3_ast fp32 = nullptr, fp64 = nullptr;
};
struct Val {
    Kind k = UNI;
    uint8_t fl = 0;
    uint16_t w = 0;
    union {
        u128 c;
        Z3_ast a;
        Dy *dy;
        PolyP p;
        Agg *agg;
        Pack *pk;
    };
    Val() : c(0) {}
};
struct Agg {
    std::vector<Val> v;
};
struct Pack {
    std::vector<std::pair<uint32_t, Val>> v; // byte offset -> value
};

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline Val mkC(u128 c, unsigned w) {
    Val v;
    v.k = CONC;
    v.w = w;
    v.c = c & maskOf(w);
    return v;
}
inline Val mkU(unsigned w) {
    Val v;
    v.k = UNI;
    v.w = w;
    return v;
}
inline int64_t sx64(u128 c, unsigned w) {
    if (w >= 64) return (int64_t)(uint64_t)c;
    uint64_t m = 1ull << (w - 1);
    return (int64_t)((((uint64_t)c) ^ m) - m);
}
inline i128 sx128(u128 c, unsigned w) {
    if (w >= 128) return (i128)c;
    u128 m = (u128)1 << (w - 1);
    return (i128)((c ^ m) - m);
}

// ---- shared statistics (MAP_SHARED) ----
static const int MAXFN = 20000, MAXLAB = 512;
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop; // 1: violation found, 2: timeout, 3: error
    std::atomic<long> paths, cut, forks, instrs, queries, qsat, qunsat, qunk, solver_us, extq, asserts,
        assertq, transitions, dedup;
    std::atomic<int> errors, viols, procs;
    char errmsg[4096];
    std::atomic<int> errlock;
    std::atomic<unsigned char> fn[MAXFN];
    std::atomic<int> lab[MAXLAB];
    std::atomic<int> nsamples;
    std::atomic<int> entrySamples[256];
    std::atomic<long> entryPaths[256];
    char samples[8][1024];
};
extern Shared *SH;
extern std::string gOutDir, gEntry;
extern int gEntryIdx;

// ---- solver ----
extern Z3_context Z;
Z3_sort bvSort(unsigned w);
Z3_ast bvNum(u128 c, unsigned w);
bool decide(Z3_ast cond);     // forks when both outcomes are feasible
int checkSat(Z3_ast extra);   // 1 sat, 0 unsat, -1 unknown; pc && extra
void addPC(Z3_ast c);
bool isTrue(Z3_ast), isFalse(Z3_ast);
Z3_ast simp(Z3_ast);
void collectVars(Z3_ast a, std::set<unsigned> &out);
extern std::vector<Z3_ast> PC;
[[noreturn]] void pathEnd(const char *why); // normal end of path
[[noreturn]] void fatal(const char *fmt, ...); // path cannot be completed -> check incomplete
[[noreturn]] void violation(const std::string &kind, const std::string &msg, Z3_ast cond = nullptr);
Val toVal(Z3_ast a, unsigned w);
Z3_ast toBV(const Val &v);
Z3_ast toBool(const Val &v);
uint64_t concretizeU(const Val &v, const char *what);
Val concretizeV(const Val &v, const char *what);
long chooseFork(const std::string &name, long lo, long hi, bool record = true);

// ---- poly ----
PolyP pConst(const mpq_class &q);
PolyP pGen(int g, int e = 1);
PolyP pAdd(PolyP a, PolyP b), pSub(PolyP a, PolyP b), pMul(PolyP a, PolyP b), pNeg(PolyP a);
PolyP pDiv(PolyP a, PolyP b);
PolyP pSqrt(PolyP a, bool nonneg = false);
PolyP pPowi(PolyP a, long n);
PolyP pFn(const std::string &fn, PolyP a, PolyP b = nullptr);
PolyP pNorm(PolyP a);
Z3_ast pZ3(PolyP a);
bool pDecideLess(PolyP a, PolyP b, bool orEq);
bool pDecideEq(PolyP a, PolyP b);
int newGen(Gen g);
extern std::vector<Gen> gens;
std::string pStr(PolyP a);
