#pragma once
#include "core.h"
using namespace llvm;

struct Obj {
    uint8_t *data = nullptr, *init = nullptr;
    uint64_t size = 0;
    uint8_t alive = 1, kind = 0 /*0 global,1 stack,2 heap,3 exception*/, ro = 0;
    bool norace = false;
    std::map<uint32_t, Val> *cells = nullptr;
    std::string name;
};
struct Edge {
    int target;
    std::vector<std::pair<int, int>> moves; // dst slot <- operand
};
struct DInst;
struct DFunc;
struct Thread;
enum HRes { H_DONE, H_PUSHED, H_THROW };
typedef std::function<HRes(Thread &, const DInst &, std::vector<Val> &, Val &)> Handler;
struct DInst {
    unsigned op;
    int dst = -1;
    Instruction *I = nullptr;
    std::vector<int> ops;
    unsigned w = 0, w2 = 0; // result / source widths
    Type *ty = nullptr;
    std::vector<Edge *> edges;
    uint64_t a = 0;                              // constant offset / size
    std::vector<std::pair<int, uint64_t>> idx;   // gep variable parts
    std::vector<uint64_t> cases;
    DFunc *callee = nullptr;                     // resolved
    Handler *handler = nullptr;
    bool resolved = false;
    std::string cname;
};
struct DFunc {
    Function *F = nullptr;
    int id = -1;
    int nslots = 0;
    std::vector<DInst> code;
    bool seen = false;
    std::string file;
    int line = 0;
};
struct Frame {
    DFunc *f = nullptr;
    int pc = 0;
    std::vector<Val> r;
    std::vector<uint32_t> allocas;
    const DInst *call = nullptr; // call instruction in the caller
    std::vector<Val> varargs;
    int tag = 0; // special handling on return
    uint64_t tagv = 0;
};
struct ExcObj {
    uint64_t addr;
    uint64_t tinfo;
    uint64_t dtor;
};
struct Thread {
    int id = 0;
    std::vector<Frame *> st;
    bool done = false;
    uint64_t waitMutex = 0;
    bool waitShared = false, started = false, atPoint = false;
    std::vector<uint64_t> caught; // stack of caught exception objects
    uint64_t curExc = 0;          // being propagated
    std::map<uint64_t, uint64_t> tls;
    std::vector<long> vc;
    int held = 0;
};
extern const DataLayout *DL;
extern std::vector<Obj> objs;
extern std::vector<Thread *> threads;
extern Thread *cur;
extern Module *M;
uint64_t newObj(uint64_t size, int kind, const std::string &name, bool zero = false);
void freeObj(uint64_t addr, const char *what);
Obj &objAt(uint64_t addr, uint64_t size, const char *what, bool write);
Val loadBits(uint64_t addr, unsigned nbytes, unsigned w);
void storeBits(uint64_t addr, const Val &v, unsigned nbytes);
Val loadT(uint64_t addr, Type *t);
void storeT(uint64_t addr, const Val &v, Type *t);
void copyMem(uint64_t d, uint64_t s, uint64_t n);
DFunc *getFunc(Function *F);
uint64_t funcAddr(Function *F);
Function *funcAt(uint64_t a);
void pushCall(Thread &t, DFunc *f, const std::vector<Val> &args, const DInst *call);
Val evalConst(const Constant *c);
Handler *findHandler(const std::string &name);
std::string findRedirect(const std::string &name);
std::string readCStr(uint64_t addr);
Val fpBin(unsigned op, const Val &a, const Val &b, unsigned w);
Val fpUn(const std::string &fn, const Val &a, unsigned w);
Val fpFn2(const std::string &fn, const Val &a, const Val &b, unsigned w);
Val fcmp(unsigned pred, const Val &a, const Val &b, unsigned w);
Val icmp(unsigned pred, const Val &a, const Val &b);
Val intBin(unsigned op, const Val &a, const Val &b, unsigned w);
Val selectV(const Val &c, const Val &a, const Val &b);
double toD(const Val &v);
Val fromD(double d, unsigned w);
bool branchOn(const Val &c);
PolyP toRE(const Val &v);
bool throwExc(Thread &t, uint64_t obj);
void initHandlers();
void scheduleAt(Thread &t);
extern bool gRealMode;
