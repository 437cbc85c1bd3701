// Interpreter for LLVM IR: memory, frames, exceptions, threads.
#include "interp.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>

const DataLayout *DL;
std::vector<Obj> objs(1);
std::vector<Thread *> threads;
Thread *cur = nullptr;
Module *M;
static std::vector<Val> consts;
static std::unordered_map<const Constant *, int> constIdx;
static std::unordered_map<Function *, DFunc *> funcs;
static std::vector<Function *> funcByIdx(1, nullptr);
static std::unordered_map<Function *, uint64_t> funcAddrs;
static std::unordered_map<const GlobalVariable *, uint64_t> globalAddr;
std::vector<std::string> fnNames, fnFiles;
static std::vector<DFunc *> allFns;
long gInstr = 0, gInstrFlushed = 0, gMaxInstr = 100000000;
static std::vector<uint32_t> freeStack;
static const uint64_t FN_BASE = 0x7f00000000000000ull;
Val mkSBV(Z3_ast a, unsigned w);
Val extractV(const Val &v, unsigned lo, unsigned w);
Val zextV(const Val &v, unsigned w, bool sign);
Val truncV(const Val &v, unsigned w);
Val itofp(const Val &v, unsigned w, bool sign);
Val fptoi(const Val &v, unsigned sw, unsigned w, bool sign);
Val fpcast(const Val &v, unsigned sw, unsigned w);
Val fpNeg(const Val &a, unsigned w);
bool assertHolds(Z3_ast cond, const std::string &kind, const std::string &msg, Z3_ast strong);

void flushStats() {
    SH->instrs += gInstr - gInstrFlushed;
    gInstrFlushed = gInstr;
}
void resetStats() { gInstrFlushed = gInstr; }
std::string whereAmI() {
    std::string s;
    if (!cur) return "startup";
    int n = 0;
    for (int i = (int)cur->st.size() - 1; i >= 0 && n < 14; i--, n++) {
        Frame *f = cur->st[i];
        std::string d = demangle(f->f->F->getName().str());
        if (d.size() > 110) d = d.substr(0, 107) + "...";
        const DInst &I = f->f->code[std::min<size_t>(f->pc, f->f->code.size() - 1)];
        s += (n ? " <- " : "") + d;
        if (I.I && I.I->getDebugLoc()) s += ":" + std::to_string(I.I->getDebugLoc().getLine());
    }
    return s;
}

// ---------------------------------------------------------------- memory
uint64_t newObj(uint64_t size, int kind, const std::string &name, bool zero) {
    uint32_t id;
    if (kind == 1 && !freeStack.empty()) {
        id = freeStack.back();
        freeStack.pop_back();
        objs[id] = Obj();
    } else {
        id = objs.size();
        objs.emplace_back();
    }
    if (size > (1ull << 28)) fatal("allocation of %lu bytes", (unsigned long)size);
    Obj &o = objs[id];
    o.size = size;
    o.kind = kind;
    if (kind != 1) o.name = name;
    if (kind == 0) o.norace = name.find("pisym_") != std::string::npos || name.find("sqlm") != std::string::npos; // bookkeeping of the models
    o.data = (uint8_t *)malloc(size * 2 + 1);
    o.init = o.data + size;
    memset(o.data, 0, size);
    memset(o.init, zero ? 1 : 0, size);
    return (uint64_t)id << 32;
}
static void killObj(uint32_t id) {
    Obj &o = objs[id];
    o.alive = 0;
    free(o.data);
    o.data = nullptr;
    delete o.cells;
    o.cells = nullptr;
}
void freeObj(uint64_t addr, const char *what) {
    if (!addr) return;
    uint32_t id = addr >> 32;
    if ((addr >> 56) || id >= objs.size() || id == 0 || (uint32_t)addr != 0 || objs[id].kind < 2)
        violation("memory", std::string("invalid ") + what);
    if (!objs[id].alive) violation("memory", std::string("double ") + what);
    killObj(id);
}
// ---- happens-before race detection (only while several threads exist)
struct Shadow {
    int wt = -1;
    long wc = 0;
    std::map<int, long> rd;
};
static std::unordered_map<uint64_t, Shadow> shadow;
bool racing = false;
static void raceCheck(uint64_t addr, uint64_t size, bool write) {
    for (uint64_t i = 0; i < size; i++) {
        Shadow &s = shadow[addr + i];
        if (s.wt >= 0 && s.wt != cur->id && s.wc > cur->vc[s.wt])
            violation("race", std::string("data race: unsynchronised ") + (write ? "write" : "read") + " after a write by another thread to " + objs[addr >> 32].name);
        if (write) {
            for (auto &r : s.rd)
                if (r.first != cur->id && r.second > cur->vc[r.first])
                    violation("race", "data race: unsynchronised write after a read by another thread to " + objs[addr >> 32].name);
            s.wt = cur->id;
            s.wc = cur->vc[cur->id];
            s.rd.clear();
        } else
            s.rd[cur->id] = cur->vc[cur->id];
    }
}
Obj &objAt(uint64_t addr, uint64_t size, const char *what, bool write) {
    uint32_t id = addr >> 32, off = (uint32_t)addr;
    if (id == 0 || (addr >> 56) || id >= objs.size()) {
        char b[200];
        snprintf(b, sizeof b, "%s through an invalid pointer 0x%lx", what, (unsigned long)addr);
        violation("memory", b);
    }
    Obj &o = objs[id];
    if (!o.alive) violation("memory", std::string(what) + " after free (" + o.name + ")");
    if ((uint64_t)off + size > o.size) {
        char b[300];
        snprintf(b, sizeof b, "%s out of bounds: offset %u size %lu of object of %lu bytes (%s)", what, off, (unsigned long)size,
                 (unsigned long)o.size, o.name.c_str());
        violation("memory", b);
    }
    if (write && o.ro) violation("memory", std::string("write to read-only memory ") + o.name);
    if (racing && o.kind != 1 && !o.norace) raceCheck(addr, size, write);
    return o;
}
static inline unsigned nb(const Val &v) { return (v.w + 7) / 8; }
static void putCell(Obj &o, uint32_t off, const Val &v) {
    if (!o.cells) o.cells = new std::map<uint32_t, Val>;
    (*o.cells)[off] = v;
    memset(o.init + off, 1, nb(v));
}
static void clearRange(Obj &o, uint32_t off, uint32_t n) {
    if (!o.cells || o.cells->empty()) return;
    auto it = o.cells->lower_bound(off);
    if (it != o.cells->begin()) --it;
    std::vector<std::pair<uint32_t, Val>> add;
    while (it != o.cells->end() && it->first < off + n) {
        uint32_t b = it->first, e = b + nb(it->second);
        if (e <= off) {
            ++it;
            continue;
        }
        if (b < off || e > off + n) {
            Val v = it->second;
            for (uint32_t i = b; i < e; i++)
                if (i < off || i >= off + n) add.push_back({i, extractV(v, (i - b) * 8, 8)});
        }
        it = o.cells->erase(it);
    }
    for (auto &p : add) {
        if (p.second.k == CONC) o.data[p.first] = (uint8_t)p.second.c;
        else putCell(o, p.first, p.second);
    }
}
Val loadBits(uint64_t addr, unsigned n, unsigned w) {
    Obj &o = objAt(addr, n, "read", false);
    uint32_t off = (uint32_t)addr;
    if (o.cells && !o.cells->empty()) {
        auto it = o.cells->lower_bound(off);
        if (it != o.cells->end() && it->first == off && nb(it->second) == n) {
            Val v = it->second;
            if (v.w == w) return v;
            return extractV(v, 0, w);
        }
        bool overlap = it != o.cells->end() && it->first < off + n;
        if (!overlap && it != o.cells->begin()) {
            auto q = std::prev(it);
            if (q->first + nb(q->second) > off) overlap = true;
        }
        if (overlap) {
            if (it != o.cells->begin()) {
                auto q = std::prev(it);
                if (q->first + nb(q->second) > off) it = q;
            }
            Pack *p = new Pack;
            uint32_t at = off;
            bool plain = true;
            auto conc = [&](uint32_t b, uint32_t e) {
                while (b < e) {
                    bool in = o.init[b];
                    uint32_t k = b;
                    u128 c = 0;
                    while (k < e && k - b < 16 && (bool)o.init[k] == in) {
                        c |= (u128)o.data[k] << (8 * (k - b));
                        k++;
                    }
                    if (in) p->v.push_back({b - off, mkC(c, (k - b) * 8)});
                    else {
                        p->v.push_back({b - off, mkU((k - b) * 8)});
                        plain = false;
                    }
                    b = k;
                }
            };
            for (; it != o.cells->end() && it->first < off + n; ++it) {
                uint32_t b = it->first, e = b + nb(it->second);
                if (b > at) conc(at, b);
                Val v = it->second;
                uint32_t s = std::max(b, off), t = std::min(e, off + n);
                if (s != b || t != e) v = extractV(v, (s - b) * 8, (t - s) * 8);
                if (v.k != SBV && v.k != CONC && v.k != BOO) plain = false;
                p->v.push_back({s - off, v});
                at = e;
            }
            if (at < off + n) conc(at, off + n);
            Val r;
            r.k = PACK;
            r.w = n * 8;
            r.pk = p;
            if (plain) r = mkSBV(toBV(r), n * 8);
            if (w != n * 8) r = extractV(r, 0, w);
            return r;
        }
    }
    unsigned ini = 0;
    for (unsigned i = 0; i < n; i++) ini += o.init[off + i];
    if (ini == 0 && n) return mkU(w);
    u128 c = 0;
    memcpy(&c, o.data + off, n);
    return mkC(c, w);
}
void storeBits(uint64_t addr, const Val &v0, unsigned n) {
    Obj &o = objAt(addr, n, "write", true);
    uint32_t off = (uint32_t)addr;
    if (o.cells) clearRange(o, off, n);
    switch (v0.k) {
    case CONC:
        memcpy(o.data + off, &v0.c, n);
        memset(o.init + off, 1, n);
        return;
    case UNI:
        memset(o.data + off, 0, n);
        memset(o.init + off, 0, n);
        return;
    case PACK: {
        memset(o.data + off, 0, n);
        memset(o.init + off, 0, n);
        for (auto &p : v0.pk->v) {
            unsigned m = nb(p.second);
            if (p.second.k == UNI) continue;
            if (p.second.k == CONC) {
                memcpy(o.data + off + p.first, &p.second.c, m);
                memset(o.init + off + p.first, 1, m);
            } else
                putCell(o, off + p.first, p.second);
        }
        return;
    }
    case AGGR: fatal("aggregate store");
    default: {
        Val v = v0;
        if (v.w != n * 8 && (v.k == BOO || v.k == SBV)) v = zextV(v, n * 8, false);
        if (v.k == CONC) { memcpy(o.data + off, &v.c, n); memset(o.init + off, 1, n); return; }
        if (v.k == BOO) v = zextV(v, 8, false);
        putCell(o, off, v);
    }
    }
}
void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj &so = objAt(s, n, "read (memcpy)", false);
    objAt(d, n, "write (memcpy)", true);
    uint32_t sof = (uint32_t)s, dof = (uint32_t)d;
    std::vector<uint8_t> data(so.data + sof, so.data + sof + n), ini(so.init + sof, so.init + sof + n);
    std::vector<std::pair<uint32_t, Val>> cs;
    if (so.cells && !so.cells->empty()) {
        auto it = so.cells->lower_bound(sof);
        if (it != so.cells->begin()) --it;
        for (; it != so.cells->end() && it->first < sof + n; ++it) {
            uint32_t b = it->first, e = b + nb(it->second);
            if (e <= sof) continue;
            if (b >= sof && e <= sof + n) cs.push_back({b - sof, it->second});
            else
                for (uint32_t i = std::max(b, sof); i < std::min<uint64_t>(e, sof + n); i++) {
                    Val x = extractV(it->second, (i - b) * 8, 8);
                    if (x.k == CONC) data[i - sof] = (uint8_t)x.c;
                    else cs.push_back({i - sof, x});
                }
        }
    }
    Obj &dob = objs[d >> 32];
    clearRange(dob, dof, n);
    memcpy(dob.data + dof, data.data(), n);
    memcpy(dob.init + dof, ini.data(), n);
    for (auto &c : cs) putCell(dob, dof + c.first, c.second);
}
static Val mkAgg(std::vector<Val> v) {
    Val r;
    r.k = AGGR;
    r.agg = new Agg{std::move(v)};
    return r;
}
Val undefOf(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        std::vector<Val> v;
        for (auto *e : st->elements()) v.push_back(undefOf(e));
        return mkAgg(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) return mkAgg(std::vector<Val>(at->getNumElements(), undefOf(at->getElementType())));
    if (auto *vt = dyn_cast<FixedVectorType>(t)) return mkAgg(std::vector<Val>(vt->getNumElements(), undefOf(vt->getElementType())));
    return mkU(t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue());
}
static unsigned widthOf(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isVoidTy()) return 0;
    return t->getPrimitiveSizeInBits().getFixedValue();
}
Val loadT(uint64_t addr, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadT(addr + sl->getElementOffset(i), st->getElementType(i)));
        return mkAgg(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        std::vector<Val> v;
        uint64_t s = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadT(addr + i * s, at->getElementType()));
        return mkAgg(v);
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> v;
        uint64_t s = DL->getTypeAllocSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadT(addr + i * s, vt->getElementType()));
        return mkAgg(v);
    }
    return loadBits(addr, DL->getTypeStoreSize(t), widthOf(t));
}
void storeT(uint64_t addr, const Val &v, Type *t) {
    if (v.k == AGGR) {
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeT(addr + sl->getElementOffset(i), v.agg->v[i], st->getElementType(i));
            return;
        }
        Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t s = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < v.agg->v.size(); i++) storeT(addr + i * s, v.agg->v[i], et);
        return;
    }
    storeBits(addr, v, DL->getTypeStoreSize(t));
}
std::string readCStr(uint64_t addr) {
    std::string s;
    while (true) {
        Val c = concretizeV(loadBits(addr++, 1, 8), "string");
        if (c.c == 0) return s;
        s += (char)c.c;
    }
}

// ---------------------------------------------------------------- constants
uint64_t funcAddr(Function *F) {
    auto it = funcAddrs.find(F);
    if (it != funcAddrs.end()) return it->second;
    uint64_t a = FN_BASE + 16 * funcByIdx.size();
    funcByIdx.push_back(F);
    return funcAddrs[F] = a;
}
Function *funcAt(uint64_t a) {
    if (a < FN_BASE) return nullptr;
    uint64_t i = (a - FN_BASE) / 16;
    return i < funcByIdx.size() && (a & 15) == 0 ? funcByIdx[i] : nullptr;
}
static std::vector<const GlobalVariable *> pendingInit;
uint64_t addrOfGlobal(const GlobalVariable *g) {
    auto it = globalAddr.find(g);
    if (it != globalAddr.end()) return it->second;
    uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64;
    bool ext = !g->hasInitializer();
    if (ext) sz = std::max<uint64_t>(sz, 64);
    uint64_t a = newObj(sz, 0, g->getName().str(), true);
    if (ext) objs[a >> 32].size = sz;
    globalAddr[g] = a;
    return a;
}
static void initGlobal(const GlobalVariable *g) {
    if (!g->hasInitializer()) return;
    uint64_t a = addrOfGlobal(g);
    Val v = evalConst(g->getInitializer());
    storeT(a, v, g->getValueType());
    memset(objs[a >> 32].init, 1, objs[a >> 32].size);
    if (g->isConstant()) objs[a >> 32].ro = 1;
}
Val evalConst(const Constant *c) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        const APInt &ap = ci->getValue();
        u128 x = ap.getRawData()[0];
        if (ap.getNumWords() > 1) x |= (u128)ap.getRawData()[1] << 64;
        return mkC(x, ap.getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt ap = cf->getValueAPF().bitcastToAPInt();
        u128 x = ap.getRawData()[0];
        if (ap.getNumWords() > 1) x |= (u128)ap.getRawData()[1] << 64;
        return mkC(x, ap.getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
        if (auto *st = dyn_cast<StructType>(t)) {
            std::vector<Val> v;
            for (auto *e : st->elements()) v.push_back(evalConst(Constant::getNullValue(e)));
            return mkAgg(v);
        }
        if (auto *at = dyn_cast<ArrayType>(t))
            return mkAgg(std::vector<Val>(at->getNumElements(), evalConst(Constant::getNullValue(at->getElementType()))));
        if (auto *vt = dyn_cast<FixedVectorType>(t))
            return mkAgg(std::vector<Val>(vt->getNumElements(), evalConst(Constant::getNullValue(vt->getElementType()))));
        return mkC(0, widthOf(t));
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (auto &o : ca->operands()) v.push_back(evalConst(cast<Constant>(o)));
        return mkAgg(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i)));
        return mkAgg(v);
    }
    if (auto *f = dyn_cast<Function>(c)) return mkC(funcAddr(const_cast<Function *>(f)), 64);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return mkC(addrOfGlobal(g), 64);
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) fatal("gep constant");
            Val b = evalConst(ce->getOperand(0));
            return mkC(b.c + (u128)(i128)off.getSExtValue(), 64);
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast: {
            Val v = evalConst(ce->getOperand(0));
            return mkC(v.c, widthOf(t));
        }
        case Instruction::Trunc: return mkC(evalConst(ce->getOperand(0)).c, widthOf(t));
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Mul:
        case Instruction::Xor:
            return intBin(ce->getOpcode(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), widthOf(t));
        case Instruction::ICmp:
            return icmp(ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
        }
        std::string s;
        raw_string_ostream os(s);
        ce->print(os);
        fatal("constant expression %s", os.str().c_str());
    }
    fatal("constant kind");
}

// ---------------------------------------------------------------- decoding
static int constSlot(const Constant *c) {
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return it->second;
    Val v = evalConst(c);
    consts.push_back(v);
    return constIdx[c] = -(int)consts.size();
}
static std::unordered_map<std::string, DFunc *> byName;
DFunc *getFunc(Function *F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    DFunc *d = new DFunc;
    funcs[F] = d;
    d->F = F;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    std::unordered_map<const BasicBlock *, int> start;
    for (auto &bb : *F)
        for (auto &I : bb)
            if (!I.getType()->isVoidTy()) slot[&I] = n++;
    d->nslots = n;
    int pos = 0;
    for (auto &bb : *F) {
        start[&bb] = pos;
        for (auto &I : bb)
            if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pos++;
    }
    auto opnd = [&](Value *v) -> int {
        if (auto *c = dyn_cast<Constant>(v)) return constSlot(c);
        auto s = slot.find(v);
        if (s == slot.end()) return constSlot(ConstantInt::get(Type::getInt32Ty(F->getContext()), 0)); // metadata / asm
        return s->second;
    };
    auto edge = [&](BasicBlock *from, BasicBlock *to) {
        Edge *e = new Edge;
        e->target = start[to];
        for (auto &phi : to->phis()) e->moves.push_back({slot[&phi], opnd(phi.getIncomingValueForBlock(from))});
        return e;
    };
    for (auto &bb : *F)
        for (auto &I : bb) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            d->code.emplace_back();
            DInst &D = d->code.back();
            D.op = I.getOpcode();
            D.I = &I;
            D.ty = I.getType();
            if (!I.getType()->isVoidTy()) {
                D.dst = slot[&I];
                Type *t = I.getType();
                if (t->isVectorTy()) D.w = 0;
                else if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) D.w = widthOf(t);
            }
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) D.ops.push_back(opnd(a.get()));
                if (!cb->isInlineAsm()) D.ops.push_back(opnd(cb->getCalledOperand()));
                else D.ops.push_back(-1);
                if (auto *iv = dyn_cast<InvokeInst>(&I)) {
                    D.edges.push_back(edge(&bb, iv->getNormalDest()));
                    D.edges.push_back(edge(&bb, iv->getUnwindDest()));
                }
                continue;
            }
            for (auto &o : I.operands())
                if (!isa<BasicBlock>(o.get())) D.ops.push_back(opnd(o.get()));
            if (I.getNumOperands() && I.getOperand(0)->getType()->isSized() && !I.getOperand(0)->getType()->isAggregateType() &&
                !I.getOperand(0)->getType()->isVectorTy())
                D.w2 = widthOf(I.getOperand(0)->getType());
            if (auto *br = dyn_cast<BranchInst>(&I)) {
                D.ops.clear();
                if (br->isConditional()) D.ops.push_back(opnd(br->getCondition()));
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) D.edges.push_back(edge(&bb, br->getSuccessor(k)));
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                D.ops.clear();
                D.ops.push_back(opnd(sw->getCondition()));
                D.edges.push_back(edge(&bb, sw->getDefaultDest()));
                for (auto &c : sw->cases()) {
                    D.cases.push_back(c.getCaseValue()->getZExtValue());
                    D.edges.push_back(edge(&bb, c.getCaseSuccessor()));
                }
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                D.a = DL->getTypeAllocSize(al->getAllocatedType());
            } else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
                APInt off(64, 0);
                MapVector<Value *, APInt> var;
                if (gep->getType()->isVectorTy() || !gep->collectOffset(*DL, 64, var, off)) fatal("gep");
                D.a = off.getSExtValue();
                for (auto &v : var) D.idx.push_back({opnd(v.first), (uint64_t)v.second.getSExtValue()});
                D.ops.resize(1);
            } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                D.ty = st->getValueOperand()->getType();
            }
        }
    // identity for evidence
    auto nm = F->getName().str();
    d->id = -1;
    if (auto *sp = F->getSubprogram()) {
        d->file = sp->getFilename().str();
        if (d->file.size() && d->file[0] != '/') d->file = sp->getDirectory().str() + "/" + d->file;
        d->line = sp->getLine();
    }
    return d;
}
static void markSeen(DFunc *f) {
    f->seen = true;
    static std::unordered_map<Function *, int> ids;
    if (ids.empty()) {
        int i = 0;
        for (auto &F : *M) ids[&F] = i++;
    }
    auto it = ids.find(f->F);
    if (it != ids.end() && it->second < MAXFN) SH->fn[it->second] = 1;
}
void pushCall(Thread &t, DFunc *f, const std::vector<Val> &args, const DInst *call) {
    if (!f->seen) markSeen(f);
    if (t.st.size() > 3000) violation("recursion", "unbounded recursion (call depth > 3000)");
    Frame *fr = new Frame;
    fr->f = f;
    fr->r.resize(f->nslots);
    size_t np = f->F->arg_size();
    for (size_t i = 0; i < np && i < args.size(); i++) fr->r[i] = args[i];
    if (f->F->isVarArg())
        for (size_t i = np; i < args.size(); i++) fr->varargs.push_back(args[i]);
    for (size_t i = 0; i < np && i < args.size(); i++) {
        if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
            Type *ty = f->F->getParamByValType(i);
            uint64_t sz = DL->getTypeAllocSize(ty);
            uint64_t a = newObj(sz, 1, "byval");
            fr->allocas.push_back(a >> 32);
            copyMem(a, (uint64_t)args[i].c, sz);
            fr->r[i] = mkC(a, 64);
        }
    }
    fr->call = call;
    t.st.push_back(fr);
}
static void popFrame(Thread &t) {
    Frame *f = t.st.back();
    for (auto id : f->allocas) {
        killObj(id);
        if (!racing) freeStack.push_back(id);
    }
    t.st.pop_back();
    delete f;
}
static inline void takeEdge(Frame *f, Edge *e) {
    if (!e->moves.empty()) {
        if (e->moves.size() == 1) {
            auto &m = e->moves[0];
            Val v = m.second >= 0 ? f->r[m.second] : consts[-m.second - 1];
            f->r[m.first] = v;
        } else {
            Val tmp[64];
            std::vector<Val> big;
            Val *p = tmp;
            if (e->moves.size() > 64) {
                big.resize(e->moves.size());
                p = big.data();
            }
            for (size_t i = 0; i < e->moves.size(); i++) {
                int o = e->moves[i].second;
                p[i] = o >= 0 ? f->r[o] : consts[-o - 1];
            }
            for (size_t i = 0; i < e->moves.size(); i++) f->r[e->moves[i].first] = p[i];
        }
    }
    f->pc = e->target;
}

// ---------------------------------------------------------------- exceptions
static std::map<uint64_t, ExcObj> excs;
static std::map<uint64_t, int> typeIds;
int typeId(uint64_t ti) {
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    int n = typeIds.size() + 1;
    return typeIds[ti] = n;
}
static const char *stdBases[][2] = {
    {"_ZTISt11logic_error", "_ZTISt9exception"},          {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"},      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},      {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},     {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"},           {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"},  {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},         {"_ZTISt12system_error", "_ZTISt13runtime_error"},
};
static std::string tiName(uint64_t a) {
    uint32_t id = a >> 32;
    return id < objs.size() ? objs[id].name : "?";
}
static void basesOf(const std::string &n, std::vector<std::pair<std::string, long>> &out) {
    GlobalVariable *g = M->getGlobalVariable(n, true);
    if (g && g->hasInitializer()) {
        auto *init = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!init) return;
        for (unsigned i = 2; i < init->getNumOperands(); i++) {
            auto *o = init->getOperand(i)->stripPointerCasts();
            if (auto *b = dyn_cast<GlobalVariable>(o)) {
                long off = 0;
                if (i + 1 < init->getNumOperands())
                    if (auto *ci = dyn_cast<ConstantInt>(init->getOperand(i + 1))) off = ci->getSExtValue() >> 8;
                out.push_back({b->getName().str(), off});
            }
        }
        return;
    }
    for (auto &p : stdBases)
        if (n == p[0]) out.push_back({p[1], 0});
}
bool tiDerives(const std::string &n, const std::string &base, long &off) {
    if (n == base) return true;
    std::vector<std::pair<std::string, long>> bs;
    basesOf(n, bs);
    for (auto &b : bs) {
        long o = 0;
        if (tiDerives(b.first, base, o)) {
            off += o + b.second;
            return true;
        }
    }
    return false;
}
uint64_t allocExc(uint64_t size) {
    uint64_t a = newObj(size, 3, "exception", true);
    return a;
}
void registerExc(uint64_t obj, uint64_t ti, uint64_t dtor) { excs[obj] = {obj, ti, dtor}; }
bool throwExc(Thread &t, uint64_t obj) {
    t.curExc = obj;
    ExcObj &e = excs[obj];
    std::string tn = tiName(e.tinfo);
    while (!t.st.empty()) {
        Frame *f = t.st.back();
        DInst &D = f->f->code[f->pc];
        if (D.op == Instruction::Invoke) {
            auto *lp = cast<InvokeInst>(D.I)->getLandingPadInst();
            int sel = 0;
            bool hit = false;
            for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
                if (lp->isCatch(i)) {
                    auto *c = lp->getClause(i);
                    if (c->isNullValue()) {
                        sel = typeId(0);
                        hit = true;
                    } else {
                        Val v = evalConst(c);
                        long off = 0;
                        if (tiDerives(tn, tiName((uint64_t)v.c), off)) {
                            sel = typeId((uint64_t)v.c);
                            hit = true;
                        }
                    }
                } else { // filter
                    sel = -1;
                    hit = true;
                }
            }
            if (hit || lp->isCleanup()) {
                takeEdge(f, D.edges[1]);
                DInst &L = f->f->code[f->pc];
                if (L.op != Instruction::LandingPad) fatal("landing pad expected");
                f->r[L.dst] = mkAgg({mkC(obj, 64), mkC((uint32_t)sel, 32)});
                f->pc++;
                return true;
            }
        }
        if (t.st.size() == 1) break;
        popFrame(t);
    }
    std::string extra;
    if (tn == "_ZTISt13runtime_error" || tn == "_ZTISt11logic_error" || tn == "_ZTISt12out_of_range" || tn == "_ZTISt16invalid_argument") {
        Val m = loadBits(obj + 8, 8, 64);
        if (m.k == CONC && m.c) extra = std::string(": ") + readCStr((uint64_t)m.c);
    }
    violation("exception", "exception escapes: " + demangle(tn) + extra);
}
uint64_t excType(uint64_t obj) { return excs[obj].tinfo; }

// ---------------------------------------------------------------- threads
struct Mutex {
    int owner = -1, depth = 0;
    std::set<int> readers;         // of a reader-writer lock
    std::vector<long> vc, rvc;     // rvc: releases by readers (acquired by writers only)
};
static std::map<uint64_t, Mutex> mutexes;
static std::map<uint64_t, std::vector<long>> syncVC;
static bool joining = false;
long gSchedBound = 1000;
static long schedCount = 0;
static void vcJoin(std::vector<long> &a, const std::vector<long> &b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
bool multiThreaded() { return racing; }
int newThread(uint64_t fn, uint64_t arg) {
    Function *F = funcAt(fn);
    if (!F) fatal("thread function");
    Thread *t = new Thread;
    t->id = threads.size();
    for (auto *x : threads) x->vc.resize(threads.size() + 1, 0);
    t->vc = cur->vc;
    t->vc.resize(threads.size() + 1, 0);
    t->vc[t->id] = 1;
    cur->vc[cur->id]++;
    threads.push_back(t);
    pushCall(*t, getFunc(F), {mkC(arg, 64)}, nullptr);
    return t->id;
}
static bool runnable(Thread *t) {
    if (t->done) return false;
    if (t->id == 0 && joining) {
        for (auto *x : threads)
            if (x->id && !x->done) return false;
        return true;
    }
    if (t->waitMutex) {
        auto &m = mutexes[t->waitMutex];
        if (m.owner >= 0 && m.owner != t->id) return false;
        if (!t->waitShared)
            for (int r : m.readers)
                if (r != t->id) return false;
    }
    return true;
}
// choose the next thread to run
static void reschedule(bool preferStay) {
    (void)preferStay;
    std::vector<Thread *> rs;
    for (auto *t : threads)
        if (runnable(t)) rs.push_back(t);
    if (rs.empty()) violation("deadlock", "no thread can make progress (deadlock)");
    // what a thread does before its first synchronisation commutes with the others (or races with them)
    for (auto *t : rs)
        if (t->id && !t->started) {
            t->started = true;
            cur = t;
            return;
        }
    if (rs.size() == 1) {
        cur = rs[0];
        return;
    }
    if (++schedCount > gSchedBound) fatal("schedule bound exceeded");
    long k = chooseFork("sched", 0, (long)rs.size() - 1, false);
    extern void recordChoice(const std::string &name, long v);
    recordChoice("sched", rs[k]->id);
    cur = rs[k];
}
void joinAll() {
    joining = true;
    racing = true;
    reschedule(false);
}
static bool isRecursive(uint64_t a) {
    Obj &o = objs[a >> 32];
    uint32_t off = (uint32_t)a + 16; // __kind of pthread_mutex_t
    int k = 0;
    if (off + 4 <= o.size && o.data) memcpy(&k, o.data + off, 4);
    return (k & 3) == 1 && !(o.name.compare(0, 4, "_ZGV") == 0);
}
// returns true when the lock was acquired; false: must retry later (another thread now runs)
bool lockMutex(Thread &t, uint64_t a, bool shared) {
    auto &m = mutexes[a];
    if (racing && t.waitMutex != a) {
        t.waitMutex = a; // scheduling point before the acquisition
        t.waitShared = shared;
        reschedule(false);
        if (cur != &t) return false;
    }
    if (m.owner == t.id && isRecursive(a)) {
        m.depth++;
        t.waitMutex = 0;
        return true;
    }
    if (m.owner == t.id || m.readers.count(t.id)) {
        if (!racing) violation("deadlock", "mutex locked twice by one thread");
        violation("deadlock", "self deadlock on a mutex");
    }
    if (m.owner >= 0 || (!shared && !m.readers.empty())) {
        t.waitMutex = a;
        t.waitShared = shared;
        reschedule(false);
        return false;
    }
    t.waitMutex = 0;
    if (shared) m.readers.insert(t.id);
    else m.owner = t.id;
    t.held++;
    if (racing) {
        vcJoin(t.vc, m.vc);
        if (!shared) vcJoin(t.vc, m.rvc);
    }
    return true;
}
bool tryLock(Thread &t, uint64_t a, bool shared) {
    auto &m = mutexes[a];
    if (m.owner == t.id && isRecursive(a)) {
        m.depth++;
        return true;
    }
    if (m.owner >= 0 || (!shared && !m.readers.empty())) return false;
    if (shared) m.readers.insert(t.id);
    else m.owner = t.id;
    t.held++;
    if (racing) {
        vcJoin(t.vc, m.vc);
        if (!shared) vcJoin(t.vc, m.rvc);
    }
    return true;
}
void unlockMutex(Thread &t, uint64_t a) {
    auto &m = mutexes[a];
    if (m.readers.count(t.id)) {
        m.readers.erase(t.id);
        t.held--;
        if (racing) {
            vcJoin(m.rvc, t.vc);
            t.vc[t.id]++;
        }
        return;
    }
    if (m.owner != t.id) violation("mutex", "mutex unlocked by a thread that does not own it");
    if (m.depth > 0) {
        m.depth--;
        return;
    }
    m.owner = -1;
    t.held--;
    if (racing) {
        m.vc = t.vc;
        t.vc[t.id]++;
    }
}
bool mutexHeld(uint64_t a) { return mutexes.count(a) && mutexes[a].owner >= 0; }
int heldCount(Thread &t) { return t.held; }
void syncAcqRel(Thread &t, uint64_t a, bool acq, bool rel) {
    if (!racing) return;
    if (acq) vcJoin(t.vc, syncVC[a]);
    if (rel) {
        if (acq) syncVC[a] = t.vc;
        else vcJoin(syncVC[a], t.vc);
        t.vc[t.id]++;
    }
}
// a scheduling point before an atomic access (not before the checks of initialised static variables);
// true: another thread runs first
static bool atomicPoint(Thread &t, uint64_t a) {
    if (!racing || (a >> 32) >= objs.size() || objs[a >> 32].kind == 1 || !objs[a >> 32].name.compare(0, 4, "_ZGV") || !objs[a >> 32].name.compare(0, 14, "guard variable"))
        return false;
    if (t.atPoint) {
        t.atPoint = false;
        return false;
    }
    t.atPoint = true;
    reschedule(false);
    if (cur != &t) return true;
    t.atPoint = false;
    return false;
}
static bool acqOrd(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool relOrd(AtomicOrdering o) { return isReleaseOrStronger(o); }
uint64_t tlsAddr(Thread &t, const GlobalVariable *g) {
    uint64_t base = addrOfGlobal(g);
    if (t.id == 0) return base;
    auto it = t.tls.find(base);
    if (it != t.tls.end()) return it->second;
    uint64_t a = newObj(objs[base >> 32].size, 0, "tls " + g->getName().str(), true);
    if (g->hasInitializer()) storeT(a, evalConst(g->getInitializer()), g->getValueType());
    return t.tls[base] = a;
}

// ---------------------------------------------------------------- execution
static void finishReturn(Thread &t, Val rv, bool hasVal) {
    Frame *f = t.st.back();
    const DInst *call = f->call;
    int tag = f->tag;
    uint64_t tagv = f->tagv;
    popFrame(t);
    (void)tag, (void)tagv;
    if (t.st.empty()) {
        t.done = true;
        if (t.id == 0) {
            if (heldCount(t)) violation("mutex", "a mutex is still locked at the end");
            pathEnd("done");
        }
        if (t.held) violation("mutex", "a thread ended while holding a mutex");
        // everything the thread did happens before the join
        vcJoin(threads[0]->vc, t.vc);
        reschedule(false);
        return;
    }
    Frame *c = t.st.back();
    if (call) {
        if (hasVal && call->dst >= 0) c->r[call->dst] = rv;
        if (call->op == Instruction::Invoke) takeEdge(c, call->edges[0]);
        else c->pc++;
    } else
        c->pc++;
}
static Val vecMap2(const Val &a, const Val &b, std::function<Val(const Val &, const Val &)> f) {
    if (a.k != AGGR || b.k != AGGR) fatal("vector op");
    std::vector<Val> v;
    for (size_t i = 0; i < a.agg->v.size(); i++) v.push_back(f(a.agg->v[i], b.agg->v[i]));
    return mkAgg(v);
}
static Val vecMap(const Val &a, std::function<Val(const Val &)> f) {
    if (a.k != AGGR) fatal("vector op");
    std::vector<Val> v;
    for (auto &x : a.agg->v) v.push_back(f(x));
    return mkAgg(v);
}
static bool isFP(Type *t) { return t->isFloatingPointTy(); }
static Val castOne(unsigned op, const Val &v, Type *from, Type *to) {
    unsigned fw = widthOf(from), tw = widthOf(to);
    switch (op) {
    case Instruction::Trunc: {
        if (tw == 1) {
            if (v.k == CONC) return mkC(v.c, 1);
            if (v.k == UNI) return mkU(1);
            extern Val mkBOO(Z3_ast);
            return mkBOO(Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, toBV(v)), bvNum(1, 1)));
        }
        return truncV(v, tw);
    }
    case Instruction::ZExt: return zextV(v, tw, false);
    case Instruction::SExt: return zextV(v, tw, true);
    case Instruction::FPToUI: return fptoi(v, fw, tw, false);
    case Instruction::FPToSI: return fptoi(v, fw, tw, true);
    case Instruction::UIToFP: return itofp(v, tw, false);
    case Instruction::SIToFP: return itofp(v, tw, true);
    case Instruction::FPTrunc:
    case Instruction::FPExt: return fpcast(v, fw, tw);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
        if (fw == tw) return v;
        return tw < fw ? truncV(v, tw) : zextV(v, tw, false);
    case Instruction::AddrSpaceCast: return v;
    }
    fatal("cast");
}
static Val flatten(const Val &v, Type *t) { // vector/aggregate -> integer bits
    if (v.k != AGGR) return v;
    auto *vt = cast<FixedVectorType>(t);
    unsigned ew = widthOf(vt->getElementType());
    Pack *p = new Pack;
    bool allC = true, allU = true;
    u128 c = 0;
    for (size_t i = 0; i < v.agg->v.size(); i++) {
        auto &e = v.agg->v[i];
        if (e.k != CONC && e.k != UNI) allC = false;
        if (e.k != UNI) allU = false;
        if (e.k == CONC) c |= e.c << (ew * i);
        p->v.push_back({(uint32_t)(i * ew / 8), e});
    }
    unsigned w = ew * v.agg->v.size();
    if (allU) return mkU(w);
    if (allC) return mkC(c, w);
    Val r;
    r.k = PACK, r.w = w, r.pk = p;
    return r;
}
static Val unflatten(const Val &v, Type *t) {
    auto *vt = cast<FixedVectorType>(t);
    unsigned ew = widthOf(vt->getElementType());
    std::vector<Val> e;
    for (unsigned i = 0; i < vt->getNumElements(); i++) e.push_back(extractV(v, i * ew, ew));
    return mkAgg(e);
}
static uint64_t ptrOf(const Val &v) {
    if (v.k == CONC) return (uint64_t)v.c;
    if (v.k == UNI) violation("uninitialised", "uninitialised pointer is dereferenced");
    return concretizeU(v, "pointer");
}

std::map<uint64_t, const DInst *> dummy;
#define OP(i) (D.ops[i] >= 0 ? f->r[D.ops[i]] : consts[-D.ops[i] - 1])

static void resolveCall(DInst &D) {
    D.resolved = true;
    auto *cb = cast<CallBase>(D.I);
    if (cb->isInlineAsm()) {
        D.cname = "<asm>";
        D.handler = findHandler("<asm>");
        return;
    }
    Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
    auto *F = dyn_cast<Function>(cv);
    if (!F) return; // indirect
    D.cname = F->getName().str();
    std::string rd = findRedirect(D.cname);
    if (!rd.empty()) {
        Function *R = M->getFunction(rd);
        if (!R || R->isDeclaration()) fatal("redirect target %s missing", rd.c_str());
        D.callee = getFunc(R);
        return;
    }
    D.handler = findHandler(D.cname);
    if (D.handler) return;
    if (F->isDeclaration()) return;
    D.callee = getFunc(F);
}
struct Target {
    Handler *h;
    DFunc *f;
    std::string n;
};
static Target resolveIndirect(Function *F) {
    static std::unordered_map<Function *, Target> memo;
    auto it = memo.find(F);
    if (it != memo.end()) return it->second;
    Target t{nullptr, nullptr, F->getName().str()};
    std::string rd = findRedirect(t.n);
    if (!rd.empty()) {
        Function *R = M->getFunction(rd);
        if (!R || R->isDeclaration()) fatal("redirect target %s missing", rd.c_str());
        t.f = getFunc(R);
    } else if (!(t.h = findHandler(t.n)) && !F->isDeclaration())
        t.f = getFunc(F);
    return memo[F] = t;
}

void step(Thread &t) {
    Frame *f = t.st.back();
    DInst &D = f->f->code[f->pc];
    if ((++gInstr & 0xfffff) == 0) {
        flushStats();
        if (SH->stop) pathEnd("stopped");
        if (gInstr > gMaxInstr) violation("nontermination", "the code does not come to an end (instruction budget of one path exceeded)");
    }
    static bool trace = getenv("PISYM_TRACE") != nullptr;
    if (trace) {
        std::string s;
        raw_string_ostream os(s);
        D.I->print(os);
        fprintf(stderr, "[%d] %s", cur->id, os.str().c_str());
        for (int o : D.ops) {
            const Val &v = o >= 0 ? f->r[o] : consts[-o - 1];
            if (v.k == CONC) fprintf(stderr, " {%lx}", (unsigned long)v.c);
            else fprintf(stderr, " {k%d}", v.k);
        }
        fprintf(stderr, "\n");
    }
    switch (D.op) {
    case Instruction::Ret: {
        Val rv;
        bool has = !D.ops.empty();
        if (has) rv = OP(0);
        finishReturn(t, rv, has);
        return;
    }
    case Instruction::Br:
        if (D.ops.empty()) takeEdge(f, D.edges[0]);
        else takeEdge(f, branchOn(OP(0)) ? D.edges[0] : D.edges[1]);
        return;
    case Instruction::Switch: {
        Val v = OP(0);
        if (v.k == UNI) violation("uninitialised", "switch on an uninitialised value");
        for (size_t i = 0; i < D.cases.size(); i++) {
            Val c = icmp(CmpInst::ICMP_EQ, v, mkC(D.cases[i], v.w));
            if (branchOn(c)) {
                takeEdge(f, D.edges[i + 1]);
                return;
            }
        }
        takeEdge(f, D.edges[0]);
        return;
    }
    case Instruction::Unreachable: violation("unreachable", "unreachable code executed");
    case Instruction::Resume: {
        Val v = OP(0);
        uint64_t o = (uint64_t)v.agg->v[0].c;
        throwExc(t, o);
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke: {
        if (!D.resolved) resolveCall(D);
        Handler *h = D.handler;
        DFunc *cf = D.callee;
        size_t na = D.ops.size() - 1;
        std::vector<Val> args(na);
        for (size_t i = 0; i < na; i++) args[i] = OP(i);
        std::string nm;
        if (!h && !cf) {
            uint64_t a = 0;
            Val cv = OP(na);
            a = ptrOf(cv);
            Function *F = funcAt(a);
            if (!F) {
                char b[100];
                snprintf(b, sizeof b, "call through invalid function pointer 0x%lx", (unsigned long)a);
                violation("memory", b);
            }
            Target tg = resolveIndirect(F);
            h = tg.h, cf = tg.f;
            if (!h && !cf) fatal("unmodelled external function %s (%s)", tg.n.c_str(), demangle(tg.n).c_str());
        }
        if (h) {
            Val ret;
            HRes r = (*h)(t, D, args, ret);
            if (r == H_DONE) {
                f = t.st.back();
                if (D.dst >= 0) f->r[D.dst] = ret;
                if (D.op == Instruction::Invoke) takeEdge(f, D.edges[0]);
                else f->pc++;
            }
            return;
        }
        pushCall(t, cf, args, &D);
        return;
    }
    case Instruction::Alloca: {
        uint64_t n = D.ops.empty() ? 1 : concretizeU(OP(0), "alloca");
        uint64_t a = newObj(D.a * n, 1, "stack");
        f->allocas.push_back(a >> 32);
        f->r[D.dst] = mkC(a, 64);
        f->pc++;
        return;
    }
    case Instruction::Load: {
        uint64_t a = ptrOf(OP(0));
        if (cast<LoadInst>(D.I)->isAtomic()) {
            if (atomicPoint(t, a)) return;
            syncAcqRel(t, a, acqOrd(cast<LoadInst>(D.I)->getOrdering()), false);
            bool r = racing;
            racing = false;
            f->r[D.dst] = loadT(a, D.ty);
            racing = r;
        } else if (D.w)
            f->r[D.dst] = loadBits(a, (D.w + 7) / 8, D.w);
        else
            f->r[D.dst] = loadT(a, D.ty);
        f->pc++;
        return;
    }
    case Instruction::Store: {
        uint64_t a = ptrOf(OP(1));
        if (cast<StoreInst>(D.I)->isAtomic()) {
            if (atomicPoint(t, a)) return;
            syncAcqRel(t, a, false, relOrd(cast<StoreInst>(D.I)->getOrdering()));
            bool r = racing;
            racing = false;
            storeT(a, OP(0), D.ty);
            racing = r;
        } else
            storeT(a, OP(0), D.ty);
        f->pc++;
        return;
    }
    case Instruction::GetElementPtr: {
        const Val &b = OP(0);
        Val r = intBin(Instruction::Add, b, mkC((u128)(i128)(int64_t)D.a, 64), 64);
        for (auto &i : D.idx) {
            Val x = i.first >= 0 ? f->r[i.first] : consts[-i.first - 1];
            if (x.w != 64) x = zextV(x, 64, true);
            if (i.second != 1) x = intBin(Instruction::Mul, x, mkC(i.second, 64), 64);
            r = intBin(Instruction::Add, r, x, 64);
        }
        f->r[D.dst] = r;
        f->pc++;
        return;
    }
    case Instruction::Fence: f->pc++; return;
    case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(D.I);
        uint64_t a = ptrOf(OP(0));
        if (atomicPoint(t, a)) return;
        syncAcqRel(t, a, acqOrd(rm->getOrdering()), relOrd(rm->getOrdering()));
        bool rc = racing;
        racing = false;
        Val old = loadT(a, D.ty), v = OP(1), nv;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = intBin(Instruction::Add, old, v, D.w); break;
        case AtomicRMWInst::Sub: nv = intBin(Instruction::Sub, old, v, D.w); break;
        case AtomicRMWInst::And: nv = intBin(Instruction::And, old, v, D.w); break;
        case AtomicRMWInst::Or: nv = intBin(Instruction::Or, old, v, D.w); break;
        case AtomicRMWInst::Xor: nv = intBin(Instruction::Xor, old, v, D.w); break;
        default: fatal("atomicrmw");
        }
        storeT(a, nv, D.ty);
        racing = rc;
        f->r[D.dst] = old;
        f->pc++;
        return;
    }
    case Instruction::AtomicCmpXchg: {
        uint64_t a = ptrOf(OP(0));
        if (atomicPoint(t, a)) return;
        {
            auto o = cast<AtomicCmpXchgInst>(D.I)->getSuccessOrdering();
            syncAcqRel(t, a, acqOrd(o), relOrd(o));
        }
        bool rc = racing;
        racing = false;
        Type *ty = cast<AtomicCmpXchgInst>(D.I)->getCompareOperand()->getType();
        Val old = loadT(a, ty);
        bool eq = branchOn(icmp(CmpInst::ICMP_EQ, old, OP(1)));
        if (eq) storeT(a, OP(2), ty);
        racing = rc;
        f->r[D.dst] = mkAgg({old, mkC(eq, 1)});
        f->pc++;
        return;
    }
    case Instruction::FNeg: {
        Val a = OP(0);
        f->r[D.dst] = a.k == AGGR ? vecMap(a, [&](const Val &x) { return fpNeg(x, x.w); }) : fpNeg(a, D.w);
        f->pc++;
        return;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    case Instruction::FRem: {
        const Val &a = OP(0), &b = OP(1);
        if (a.k == AGGR || b.k == AGGR) {
            unsigned w = widthOf(D.ty->getScalarType());
            f->r[D.dst] = vecMap2(a, b, [&](const Val &x, const Val &y) { return fpBin(D.op, x, y, w); });
        } else
            f->r[D.dst] = fpBin(D.op, a, b, D.w);
        f->pc++;
        return;
    }
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor: {
        const Val &a = OP(0), &b = OP(1);
        if (a.k == AGGR || b.k == AGGR) {
            unsigned w = widthOf(D.ty->getScalarType());
            f->r[D.dst] = vecMap2(a, b, [&](const Val &x, const Val &y) { return intBin(D.op, x, y, w); });
        } else
            f->r[D.dst] = intBin(D.op, a, b, D.w);
        f->pc++;
        return;
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
        auto *ci = cast<CmpInst>(D.I);
        unsigned p = ci->getPredicate();
        const Val &a = OP(0), &b = OP(1);
        if (a.k == AGGR || b.k == AGGR)
            f->r[D.dst] = vecMap2(a, b, [&](const Val &x, const Val &y) { return D.op == Instruction::ICmp ? icmp(p, x, y) : fcmp(p, x, y, x.w); });
        else
            f->r[D.dst] = D.op == Instruction::ICmp ? icmp(p, a, b) : fcmp(p, a, b, D.w2);
        f->pc++;
        return;
    }
    case Instruction::Select: {
        Val c = OP(0);
        if (c.k == AGGR) {
            Val a = OP(1), b = OP(2);
            std::vector<Val> v;
            for (size_t i = 0; i < c.agg->v.size(); i++) v.push_back(selectV(c.agg->v[i], a.agg->v[i], b.agg->v[i]));
            f->r[D.dst] = mkAgg(v);
        } else if (D.ty->isPointerTy() && c.k != CONC && c.k != UNI)
            f->r[D.dst] = branchOn(c) ? OP(1) : OP(2);
        else if (c.k == UNI)
            f->r[D.dst] = undefOf(D.ty);
        else
            f->r[D.dst] = selectV(c, OP(1), OP(2));
        f->pc++;
        return;
    }
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPTrunc:
    case Instruction::FPExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast: {
        Val v = OP(0);
        Type *from = D.I->getOperand(0)->getType();
        if (v.k == AGGR) f->r[D.dst] = vecMap(v, [&](const Val &x) { return castOne(D.op, x, from->getScalarType(), D.ty->getScalarType()); });
        else f->r[D.dst] = castOne(D.op, v, from, D.ty);
        f->pc++;
        return;
    }
    case Instruction::BitCast: {
        Val v = OP(0);
        Type *from = D.I->getOperand(0)->getType();
        if (from->isVectorTy()) v = flatten(v, from);
        if (D.ty->isVectorTy()) v = unflatten(v, D.ty);
        f->r[D.dst] = v;
        f->pc++;
        return;
    }
    case Instruction::Freeze: {
        Val v = OP(0);
        f->r[D.dst] = v;
        f->pc++;
        return;
    }
    case Instruction::ExtractValue: {
        Val v = OP(0);
        for (unsigned i : cast<ExtractValueInst>(D.I)->indices()) {
            if (v.k != AGGR) fatal("extractvalue");
            Val n = v.agg->v[i];
            v = n;
        }
        f->r[D.dst] = v;
        f->pc++;
        return;
    }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(D.I);
        std::function<Val(const Val &, unsigned)> ins = [&](const Val &base, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return OP(1);
            std::vector<Val> v = base.agg->v;
            unsigned i = iv->getIndices()[d];
            v[i] = ins(v[i], d + 1);
            return mkAgg(v);
        };
        f->r[D.dst] = ins(OP(0), 0);
        f->pc++;
        return;
    }
    case Instruction::ExtractElement: {
        Val v = OP(0);
        uint64_t i = concretizeU(OP(1), "vector index");
        f->r[D.dst] = v.agg->v.at(i);
        f->pc++;
        return;
    }
    case Instruction::InsertElement: {
        std::vector<Val> v = OP(0).agg->v;
        v.at(concretizeU(OP(2), "vector index")) = OP(1);
        f->r[D.dst] = mkAgg(v);
        f->pc++;
        return;
    }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(D.I);
        Val a = OP(0), b = OP(1);
        std::vector<Val> v;
        int n = a.agg->v.size();
        for (int m : sv->getShuffleMask()) {
            if (m < 0) v.push_back(mkU(a.agg->v[0].w));
            else v.push_back(m < n ? a.agg->v[m] : b.agg->v[m - n]);
        }
        f->r[D.dst] = mkAgg(v);
        f->pc++;
        return;
    }
    default: fatal("unsupported instruction %s", D.I->getOpcodeName());
    }
}
void runAll() {
    while (true) step(*cur);
}
void initModule() {
    for (auto &g : M->globals()) addrOfGlobal(&g);
    for (auto &g : M->globals()) initGlobal(&g);
}
// run one function to completion before the entry (static constructors)
void runCtor(Function *F) {
    Thread &t = *cur;
    size_t base = t.st.size();
    pushCall(t, getFunc(F), {}, nullptr);
    while (t.st.size() > base) {
        if (t.st.size() == base + 1) {
            Frame *f = t.st.back();
            if (f->f->code[f->pc].op == Instruction::Ret) {
                popFrame(t);
                break;
            }
        }
        step(t);
    }
}
