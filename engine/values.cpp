// Operations on values.
#include "interp.h"
bool gRealMode = false;
bool gAllowDivZero = false;

static Z3_ast zTrue() { return Z3_mk_true(Z); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast rne() { return Z3_mk_fpa_rne(Z); }

Val mkBOO(Z3_ast a) {
    a = simp(a);
    if (isTrue(a)) return mkC(1, 1);
    if (isFalse(a)) return mkC(0, 1);
    Val v;
    v.k = BOO;
    v.w = 1;
    v.a = a;
    return v;
}
Val mkSBV(Z3_ast a, unsigned w) {
    a = simp(a);
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST && w <= 64) {
        uint64_t n;
        if (Z3_get_numeral_uint64(Z, a, &n)) return mkC(n, w);
    }
    Val v;
    v.k = SBV;
    v.w = w;
    v.a = a;
    return v;
}
Val toVal(Z3_ast a, unsigned w) { return mkSBV(a, w); }
Val mkSFP(Z3_ast a, unsigned w) {
    Val v;
    v.k = SFP;
    v.w = w;
    v.a = simp(a);
    return v;
}
Val mkRE(PolyP p, unsigned w) {
    Val v;
    v.k = RE;
    v.w = w;
    v.p = p;
    return v;
}
Val mkDY(Z3_ast num, int sc, int64_t lo, int64_t hi, unsigned w) {
    num = simp(num);
    if (Z3_get_ast_kind(Z, num) == Z3_NUMERAL_AST) {
        uint64_t n;
        if (Z3_get_numeral_uint64(Z, num, &n)) return fromD(std::ldexp((double)(int64_t)n, -sc), w);
    }
    Val v;
    v.k = DY;
    v.w = w;
    v.dy = new Dy{num, sc, lo, hi};
    return v;
}
double toD(const Val &v) {
    if (v.w == 32) {
        uint32_t b = (uint32_t)v.c;
        float f;
        memcpy(&f, &b, 4);
        return f;
    }
    if (v.w == 64) {
        uint64_t b = (uint64_t)v.c;
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    long double l = 0;
    memcpy(&l, &v.c, 10);
    return (double)l;
}
static long double toLD(const Val &v) {
    if (v.w != 80) return toD(v);
    long double l = 0;
    memcpy(&l, &v.c, 10);
    return l;
}
static Val fromLD(long double l, unsigned w) {
    if (w == 80) {
        u128 c = 0;
        memcpy(&c, &l, 10);
        return mkC(c, 80);
    }
    return fromD((double)l, w);
}
Val fromD(double d, unsigned w) {
    if (w == 32) {
        float f = (float)d;
        uint32_t b;
        memcpy(&b, &f, 4);
        return mkC(b, 32);
    }
    if (w == 80) return fromLD(d, 80);
    uint64_t b;
    memcpy(&b, &d, 8);
    return mkC(b, 64);
}
static Z3_ast dyFP(Dy *d, unsigned w) {
    Z3_ast &slot = w == 32 ? d->fp32 : d->fp64;
    if (slot) return slot;
    Z3_ast f = Z3_mk_fpa_to_fp_signed(Z, rne(), d->num, fps(w));
    Z3_ast s = Z3_mk_fpa_numeral_double(Z, std::ldexp(1., -d->sc), fps(w));
    return slot = simp(Z3_mk_fpa_mul(Z, rne(), f, s));
}
Z3_ast toFP(const Val &v, unsigned w) {
    switch (v.k) {
    case CONC:
        if (w == 80) fatal("symbolic long double");
        return Z3_mk_fpa_to_fp_bv(Z, bvNum(v.c, w), fps(w));
    case SBV: return Z3_mk_fpa_to_fp_bv(Z, v.a, fps(w));
    case SFP: return v.a;
    case DY: return dyFP(v.dy, w);
    case PACK: return Z3_mk_fpa_to_fp_bv(Z, toBV(v), fps(w));
    default: fatal("toFP of kind %d", v.k);
    }
}
Z3_ast toBV(const Val &v) {
    switch (v.k) {
    case CONC: return bvNum(v.c, v.w);
    case SBV: return v.a;
    case BOO: return Z3_mk_ite(Z, v.a, bvNum(1, 1), bvNum(0, 1));
    case SFP: return Z3_mk_fpa_to_ieee_bv(Z, v.a);
    case DY: return Z3_mk_fpa_to_ieee_bv(Z, dyFP(v.dy, v.w));
    case RE:
        if (v.p->isConst()) return bvNum(fromD(v.p->constVal().get_d(), v.w).c, v.w);
        fatal("bits of an exact real are needed: %s", pStr(v.p).c_str());
    case PACK: {
        Z3_ast r = nullptr;
        uint32_t at = 0;
        auto push = [&](Z3_ast x) { r = r ? Z3_mk_concat(Z, x, r) : x; };
        for (auto &p : v.pk->v) {
            if (p.first > at) push(bvNum(0, (p.first - at) * 8));
            Val q = p.second;
            if (q.k == UNI) q = mkC(0, q.w);
            push(toBV(q));
            at = p.first + q.w / 8;
        }
        if (at * 8 < v.w) push(bvNum(0, v.w - at * 8));
        return simp(r);
    }
    case UNI: fatal("use of uninitialised value");
    default: fatal("toBV of aggregate");
    }
}
Z3_ast toBool(const Val &v) {
    if (v.k == BOO) return v.a;
    if (v.k == CONC) return v.c & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z);
    return Z3_mk_eq(Z, toBV(v), bvNum(1, v.w));
}
bool branchOn(const Val &c) {
    if (c.k == CONC) return c.c & 1;
    if (c.k == UNI) violation("uninitialised", "control flow depends on an uninitialised value");
    return decide(toBool(c));
}
static mpq_class dToQ(double d) { return mpq_class(d); }
PolyP toRE(const Val &v0) {
    Val v = v0;
    if (v.k == RE) return v.p;
    if (v.k == DY || v.k == SFP || v.k == SBV) v = concretizeV(v, "real conversion");
    if (v.k == CONC) {
        if (v.w == 80) return pConst(dToQ((double)toLD(v)));
        double d = toD(v);
        if (!std::isfinite(d)) fatal("infinity or NaN in exact arithmetic");
        return pConst(dToQ(d));
    }
    fatal("toRE kind %d", v.k);
}
// ---------- dyadic helpers
static bool concDy(const Val &v, int64_t &num, int &sc) {
    double d = v.w == 80 ? (double)toLD(v) : toD(v);
    if (!std::isfinite(d)) return false;
    for (sc = 0; sc <= 12; sc++) {
        double s = std::ldexp(d, sc);
        if (std::fabs(s) > 1e15) return false;
        if (s == std::floor(s)) {
            num = (int64_t)s;
            return true;
        }
    }
    return false;
}
static bool dyOf(const Val &v, Z3_ast &num, int &sc, int64_t &lo, int64_t &hi) {
    if (v.k == DY) {
        num = v.dy->num, sc = v.dy->sc, lo = v.dy->lo, hi = v.dy->hi;
        return true;
    }
    if (v.k == CONC) {
        int64_t n;
        if (!concDy(v, n, sc)) return false;
        num = bvNum((u128)(i128)n, 64), lo = hi = n;
        return true;
    }
    return false;
}
static Z3_ast shlBy(Z3_ast a, int s) {
    if (!s) return a;
    Z3_ast m = bvNum((u128)1 << s, 64);
    return Z3_mk_bvmul(Z, a, m);
}
static int64_t exactLimit(unsigned w) { return w == 32 ? (1ll << 24) : (1ll << 52); }

static long double ldop(unsigned op, long double a, long double b) {
    switch (op) {
    case Instruction::FAdd: return a + b;
    case Instruction::FSub: return a - b;
    case Instruction::FMul: return a * b;
    case Instruction::FDiv: return a / b;
    case Instruction::FRem: return fmodl(a, b);
    }
    return 0;
}
template <class T> static T fop(unsigned op, T a, T b) {
    volatile T x = a, y = b;
    switch (op) {
    case Instruction::FAdd: return x + y;
    case Instruction::FSub: return x - y;
    case Instruction::FMul: return x * y;
    case Instruction::FDiv: return x / y;
    case Instruction::FRem: return std::fmod((T)x, (T)y);
    }
    return 0;
}
Val fpBin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == CONC && b.k == CONC) {
        if (w == 80) return fromLD(ldop(op, toLD(a), toLD(b)), 80);
        if (w == 32) return fromD(fop<float>(op, (float)toD(a), (float)toD(b)), 32);
        return fromD(fop<double>(op, toD(a), toD(b)), 64);
    }
    if (a.k == UNI || b.k == UNI) return mkU(w);
    if (a.k == RE || b.k == RE) {
    real:
        // 0*x etc. with non-finite constants are not supported
        PolyP x = toRE(a), y = toRE(b);
        switch (op) {
        case Instruction::FAdd: return mkRE(pAdd(x, y), w);
        case Instruction::FSub: return mkRE(pSub(x, y), w);
        case Instruction::FMul: return mkRE(pMul(x, y), w);
        case Instruction::FDiv: return mkRE(pDiv(x, y), w);
        default: fatal("frem on exact real");
        }
    }
    if (a.k == DY || b.k == DY) {
        Z3_ast na, nb;
        int sa, sb;
        int64_t la, ha, lb, hb;
        if (dyOf(a, na, sa, la, ha) && dyOf(b, nb, sb, lb, hb)) {
            if (op == Instruction::FAdd || op == Instruction::FSub) {
                int s = std::max(sa, sb);
                i128 LA = (i128)la << (s - sa), HA = (i128)ha << (s - sa), LB = (i128)lb << (s - sb), HB = (i128)hb << (s - sb);
                i128 lo = op == Instruction::FAdd ? LA + LB : LA - HB, hi = op == Instruction::FAdd ? HA + HB : HA - LB;
                if (lo >= -exactLimit(w) && hi <= exactLimit(w)) {
                    Z3_ast x = shlBy(na, s - sa), y = shlBy(nb, s - sb);
                    Z3_ast n = op == Instruction::FAdd ? Z3_mk_bvadd(Z, x, y) : Z3_mk_bvsub(Z, x, y);
                    return mkDY(n, s, (int64_t)lo, (int64_t)hi, w);
                }
            } else if (op == Instruction::FMul) {
                i128 c[4] = {(i128)la * lb, (i128)la * hb, (i128)ha * lb, (i128)ha * hb};
                i128 lo = c[0], hi = c[0];
                for (auto q : c) lo = std::min(lo, q), hi = std::max(hi, q);
                if (lo >= -exactLimit(w) && hi <= exactLimit(w) && sa + sb <= 20)
                    return mkDY(Z3_mk_bvmul(Z, na, nb), sa + sb, (int64_t)lo, (int64_t)hi, w);
            } else if (op == Instruction::FDiv && b.k == CONC) {
                double d = toD(b);
                int e;
                double m = std::frexp(std::fabs(d), &e);
                if (m == 0.5 && e - 1 >= 0 && sa + e - 1 <= 20) {
                    Z3_ast n = d < 0 ? Z3_mk_bvneg(Z, na) : na;
                    return mkDY(n, sa + e - 1, d < 0 ? -ha : la, d < 0 ? -la : ha, w);
                }
            }
        }
        if (gRealMode) goto real;
        if (a.k == SFP || b.k == SFP || a.k == SBV || b.k == SBV) goto fpa;
        // small domains: enumerate
        Val x = concretizeV(a, "dyadic"), y = concretizeV(b, "dyadic");
        return fpBin(op, x, y, w);
    }
fpa:
    if (w == 80) return fpBin(op, concretizeV(a, "long double"), concretizeV(b, "long double"), w);
    Z3_ast x = toFP(a, w), y = toFP(b, w);
    switch (op) {
    case Instruction::FAdd: return mkSFP(Z3_mk_fpa_add(Z, rne(), x, y), w);
    case Instruction::FSub: return mkSFP(Z3_mk_fpa_sub(Z, rne(), x, y), w);
    case Instruction::FMul: return mkSFP(Z3_mk_fpa_mul(Z, rne(), x, y), w);
    case Instruction::FDiv: return mkSFP(Z3_mk_fpa_div(Z, rne(), x, y), w);
    default: fatal("frem on symbolic float");
    }
}
static Val boolC(bool b) { return mkC(b, 1); }
Val fcmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
    typedef CmpInst C;
    if (pred == C::FCMP_TRUE) return boolC(1);
    if (pred == C::FCMP_FALSE) return boolC(0);
    if (a.k == CONC && b.k == CONC) {
        long double x = toLD(a), y = toLD(b);
        bool uno = std::isnan(x) || std::isnan(y);
        bool r = false;
        switch (pred) {
        case C::FCMP_OEQ: r = !uno && x == y; break;
        case C::FCMP_OGT: r = !uno && x > y; break;
        case C::FCMP_OGE: r = !uno && x >= y; break;
        case C::FCMP_OLT: r = !uno && x < y; break;
        case C::FCMP_OLE: r = !uno && x <= y; break;
        case C::FCMP_ONE: r = !uno && x != y; break;
        case C::FCMP_ORD: r = !uno; break;
        case C::FCMP_UNO: r = uno; break;
        case C::FCMP_UEQ: r = uno || x == y; break;
        case C::FCMP_UGT: r = uno || x > y; break;
        case C::FCMP_UGE: r = uno || x >= y; break;
        case C::FCMP_ULT: r = uno || x < y; break;
        case C::FCMP_ULE: r = uno || x <= y; break;
        case C::FCMP_UNE: r = uno || x != y; break;
        }
        return boolC(r);
    }
    if (a.k == UNI || b.k == UNI) return mkU(1);
    // raw bit patterns: comparison in bit-vector logic
    if ((w == 64 || w == 32) && (a.k == SBV || b.k == SBV) && (a.k == SBV || a.k == CONC) && (b.k == SBV || b.k == CONC)) {
        Z3_ast x = toBV(a), y = toBV(b);
        u128 sgn = (u128)1 << (w - 1), inf = w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000ull;
        Z3_ast zero = bvNum(0, w), mag = bvNum(sgn - 1, w), ninf = bvNum(inf, w);
        auto And = [](Z3_ast p, Z3_ast q) { Z3_ast v[2] = {p, q}; return Z3_mk_and(Z, 2, v); };
        auto Or = [](Z3_ast p, Z3_ast q) { Z3_ast v[2] = {p, q}; return Z3_mk_or(Z, 2, v); };
        Z3_ast ax = Z3_mk_bvand(Z, x, mag), ay = Z3_mk_bvand(Z, y, mag);
        Z3_ast nan = Or(Z3_mk_bvugt(Z, ax, ninf), Z3_mk_bvugt(Z, ay, ninf));
        Z3_ast bothz = And(Z3_mk_eq(Z, ax, zero), Z3_mk_eq(Z, ay, zero));
        Z3_ast eq = Or(Z3_mk_eq(Z, x, y), bothz);
        Z3_ast nx = Z3_mk_bvslt(Z, x, zero), ny = Z3_mk_bvslt(Z, y, zero);
        // key: order-preserving map of the sign-magnitude numbers
        Z3_ast lt = And(Z3_mk_not(Z, bothz), Z3_mk_ite(Z, nx, Z3_mk_ite(Z, ny, Z3_mk_bvugt(Z, x, y), Z3_mk_true(Z)),
                                                      Z3_mk_ite(Z, ny, Z3_mk_false(Z), Z3_mk_bvult(Z, x, y))));
        Z3_ast gt = And(Z3_mk_not(Z, eq), Z3_mk_not(Z, lt));
        Z3_ast r = nullptr;
        switch (pred & 7) {
        case 0: r = Z3_mk_false(Z); break;
        case 1: r = eq; break;
        case 2: r = gt; break;
        case 3: r = Z3_mk_not(Z, lt); break;
        case 4: r = lt; break;
        case 5: r = Or(lt, eq); break;
        case 6: r = Z3_mk_not(Z, eq); break;
        case 7: r = Z3_mk_true(Z); break;
        }
        return mkBOO(pred & 8 ? Or(nan, r) : And(Z3_mk_not(Z, nan), r));
    }
    bool ra = a.k == RE || a.k == DY, rb = b.k == RE || b.k == DY;
    if ((ra && (rb || b.k == CONC)) || (rb && a.k == CONC)) {
        // no NaN except a constant one
        for (auto v : {&a, &b})
            if (v->k == CONC) {
                long double d = toLD(*v);
                if (std::isnan(d)) return boolC(pred >= C::FCMP_UNO);
                if (std::isinf(d)) {
                    // the other one is finite
                    double fa = v == &a ? d : 0, fb = v == &b ? d : 0;
                    return fcmp(pred, fromD(fa, 64), fromD(fb, 64), 64);
                }
            }
        if (pred == C::FCMP_ORD) return boolC(1);
        if (pred == C::FCMP_UNO) return boolC(0);
        unsigned p = pred >= C::FCMP_UNO ? pred - C::FCMP_UNO + C::FCMP_FALSE : pred; // ueq->oeq etc
        // FCMP_UEQ=9 -> 1 ; UNO=8 -> 0
        if (a.k == RE || b.k == RE) {
            PolyP x = toRE(a), y = toRE(b);
            PolyP d = pSub(x, y);
            if (d->isConst()) {
                int s = sgn(d->constVal());
                switch (p) {
                case C::FCMP_OEQ: return boolC(s == 0);
                case C::FCMP_OGT: return boolC(s > 0);
                case C::FCMP_OGE: return boolC(s >= 0);
                case C::FCMP_OLT: return boolC(s < 0);
                case C::FCMP_OLE: return boolC(s <= 0);
                case C::FCMP_ONE: return boolC(s != 0);
                }
            }
            // decided eagerly: keeps the constraints conjunctive (no disjunctions for NRA)
            switch (p) {
            case C::FCMP_OEQ: return boolC(pDecideEq(x, y));
            case C::FCMP_ONE: return boolC(!pDecideEq(x, y));
            case C::FCMP_OLT: return boolC(pDecideLess(x, y, false));
            case C::FCMP_OLE: return boolC(pDecideLess(x, y, true));
            case C::FCMP_OGT: return boolC(pDecideLess(y, x, false));
            case C::FCMP_OGE: return boolC(pDecideLess(y, x, true));
            }
        }
        Z3_ast na, nb;
        int sa, sb;
        int64_t la, ha, lb, hb;
        if (dyOf(a, na, sa, la, ha) && dyOf(b, nb, sb, lb, hb)) {
            int s = std::max(sa, sb);
            if (std::max(std::llabs(la), std::llabs(ha)) < (1ll << 50) && std::max(std::llabs(lb), std::llabs(hb)) < (1ll << 50)) {
                i128 LA = (i128)la << (s - sa), HA = (i128)ha << (s - sa), LB = (i128)lb << (s - sb), HB = (i128)hb << (s - sb);
                bool lt = HA < LB, gt = LA > HB, le = HA <= LB, ge = LA >= HB;
                switch (p) {
                case C::FCMP_OEQ: if (lt || gt) return boolC(0); break;
                case C::FCMP_ONE: if (lt || gt) return boolC(1); break;
                case C::FCMP_OLT: if (lt) return boolC(1); if (ge) return boolC(0); break;
                case C::FCMP_OLE: if (le) return boolC(1); if (gt) return boolC(0); break;
                case C::FCMP_OGT: if (gt) return boolC(1); if (le) return boolC(0); break;
                case C::FCMP_OGE: if (ge) return boolC(1); if (lt) return boolC(0); break;
                }
                Z3_ast x = shlBy(na, s - sa), y = shlBy(nb, s - sb);
                switch (p) {
                case C::FCMP_OEQ: return mkBOO(Z3_mk_eq(Z, x, y));
                case C::FCMP_ONE: return mkBOO(Z3_mk_not(Z, Z3_mk_eq(Z, x, y)));
                case C::FCMP_OLT: return mkBOO(Z3_mk_bvslt(Z, x, y));
                case C::FCMP_OLE: return mkBOO(Z3_mk_bvsle(Z, x, y));
                case C::FCMP_OGT: return mkBOO(Z3_mk_bvsgt(Z, x, y));
                case C::FCMP_OGE: return mkBOO(Z3_mk_bvsge(Z, x, y));
                }
            }
        }
        // dyadic against a constant that is not a small dyadic
        const Val &dv = a.k == DY ? a : b;
        const Val &cv = a.k == DY ? b : a;
        double c = (double)toLD(cv);
        bool flip = a.k != DY; // c pred dy
        double lo = std::ldexp((double)dv.dy->lo, -dv.dy->sc), hi = std::ldexp((double)dv.dy->hi, -dv.dy->sc);
        unsigned q = p;
        if (flip) q = p == C::FCMP_OLT ? C::FCMP_OGT : p == C::FCMP_OGT ? C::FCMP_OLT : p == C::FCMP_OLE ? C::FCMP_OGE : p == C::FCMP_OGE ? C::FCMP_OLE : p;
        if (hi < c || lo > c) {
            bool below = hi < c;
            switch (q) {
            case C::FCMP_OEQ: return boolC(0);
            case C::FCMP_ONE: return boolC(1);
            case C::FCMP_OLT: case C::FCMP_OLE: return boolC(below);
            default: return boolC(!below);
            }
        }
        double t = std::ldexp(c, dv.dy->sc);
        if (t == std::floor(t)) {
            Z3_ast k = bvNum((u128)(i128)(int64_t)t, 64);
            switch (q) {
            case C::FCMP_OEQ: return mkBOO(Z3_mk_eq(Z, dv.dy->num, k));
            case C::FCMP_ONE: return mkBOO(Z3_mk_not(Z, Z3_mk_eq(Z, dv.dy->num, k)));
            case C::FCMP_OLT: return mkBOO(Z3_mk_bvslt(Z, dv.dy->num, k));
            case C::FCMP_OLE: return mkBOO(Z3_mk_bvsle(Z, dv.dy->num, k));
            case C::FCMP_OGT: return mkBOO(Z3_mk_bvsgt(Z, dv.dy->num, k));
            default: return mkBOO(Z3_mk_bvsge(Z, dv.dy->num, k));
            }
        }
        Z3_ast fl = bvNum((u128)(i128)(int64_t)std::floor(t), 64);
        switch (q) {
        case C::FCMP_OEQ: return boolC(0);
        case C::FCMP_ONE: return boolC(1);
        case C::FCMP_OLT: case C::FCMP_OLE: return mkBOO(Z3_mk_bvsle(Z, dv.dy->num, fl));
        default: return mkBOO(Z3_mk_bvsgt(Z, dv.dy->num, fl));
        }
    }
    if (a.k == RE || b.k == RE) fatal("comparison of exact real with symbolic float");
    Z3_ast x = toFP(a, w), y = toFP(b, w);
    Z3_ast xn = Z3_mk_fpa_is_nan(Z, x), yn = Z3_mk_fpa_is_nan(Z, y);
    Z3_ast un[2] = {xn, yn};
    Z3_ast uno = Z3_mk_or(Z, 2, un);
    Z3_ast r;
    unsigned p = pred >= C::FCMP_UNO ? pred - C::FCMP_UNO : pred;
    switch (p) {
    case C::FCMP_FALSE: r = uno; return mkBOO(uno); // UNO
    case C::FCMP_ORD: return mkBOO(Z3_mk_not(Z, uno));
    case C::FCMP_OEQ: r = Z3_mk_fpa_eq(Z, x, y); break;
    case C::FCMP_OGT: r = Z3_mk_fpa_gt(Z, x, y); break;
    case C::FCMP_OGE: r = Z3_mk_fpa_geq(Z, x, y); break;
    case C::FCMP_OLT: r = Z3_mk_fpa_lt(Z, x, y); break;
    case C::FCMP_OLE: r = Z3_mk_fpa_leq(Z, x, y); break;
    case C::FCMP_ONE: {
        Z3_ast q[2] = {Z3_mk_not(Z, uno), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y))};
        r = Z3_mk_and(Z, 2, q);
        break;
    }
    default: fatal("fcmp predicate");
    }
    if (pred >= C::FCMP_UNO) {
        Z3_ast q[2] = {uno, r};
        r = Z3_mk_or(Z, 2, q);
    }
    return mkBOO(r);
}

// ---------- unary / library functions on floating point
Val fpNeg(const Val &a, unsigned w) {
    switch (a.k) {
    case CONC: {
        return mkC(a.c ^ ((u128)1 << (w - 1)), w);
    }
    case UNI: return mkU(w);
    case RE: return mkRE(pNeg(a.p), w);
    case DY: return mkDY(Z3_mk_bvneg(Z, a.dy->num), a.dy->sc, -a.dy->hi, -a.dy->lo, w);
    default: return mkSFP(Z3_mk_fpa_neg(Z, toFP(a, w)), w);
    }
}
static long double hostUn(const std::string &f, long double x, unsigned w, bool &ok) {
    ok = true;
#define U(n) if (f == #n) return w == 32 ? (long double)std::n((float)x) : w == 64 ? (long double)std::n((double)x) : std::n(x);
    U(sqrt) U(fabs) U(exp) U(exp2) U(expm1) U(log) U(log2) U(log10) U(log1p) U(sin) U(cos) U(tan) U(asin) U(acos) U(atan) U(sinh) U(cosh) U(tanh)
    U(floor) U(ceil) U(trunc) U(round) U(rint) U(nearbyint) U(cbrt) U(tgamma) U(lgamma) U(erf) U(erfc)
#undef U
    if (f == "roundeven") return w == 32 ? (long double)std::nearbyint((float)x) : w == 64 ? (long double)std::nearbyint((double)x) : std::nearbyint(x);
    ok = false;
    return 0;
}
// integer n with n <= x < n+1, found with the solver
static mpz_class floorInt(PolyP x) {
    if (x->isConst()) {
        mpz_class r;
        mpq_class q = x->constVal();
        mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        return r;
    }
    extern bool pQuickBound(PolyP, mpq_class &, mpq_class &);
    mpq_class lo, hi;
    if (!pQuickBound(x, lo, hi)) { lo = -4096, hi = 4096; }
    mpz_class l, h;
    mpz_fdiv_q(l.get_mpz_t(), lo.get_num().get_mpz_t(), lo.get_den().get_mpz_t());
    mpz_fdiv_q(h.get_mpz_t(), hi.get_num().get_mpz_t(), hi.get_den().get_mpz_t());
    while (l < h) { // binary search by branching
        mpz_class mid = (l + h + 1);
        mpz_fdiv_q_2exp(mid.get_mpz_t(), mid.get_mpz_t(), 1);
        if (pDecideLess(x, pConst(mpq_class(mid)), false)) h = mid - 1;
        else l = mid;
    }
    return l;
}
Val fpUn(const std::string &fn, const Val &a, unsigned w) {
    if (a.k == UNI) return mkU(w);
    if (a.k == CONC) {
        bool ok;
        long double r = hostUn(fn, toLD(a), w, ok);
        if (!ok) fatal("unknown function %s", fn.c_str());
        return fromLD(r, w);
    }
    if (fn == "fabs") {
        if (a.k == RE) {
            if (pDecideLess(a.p, pConst(0), false)) return mkRE(pNeg(a.p), w);
            return a;
        }
        if (a.k == DY) {
            Z3_ast n = a.dy->num;
            if (a.dy->lo >= 0) return a;
            if (a.dy->hi <= 0) return fpNeg(a, w);
            return mkDY(Z3_mk_ite(Z, Z3_mk_bvslt(Z, n, bvNum(0, 64)), Z3_mk_bvneg(Z, n), n), a.dy->sc, 0,
                        std::max(-a.dy->lo, a.dy->hi), w);
        }
        return mkSFP(Z3_mk_fpa_abs(Z, toFP(a, w)), w);
    }
    if (a.k == DY && (fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "rint" || fn == "round" || fn == "nearbyint" || fn == "roundeven")) {
        int s = a.dy->sc;
        if (s == 0) return a;
        Z3_ast n = a.dy->num, sh = bvNum(s, 64), one = bvNum((u128)1 << s, 64);
        Z3_ast fl = Z3_mk_bvashr(Z, n, sh);
        int64_t d = 1ll << s;
        if (fn == "floor") return mkDY(fl, 0, (a.dy->lo >> s), (a.dy->hi >> s), w);
        Z3_ast ce = Z3_mk_bvneg(Z, Z3_mk_bvashr(Z, Z3_mk_bvneg(Z, n), sh));
        if (fn == "ceil") return mkDY(ce, 0, -((-a.dy->lo) >> s), -((-a.dy->hi) >> s), w);
        if (fn == "trunc") return mkDY(Z3_mk_ite(Z, Z3_mk_bvslt(Z, n, bvNum(0, 64)), ce, fl), 0, (a.dy->lo >> s), -((-a.dy->hi) >> s), w);
        (void)one, (void)d;
        return fpUn(fn, concretizeV(a, fn.c_str()), w);
    }
    if (a.k == RE) {
        if (fn == "sqrt") return mkRE(pSqrt(a.p), w);
        if (fn == "floor" || fn == "ceil" || fn == "trunc") {
            mpz_class f = fn == "ceil" ? mpz_class(-floorInt(pNeg(a.p))) : floorInt(a.p);
            if (fn == "trunc" && f < 0) f = -floorInt(pNeg(a.p));
            return mkRE(pConst(mpq_class(f)), w);
        }
        if (fn == "round" || fn == "rint" || fn == "nearbyint") {
            mpz_class f = floorInt(pAdd(a.p, pConst(mpq_class(1, 2))));
            return mkRE(pConst(mpq_class(f)), w);
        }
        if (a.p->isConst()) {
            bool ok;
            long double r = hostUn(fn, a.p->constVal().get_d(), w, ok);
            if (ok) return fromLD(r, w);
        }
        if (fn == "tan") return mkRE(pDiv(pFn("sin", a.p), pFn("cos", a.p)), w);
        return mkRE(pFn(fn, a.p), w);
    }
    if (a.k == DY) {
        if (gRealMode || true) return fpUn(fn, concretizeV(a, fn.c_str()), w);
    }
    Z3_ast x = toFP(a, w);
    if (fn == "sqrt") return mkSFP(Z3_mk_fpa_sqrt(Z, rne(), x), w);
    if (fn == "floor") return mkSFP(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), x), w);
    if (fn == "ceil") return mkSFP(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), x), w);
    if (fn == "trunc") return mkSFP(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), x), w);
    fatal("function %s of a symbolic float", fn.c_str());
}
Val fpFn2(const std::string &fn, const Val &a0, const Val &b0, unsigned w) {
    Val a = a0, b = b0;
    if (a.k == UNI || b.k == UNI) return mkU(w);
    if (fn == "fmax" || fn == "fmin") {
        if (a.k == CONC && b.k == CONC) {
            long double x = toLD(a), y = toLD(b);
            return fromLD(fn == "fmax" ? std::fmax(x, y) : std::fmin(x, y), w);
        }
        Val c = fcmp(CmpInst::FCMP_OLT, a, b, w);
        return fn == "fmax" ? selectV(c, b, a) : selectV(c, a, b);
    }
    if (fn == "pow" && a.k == CONC && b.k == DY && b.dy->sc == 0 && toLD(a) == -1.0L) { // a sign
        Z3_ast even = Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, b.dy->num), bvNum(0, 1));
        return fromLD(branchOn(mkBOO(even)) ? 1 : -1, w);
    }
    if (a.k == DY) a = concretizeV(a, fn.c_str());
    if (b.k == DY) b = concretizeV(b, fn.c_str());
    if (a.k == CONC && b.k == CONC) {
        long double x = toLD(a), y = toLD(b), r;
#define B(n) (w == 32 ? (long double)std::n((float)x, (float)y) : w == 64 ? (long double)std::n((double)x, (double)y) : std::n(x, y))
        if (fn == "pow") r = B(pow);
        else if (fn == "atan2") r = B(atan2);
        else if (fn == "hypot") r = B(hypot);
        else if (fn == "fmod") r = B(fmod);
        else if (fn == "copysign") r = B(copysign);
        else if (fn == "remainder") r = B(remainder);
        else fatal("unknown function %s", fn.c_str());
        return fromLD(r, w);
    }
    if (a.k == RE || b.k == RE) {
        if (fn == "copysign") {
            PolyP x = toRE(a), y = toRE(b);
            bool xn = pDecideLess(x, pConst(0), false), yn = pDecideLess(y, pConst(0), false);
            return mkRE(xn == yn ? x : pNeg(x), w);
        }
        PolyP x = toRE(a), y = toRE(b);
        if (fn == "hypot") {
            if (x->t.empty()) return fpUn("fabs", mkRE(y, w), w);
            if (y->t.empty()) return fpUn("fabs", mkRE(x, w), w);
            return mkRE(pSqrt(pAdd(pMul(x, x), pMul(y, y)), true), w);
        }
        if (fn == "pow") {
            if (y->isConst()) {
                mpq_class q = y->constVal();
                if (q.get_den() == 1 && abs(q.get_num()) < 64) return mkRE(pPowi(x, q.get_num().get_si()), w);
                if (q.get_den() == 2 && abs(q.get_num()) < 64) return mkRE(pPowi(pSqrt(x), q.get_num().get_si()), w);
            }
            return mkRE(pFn("pow", x, y), w);
        }
        if (fn == "atan2") return mkRE(pFn("atan2", x, y), w);
    }
    fatal("function %s of symbolic floats", fn.c_str());
}

// ---------- integers
static bool rangeOf(Z3_ast a, i128 &lo, i128 &hi, int depth = 0);
std::map<unsigned, std::pair<int64_t, int64_t>> gRange;
static bool rangeOf(Z3_ast a, i128 &lo, i128 &hi, int depth) {
    if (depth > 30) return false;
    unsigned id = Z3_get_ast_id(Z, a);
    auto it = gRange.find(id);
    if (it != gRange.end()) {
        lo = it->second.first, hi = it->second.second;
        return true;
    }
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a));
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) {
        uint64_t n;
        if (w > 64 || !Z3_get_numeral_uint64(Z, a, &n)) return false;
        lo = hi = sx64(n, w);
        return true;
    }
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return false;
    Z3_app app = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, app);
    Z3_func_decl d = Z3_get_app_decl(Z, app);
    i128 l, h, l2, h2;
    i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, app, i); };
    bool ok = false;
    switch (Z3_get_decl_kind(Z, d)) {
    case Z3_OP_BADD:
        if (!rangeOf(arg(0), lo, hi, depth + 1)) return false;
        for (unsigned i = 1; i < n; i++) {
            if (!rangeOf(arg(i), l, h, depth + 1)) return false;
            lo += l, hi += h;
        }
        ok = true;
        break;
    case Z3_OP_BMUL:
        if (n != 2 || !rangeOf(arg(0), l, h, depth + 1) || !rangeOf(arg(1), l2, h2, depth + 1)) return false;
        {
            i128 c[4] = {l * l2, l * h2, h * l2, h * h2};
            lo = hi = c[0];
            for (auto q : c) lo = std::min(lo, q), hi = std::max(hi, q);
        }
        ok = true;
        break;
    case Z3_OP_SIGN_EXT: return rangeOf(arg(0), lo, hi, depth + 1);
    case Z3_OP_ZERO_EXT:
        if (rangeOf(arg(0), lo, hi, depth + 1) && lo >= 0) return true;
        lo = 0, hi = ((i128)1 << Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(0)))) - 1;
        return true;
    case Z3_OP_CONCAT:
        // zero extension is often written as concat(0, x)
        if (n == 2 && Z3_get_ast_kind(Z, arg(0)) == Z3_NUMERAL_AST) {
            uint64_t z;
            if (Z3_get_numeral_uint64(Z, arg(0), &z) && z == 0) {
                if (rangeOf(arg(1), lo, hi, depth + 1) && lo >= 0) return true;
                lo = 0, hi = ((i128)1 << Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(1)))) - 1;
                return true;
            }
        }
        return false;
    case Z3_OP_ITE:
        if (!rangeOf(arg(1), l, h, depth + 1) || !rangeOf(arg(2), l2, h2, depth + 1)) return false;
        lo = std::min(l, l2), hi = std::max(h, h2);
        return true;
    case Z3_OP_EXTRACT:
        if (Z3_get_decl_int_parameter(Z, d, 1) == 0 && rangeOf(arg(0), lo, hi, depth + 1)) { ok = true; break; }
        return false;
    default: return false;
    }
    return ok && lo >= mn && hi <= mx;
}
static Z3_ast ext(Z3_ast a, unsigned from, unsigned to, bool sign) {
    if (from == to) return a;
    return sign ? Z3_mk_sign_ext(Z, to - from, a) : Z3_mk_zero_ext(Z, to - from, a);
}
Val zextV(const Val &v, unsigned w, bool sign) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) return mkC(sign ? (u128)sx128(v.c, v.w) : v.c, w);
    if (v.k == BOO) return mkSBV(Z3_mk_ite(Z, v.a, bvNum(sign ? ~(u128)0 : 1, w), bvNum(0, w)), w);
    return mkSBV(ext(toBV(v), v.w, w, sign), w);
}
Val extractV(const Val &v, unsigned lo, unsigned w); // bits lo..lo+w-1
Val truncV(const Val &v, unsigned w) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) return mkC(v.c, w);
    return extractV(v, 0, w);
}
Val extractV(const Val &v, unsigned lo, unsigned w) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) return mkC(v.c >> lo, w);
    if (v.w == w && lo == 0) return v;
    if (v.k == PACK && lo % 8 == 0 && w % 8 == 0) {
        Pack *np = new Pack;
        bool clean = true;
        for (auto &p : v.pk->v) {
            uint32_t b = p.first * 8, e = b + p.second.w;
            if (e <= lo || b >= lo + w) continue;
            if (b < lo || e > lo + w) { clean = false; break; }
            np->v.push_back({(b - lo) / 8, p.second});
        }
        if (clean) {
            if (np->v.empty()) return mkU(w);
            if (np->v.size() == 1 && np->v[0].first == 0 && np->v[0].second.w == w) return np->v[0].second;
            Val r;
            r.k = PACK;
            r.w = w;
            r.pk = np;
            return r;
        }
    }
    return mkSBV(Z3_mk_extract(Z, lo + w - 1, lo, toBV(v)), w);
}
Val itofp(const Val &v, unsigned w, bool sign) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) {
        long double l = sign ? (long double)sx128(v.c, v.w) : (long double)v.c;
        if (w == 32) return fromD(sign ? (float)(int64_t)sx64(v.c, v.w) : (float)(uint64_t)v.c, 32);
        return fromLD(l, w);
    }
    if (v.k == BOO) {
        Z3_ast n = Z3_mk_ite(Z, v.a, bvNum(sign ? ~(u128)0 : 1, 64), bvNum(0, 64));
        return mkDY(n, 0, sign ? -1 : 0, sign ? 0 : 1, w);
    }
    Z3_ast a = toBV(v);
    i128 lo, hi;
    bool ok = rangeOf(a, lo, hi);
    if (ok && !sign && lo < 0) ok = false;
    if (!ok && v.w <= 16) { ok = true; lo = sign ? -(1 << 15) : 0; hi = 65535; }
    if (ok && lo >= -exactLimit(w) && hi <= exactLimit(w)) return mkDY(ext(a, v.w, 64, sign), 0, (int64_t)lo, (int64_t)hi, w);
    if (gRealMode) return itofp(concretizeV(v, "int to real"), w, sign);
    return mkSFP(sign ? Z3_mk_fpa_to_fp_signed(Z, rne(), a, fps(w)) : Z3_mk_fpa_to_fp_unsigned(Z, rne(), a, fps(w)), w);
}
Val fptoi(const Val &v, unsigned sw, unsigned w, bool sign) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) {
        long double l = truncl(toLD(v));
        long double lim = ldexpl(1, sign ? w - 1 : w);
        if (!(l < lim && l >= (sign ? -lim : 0))) return mkC(sign ? (u128)1 << (w - 1) : (u128)(w == 64 ? 1ull << 63 : 0), w); // x86 behaviour
        return mkC(sign ? (u128)(i128)l : (u128)l, w);
    }
    if (v.k == DY) {
        Val t = fpUn("trunc", v, v.w);
        if (t.k == CONC) return fptoi(t, sw, w, sign);
        return mkSBV(w == 64 ? t.dy->num : w < 64 ? Z3_mk_extract(Z, w - 1, 0, t.dy->num) : ext(t.dy->num, 64, w, true), w);
    }
    if (v.k == RE) {
        mpz_class f = floorInt(v.p);
        if (f < 0 && !v.p->isConst()) f = -floorInt(pNeg(v.p));
        else if (f < 0) { mpq_class q = v.p->constVal(); mpz_class r; mpz_tdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); f = r; }
        return mkC((u128)(i128)f.get_si(), w);
    }
    Z3_ast x = toFP(v, sw);
    return mkSBV(sign ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), x, w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), x, w), w);
}
Val fpcast(const Val &v, unsigned sw, unsigned w) {
    if (v.k == UNI) return mkU(w);
    if (v.k == CONC) return fromLD(toLD(v), w);
    if (v.k == RE) {
        Val r = v;
        r.w = w;
        return r;
    }
    if (v.k == DY) {
        if (v.dy->lo >= -exactLimit(w) && v.dy->hi <= exactLimit(w)) {
            Val r = v;
            r.w = w;
            return r;
        }
        return fpcast(concretizeV(v, "fpcast"), sw, w);
    }
    if (w == 80) return fpcast(concretizeV(v, "long double"), sw, w);
    return mkSFP(Z3_mk_fpa_to_fp_float(Z, rne(), toFP(v, sw), fps(w)), w);
}
Val icmp(unsigned pred, const Val &a, const Val &b) {
    typedef CmpInst C;
    if (a.k == CONC && b.k == CONC) {
        u128 x = a.c, y = b.c;
        i128 sx = sx128(x, a.w), sy = sx128(y, b.w);
        switch (pred) {
        case C::ICMP_EQ: return boolC(x == y);
        case C::ICMP_NE: return boolC(x != y);
        case C::ICMP_UGT: return boolC(x > y);
        case C::ICMP_UGE: return boolC(x >= y);
        case C::ICMP_ULT: return boolC(x < y);
        case C::ICMP_ULE: return boolC(x <= y);
        case C::ICMP_SGT: return boolC(sx > sy);
        case C::ICMP_SGE: return boolC(sx >= sy);
        case C::ICMP_SLT: return boolC(sx < sy);
        case C::ICMP_SLE: return boolC(sx <= sy);
        }
    }
    if (a.k == UNI || b.k == UNI) return mkU(1);
    if (a.w == 1 && (pred == C::ICMP_EQ || pred == C::ICMP_NE)) {
        Z3_ast e = Z3_mk_iff(Z, toBool(a), toBool(b));
        return mkBOO(pred == C::ICMP_EQ ? e : Z3_mk_not(Z, e));
    }
    if (a.k == DY && b.k == DY && a.w == b.w && a.dy->sc == b.dy->sc && (pred == C::ICMP_EQ || pred == C::ICMP_NE)) {
        Z3_ast e = Z3_mk_eq(Z, a.dy->num, b.dy->num);
        return mkBOO(pred == C::ICMP_EQ ? e : Z3_mk_not(Z, e));
    }
    if (a.k == RE && b.k == RE && (pred == C::ICMP_EQ || pred == C::ICMP_NE)) {
        bool e = pDecideEq(a.p, b.p);
        return boolC(pred == C::ICMP_EQ ? e : !e);
    }
    Z3_ast x = toBV(a), y = toBV(b);
    switch (pred) {
    case C::ICMP_EQ: return mkBOO(Z3_mk_eq(Z, x, y));
    case C::ICMP_NE: return mkBOO(Z3_mk_not(Z, Z3_mk_eq(Z, x, y)));
    case C::ICMP_UGT: return mkBOO(Z3_mk_bvugt(Z, x, y));
    case C::ICMP_UGE: return mkBOO(Z3_mk_bvuge(Z, x, y));
    case C::ICMP_ULT: return mkBOO(Z3_mk_bvult(Z, x, y));
    case C::ICMP_ULE: return mkBOO(Z3_mk_bvule(Z, x, y));
    case C::ICMP_SGT: return mkBOO(Z3_mk_bvsgt(Z, x, y));
    case C::ICMP_SGE: return mkBOO(Z3_mk_bvsge(Z, x, y));
    case C::ICMP_SLT: return mkBOO(Z3_mk_bvslt(Z, x, y));
    case C::ICMP_SLE: return mkBOO(Z3_mk_bvsle(Z, x, y));
    }
    fatal("icmp predicate");
}
Val intBin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == CONC && b.k == CONC) {
        u128 x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return mkC(x + y, w);
        case Instruction::Sub: return mkC(x - y, w);
        case Instruction::Mul: return mkC(x * y, w);
        case Instruction::And: return mkC(x & y, w);
        case Instruction::Or: return mkC(x | y, w);
        case Instruction::Xor: return mkC(x ^ y, w);
        case Instruction::Shl: return y >= w ? mkU(w) : mkC(x << (unsigned)y, w);
        case Instruction::LShr: return y >= w ? mkU(w) : mkC(x >> (unsigned)y, w);
        case Instruction::AShr: return y >= w ? mkU(w) : mkC((u128)(sx128(x, w) >> (unsigned)y), w);
        case Instruction::UDiv:
        case Instruction::URem:
        case Instruction::SDiv:
        case Instruction::SRem: {
            if (y == 0) violation("division", "integer division by zero");
            if (op == Instruction::UDiv) return mkC(x / y, w);
            if (op == Instruction::URem) return mkC(x % y, w);
            i128 sx = sx128(x, w), sy = sx128(y, w);
            return mkC((u128)(op == Instruction::SDiv ? sx / sy : sx % sy), w);
        }
        }
        fatal("int op");
    }
    if (a.k == UNI || b.k == UNI) {
        // absorbing constants
        if (op == Instruction::And) {
            if (a.k == CONC && a.c == 0) return a;
            if (b.k == CONC && b.c == 0) return b;
        }
        return mkU(w);
    }
    if (w > 1 && b.k == SBV && (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem)) {
        extern Val uniqueVal(const Val &);
        Val u = uniqueVal(b);
        if (u.k == CONC) return intBin(op, a, u, w);
    }
    if (w == 1) {
        Z3_ast p[2] = {toBool(a), toBool(b)};
        switch (op) {
        case Instruction::And: case Instruction::Mul: return mkBOO(Z3_mk_and(Z, 2, p));
        case Instruction::Or: return mkBOO(Z3_mk_or(Z, 2, p));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBOO(Z3_mk_xor(Z, p[0], p[1]));
        }
        fatal("i1 op");
    }
    if ((op == Instruction::LShr) && a.k == PACK && b.k == CONC && (unsigned)b.c % 8 == 0 && (unsigned)b.c < w) {
        unsigned s = (unsigned)b.c;
        Val e = extractV(a, s, w - s);
        Pack *np = new Pack;
        if (e.k == PACK) np->v = e.pk->v;
        else np->v.push_back({0, e});
        np->v.push_back({(w - s) / 8, mkC(0, s)});
        Val r;
        r.k = PACK, r.w = w, r.pk = np;
        return r;
    }
    // sign manipulation of floats held in integers
    if (a.k == DY && b.k == CONC && b.c == ((u128)1 << (w - 1)) && op == Instruction::Xor) {
        return mkDY(Z3_mk_bvneg(Z, a.dy->num), a.dy->sc, -a.dy->hi, -a.dy->lo, w);
    }
    if (a.k == RE && b.k == CONC) {
        if (op == Instruction::Xor && b.c == ((u128)1 << (w - 1))) return mkRE(pNeg(a.p), w);
        if (op == Instruction::And && b.c == maskOf(w - 1)) return fpUn("fabs", a, w);
    }
    Z3_ast x = toBV(a), y = toBV(b);
    switch (op) {
    case Instruction::Add: return mkSBV(Z3_mk_bvadd(Z, x, y), w);
    case Instruction::Sub: return mkSBV(Z3_mk_bvsub(Z, x, y), w);
    case Instruction::Mul: return mkSBV(Z3_mk_bvmul(Z, x, y), w);
    case Instruction::And: return mkSBV(Z3_mk_bvand(Z, x, y), w);
    case Instruction::Or: return mkSBV(Z3_mk_bvor(Z, x, y), w);
    case Instruction::Xor: return mkSBV(Z3_mk_bvxor(Z, x, y), w);
    case Instruction::Shl: return mkSBV(Z3_mk_bvshl(Z, x, y), w);
    case Instruction::LShr: return mkSBV(Z3_mk_bvlshr(Z, x, y), w);
    case Instruction::AShr: return mkSBV(Z3_mk_bvashr(Z, x, y), w);
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem: {
        if (b.k != CONC) {
            if (decide(Z3_mk_eq(Z, y, bvNum(0, w)))) violation("division", "integer division by zero");
        } else if (b.c == 0)
            violation("division", "integer division by zero");
        switch (op) {
        case Instruction::UDiv: return mkSBV(Z3_mk_bvudiv(Z, x, y), w);
        case Instruction::URem: return mkSBV(Z3_mk_bvurem(Z, x, y), w);
        case Instruction::SDiv: return mkSBV(Z3_mk_bvsdiv(Z, x, y), w);
        default: return mkSBV(Z3_mk_bvsrem(Z, x, y), w);
        }
    }
    }
    fatal("int op %u", op);
}
Val selectV(const Val &c, const Val &a, const Val &b) {
    if (c.k == CONC) return c.c & 1 ? a : b;
    if (c.k == UNI) return mkU(a.w);
    if (a.k == CONC && b.k == CONC && a.c == b.c && a.w == b.w) return a;
    if (a.k == UNI || b.k == UNI || a.k == AGGR || b.k == AGGR || a.k == RE || b.k == RE || a.k == PACK || b.k == PACK)
        return branchOn(c) ? a : b;
    Z3_ast cc = toBool(c);
    if (a.k == BOO || b.k == BOO || a.w == 1) return mkBOO(Z3_mk_ite(Z, cc, toBool(a), toBool(b)));
    if (a.k == DY || b.k == DY) {
        Z3_ast na, nb;
        int sa, sb;
        int64_t la, ha, lb, hb;
        if (dyOf(a, na, sa, la, ha) && dyOf(b, nb, sb, lb, hb)) {
            int s = std::max(sa, sb);
            if (s <= 20 && std::max(std::llabs(la), std::llabs(ha)) < (1ll << 40) && std::max(std::llabs(lb), std::llabs(hb)) < (1ll << 40)) {
                Z3_ast n = Z3_mk_ite(Z, cc, shlBy(na, s - sa), shlBy(nb, s - sb));
                return mkDY(n, s, std::min(la << (s - sa), lb << (s - sb)), std::max(ha << (s - sa), hb << (s - sb)), a.w);
            }
        }
        return branchOn(c) ? a : b;
    }
    if (a.k == SFP || b.k == SFP) return mkSFP(Z3_mk_ite(Z, cc, toFP(a, a.w), toFP(b, b.w)), a.w);
    return mkSBV(Z3_mk_ite(Z, cc, toBV(a), toBV(b)), a.w);
}
