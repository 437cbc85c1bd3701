#include "core.h"
std::vector<Gen> gens;
static int ruleVer = 1;
static Z3_sort realS() { return Z3_mk_real_sort(Z); }
static Z3_ast realNum(const mpq_class &q) { return Z3_mk_numeral(Z, q.get_str().c_str(), realS()); }

PolyP pConst(const mpq_class &q) {
    Poly *p = new Poly;
    if (q != 0) p->t[Mono()] = q;
    p->ver = 1 << 30;
    return p;
}
PolyP pGen(int g, int e) {
    Poly *p = new Poly;
    p->t[Mono{{g, e}}] = 1;
    p->ver = ruleVer;
    return p;
}
static Mono mulM(const Mono &a, const Mono &b) {
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else {
            int e = a[i].second + b[j].second;
            if (e) r.push_back({a[i].first, e});
            i++, j++;
        }
    }
    return r;
}
static void addTerm(Poly &p, const Mono &m, const mpq_class &c, int depth = 0) {
    if (c == 0) return;
    if (depth > 200) fatal("polynomial rewriting does not terminate");
    for (size_t i = 0; i < m.size(); i++) {
        auto g = m[i];
        if (g.second >= 2 && gens[g.first].rule2) {
            Mono rest = m;
            if (g.second == 2) rest.erase(rest.begin() + i);
            else rest[i].second -= 2;
            for (auto &t : gens[g.first].rule2->t) addTerm(p, mulM(rest, t.first), c * t.second, depth + 1);
            return;
        }
    }
    auto it = p.t.find(m);
    if (it == p.t.end()) p.t.emplace(m, c);
    else {
        it->second += c;
        if (it->second == 0) p.t.erase(it);
    }
    if (p.t.size() > 60000) fatal("polynomial too large");
}
PolyP pNorm(PolyP a) {
    if (a->ver >= ruleVer) return a;
    Poly *p = new Poly;
    for (auto &t : a->t) addTerm(*p, t.first, t.second);
    p->ver = ruleVer;
    return p;
}
PolyP pAdd(PolyP a, PolyP b) {
    a = pNorm(a), b = pNorm(b);
    if (a->t.empty()) return b;
    if (b->t.empty()) return a;
    Poly *p = new Poly(*a);
    p->z3 = nullptr;
    for (auto &t : b->t) {
        auto it = p->t.find(t.first);
        if (it == p->t.end()) p->t.insert(t);
        else {
            it->second += t.second;
            if (it->second == 0) p->t.erase(it);
        }
    }
    p->ver = p->isConst() ? 1 << 30 : ruleVer;
    return p;
}
PolyP pNeg(PolyP a) {
    Poly *p = new Poly(*a);
    p->z3 = nullptr;
    for (auto &t : p->t) t.second = -t.second;
    return p;
}
PolyP pSub(PolyP a, PolyP b) { return pAdd(a, pNeg(b)); }
PolyP pMul(PolyP a, PolyP b) {
    a = pNorm(a), b = pNorm(b);
    Poly *p = new Poly;
    for (auto &s : a->t)
        for (auto &t : b->t) addTerm(*p, mulM(s.first, t.first), s.second * t.second);
    p->ver = p->isConst() ? 1 << 30 : ruleVer;
    return p;
}
PolyP pPowi(PolyP a, long n) {
    if (n < 0) return pDiv(pConst(1), pPowi(a, -n));
    PolyP r = pConst(1);
    for (long i = 0; i < n; i++) r = pMul(r, a);
    return r;
}
int newGen(Gen g) {
    if (!g.z3) {
        std::string nm = g.name + "!" + std::to_string(gens.size());
        g.z3 = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), realS());
    }
    gens.push_back(g);
    return gens.size() - 1;
}
static Z3_ast invOf(int g) {
    if (!gens[g].z3inv) {
        std::string nm = "inv_" + gens[g].name + "!" + std::to_string(g);
        Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), realS());
        gens[g].z3inv = v;
        Z3_ast args[2] = {v, gens[g].z3};
        addPC(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, args), realNum(1)));
    }
    return gens[g].z3inv;
}
// relates an angle to its cosine and sine by enclosures (finer close to multiples of pi/2); only
// stated when the angle itself takes part in a query
static void encloseAngle(int gi) {
    std::vector<double> p;
    for (int k = -4; k <= 4; k++)
        for (double d : {0., 0.08, 0.4, 1e-6, -0.08, -0.4, -1e-6}) {
            double x = k * M_PI / 2 + d;
            if (std::fabs(x) <= 2 * M_PI) p.push_back(x);
        }
    p.push_back(-2 * M_PI - 1e-12), p.push_back(2 * M_PI + 1e-12);
    std::sort(p.begin(), p.end());
    int gc = gens[gi].gc, gs = gens[gi].gs;
    Z3_ast b = gens[gi].z3;
    addPC(Z3_mk_ge(Z, b, realNum(mpq_class(p.front()))));
    addPC(Z3_mk_le(Z, b, realNum(mpq_class(p.back()))));
    for (size_t i = 0; i + 1 < p.size(); i++) {
        double l = p[i] / 2, h = p[i + 1] / 2, e = 1e-14;
        double cl = std::min(std::cos(l), std::cos(h)), ch = std::max(std::cos(l), std::cos(h));
        double sl = std::min(std::sin(l), std::sin(h)), sh = std::max(std::sin(l), std::sin(h));
        for (int k = -4; k <= 4; k++) { // extrema at multiples of pi/2
            double x = k * M_PI / 2;
            if (x < l - e || x > h + e) continue;
            cl = std::min(cl, std::cos(x)), ch = std::max(ch, std::cos(x));
            sl = std::min(sl, std::sin(x)), sh = std::max(sh, std::sin(x));
        }
        Z3_ast in[2] = {Z3_mk_ge(Z, b, realNum(mpq_class(p[i]))), Z3_mk_le(Z, b, realNum(mpq_class(p[i + 1])))};
        Z3_ast o[4] = {Z3_mk_ge(Z, gens[gc].z3, realNum(mpq_class(cl - e))), Z3_mk_le(Z, gens[gc].z3, realNum(mpq_class(ch + e))),
                       Z3_mk_ge(Z, gens[gs].z3, realNum(mpq_class(sl - e))), Z3_mk_le(Z, gens[gs].z3, realNum(mpq_class(sh + e)))};
        addPC(Z3_mk_implies(Z, Z3_mk_and(Z, 2, in), Z3_mk_and(Z, 4, o)));
    }
}
Z3_ast pZ3(PolyP a) {
    a = pNorm(a);
    if (a->z3) return a->z3;
    for (auto &t : a->t)
        for (auto &g : t.first)
            if (gens[g.first].k == Gen::ANGLE && !gens[g.first].enclosed) gens[g.first].enclosed = true, encloseAngle(g.first);
    std::vector<Z3_ast> sum;
    for (auto &t : a->t) {
        std::vector<Z3_ast> pr;
        if (t.second != 1 || t.first.empty()) pr.push_back(realNum(t.second));
        for (auto &g : t.first) {
            Z3_ast v = g.second > 0 ? gens[g.first].z3 : invOf(g.first);
            for (int i = 0; i < std::abs(g.second); i++) pr.push_back(v);
        }
        sum.push_back(pr.size() == 1 ? pr[0] : Z3_mk_mul(Z, pr.size(), pr.data()));
    }
    Z3_ast r = sum.empty() ? realNum(0) : sum.size() == 1 ? sum[0] : Z3_mk_add(Z, sum.size(), sum.data());
    const_cast<Poly *>(a)->z3 = r;
    return r;
}
std::string pStr(PolyP a) {
    std::string s;
    int n = 0;
    for (auto &t : a->t) {
        if (n++ > 12) { s += "..."; break; }
        s += (s.empty() ? "" : " + ") + t.second.get_str();
        for (auto &g : t.first) s += "*" + gens[g.first].name + (g.second != 1 ? "^" + std::to_string(g.second) : "");
    }
    return s.empty() ? "0" : s;
}
// scale so that the leading coefficient is one: sign-insensitive canonical form not wanted, keep sign
bool pDecideEq(PolyP a, PolyP b) {
    PolyP d = pSub(a, b);
    if (d->isConst()) return d->constVal() == 0;
    return decide(Z3_mk_eq(Z, pZ3(d), realNum(0)));
}
// quick interval evaluation over declared bounds: returns false when unbounded
static bool pInterval(PolyP a, mpq_class &lo, mpq_class &hi) {
    lo = hi = 0;
    for (auto &t : a->t) {
        mpq_class l = t.second, h = t.second;
        for (auto &g : t.first) {
            if (!gens[g.first].bounded) return false;
            mpq_class gl = 1, gh = 1, bl = gens[g.first].lo, bh = gens[g.first].hi;
            if (g.second < 0) {
                if (bl <= 0 && bh >= 0) return false;
                mpq_class x = 1 / bh;
                bh = 1 / bl, bl = x;
            }
            for (int i = 0; i < std::abs(g.second); i++) {
                mpq_class x[4] = {gl * bl, gl * bh, gh * bl, gh * bh};
                mpq_class nl = x[0], nh = x[0];
                for (auto &q : x) { if (q < nl) nl = q; if (q > nh) nh = q; }
                gl = nl, gh = nh;
            }
            if (g.second % 2 == 0 && gl < 0) gl = 0;
            mpq_class x[4] = {l * gl, l * gh, h * gl, h * gh};
            mpq_class nl = x[0], nh = x[0];
            for (auto &q : x) { if (q < nl) nl = q; if (q > nh) nh = q; }
            l = nl, h = nh;
        }
        lo += l, hi += h;
    }
    return true;
}
bool pQuickBound(PolyP a, mpq_class &lo, mpq_class &hi) { return pInterval(pNorm(a), lo, hi); }
bool pDecideLess(PolyP a, PolyP b, bool orEq) {
    PolyP d = pSub(a, b);
    if (d->isConst()) return orEq ? d->constVal() <= 0 : d->constVal() < 0;
    mpq_class lo, hi;
    if (pInterval(d, lo, hi)) {
        if (orEq ? hi <= 0 : hi < 0) return true;
        if (orEq ? lo > 0 : lo >= 0) return false;
    }
    Z3_ast z = pZ3(d);
    return decide(orEq ? Z3_mk_le(Z, z, realNum(0)) : Z3_mk_lt(Z, z, realNum(0)));
}
static bool sameP(PolyP a, PolyP b) { return pNorm(a)->t == pNorm(b)->t; }
// lexicographic monomial order (compatible with multiplication)
static bool monoLess(const Mono &a, const Mono &b) {
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        int ga = i < a.size() ? a[i].first : INT_MAX, gb = j < b.size() ? b[j].first : INT_MAX;
        int g = std::min(ga, gb), ea = ga == g ? a[i].second : 0, eb = gb == g ? b[j].second : 0;
        if (ea != eb) return ea < eb;
        if (ga == g) i++;
        if (gb == g) j++;
    }
    return false;
}
static bool rootQ(const mpq_class &q, int k, mpq_class &r) {
    mpz_class n = q.get_num(), d = q.get_den(), rn, rd;
    if (k % 2 == 0 && n < 0) return false;
    bool en = mpz_root(rn.get_mpz_t(), n.get_mpz_t(), k), ed = mpz_root(rd.get_mpz_t(), d.get_mpz_t(), k);
    r = mpq_class(rn, rd);
    return en && ed;
}
static std::map<Mono, mpq_class>::const_iterator leadTerm(PolyP a) {
    auto b = a->t.begin();
    for (auto i = a->t.begin(); i != a->t.end(); ++i)
        if (monoLess(b->first, i->first)) b = i;
    return b;
}
// r with r^k = a, if there is one with few terms
static PolyP pRoot(PolyP a, int k) {
    auto l = leadTerm(a);
    Mono m = l->first;
    mpq_class c;
    for (auto &g : m) {
        if (g.second % k) return nullptr;
        g.second /= k;
    }
    if (!rootQ(l->second, k, c)) return nullptr;
    auto mono = [](const Mono &m, const mpq_class &c) {
        Poly *p = new Poly;
        p->t[m] = c;
        p->ver = ruleVer;
        return (PolyP)p;
    };
    PolyP lead = mono(m, c), r = lead;
    Mono inv = m;
    for (auto &g : inv) g.second *= -(k - 1);
    mpq_class ic = 1;
    for (int i = 1; i < k; i++) ic *= c;
    PolyP step = mono(inv, 1 / (k * ic));
    Mono last = m;
    for (size_t n = 0; n < 8; n++) {
        PolyP pw = r;
        for (int i = 1; i < k; i++) pw = pMul(pw, r);
        PolyP d = pNorm(pSub(a, pw));
        if (d->t.empty()) return r;
        auto ld = leadTerm(d);
        PolyP t = pNorm(pMul(mono(ld->first, ld->second), step));
        if (t->t.size() != 1 || !monoLess(t->t.begin()->first, last)) return nullptr;
        for (auto &g : t->t.begin()->first)
            if (g.second < 0) return nullptr;
        last = t->t.begin()->first;
        r = pAdd(r, t);
    }
    return nullptr;
}
extern bool gAllowDivZero;
PolyP pDiv(PolyP a, PolyP b) {
    b = pNorm(b);
    if (b->isConst()) {
        if (b->constVal() == 0) fatal("division by zero (exact arithmetic)");
        return pMul(a, pConst(1 / b->constVal()));
    }
    if (b->t.size() > 2)
        for (int k : {2, 3}) {
            PolyP r = pRoot(b, k);
            if (!r) continue;
            for (int i = 0; i < k; i++) a = pDiv(a, r);
            return a;
        }
    mpq_class blo, bhi;
    bool bounded = pInterval(b, blo, bhi), nonzero = bounded && (blo > 0 || bhi < 0);
    if (!nonzero && decide(Z3_mk_eq(Z, pZ3(b), realNum(0)))) {
        if (gAllowDivZero) pathEnd("divzero");
        fatal("division by a term that may be zero: %s", pStr(b).c_str());
    }
    if (b->t.size() == 1) {
        Mono m;
        for (auto &g : b->t.begin()->first) {
            m.push_back({g.first, -g.second});
            invOf(g.first);
        }
        Poly *p = new Poly;
        addTerm(*p, m, 1 / b->t.begin()->second);
        p->ver = ruleVer;
        return pMul(a, p);
    }
    // canonical scaling
    mpq_class lead = b->t.rbegin()->second;
    PolyP bn = pMul(b, pConst(1 / lead));
    int gi = -1;
    for (size_t i = 0; i < gens.size(); i++)
        if (gens[i].k == Gen::INV && sameP(gens[i].arg, bn)) gi = i;
    if (gi < 0) {
        Gen g;
        g.k = Gen::INV;
        g.name = "recip";
        g.arg = bn;
        mpq_class l, h;
        if (pInterval(bn, l, h) && (l > 0 || h < 0)) {
            g.bounded = true;
            g.lo = 1 / h, g.hi = 1 / l;
        }
        gi = newGen(g);
        Z3_ast args[2] = {gens[gi].z3, pZ3(bn)};
        addPC(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, args), realNum(1)));
    }
    return pMul(pMul(a, pGen(gi)), pConst(1 / lead));
}
PolyP pSqrt(PolyP a, bool nonneg) {
    a = pNorm(a);
    if (a->isConst()) {
        mpq_class q = a->constVal();
        if (q < 0) fatal("sqrt of a negative number");
        mpz_class n = q.get_num(), d = q.get_den();
        if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t()))
            return pConst(mpq_class(sqrt(n), sqrt(d)));
    }
    for (size_t i = 0; i < gens.size(); i++)
        if (gens[i].k == Gen::SQRT && sameP(gens[i].arg, a)) return pGen(i);
    // perfect square of a monomial: |m|
    if (!a->isConst() && a->t.size() == 1) {
        Mono m = a->t.begin()->first;
        mpq_class q = a->t.begin()->second;
        bool ev = q > 0 && mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t());
        for (auto &g : m) if (g.second % 2) ev = false;
        if (ev) {
            for (auto &g : m) g.second /= 2;
            Poly *p = new Poly;
            p->t[m] = mpq_class(sqrt(q.get_num()), sqrt(q.get_den()));
            p->ver = ruleVer;
            if (pDecideLess(p, pConst(0), false)) return pNeg(p);
            return p;
        }
    }
    if (!a->isConst() && !nonneg && decide(Z3_mk_lt(Z, pZ3(a), realNum(0)))) fatal("sqrt of a term that may be negative: %s", pStr(a).c_str());
    // search +-: is a the square of an already known sum? (handled by the solver)
    Gen g;
    g.k = Gen::SQRT;
    g.name = "sqrt";
    g.arg = a;
    mpq_class alo, ahi;
    if (pInterval(a, alo, ahi)) { // bounds of the root
        mpz_class s = mpz_class("1000000000000000000000000000000"); // square of the scale
        auto root = [&](const mpq_class &v) { return mpz_class(sqrt(mpz_class(mpz_class(v.get_num() * s) / v.get_den()))); };
        mpz_class d = sqrt(s);
        g.bounded = true;
        g.lo = alo > 0 ? mpq_class(root(alo), d) : mpq_class(0);
        g.hi = ahi > 0 ? mpq_class(root(ahi) + 1, d) : mpq_class(0);
        g.lo.canonicalize(), g.hi.canonicalize();
    }
    int gi = newGen(g);
    Z3_ast r = gens[gi].z3;
    Z3_ast args[2] = {r, r};
    addPC(Z3_mk_ge(Z, r, realNum(0)));
    addPC(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, args), pZ3(a)));
    // rewriting rule: eliminate the square of a plain variable, or r^2
    int best = -1;
    mpq_class bc;
    for (auto &t : a->t) {
        if (t.first.size() == 1 && t.first[0].second == 2) {
            int v = t.first[0].first;
            if (gens[v].k != Gen::VAR || gens[v].rule2) continue;
            bool ok = true;
            for (auto &u : a->t) {
                if (&u == &t) continue;
                for (auto &m : u.first)
                    if (m.first == v && (m.second > 1 || m.second < 0)) ok = false;
            }
            if (ok) { best = v; bc = t.second; }
        }
    }
    if (best >= 0) {
        // v^2 = (r^2 - rest)/bc
        Poly *rest = new Poly;
        rest->t[Mono{{gi, 2}}] = 1 / bc;
        for (auto &t : a->t) {
            if (t.first.size() == 1 && t.first[0].first == best && t.first[0].second == 2) continue;
            rest->t[t.first] = -t.second / bc;
        }
        rest->ver = ruleVer;
        gens[best].rule2 = rest;
        ruleVer++;
        rest->ver = ruleVer;
    } else {
        gens[gi].rule2 = a;
        ruleVer++;
    }
    return pGen(gi);
}
// cos/sin of sum_i q_i*angle_i with 2 q_i integer (+ constant)
static bool trigExpand(PolyP a, PolyP &c, PolyP &s) {
    a = pNorm(a);
    c = pConst(1), s = pConst(0);
    for (auto &t : a->t) {
        PolyP tc, ts;
        if (t.first.empty()) {
            double d = t.second.get_d();
            tc = pConst(mpq_class(std::cos(d)));
            ts = pConst(mpq_class(std::sin(d)));
        } else {
            if (t.first.size() != 1 || t.first[0].second != 1 || gens[t.first[0].first].k != Gen::ANGLE) return false;
            mpq_class q = t.second * 2;
            if (q.get_den() != 1) return false;
            long n = q.get_num().get_si();
            Gen &g = gens[t.first[0].first];
            PolyP C = pGen(g.gc), S = n < 0 ? pNeg(pGen(g.gs)) : pGen(g.gs);
            tc = pConst(1), ts = pConst(0);
            for (long i = 0; i < std::abs(n); i++) {
                PolyP nc = pSub(pMul(tc, C), pMul(ts, S));
                ts = pAdd(pMul(tc, S), pMul(ts, C));
                tc = nc;
            }
        }
        PolyP nc = pSub(pMul(c, tc), pMul(s, ts));
        s = pAdd(pMul(c, ts), pMul(s, tc));
        c = nc;
    }
    return true;
}
PolyP pFn(const std::string &fn, PolyP a, PolyP b) {
    a = pNorm(a);
    if (b) b = pNorm(b);
    if (fn == "sin" || fn == "cos") {
        PolyP c, s;
        if (a->isConst()) {
            double d = a->constVal().get_d();
            return pConst(mpq_class(fn == "sin" ? std::sin(d) : std::cos(d)));
        }
        if (trigExpand(a, c, s)) return fn == "sin" ? s : c;
        // sin(+-atan(t))
        if (a->t.size() == 1 && a->t.begin()->first.size() == 1 && a->t.begin()->first[0].second == 1 &&
            abs(a->t.begin()->second) == 1) {
            Gen g = gens[a->t.begin()->first[0].first];
            if (g.k == Gen::UF && g.fn == "atan") {
                PolyP w = pSqrt(pAdd(pConst(1), pMul(g.arg, g.arg)));
                PolyP r = pDiv(fn == "cos" ? pConst(1) : g.arg, w);
                return fn == "cos" || a->t.begin()->second > 0 ? r : pNeg(r);
            }
        }
    }
    for (size_t i = 0; i < gens.size(); i++)
        if (gens[i].k == Gen::UF && gens[i].fn == fn && sameP(gens[i].arg, a) && (!b) == (!gens[i].arg2) &&
            (!b || sameP(gens[i].arg2, b)))
            return pGen(i);
    Gen g;
    g.k = Gen::UF;
    g.name = fn;
    g.fn = fn;
    g.arg = a;
    g.arg2 = b;
    int gi = newGen(g);
    Z3_ast r = gens[gi].z3;
    if (fn == "sin" || fn == "cos" || fn == "tanh") {
        addPC(Z3_mk_le(Z, r, realNum(1)));
        addPC(Z3_mk_ge(Z, r, realNum(-1)));
    }
    if (fn == "exp") addPC(Z3_mk_gt(Z, r, realNum(0)));
    if (fn == "tgamma") addPC(Z3_mk_implies(Z, Z3_mk_gt(Z, pZ3(a), realNum(0)), Z3_mk_gt(Z, r, realNum(0))));
    // congruence with earlier applications of the same function
    for (int i = 0; i < gi; i++) {
        if (gens[i].k != Gen::UF || gens[i].fn != fn || (!b) != (!gens[i].arg2)) continue;
        Z3_ast eq = Z3_mk_eq(Z, pZ3(gens[i].arg), pZ3(a));
        if (b) {
            Z3_ast e2[2] = {eq, Z3_mk_eq(Z, pZ3(gens[i].arg2), pZ3(b))};
            eq = Z3_mk_and(Z, 2, e2);
        }
        addPC(Z3_mk_implies(Z, eq, Z3_mk_eq(Z, gens[i].z3, r)));
    }
    return pGen(gi);
}
