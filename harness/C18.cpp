// C18: matrix elements.
#include "sym.h"
#include "AtomModel.h"
#ifdef SYM_ENGINE
#include "sqlmodel.h"
#endif
#include "pairinteraction/Constants.hpp"
#include "pairinteraction/MatrixElementCache.hpp"
#include "pairinteraction/State.hpp"
#include "tape.h"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

static int processId = 100; // may change, as after a fork
extern "C" pid_t getpid() noexcept { return processId; }
// the code takes square roots in single precision
static void near(double a, double b, const char *what) { sym_assert_near(a, b, 1e-6, what); }
static double powi(double x, int k) {
    double r = 1;
    for (int i = 0; i < k; i++) r *= x;
    return r;
}
// ------------------------------------------------------------------------------- selection rules
extern "C" void entry_selection() {
    static const int HL = 1 << 20;
    int l1 = sym_int("l1", 0, 1 << 20), l2 = sym_int("l2", 0, 1 << 20);
    int J1 = sym_int("2*j1", 0, HL), J2 = sym_int("2*j2", 0, HL), M1 = sym_int("2*m1", -HL, HL), M2 = sym_int("2*m2", -HL, HL);
    sym_assume((J1 & 1) == (J2 & 1));
    sym_assume((J1 & 1) == (M1 & 1));
    sym_assume((J1 & 1) == (M2 & 1));
    StateOne a("Rb", 5, l1, J1 / 2.f, M1 / 2.f), b("Rb", 6, l2, J2 / 2.f, M2 / 2.f);
    int dl = l1 < l2 ? l2 - l1 : l1 - l2, dJ = J1 < J2 ? J2 - J1 : J1 - J2, dM = M1 - M2;
    int q = sym_int("q", -5, 5);
    bool one = sym_choice("momentum", 0, 1);
    if (one) {
        bool rule = dl == 0 && dJ <= 2;
        sym_cover("momentum");
        sym_assert(selectionRulesMomentumNew(a, b) == (rule && dM >= -2 && dM <= 2), "the selection rules of a momentum differ from |dj| <= 1, |dm| <= 1, dl = 0");
        sym_assert(selectionRulesMomentumNew(a, b, q) == (rule && dM == 2 * q && q >= -1 && q <= 1), "the selection rules of a component of a momentum are wrong");
    } else {
        int k = sym_choice("k", 0, 3);
        bool rule = dl <= k && ((dl + k) & 1) == 0 && dJ <= 2 * k && J1 + J2 >= 2 * k;
        bool zero = k == 2 && J1 == 3 && J2 == 3 && M1 == -M2 && (M1 == 1 || M1 == -1); // the 3j symbol happens to vanish
        sym_cover("multipole");
        bool gen = selectionRulesMultipoleNew(a, b, k), com = selectionRulesMultipoleNew(a, b, k, q);
        sym_assert(gen == (rule && !zero && dM >= -2 * k && dM <= 2 * k), "the selection rules of a multipole are wrong");
        sym_assert(com == (rule && !zero && dM == 2 * q && q >= -k && q <= k), "the selection rules of a component of a multipole are wrong");
    }
}
// ------------------------------------------------------------------------------- values
struct A {
    int l;
    float j, m;
};
static const char *const SP[] = {"Sr1", "Rb", "Sr3"}; // spin 0, 1/2, 1
static std::vector<A> table(int S, int lmax) {
    std::vector<A> v;
    for (int l = 0; l <= lmax; l++)
        for (int J = abs(2 * l - S); J <= 2 * l + S; J += 2)
            for (int M = -J; M <= J; M += 2) v.push_back({l, J / 2.f, M / 2.f});
    return v;
}
// <l s; ml m-ml | j m>
static double cg(const A &a, double s, int ml) {
    double ms = a.m - ml;
    double r = std::sqrt(2 * a.j + 1) * exact3j(a.l, s, a.j, ml, ms, -a.m);
    return std::fmod(std::fabs(a.l - s + a.m), 2) == 1 ? -r : r;
}
// the spherical harmonic C^k_q between |l ml>
static double harmonic(int l1, int m1, int k, int l2, int m2) {
    double r = std::sqrt((2. * l1 + 1) * (2 * l2 + 1)) * exact3j(l1, k, l2, 0, 0, 0) * exact3j(l1, k, l2, -m1, m1 - m2, m2);
    return (m1 & 1) ? -r : r;
}
// a spherical component of an angular momentum between |j m>
static double momentum(double j, double m1, double m2) {
    if (m1 == m2) return m1;
    if (m1 == m2 + 1) return -std::sqrt((j * (j + 1) - m2 * (m2 + 1)) / 2);
    if (m1 == m2 - 1) return std::sqrt((j * (j + 1) - m2 * (m2 - 1)) / 2);
    return 0;
}
static double refMultipole(const A &a, const A &b, double s, int k) {
    double r = 0;
    for (int m1 = -a.l; m1 <= a.l; m1++)
        for (int m2 = -b.l; m2 <= b.l; m2++) {
            if (a.m - m1 != b.m - m2) continue; // the spin does not change
            double c = cg(a, s, m1) * cg(b, s, m2);
            if (c != 0) r += c * harmonic(a.l, m1, k, b.l, m2);
        }
    return r;
}
static double refMagnetic(const A &a, const A &b, double s) {
    double r = 0;
    if (a.l != b.l) return 0;
    for (int m1 = -a.l; m1 <= a.l; m1++)
        for (int m2 = -b.l; m2 <= b.l; m2++) {
            double c = cg(a, s, m1) * cg(b, s, m2);
            if (c == 0) continue;
            double s1 = a.m - m1, s2 = b.m - m2;
            if (s1 == s2) r += c * gL * momentum(a.l, m1, m2);
            if (m1 == m2) r += c * gS * momentum(s, s1, s2);
        }
    return r;
}
extern "C" void entry_values() {
    sym_mode_real(1);
    int S = sym_choice("2*spin", 0, 2);
    auto t = table(S, TIER ? 3 : S == 1 ? 2 : 1);
    int ia = sym_choice("row", 0, t.size() - 1);
    A a = t[ia];
    int m = TIER ? sym_choice("method", 0, 1) : ia & 1;
    int n1 = sym_int("n1", 1, 1000000), n2 = sym_int("n2", 1, 1000000);
    double p1 = sym_real("psi1", -1, 1), p2 = sym_real("psi2", -1, 1);
    StateOne x(SP[S], n1, a.l, a.j, a.m);
    MatrixElementCache c;
    c.setMethod(m ? WHITTAKER : NUMEROV);
    int z = atomId(SP[S], "");
    bool same = n1 == n2;
    for (size_t ib = 0; ib < t.size(); ib++) {
        A b = t[ib];
        StateOne y(SP[S], n2, b.l, b.j, b.m);
        knownPsi.clear();
        knownPsi.push_back({z, n1, a.l, a.j, p1});
        if (!same || a.l != b.l || a.j != b.j) knownPsi.push_back({z, n2, b.l, b.j, p2});
        MatrixElementCache c; // another one for every pair, which keeps the wavefunctions arbitrary
        c.setMethod(m ? WHITTAKER : NUMEROV);
        double sign = std::fmod(std::fabs(a.m - b.m), 2) == 1 ? -1 : 1;
        for (int k = 0; k <= 3; k++) {
            double ru = powi(au2um, k), u = elementary_charge * ru; // units
            double ang = refMultipole(a, b, S / 2., k), v = c.getElectricMultipole(x, y, k) / u;
            double rad = refRadial(!m, z, n1, a.l, a.j, n2, b.l, b.j, k);
            near(v, rad * ang, "an electric multipole differs from the integral over radius, angles and spin");
            near(c.getElectricMultipole(y, x, k) / u, sign * v, "an electric multipole is not Hermitian");
            near(c.getRadial(x, y, k) / ru, rad, "a radial element differs from the integral");
            near(c.getRadial(y, x, k) / ru, rad, "a radial element is not symmetric");
            if (k == 1) near(c.getElectricDipole(x, y) / u, v, "the electric dipole is not the first multipole");
            if (k == 0 || k == 2) {
                double u2 = elementary_charge * powi(au2um, 2), rad2 = refRadial(!m, z, n1, a.l, a.j, n2, b.l, b.j, 2);
                double w = c.getElectricMultipole(x, y, 2, k) / u2, d = c.getDiamagnetism(x, y, k) / u2 / elementary_charge;
                near(w, rad2 * ang, "an electric multipole with another radial power is wrong");
                near(d, 2. / 3 * w, "a diamagnetic element is not 2/3 e times the multipole of r^2");
                near(c.getDiamagnetism(y, x, k) / u2 / elementary_charge, sign * d, "a diamagnetic element is not Hermitian");
            }
            if (!selectionRulesMultipoleNew(x, y, k)) {
                sym_cover("forbidden multipole");
                near(ang, 0, "the selection rules forbid a multipole that does not vanish");
                near(v, 0, "an electric multipole does not vanish although the selection rules forbid it");
            } else
                sym_cover("allowed multipole");
        }
        double ang = refMagnetic(a, b, S / 2.), v = c.getMagneticDipole(x, y) / -bohr_magneton;
        double rad = refRadial(!m, z, n1, a.l, a.j, n2, b.l, b.j, 0);
        if (!selectionRulesMomentumNew(x, y)) {
            sym_cover("forbidden magnetic dipole");
            near(ang, 0, "the selection rules forbid a magnetic dipole that does not vanish");
            near(v, 0, "a magnetic dipole does not vanish although the selection rules forbid it");
        } else
            sym_cover("allowed magnetic dipole");
        near(v, rad * ang, "a magnetic dipole differs from the integral over radius, angles and spin");
        near(c.getMagneticDipole(y, x) / -bohr_magneton, sign * v, "a magnetic dipole is not Hermitian");
    }
}

// ------------------------------------------------------------------------------- histories
static const struct {
    int l;
    float j;
} LJ[] = {{0, 0.5f}, {1, 0.5f}, {1, 1.5f}, {2, 1.5f}};
struct Request {
    int op, k;
};
static const Request R[] = {{0, 1}, {2, 0}, {1, 2}, {0, 2}, {3, 2}, {1, 0}, {3, 0}, {4, 0}};
static Request request(const char *name) {
    return R[sym_choice(name, 0, TIER ? 7 : 2)];
}
static double ask(MatrixElementCache &c, const Request &r, const StateOne &a, const StateOne &b) {
    switch (r.op) {
    case 0: return c.getElectricMultipole(a, b, r.k);
    case 1: return c.getDiamagnetism(a, b, r.k);
    case 2: return c.getMagneticDipole(a, b);
    case 3: return c.getRadial(a, b, r.k);
    case 4: return c.getElectricDipole(a, b);
    }
    return 0;
}
static void precalculate(MatrixElementCache &c, int op, const std::vector<StateOne> &v) {
    switch (op) {
    case 0: c.precalculateElectricMomentum(v, 0); break;
    case 1: c.precalculateMagneticMomentum(v, 1); break;
    case 2: c.precalculateDiamagnetism(v, 2, 0); break;
    case 3: c.precalculateRadial(v, 2); break;
    case 4: c.precalculateMultipole(v, 1); break;
    case 5: c.precalculateMultipole(v, 2); break;
    }
}
static StateOne state(const std::string &sp, int lj, const char *n, const char *m) {
    int M = sym_int(m, 0, 3), J = 2 * LJ[lj].j;
    sym_assume(M <= J);
    return StateOne(sp, sym_int(n, 1, 1000000), LJ[lj].l, LJ[lj].j, (2 * M - J) / 2.f);
}
static std::string scratchDir() { // an empty directory for the file of the cache
    static std::string d;
    if (d.empty()) {
        char t[] = "/tmp/c18XXXXXX";
        d = sym_symbolic() ? "dir" : mkdtemp(t);
    }
    return d;
}
static std::unique_ptr<MatrixElementCache> open(bool file) {
    return file ? std::make_unique<MatrixElementCache>(scratchDir()) : std::make_unique<MatrixElementCache>();
}
// the value of a request after another request, or after the same request for other states
static void history(bool file, bool other) {
    sym_mode_real(1);
    unknownSymbols = true;
    static const int PAIRS[][2] = {{0, 1}, {1, 2}, {0, 0}, {0, 2}, {0, 3}, {1, 3}};
    // an earlier request for other states in the given order
    Request r = request("request"), e = r;
    if (TIER) e = request("earlier");
    else if (!file && sym_choice("another request", 0, 1)) e = Request{r.op == 0 ? 2 : 0, 1};
    auto &lj = PAIRS[sym_choice("lj", 0, TIER ? 5 : 1)];
    int la = lj[0], lb = lj[1], how = sym_choice("earlier states", other && !TIER ? 1 : 0, TIER ? 3 : 2);
    StateOne a = state("Rb", la, "na", "ma"), b = state("Rb", lb, "nb", "mb");
    StateOne c("Cs", a.getN(), a.getL(), a.getJ(), a.getM()), d("Cs", b.getN(), b.getL(), b.getJ(), b.getM());
    if (how == 1 || how == 3) c = state("Rb", how == 1 ? lb : la, "nc", "mc");
    auto ref = open(false);
    double v = ask(*ref, r, a, b);
    auto first = open(file);
    switch (how) {
    case 0: ask(*first, e, b, a); break;
    case 1: ask(*first, e, a, c); break;
    case 2: ask(*first, e, c, d); break;
    case 3: ask(*first, e, c, b); break;
    }
    if (other) { // a second object with the same file
        auto second = open(file);
        sym_cover("another cache with the same file");
        near(ask(*second, r, a, b), v, "a matrix element depends on what another cache wrote to the file");
    } else {
        sym_cover("same cache");
        if (file && (TIER || how == 1) && sym_choice("fork", 0, 1)) processId++;
        near(ask(*first, r, a, b), v, "a matrix element depends on the requests before");
        near(ask(*first, r, a, b), v, "a matrix element changes when it is requested again");
    }
}
extern "C" void entry_history() { history(false, false); }
extern "C" void entry_history_file() { history(true, false); }
extern "C" void entry_history_other() { history(true, true); }
extern "C" void entry_precalculate() {
    sym_mode_real(1);
    unknownSymbols = true;
    Request r = request("request");
    int la = sym_choice("lj a", 0, 1), lb = sym_choice("lj b", la, TIER ? 3 : 2);
    StateOne a = state("Rb", la, "na", "ma"), b = state("Rb", lb, "nb", "mb");
    auto ref = open(false);
    double v = ask(*ref, r, a, b);
    int how = sym_choice("file or artificial state", 0, TIER ? 3 : 2);
    auto c = open(how & 1);
    std::vector<StateOne> basis;
    if (how & 2) basis.push_back(StateOne("label"));
    basis.push_back(a);
    basis.push_back(b);
    precalculate(*c, sym_choice("precalculation", 0, TIER ? 5 : 3), basis);
    sym_cover("precalculated");
    near(ask(*c, r, a, b), v, "a matrix element depends on what was precalculated");
    near(ask(*c, r, a, b), v, "a matrix element changes when it is requested again");
}
// all requests for all pairs of a basis one after another
extern "C" void entry_sweep() {
    sym_mode_real(1);
    unknownSymbols = true;
    static const struct {
        int l;
        float j, m;
    } T[] = {{0, 0.5f, 0.5f}, {1, 0.5f, -0.5f}, {1, 1.5f, 0.5f}, {2, 1.5f, 1.5f}, {2, 1.5f, -0.5f}, {2, 2.5f, -0.5f}};
    int how = sym_choice("cache", 0, 8); // in memory, with a file, another cache for every request, precalculated
    int start = how < 3 ? sym_choice("start", 0, TIER ? 3 : 1) : 0;
    const int N = how == 1 || how == 2 ? 6 * 6 * 3 : 6 * 6 * 8;
    int d = sym_choice("n2 - n1", TIER ? -1 : 0, 1), n[2] = {7, 7 + d};
    std::vector<StateOne> basis;
    for (int i = 0; i < 6; i++) basis.push_back(StateOne("Rb", n[i % 2], T[i].l, T[i].j, T[i].m));
    auto c = open(how == 1 || how == 2);
    if (how >= 3) precalculate(*c, how - 3, basis);
    sym_cover("sweep");
    for (int x = 0; x < N; x++) {
        int i = (start & 1 ? N - 1 - x : x);
        const StateOne &a = basis[i / 6 % 6], &b = basis[i % 6];
        const Request &r = R[start & 2 ? i / 36 : (N / 36 - 1 - i / 36)];
        MatrixElementCache ref;
        double v = ask(ref, r, a, b);
        if (how == 2) c = open(true);
        near(ask(*c, r, a, b), v, "a matrix element depends on the elements requested or precalculated before");
    }
}
// changes of the method and the database between requests
extern "C" void entry_settings() {
    sym_mode_real(1);
    unknownSymbols = true;
    Request r = request("request"), e = request("earlier");
    StateOne a("Rb", sym_int("na", 1, 1000000), 0, 0.5f, 0.5f), b("Rb", sym_int("nb", 1, 1000000), 1, 1.5f, -0.5f);
    if (r.op == 2 && e.op == 2) b = StateOne("Rb", b.getN(), 0, 0.5f, -0.5f);
    auto c = open(sym_choice("file", 0, 1));
    int s1 = sym_choice("first settings", 0, 3), s2 = sym_choice("second settings", 0, 5);
    c->setMethod(s1 & 1 ? WHITTAKER : NUMEROV);
    if (s1 & 2) c->setDefectDB("b.sql");
    std::string used = s1 & 2 ? "b.sql" : "";
    if (sym_choice("precalculated", 0, 1)) precalculate(*c, 0, {a, b});
    else ask(*c, e, a, b);
    c->setMethod(s2 & 1 ? WHITTAKER : NUMEROV);
    if (s2 / 2) used = s2 / 2 == 1 ? "a.sql" : "", c->setDefectDB(used);
    sym_assert(c->getDefectDB() == used, "the database is not the one that was set");
    sym_cover("settings changed");
    MatrixElementCache ref;
    ref.setMethod(s2 & 1 ? WHITTAKER : NUMEROV);
    ref.setDefectDB(used);
    near(ask(*c, r, a, b), ask(ref, r, a, b), "a matrix element is not the one of the current method and database");
}
// a request that fails does not change the requests after it
extern "C" void entry_failure() {
    sym_mode_real(1);
    unknownSymbols = true;
    Request r = request("request"), e = request("earlier");
    StateOne a = state("Rb", 0, "na", "ma"), b = state("Rb", 1, "nb", "mb"), x("Xx", 5, 0, 0.5f, 0.5f), y("Xx", 6, 0, 0.5f, 0.5f);
    int how = sym_choice("failure", 0, 1);
    auto c = open(sym_choice("file", 0, 1));
    bool thrown = false;
    try {
        if (how) ask(*c, e, a, x); // different species
        else ask(*c, e, x, y); // unknown species
    } catch (std::exception &) {
        thrown = true;
    }
    sym_cover("failed request");
    sym_assert(thrown, "a request for states of different or unknown species does not fail");
    MatrixElementCache ref;
    near(ask(*c, r, a, b), ask(ref, r, a, b), "a matrix element depends on a failed request");
}
// states ask for their energies with the database of the cache
extern "C" void entry_energy() {
    sym_mode_real(1);
    StateOne a = state("Rb", sym_choice("lj a", 0, 3), "na", "ma"), b = state(sym_choice("sp", 0, 1) ? "Cs" : "Sr3", sym_choice("lj b", 0, 3), "nb", "mb");
    StateTwo p(a, b);
    MatrixElementCache c;
    std::string db = DBS[sym_choice("db", 0, 2)];
    if (db != "") c.setDefectDB(db);
    auto en = [&](const StateOne &s, const std::string &db) { return refEnergy(s.getSpecies(), s.getN(), s.getL(), s.getJ(), db); };
    auto ns = [&](const StateOne &s, const std::string &db) { return refNstar(s.getSpecies(), s.getN(), s.getL(), s.getJ(), db); };
    near(a.getEnergy(), en(a, ""), "the energy of a state is not that of the quantum defects");
    near(a.getEnergy(c), en(a, db), "the energy of a state is not that of the database of the cache");
    near(a.getNStar(), ns(a, ""), "the effective quantum number of a state is not that of the quantum defects");
    near(a.getNStar(c), ns(a, db), "the effective quantum number of a state is not that of the database of the cache");
    near(p.getEnergy(), en(a, "") + en(b, ""), "the energy of a pair is not the sum");
    near(p.getEnergy(c), en(a, db) + en(b, db), "the energy of a pair is not the sum");
    near(p.getEnergy(1), en(b, ""), "the energy of the second atom is wrong");
    near(p.getEnergy(0, c), en(a, db), "the energy of the first atom is wrong");
    near(p.getNStar()[0], ns(a, ""), "the effective quantum number of the first atom is wrong");
    near(p.getNStar(c)[1], ns(b, db), "the effective quantum number of the second atom is wrong");
    near(p.getNStar(1), ns(b, ""), "the effective quantum number of the second atom is wrong");
    near(p.getNStar(0, c), ns(a, db), "the effective quantum number of the first atom is wrong");
    double r1 = c.getRadial(a, a, 2), r2 = c.getRadial(b, b, 2);
    if (r1 >= 0 && r2 >= 0) near(p.getLeRoyRadius(c), 2 * (std::sqrt(r1) + std::sqrt(r2)), "the LeRoy radius is wrong");
    sym_cover("energies");
}
// elements from a file replace calculated ones
extern "C" void entry_loaded() {
    sym_mode_real(1);
    struct Row {
        int n1, l1;
        float j1;
        int n2, l2;
        float j2;
        double v;
    };
    static const Row T[2][3] = {{{5, 0, 0.5f, 6, 1, 1.5f, 4.25}, {5, 1, 0.5f, 7, 0, 0.5f, -1.5}, {6, 1, 1.5f, 6, 2, 2.5f, 3.125}},
                                {{5, 0, 0.f, 6, 1, 1.f, 2.25}, {5, 1, 1.f, 7, 0, 0.f, 0.75}, {6, 1, 1.f, 6, 2, 2.f, -7.5}}};
    static const char *const TEXT[2] = {"\"n1\";\"l1\";\"j1\";\"n2\";\"l2\";\"j2\";\"value\";\"comment\"\n"
                                        "5;0;0.5;6;1;1.5;4.25;\"table V\"\n5;1;0.5;7;0;0.5;-1.5;\"\"\n6;1;1.5;6;2;2.5;3.125;\"a\"\n",
                                        "\"n1\";\"l1\";\"j1\";\"n2\";\"l2\";\"j2\";\"value\"\n"
                                        "5;0;0;6;1;1;2.25\n5;1;1;7;0;0;0.75\n6;1;1;6;2;2;-7.5\n"};
    std::string path = sym_symbolic() ? "dipole.csv" : scratchDir() + "/dipole.csv";
    int t = sym_choice("species", 0, 1);
    const char *sp = t ? "Sr1" : "Rb";
    FILE *f = fopen(path.c_str(), "wb");
    fwrite(TEXT[t], 1, strlen(TEXT[t]), f);
    fclose(f);
    Row r = T[t][sym_choice("row", 0, 2)];
    int J1 = 2 * r.j1, J2 = 2 * r.j2, when = sym_choice("database", 0, 2);
    bool before = TIER || !when ? sym_choice("request before", 0, 1) : when == 1;
    int n1 = sym_int("n1", 1, 1000000), n2 = sym_int("n2", 1, 1000000);
    int M1 = 2 * sym_choice("m1", 0, J1) - J1, M2 = 2 * sym_choice("m2", 0, J2) - J2;
    StateOne a(sp, n1, r.l1, r.j1, M1 / 2.f), b(sp, n2, r.l2, r.j2, M2 / 2.f);
    MatrixElementCache c;
    if (before) c.getElectricDipole(a, b);
    if (when == 1) c.setDefectDB("a.sql");
    c.loadElectricDipoleDB(path, sp);
    if (when == 2) c.setDefectDB("a.sql");
    MatrixElementCache ref;
    if (when) ref.setDefectDB("a.sql");
    double u = elementary_charge * au2um, v = c.getElectricDipole(a, b) / u, expected = ref.getElectricDipole(a, b) / u;
    bool loaded = false;
    for (auto &x : T[t]) { // the file holds <j1||r||j2>
        double sign = std::fmod(std::fabs(x.j1 - (x.l1 == r.l1 ? M1 : M2) / 2.f), 2) == 1 ? -1 : 1;
        double v1 = sign * exact3j(x.j1, 1, x.j2, -M1 / 2., (M1 - M2) / 2., M2 / 2.) * x.v, v2 = sign * exact3j(x.j1, 1, x.j2, -M2 / 2., (M2 - M1) / 2., M1 / 2.) * x.v;
        if (x.l1 == r.l1 && x.j1 == r.j1 && x.l2 == r.l2 && x.j2 == r.j2 && n1 == x.n1 && n2 == x.n2) expected = v1, loaded = true;
        if (x.l1 == r.l2 && x.j1 == r.j2 && x.l2 == r.l1 && x.j2 == r.j1 && n2 == x.n1 && n1 == x.n2) expected = (M1 - M2) / 2 % 2 ? -v2 : v2, loaded = true;
    }
    if (loaded) sym_cover("loaded element");
    else sym_cover("other element");
    near(v, expected, "an electric dipole is not the one that was loaded from a file");
    near(c.getElectricDipole(b, a) / u, (M1 - M2) / 2 % 2 ? -expected : expected, "a loaded electric dipole is not Hermitian");
}
// a saved and restored cache continues with the same settings and elements
extern "C" void entry_archive() {
    sym_mode_real(1);
    unknownSymbols = true;
    Request r = request("request");
    StateOne a("Rb", sym_int("na", 1, 1000000), 0, 0.5f, 0.5f), b("Rb", sym_int("nb", 1, 1000000), 1, 1.5f, -0.5f);
    if (r.op == 2) b = StateOne("Rb", b.getN(), 0, 0.5f, -0.5f);
    bool file = sym_choice("file", 0, 1);
    int s = sym_choice("settings", 0, file ? 1 : 3), before = sym_choice("before", 0, 2);
    auto c = open(file);
    MatrixElementCache d, ref;
    for (auto x : {c.get(), &ref}) {
        x->setMethod(s & 1 ? WHITTAKER : NUMEROV);
        if (s & 2) x->setDefectDB("b.sql");
    }
    if (before == 1) ask(*c, r, a, b);
    if (before == 2) precalculate(*c, 0, {a, b});
    roundTrip(*c, d);
    sym_cover("restored");
    sym_assert(d.getDefectDB() == ref.getDefectDB(), "a restored cache has another database");
    near(ask(d, r, a, b), ask(ref, r, a, b), "a restored cache gives other matrix elements");
    near(ask(*c, r, a, b), ask(ref, r, a, b), "a cache gives other matrix elements after it was saved");
}
