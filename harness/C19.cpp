// C19: the matrix elements of the original program.
#include "sym.h"
#include "AtomModel.h"
#ifdef SYM_ENGINE
#include "sqlmodel.h"
#endif
#include "pairinteraction/Basisnames.hpp"
#include "pairinteraction/Constants.hpp"
#include "pairinteraction/MatrixElements.hpp"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <ostream>
#include <string>
#include <unistd.h>
#include <vector>

#ifdef SYM_ENGINE
// numbers in the text of statements; with less than 17 digits the number read back is another one
extern "C" std::ostream &pisym_insert_double(std::ostream &os, double v) {
    if (sym_isconst(v) && v * 2 == std::floor(v * 2) && std::fabs(v) < 100000) {
        int h = (int)(v * 2);
        if (h < 0) os << "-", h = -h;
        os << h / 2;
        if (h & 1) os << ".5";
        return os;
    }
    if (os.precision() < 17) {
        double e = 5;
        for (int i = 0; i < os.precision(); i++) e /= 10;
        v = v * (1 + sym_real("rounding", -e, e));
    }
    sqlm::numbers().push_back(v);
    return os << "#" << (int)sqlm::numbers().size() - 1;
}
extern "C" std::ostream &pisym_insert_float(std::ostream &os, float v) { return os << (double)v; }
#endif
static void near(double a, double b, const char *what) { sym_assert_near(a, b, 1e-6, what); } // the code takes square roots in single precision
static void same(double a, double b, const char *what) { sym_assert_near(a, b, 1e-11, what); }
struct A {
    int n, l;
    float j, m;
};
static const double S = 0.5;
static std::string species = "Rb";
static StateOneOld st(const A &a) { return StateOneOld(species, a.n, a.l, a.j, a.m); }
static std::vector<A> table(int lmax) {
    std::vector<A> v;
    for (int l = 0; l <= lmax; l++)
        for (int J = abs(2 * l - 1); J <= 2 * l + 1; J += 2)
            for (int M = -J; M <= J; M += 2) v.push_back({7 + (l & 1), l, J / 2.f, M / 2.f});
    return v;
}
// <l s; ml m-ml | j m>
static double cg(const A &a, int ml) {
    double ms = a.m - ml;
    double r = std::sqrt(2 * (double)a.j + 1) * exact3j(a.l, S, a.j, ml, ms, -a.m);
    return std::fmod(std::fabs(a.l - S + a.m), 2) == 1 ? -r : r;
}
// the spherical harmonic C^k_q between |l ml>
static double harmonic(int l1, int m1, int k, int l2, int m2) {
    double r = std::sqrt((2. * l1 + 1) * (2 * l2 + 1)) * exact3j(l1, k, l2, 0, 0, 0) * exact3j(l1, k, l2, -m1, m1 - m2, m2);
    return (m1 & 1) ? -r : r;
}
// a spherical component of an angular momentum between |j m>
static double momentum(double j, double m1, double m2) {
    if (m1 == m2) return m1;
    if (m1 == m2 + 1) return -std::sqrt((j * (j + 1) - m2 * (m2 + 1)) / 2);
    if (m1 == m2 - 1) return std::sqrt((j * (j + 1) - m2 * (m2 - 1)) / 2);
    return 0;
}
static double refMultipole(const A &a, const A &b, int k) {
    double r = 0;
    for (int m1 = -a.l; m1 <= a.l; m1++)
        for (int m2 = -b.l; m2 <= b.l; m2++) {
            if (a.m - m1 != b.m - m2) continue; // the spin does not change
            double c = cg(a, m1) * cg(b, m2);
            if (c != 0) r += c * harmonic(a.l, m1, k, b.l, m2);
        }
    return r;
}
static double refMagnetic(const A &a, const A &b) {
    double r = 0;
    if (a.l != b.l) return 0;
    for (int m1 = -a.l; m1 <= a.l; m1++)
        for (int m2 = -b.l; m2 <= b.l; m2++) {
            double c = cg(a, m1) * cg(b, m2);
            if (c == 0) continue;
            double s1 = a.m - m1, s2 = b.m - m2;
            if (s1 == s2) r += c * momentum(a.l, m1, m2);
            if (m1 == m2) r += c * 2.0023192 * momentum(S, s1, s2);
        }
    return r;
}
// ------------------------------------------------------------------------------- requests
enum { ELECTRIC, MULTIPOLE2, MAGNETIC, DIA0, DIA2, RADIAL1, RADIAL2, MULTIPOLE3, MULTIPOLE1, NOPS };
static bool allowed(int op, const StateOneOld &a, const StateOneOld &b) {
    switch (op) {
    case ELECTRIC:
    case MULTIPOLE1: return selectionRulesMultipole(a, b, 1);
    case MULTIPOLE2:
    case DIA2: return selectionRulesMultipole(a, b, 2);
    case MULTIPOLE3: return selectionRulesMultipole(a, b, 3);
    case DIA0: return selectionRulesMultipole(a, b, 0);
    case MAGNETIC: return selectionRulesMomentum(a, b);
    }
    return true;
}
template <typename B>
static void precalculate(MatrixElements &c, int op, const B &basis, int q) {
    switch (op) {
    case ELECTRIC: c.precalculateElectricMomentum(basis, q); break;
    case MULTIPOLE1: c.precalculateMultipole(basis, 1); break;
    case MULTIPOLE2: c.precalculateMultipole(basis, 2); break;
    case MULTIPOLE3: c.precalculateMultipole(basis, 3); break;
    case MAGNETIC: c.precalculateMagneticMomentum(basis, q); break;
    case DIA0: c.precalculateDiamagnetism(basis, 0, q); break;
    case DIA2: c.precalculateDiamagnetism(basis, 2, q); break;
    case RADIAL1: c.precalculateRadial(basis, 1); break;
    case RADIAL2: c.precalculateRadial(basis, 2); break;
    }
}
static bool usesQ(int op) { return op == ELECTRIC || op == MAGNETIC || op == DIA0 || op == DIA2; }
static bool plain = false; // the functions for vectors of states
static void precalculate(MatrixElements &c, int op, const std::vector<A> &v, int q) {
    std::vector<StateOneOld> s;
    for (auto &a : v) s.push_back(st(a));
    if (plain) precalculate(c, op, s, q);
    else precalculate(c, op, std::make_shared<const BasisnamesOne>(BasisnamesOne::fromStates(s)), q);
}
static double get(MatrixElements &c, int op, const A &a, const A &b) {
    StateOneOld x = st(a), y = st(b);
    switch (op) {
    case ELECTRIC: return c.getElectricMomentum(x, y);
    case MULTIPOLE1: return c.getMultipole(x, y, 1);
    case MULTIPOLE2: return c.getMultipole(x, y, 2);
    case MULTIPOLE3: return c.getMultipole(x, y, 3);
    case MAGNETIC: return c.getMagneticMomentum(x, y);
    case DIA0: return c.getDiamagnetism(x, y, 0);
    case DIA2: return c.getDiamagnetism(x, y, 2);
    case RADIAL1: return c.getRadial(x, y, 1);
    case RADIAL2: return c.getRadial(x, y, 2);
    }
    return 0;
}
// the factor of the unit, the angular part and the radial power
static double unit(int op) {
    double e = au2GHz / au2Vcm;
    switch (op) {
    case MAGNETIC: return au2GHz / au2G * 0.5;
    case DIA0:
    case DIA2: return elementary_charge * inverse_electron_rest_mass / 12 * e * au2um;
    case MULTIPOLE2:
    case RADIAL2: return e * au2um;
    case MULTIPOLE3: return e * au2um * au2um;
    }
    return e;
}
static double angular(int op, const A &a, const A &b) {
    switch (op) {
    case MAGNETIC: return refMagnetic(a, b);
    case DIA0: return refMultipole(a, b, 0);
    case MULTIPOLE2:
    case DIA2: return refMultipole(a, b, 2);
    case MULTIPOLE3: return refMultipole(a, b, 3);
    case RADIAL1:
    case RADIAL2: return 1;
    }
    return refMultipole(a, b, 1);
}
static int power(int op) {
    switch (op) {
    case MAGNETIC: return 0;
    case ELECTRIC:
    case MULTIPOLE1:
    case RADIAL1: return 1;
    case MULTIPOLE3: return 3;
    }
    return 2;
}
static std::string scratchFile() {
    static std::string d;
    if (d.empty()) {
        char t[] = "/tmp/c19XXXXXX";
        d = sym_symbolic() ? "cache_elements.db" : std::string(mkdtemp(t)) + "/cache_elements.db";
    }
    return d;
}
static Configuration method(int m) {
    Configuration c;
    c["missingCalc"] << (m == 0 ? "true" : "false");
    c["missingWhittaker"] << (m == 1 ? "true" : "false");
    return c;
}
static void arbitraryPsi(const std::vector<A> &v, const char *sp = "Rb") {
    int z = atomId(sp, "");
    for (auto &a : v) {
        bool known = false;
        for (auto &k : knownPsi) known = known || (k.z == z && k.n == a.n && k.l == a.l && k.j == a.j);
        if (!known) knownPsi.push_back({z, a.n, a.l, a.j, sym_real("psi", -1, 1)});
    }
}
// ------------------------------------------------------------------------------- selection rules
extern "C" void entry_selection() {
    static const int HL = 1 << 20;
    int l1 = sym_int("l1", 0, 1 << 20), l2 = sym_int("l2", 0, 1 << 20);
    int J1 = sym_int("2*j1", 0, HL), J2 = sym_int("2*j2", 0, HL), M1 = sym_int("2*m1", -HL, HL), M2 = sym_int("2*m2", -HL, HL);
    sym_assume((J1 & 1) == (J2 & 1));
    sym_assume((J1 & 1) == (M1 & 1));
    sym_assume((J1 & 1) == (M2 & 1));
    StateOneOld a("Rb", 5, l1, J1 / 2.f, M1 / 2.f), b("Rb", 6, l2, J2 / 2.f, M2 / 2.f);
    int dl = l1 < l2 ? l2 - l1 : l1 - l2, dJ = J1 < J2 ? J2 - J1 : J1 - J2, dM = M1 - M2;
    int q = sym_int("q", -5, 5);
    bool one = sym_choice("momentum", 0, 1);
    if (one) {
        bool rule = dl == 0 && dJ <= 2;
        sym_cover("momentum");
        sym_assert(selectionRulesMomentum(a, b) == (rule && dM >= -2 && dM <= 2), "the selection rules of a momentum differ from |dj| <= 1, |dm| <= 1, dl = 0");
        sym_assert(selectionRulesMomentum(a, b, q) == (rule && dM == 2 * q && q >= -1 && q <= 1), "the selection rules of a component of a momentum are wrong");
    } else {
        int k = sym_choice("k", 0, 3);
        bool rule = dl <= k && ((dl + k) & 1) == 0 && dJ <= 2 * k && J1 + J2 >= 2 * k;
        bool zero = k == 2 && J1 == 3 && J2 == 3 && M1 == -M2 && (M1 == 1 || M1 == -1); // the 3j symbol happens to vanish
        sym_cover("multipole");
        bool gen = selectionRulesMultipole(a, b, k), com = selectionRulesMultipole(a, b, k, q);
        sym_assert(gen == (rule && !zero && dM >= -2 * k && dM <= 2 * k), "the selection rules of a multipole are wrong");
        sym_assert(com == (rule && !zero && dM == 2 * q && q >= -k && q <= k), "the selection rules of a component of a multipole are wrong");
    }
}
// ------------------------------------------------------------------------------- values
static void values(bool vectors) {
    sym_mode_real(1);
    plain = vectors;
    auto t = table(TIER ? 3 : 2);
    int op = sym_choice("element", 0, TIER ? NOPS - 1 : NOPS - 3), m = vectors ? 0 : sym_choice("method", 0, 1);
    A a = t[sym_choice("row", 0, t.size() - 1)];
    for (size_t ib = 0; ib < t.size(); ib++) {
        A b = t[ib];
        double ang = angular(op, a, b);
        if (!allowed(op, st(a), st(b))) {
            sym_cover("forbidden");
            near(ang, 0, "the selection rules forbid an element that does not vanish");
            continue;
        }
        knownPsi.clear();
        arbitraryPsi({a, b});
        MatrixElements c(method(m), "Rb", ":memory:");
        precalculate(c, op, {a, b}, (int)(a.m - b.m));
        double v = get(c, op, a, b) / unit(op);
        sym_cover("allowed");
        near(v, refRadial(m == 0, atomId("Rb", ""), a.n, a.l, a.j, b.n, b.l, b.j, power(op)) * ang, "a matrix element differs from the integral over radius, angles and spin");
    }
}
extern "C" void entry_values() { values(false); }
extern "C" void entry_values_vector() { values(true); }
// ------------------------------------------------------------------------------- histories
static void history(bool vectors) {
    sym_mode_real(1);
    plain = vectors;
    static const A T[] = {{7, 0, 0.5f, 0.5f}, {8, 1, 1.5f, 0.5f}, {7, 1, 0.5f, -0.5f}, {7, 2, 1.5f, -0.5f}, {8, 0, 0.5f, -0.5f}, {7, 2, 2.5f, 1.5f}};
    const int N = TIER ? 6 : 4;
    int op = sym_choice("element", 0, TIER ? NOPS - 1 : RADIAL1), before = sym_choice("earlier element", 0, TIER ? NOPS - 1 : RADIAL1);
    int q = usesQ(op) ? sym_choice("q", TIER ? -1 : 0, 1) : 0, q2 = usesQ(before) ? sym_choice("earlier q", TIER ? -1 : 0, 1) : 0;
    int how = sym_choice("history", 0, 4); // same object, another object with the file, an early request
    int z = how == 2 || how == 4 ? sym_choice("size of the earlier basis", 1, TIER ? N : 2) : N;
    std::vector<A> basis(T, T + N), earlier(T, T + z);
    arbitraryPsi(basis);
    std::string file = how == 0 ? ":memory:" : scratchFile();
    MatrixElements ref("Rb", ":memory:"), c("Rb", file), d("Rb", file);
    precalculate(ref, op, basis, q);
    if (how == 3) {
        for (auto &a : basis)
            for (auto &b : basis) get(c, before, a, b);
        sym_cover("request before the precalculation");
    } else {
        precalculate(how == 1 || how == 2 ? d : c, before, earlier, q2);
        sym_cover(how == 1 || how == 2 ? "another object wrote the file" : "earlier precalculation");
    }
    precalculate(c, op, basis, q);
    for (int r = 0; r < 2; r++)
        for (auto &a : basis)
            for (auto &b : basis) {
                if (!allowed(op, st(a), st(b)) || (usesQ(op) && a.m - b.m != q)) continue;
                same(get(c, op, a, b) / unit(op), get(ref, op, a, b) / unit(op), "a matrix element depends on what was requested or calculated before");
            }
}
extern "C" void entry_history() { history(false); }
extern "C" void entry_history_vector() { history(true); }
// another atom, another method or a failure with the same file
static void settings(bool vectors) {
    sym_mode_real(1);
    plain = vectors;
    std::vector<A> basis = {{7, 0, 0.5f, 0.5f}, {8, 1, 1.5f, 0.5f}, {8, 0, 0.5f, 0.5f}};
    arbitraryPsi(basis, "Rb");
    arbitraryPsi(basis, "Cs");
    int op = sym_choice("element", 0, TIER ? NOPS - 1 : MAGNETIC), before = sym_choice("earlier element", 0, TIER ? NOPS - 1 : MAGNETIC);
    int m = sym_choice("method", 0, 1), m2 = sym_choice("earlier method", 0, 2);
    const char *sp = sym_choice("atom", 0, 1) ? "Cs" : "Rb";
    static const char *const SP2[] = {"Rb", "Cs", "Xx"};
    std::string sp2 = SP2[sym_choice("earlier atom", 0, 2)];
    MatrixElements ref(method(m), sp, ":memory:"), c(method(m), sp, scratchFile()), d(method(m2), sp2, scratchFile());
    bool thrown = false;
    try {
        species = sp2;
        precalculate(d, before, basis, 0);
    } catch (std::exception &) {
        thrown = true;
    }
    species = sp;
    sym_assert(thrown == (m2 == 2 || sp2 == "Xx"), "a precalculation fails or does not fail although it could not or could be done");
    if (thrown) sym_cover("failed precalculation");
    else sym_cover("other settings");
    precalculate(ref, op, basis, 0);
    precalculate(c, op, basis, 0);
    for (auto &a : basis)
        for (auto &b : basis)
            if (allowed(op, st(a), st(b)) && a.m == b.m) same(get(c, op, a, b) / unit(op), get(ref, op, a, b) / unit(op), "a matrix element is that of another atom or method");
}
extern "C" void entry_settings() { settings(false); }
extern "C" void entry_settings_vector() { settings(true); }
