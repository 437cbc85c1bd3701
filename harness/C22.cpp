// C22: the Hamiltonian of one atom in static fields and next to an ion.
#include "sym.h"
#include "AtomModel.h"
#ifdef SYM_ENGINE
#include "sqlmodel.h"
#endif
#include "pairinteraction/Constants.hpp"
#include "pairinteraction/MatrixElementCache.hpp"
#include "pairinteraction/State.hpp"
#include "pairinteraction/SystemOne.hpp"
#include <cmath>
#include <complex>
#include <set>
#include <string>
#include <vector>

#include <unistd.h>
extern "C" pid_t getpid() noexcept { return 100; }
typedef std::complex<double> C;
typedef std::array<double, 3> V3;
static C mul(const C &a, const C &b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C cj(const C &a) { return C(a.real(), -a.imag()); }
static C from(double x) { return x; }
static C from(const C &x) { return x; }
struct Mat {
    int r, c;
    std::vector<C> v;
    Mat(int r = 0, int c = 0) : r(r), c(c), v(r * c) {}
    C &operator()(int i, int k) { return v[i * c + k]; }
    const C &operator()(int i, int k) const { return v[i * c + k]; }
};
static bool zero(const C &a) { return sym_isconst(a.real()) && sym_isconst(a.imag()) && a.real() == 0 && a.imag() == 0; }
static Mat operator*(const Mat &a, const Mat &b) {
    Mat m(a.r, b.c);
    for (int i = 0; i < a.r; i++)
        for (int x = 0; x < a.c; x++)
            if (!zero(a(i, x)))
                for (int k = 0; k < b.c; k++)
                    if (!zero(b(x, k))) m(i, k) += mul(a(i, x), b(x, k));
    return m;
}
static Mat adj(const Mat &a) {
    Mat m(a.c, a.r);
    for (int i = 0; i < a.r; i++)
        for (int k = 0; k < a.c; k++) m(k, i) = cj(a(i, k));
    return m;
}
static void near(const C &a, const C &b, const char *what, double tol = 1e-6) {
    sym_assert_near(a.real(), b.real(), tol, what);
    sym_assert_near(a.imag(), b.imag(), tol, what);
}
// ------------------------------------------------------------------------------- reference
static const char *species = "Rb";
static double spin() { return species[0] == 'R' ? 0.5 : (species[2] - '1') / 2.; }
// <l s; ml m-ml | j m>
static double coefficient(int l, double s, double j, double m, int ml) {
    double r = std::sqrt(2 * j + 1) * exact3j(l, s, j, ml, m - ml, -m);
    return std::fmod(std::fabs(l - s + m), 2) == 1 ? -r : r;
}
static const int L = 4;
static double coefficients[3][L][3][4 * L][2 * L], harmonics[4][L * L][L * L]; // calculated once
static int jm(int l, double s, double j) { return (int)(j - l + s + 0.25); }
static double cg(const StateOne &a, int ml) {
    double s = spin();
    return coefficients[(int)(2 * s)][a.getL()][jm(a.getL(), s, a.getJ())][(int)(2 * a.getM() + 2 * L)][ml + a.getL()];
}
// the spherical harmonic C^k_q between |l ml>
static double harmonic(int l1, int m1, int k, int l2, int m2) { return harmonics[k][l1 * l1 + l1 + m1][l2 * l2 + l2 + m2]; }
static double integral(int l1, int m1, int k, int l2, int m2) {
    double r = std::sqrt((2. * l1 + 1) * (2 * l2 + 1)) * exact3j(l1, k, l2, 0, 0, 0) * exact3j(l1, k, l2, -m1, m1 - m2, m2);
    return (m1 & 1) ? -r : r;
}
static void tables() {
    for (int l1 = 0; l1 < L; l1++)
        for (int m1 = -l1; m1 <= l1; m1++)
            for (int l2 = 0; l2 < L; l2++)
                for (int m2 = -l2; m2 <= l2; m2++)
                    for (int k = 1; k <= 3; k++)
                        if ((l1 + l2 + k) % 2 == 0 && std::abs(l1 - l2) <= k && l1 + l2 >= k && std::abs(m1 - m2) <= k)
                            harmonics[k][l1 * l1 + l1 + m1][l2 * l2 + l2 + m2] = integral(l1, m1, k, l2, m2);
    for (int S = 0; S <= 2; S++)
        for (int l = 0; l < 3; l++)
            for (int J = std::abs(2 * l - S); J <= 2 * l + S; J += 2)
                for (int M = -J; M <= J; M += 2)
                    for (int m = -l; m <= l; m++)
                        if (std::abs(M - 2 * m) <= S) coefficients[S][l][jm(l, S / 2., J / 2.)][M + 2 * L][m + l] = coefficient(l, S / 2., J / 2., M / 2., m);
}
// Cartesian component of a vector operator whose spherical component between two states is v, with q = m1 - m2
static C cartesian(int i, double v, double q) {
    const double h = std::sqrt(0.5);
    if (i == 2) return q == 0 ? v : 0;
    if (i == 0) return q == -1 ? v * h : q == 1 ? -v * h : 0;
    return q == 1 || q == -1 ? C(0, v * h) : C(0);
}
// a Cartesian component of an angular momentum between |j m>
static C momentum(int i, double j, double m1, double m2) {
    double v = m1;
    if (m1 == m2 + 1) v = -std::sqrt((j * (j + 1) - m2 * (m2 + 1)) / 2);
    if (m1 == m2 - 1) v = std::sqrt((j * (j + 1) - m2 * (m2 - 1)) / 2);
    return cartesian(i, v, m1 - m2);
}
static C direction(int i, int l1, int m1, int l2, int m2) { return std::abs(m1 - m2) > 1 ? C(0) : cartesian(i, harmonic(l1, m1, 1, l2, m2), m1 - m2); }
// sums over the uncoupled states: op(m1, s1, m2, s2)
template <class F>
static C coupled(const StateOne &a, const StateOne &b, F op) {
    C r = 0;
    for (int m1 = -a.getL(); m1 <= a.getL(); m1++)
        for (int m2 = -b.getL(); m2 <= b.getL(); m2++) {
            if (std::fabs(a.getM() - m1) > spin() || std::fabs(b.getM() - m2) > spin()) continue;
            double c = cg(a, m1) * cg(b, m2);
            if (c != 0) r += c * op(m1, a.getM() - m1, m2, b.getM() - m2);
        }
    return r;
}
struct Setting {
    V3 E{{0, 0, 0}}, B{{0, 0, 0}};
    bool dia = true;
    int charge = 0, order = 0;
    double distance = 0; // 0: none
    bool field(const V3 &v) const { return !sym_isconst(v[0]) || !sym_isconst(v[1]) || !sym_isconst(v[2]) || v[0] != 0 || v[1] != 0 || v[2] != 0; }
};
static double radial(const StateOne &a, const StateOne &b, int k) {
    double u = 1;
    for (int i = 0; i < k; i++) u *= au2um;
    return u * refRadial(true, atomId(species, ""), a.getN(), a.getL(), a.getJ(), b.getN(), b.getL(), b.getJ(), k);
}
static double energyOf(const StateOne &a) { return refEnergy(species, a.getN(), a.getL(), a.getJ(), ""); }
static C element(const StateOne &a, const StateOne &b, const Setting &s) {
    int la = a.getL(), lb = b.getL();
    C r = 0;
    if (s.field(s.E)) {
        C x = 0;
        for (int i = 0; i < 3; i++)
            x += s.E[i] * coupled(a, b, [&](int m1, double s1, int m2, double s2) { return s1 == s2 ? direction(i, la, m1, lb, m2) : C(0); });
        r += -elementary_charge * radial(a, b, 1) * x;
    }
    if (s.field(s.B) && la == lb) {
        C x = 0;
        for (int i = 0; i < 3; i++)
            x += s.B[i] * coupled(a, b, [&](int m1, double s1, int m2, double s2) {
                     return (s1 == s2 ? gL * momentum(i, la, m1, m2) : C(0)) + (m1 == m2 ? gS * momentum(i, spin(), s1, s2) : C(0));
                 });
        r += bohr_magneton * radial(a, b, 0) * x;
    }
    if (s.field(s.B) && s.dia) { // (B x r)^2 = B^2 r^2 - (B r)^2
        C x = 0;
        for (int i = 0; i < 3; i++)
            for (int k = 0; k < 3; k++) {
                C y = coupled(a, b, [&](int m1, double s1, int m2, double s2) {
                    C z = 0;
                    if (s1 != s2) return z;
                    for (int l = la - 1; l <= la + 1; l += 2)
                        for (int m = -l; m <= l; m++)
                            if (std::abs(l - lb) == 1 && std::abs(m - m1) <= 1 && std::abs(m - m2) <= 1) z += mul(direction(i, la, m1, l, m), direction(k, l, m, lb, m2));
                    return (i == k && la == lb && m1 == m2 ? C(s.B[0] * s.B[0] + s.B[1] * s.B[1] + s.B[2] * s.B[2]) / 3. : C(0)) - z * (s.B[i] * s.B[k]);
                });
                // the first term is counted once for every i == k, hence the third
                x += y;
            }
        r += elementary_charge * elementary_charge / (8 * electron_rest_mass) * radial(a, b, 2) * x;
    }
    if (s.charge != 0 && s.distance != 0) {
        double d = s.distance;
        for (int k = 1; k <= s.order; k++) {
            d *= s.distance;
            C x = coupled(a, b, [&](int m1, double s1, int m2, double s2) { return s1 == s2 && m1 == m2 ? C(harmonic(la, m1, k, lb, m2)) : C(0); });
            r += -coulombs_constant * elementary_charge * elementary_charge * s.charge * radial(a, b, k) / d * x;
        }
    }
    return r;
}
static Mat reference(const std::vector<StateOne> &st, const Setting &s) {
    Mat m(st.size(), st.size());
    for (size_t i = 0; i < st.size(); i++)
        for (size_t k = 0; k < st.size(); k++) {
            if (st[i].isArtificial() || st[k].isArtificial()) continue;
            m(i, k) = element(st[i], st[k], s);
            if (i == k) m(i, k) += energyOf(st[i]);
        }
    return m;
}
// ------------------------------------------------------------------------------- systems
template <class S>
static Mat dense(const Eigen::SparseMatrix<S> &a) {
    Mat m(a.rows(), a.cols());
    for (int c = 0; c < a.outerSize(); c++)
        for (typename Eigen::SparseMatrix<S>::InnerIterator it(a, c); it; ++it) m(it.row(), it.col()) += from(it.value());
    return m;
}
static void knowPsi(int n, int lmin, int lmax, bool any = true) { // arbitrary wavefunctions
    int z = atomId(species, ""), S = (int)(2 * spin());
    for (int l = lmin; l <= lmax; l++)
        for (int J = std::abs(2 * l - S); J <= 2 * l + S; J += 2) {
            double e = refEnergy(species, n, l, J / 2., "");
            sym_assume((e >= -4) & (e <= 4));
            knownPsi.push_back({z, n, l, J / 2., any ? sym_real(("psi " + std::to_string(n) + "," + std::to_string(l) + "," + std::to_string(J)).c_str(), -1, 1) : 0.3 + 0.2 * l + 0.1 * J});
        }
}
template <class S>
static void set(SystemOne<S> &t, const Setting &s) {
    t.setEfield(s.E);
    t.setBfield(s.B);
    t.enableDiamagnetism(s.dia);
    t.setIonCharge(s.charge);
    t.setRydIonOrder(s.order);
    if (s.distance != 0) t.setRydIonDistance(s.distance);
}
// the matrix of the system is the one of the operator in its basis; unit: the size of the term of interest
template <class S>
static void compare(SystemOne<S> &t, const Setting &s, double unit, const char *what, size_t vectors = 0, double tol = 1e-6) {
    Mat H = dense<S>(t.getHamiltonian()), B = dense<S>(t.getBasisvectors());
    auto st = t.getStates();
    sym_assert(B.r == (int)st.size() && H.r == B.c && H.c == B.c, "the sizes of states, basis vectors and Hamiltonian do not fit");
    if (vectors) sym_assert(B.c == (int)vectors, "the basis has the wrong number of vectors");
    Mat R = adj(B) * reference(st, s) * B;
    for (int i = 0; i < H.r; i++)
        for (int k = 0; k < H.c; k++) near(H(i, k) / unit, R(i, k) / unit, what, tol);
}
static V3 anyField(const char *n, int mask, double unit) {
    V3 v{{0, 0, 0}};
    if (sym_choice((std::string(n) + " negative").c_str(), 0, 1)) unit = -unit;
    for (int i = 0; i < 3; i++)
        if (mask >> i & 1) v[i] = sym_real((std::string(n) + "xyz"[i]).c_str(), 0.25, 2) * unit;
    return v;
}
static const double UE = 1 / (elementary_charge * au2um), UB = 1 / bohr_magneton; // one energy unit
static const double UD = elementary_charge * elementary_charge * au2um * au2um / (8 * electron_rest_mass);
static void noVanishingTerm(const V3 &B, double u) { // the code leaves out terms below 1e-24
    double x = (B[2] * B[2] - (B[0] * B[0] + B[1] * B[1]) / 2) / u / u;
    sym_assume((x >= 0.01) | (x <= -0.01));
}
struct Atom {
    const char *species;
    std::set<int> l;
    int size;
};
static Atom atom(int i) {
    switch (i) {
    case 0: species = "Sr1"; return {species, {0, 1}, 4};
    case 1: species = "Rb"; return {species, {0, 1}, 8};
    case 2: species = "Rb"; return {species, {0, 2}, 12};
    default: species = "Sr3"; return {species, {0, 1}, 12};
    }
}
enum { EFIELD, BFIELD, DIA, ION, ALL };
template <class S>
static void fields(int kind, bool complex) {
    int w = sym_choice("atom", 0, 3);
    if (!TIER && (kind == ALL || complex) && w > 1) sym_assume(0);
    Atom a = atom(w);
    knowPsi(6, *a.l.begin(), *a.l.rbegin());
    MatrixElementCache cache;
    SystemOne<S> t(a.species, cache);
    t.restrictN(std::set<int>{6});
    t.restrictL(a.l);
    Setting s;
    double unit = 1;
    int mask = kind == ION ? 0 : sym_choice("components", 1, 7);
    if (mask & 2 && !complex) {
        sym_assume(kind != ALL);
        bool thrown = false;
        V3 v = anyField("F", mask, 1);
        try {
            if (kind == EFIELD) t.setEfield(v);
            else t.setBfield(v);
        } catch (std::exception &) { thrown = true; }
        sym_cover("field along y with real numbers");
        sym_assert(thrown, "a field along y is accepted although the matrices are real");
        return;
    }
    if (kind == EFIELD || kind == ALL) s.E = anyField("E", mask, kind == ALL ? UE * au2GHz : UE), sym_cover("electric field");
    if (kind == BFIELD || kind == ALL) s.B = anyField("B", kind == ALL && !complex ? 5 : kind == ALL ? 7 : mask, kind == ALL ? au2G : UB), noVanishingTerm(s.B, kind == ALL ? au2G : UB), sym_cover("magnetic field");
    if (kind == BFIELD) s.dia = false;
    if (kind == DIA) s.B = anyField("B", mask, au2G), noVanishingTerm(s.B, au2G), unit = UD * au2G * au2G, sym_cover("diamagnetism");
    if (kind == ION || kind == ALL) {
        s.charge = sym_choice("charge", -1, 2), s.order = kind == ALL ? 2 : sym_choice("order", 0, 3);
        s.distance = sym_real("distance", 0.5, 4) * au2um; // so that all orders have the same size
        unit = coulombs_constant * elementary_charge * elementary_charge / au2um;
        sym_cover("ion");
    }
    set(t, s);
    compare(t, s, unit, "the Hamiltonian differs from the one of an atom in these fields", a.size, kind == ALL ? 1e-5 : 1e-6);
}
static void fields(int kind) {
    sym_mode_real(1);
    tables();
    if (sym_choice("complex", 0, 1)) fields<C>(kind, true);
    else fields<double>(kind, false);
}
extern "C" void entry_electric() { fields(EFIELD); }
extern "C" void entry_magnetic() { fields(BFIELD); }
extern "C" void entry_diamagnetic() { fields(DIA); }
extern "C" void entry_ion() { fields(ION); }
extern "C" void entry_all() { fields(ALL); }
// ------------------------------------------------------------------------------- symmetries
static Mat reflection(const std::vector<StateOne> &st) { // at the xz plane: inversion and rotation by pi around y
    Mat m(st.size(), st.size());
    for (size_t c = 0; c < st.size(); c++)
        for (size_t r = 0; r < st.size(); r++)
            if (st[r].getN() == st[c].getN() && st[r].getL() == st[c].getL() && st[r].getJ() == st[c].getJ() && st[r].getM() == -st[c].getM())
                m(r, c) = (int)std::lround(st[c].getL() + st[c].getJ() - st[c].getM()) % 2 ? -1 : 1;
    return m;
}
extern "C" void entry_symmetry() {
    sym_mode_real(1);
    tables();
    Atom a = atom(TIER ? sym_choice("atom", 1, 2) : 1);
    knowPsi(6, *a.l.begin(), *a.l.rbegin());
    MatrixElementCache cache;
    SystemOne<C> t(species, cache);
    t.restrictN(std::set<int>{6});
    t.restrictL(a.l);
    static const std::set<float> SETS[] = {{(float)ARB}, {-0.5f, 0.5f}, {0.5f}, {-1.5f, 1.5f}, {-0.5f, 0.5f, 1.5f}};
    auto momenta = SETS[sym_choice("momenta", 0, 4)], range = SETS[sym_choice("range of m", 0, 4)];
    int p = sym_choice("parity", 0, 2); // none, even, odd
    bool arb = momenta.count(ARB), all = range.count(ARB), closed = true, thrown = false, first = sym_choice("parity first", 0, 1);
    for (float m : momenta)
        if (!arb && !momenta.count(-m)) closed = false;
    if (!all) t.restrictM(range);
    try {
        if (p && first) t.setConservedParityUnderReflection(p == 1 ? EVEN : ODD);
        t.setConservedMomentaUnderRotation(momenta);
        if (p && !first) t.setConservedParityUnderReflection(p == 1 ? EVEN : ODD);
    } catch (std::exception &) { thrown = true; }
    sym_assert(thrown == (p && !closed), "symmetries that are (not) compatible with each other are (not) refused");
    if (thrown) {
        sym_cover("incompatible symmetries");
        return;
    }
    // allowed quantum numbers
    size_t states = 0, half = 0;
    bool possible = true;
    for (int l : a.l)
        for (int J = std::abs(2 * l - 1); J <= 2 * l + 1; J += 2)
            for (int M = -J; M <= J; M += 2) {
                auto in = [&](float m) { return (arb || momenta.count(m)) && (all || range.count(m)); };
                if (!in(M / 2.f)) continue;
                states++;
                if (M > 0) half++;
                if (p && !in(-M / 2.f)) possible = false;
            }
    Setting s;
    s.dia = sym_choice("diamagnetism", 0, 1);
    s.E[2] = sym_real("Ez", 0.25, 2) * UE;
    if (p && arb) s.E[0] = sym_real("Ex", -2, -0.25) * UE, s.B[1] = sym_real("By", 0.25, 2) * au2G;
    if (!p && arb) s.B[0] = sym_real("Bx", 0.25, 2) * au2G;
    if (!p && !arb) s.B[2] = sym_real("Bz", 0.25, 2) * au2G;
    set(t, s);
    try {
        t.getStates();
    } catch (std::exception &) { thrown = true; }
    sym_assert(thrown == (!possible || states == 0), "a basis without the reflected (any) states is not refused, or another one is");
    if (thrown) {
        sym_cover("reflected states are missing");
        return;
    }
    auto st = t.getStates();
    Mat B = dense<C>(t.getBasisvectors());
    sym_assert(st.size() == states && B.c == (int)(p ? half : states), "the basis does not consist of the states with the allowed momenta, or of half of them for one parity");
    for (auto &x : st) sym_assert((arb || momenta.count(x.getM())) && (all || range.count(x.getM())) && a.l.count(x.getL()), "a state of the basis is not an allowed one");
    Mat one = adj(B) * B, R = reflection(st) * B;
    for (int i = 0; i < one.r; i++)
        for (int k = 0; k < one.c; k++) near(one(i, k), i == k, "the basis vectors are not orthonormal");
    if (p) {
        sym_cover("parity");
        C value(0, p == 1 ? -1 : 1);
        for (int i = 0; i < R.r; i++)
            for (int k = 0; k < R.c; k++) near(R(i, k), mul(value, B(i, k)), "a basis vector does not have the parity that was asked for");
    }
    sym_cover(arb ? "all momenta" : "some momenta");
    compare(t, s, au2GHz, "the Hamiltonian differs from the one of an atom in the sector of a symmetry");
}
// ------------------------------------------------------------------------------- rotations
static Mat rotator(double a, double b, double g) {
    auto z = [](double x) {
        Mat m(3, 3);
        m(0, 0) = m(1, 1) = std::cos(x), m(1, 0) = std::sin(x), m(0, 1) = -std::sin(x), m(2, 2) = 1;
        return m;
    };
    Mat y(3, 3);
    y(0, 0) = y(2, 2) = std::cos(b), y(0, 2) = std::sin(b), y(2, 0) = -std::sin(b), y(1, 1) = 1;
    return z(a) * y * z(g);
}
// a field given in a rotated frame, and a field together with the states that is rotated afterwards
template <class S>
static void rotation(bool complex) {
    Atom a = atom(TIER ? sym_choice("atom", 0, 1) : 0);
    knowPsi(6, 0, 1);
    MatrixElementCache cache;
    SystemOne<S> t(a.species, cache);
    t.restrictN(std::set<int>{6});
    t.restrictL(a.l);
    static const double ANGLES[][3] = {{0, 1.1, 0}, {0, -2.5, 0}, {0.7, 0, 0}, {0, 0, 2.3}, {-0.4, 2, 0.9}, {2.9, -0.6, -1.7}};
    auto &angles = ANGLES[sym_choice("angles", 0, complex ? 5 : 1)];
    double al = angles[0], be = angles[1], ga = angles[2];
    Mat R = rotator(al, be, ga);
    bool magnetic = sym_choice("magnetic", 0, 1);
    V3 f = anyField("F", complex ? 7 : 5, magnetic ? UB : UE), g{{0, 0, 0}};
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 3; k++) g[i] += R(k, i).real() * f[k];
    Setting s;
    s.dia = false;
    (magnetic ? s.B : s.E) = g;
    t.enableDiamagnetism(false);
    int how = sym_choice("how", 0, 2);
    V3 z{{R(0, 2).real(), R(1, 2).real(), R(2, 2).real()}}, y{{R(0, 1).real(), R(1, 1).real(), R(2, 1).real()}};
    if (how == 0) magnetic ? t.setBfield(f, al, be, ga) : t.setEfield(f, al, be, ga);
    if (how == 1) magnetic ? t.setBfield(f, z, y) : t.setEfield(f, z, y);
    if (how < 2) {
        sym_cover(how ? "field with axes" : "field with angles");
        // small components are left out by the code
        for (int i = 0; i < 3; i++)
            if (i != 1 || complex) sym_assume((g[i] / (magnetic ? UB : UE) > 0.01) | (g[i] / (magnetic ? UB : UE) < -0.01));
        compare(t, s, 1, "the Hamiltonian differs from the one of an atom in a rotated field", 0, 1e-5);
        return;
    }
    magnetic ? t.setBfield(f) : t.setEfield(f);
    t.getHamiltonian();
    t.rotate(al, be, ga);
    Mat H = dense<S>(t.getHamiltonian()), B = dense<S>(t.getBasisvectors());
    sym_cover("rotated states");
    Mat O = B * H * adj(B), ref = reference(t.getStates(), s);
    for (int i = 0; i < O.r; i++)
        for (int k = 0; k < O.c; k++) near(O(i, k), ref(i, k), "rotating the states in a field is not the same as the field in a rotated frame", 1e-5);
}
extern "C" void entry_rotation() {
    sym_mode_real(1);
    tables();
    if (sym_choice("complex", 0, 1)) rotation<C>(true);
    else rotation<double>(false);
}
// ------------------------------------------------------------------------------- histories
extern "C" void entry_history() {
    sym_mode_real(1);
    tables();
    Atom a = atom(0);
    knowPsi(6, 0, 1);
    MatrixElementCache cache;
    bool saving = sym_choice("memory saving", 0, 1), each = !saving && sym_choice("read after each", 0, 1); // parameters cannot be changed anymore then
    SystemOne<double> t(a.species, cache, saving);
    t.restrictN(std::set<int>{6});
    t.restrictL(a.l);
    Setting s;
    for (int i = 0; i < (TIER ? 4 : 3); i++) {
        std::string n = std::to_string(i);
        switch (sym_choice(("change " + n).c_str(), 0, 8)) {
        case 0: t.setEfield(s.E = {{0, 0, sym_real(("Ez" + n).c_str(), 0.25, 2) * UE * au2GHz}}); break;
        case 1: t.setEfield(s.E = {{sym_real(("Ex" + n).c_str(), 0.25, 2) * UE * au2GHz, 0, 0}}); break;
        case 2: t.setEfield(s.E = {{0, 0, 0}}); break;
        case 3: t.setBfield(s.B = {{0, 0, sym_real(("Bz" + n).c_str(), 0.25, 2) * au2G}}); break;
        case 4: t.setBfield(s.B = {{sym_real(("Bx" + n).c_str(), 0.25, 2) * au2G, 0, 0}}); break;
        case 5: t.setBfield(s.B = {{0, 0, 0}}); break;
        case 6: t.enableDiamagnetism(s.dia = !s.dia); break;
        case 7:
            t.setIonCharge(s.charge = s.charge ? 0 : -1);
            break;
        case 8:
            t.setRydIonOrder(s.order = s.order == 1 ? 2 : 1);
            t.setRydIonDistance(s.distance = sym_real(("d" + n).c_str(), 0.5, 4) * au2um);
            if (s.charge == 0) t.setIonCharge(s.charge = 1);
            break;
        }
        if (each || i == (TIER ? 3 : 2)) compare(t, s, au2GHz, "the Hamiltonian depends on fields that were set before", a.size, 1e-5);
    }
    sym_cover("history");
}
// the system is edited between two settings of all fields
static double value(int i, const char *n, double lo, double hi) { return i ? sym_real(n, lo, hi) : lo + 0.37 * (hi - lo); } // a number at first
extern "C" void entry_edit() {
    sym_mode_real(1);
    tables();
    Atom a = atom(0);
    knowPsi(6, 0, 1, false);
    MatrixElementCache cache;
    SystemOne<double> t(a.species, cache);
    t.restrictN(std::set<int>{6});
    t.restrictL(a.l);
    size_t vectors = a.size;
    Setting s;
    for (int i = 0; i < 2; i++) {
        std::string n = std::to_string(i);
        // one of the terms is not there at first
        int without = i ? 0 : sym_choice("without", 0, 4);
        s.E = {{without == 1 ? 0 : value(i, ("Ex" + n).c_str(), 0.25, 2) * UE * au2GHz, 0, -value(i, ("Ez" + n).c_str(), 0.25, 2) * UE * au2GHz}};
        s.B = {{without == 2 ? 0 : value(i, ("Bx" + n).c_str(), 0.25, 0.5) * au2G, 0, value(i, ("Bz" + n).c_str(), 0.75, 2) * au2G}};
        s.dia = without != 3;
        s.charge = without != 4, s.order = i == 0 && without == 3 ? 1 : 2, s.distance = value(i, ("d" + n).c_str(), 0.5, 4) * au2um;
        set(t, s);
        if (i == 0) {
            t.getHamiltonian();
            switch (sym_choice("edit", 0, 4)) {
            case 0: t.constrainBasisvectors({0, 2, 3}), vectors = 3; break;
            case 1: t.rotate(0, 1.1, 0); break;
            case 2: t.rotate(0, -0.4, 0), t.constrainBasisvectors({3, 1}), vectors = 2; break;
            case 3: t.canonicalize(); break;
            case 4: t.rotate(0, 0.7, 0), t.canonicalize(); break;
            }
        }
    }
    sym_cover("edited");
    compare(t, s, au2GHz, "the Hamiltonian of the edited system differs from the one of an atom in the current fields", vectors, 1e-5);
}
// ------------------------------------------------------------------------------- two systems
extern "C" void entry_combine() {
    sym_mode_real(1);
    tables();
    Atom a = atom(sym_choice("atom", 0, 1));
    knowPsi(6, 0, 1);
    MatrixElementCache cache;
    SystemOne<double> t(a.species, cache), u(a.species, cache), other("Cs", cache);
    Setting s, r;
    s.E = {{0, 0, sym_real("Ez", 0.25, 2) * UE * au2GHz}};
    s.B = {{0, 0, sym_real("Bz", 0.25, 2) * au2G}};
    s.charge = sym_choice("charge", 0, 1), s.order = 2, s.distance = sym_real("distance", 0.5, 2) * au2um;
    r = s;
    int differ = sym_choice("difference", 0, 7);
    switch (differ) {
    case 1: r.E[2] = s.E[2] * 2; break;
    case 2: r.B[2] = s.B[2] * 2; break;
    case 3: r.dia = false; break;
    case 4: r.charge = 2; break;
    case 5: r.order = 1; break;
    case 6: r.distance = s.distance * 2; break;
    }
    if (differ >= 5 && s.charge == 0) return; // no difference without an ion
    t.restrictN(std::set<int>{6}), u.restrictN(std::set<int>{6}), other.restrictN(std::set<int>{6});
    t.restrictL(std::set<int>{0}), u.restrictL(std::set<int>{1}), other.restrictL(std::set<int>{1});
    set(t, s), set(u, r), set(other, r);
    if (sym_choice("states before", 0, 1)) t.getStates();
    bool thrown = false;
    try {
        t.add(differ == 7 ? other : u);
    } catch (std::exception &) { thrown = true; }
    sym_assert(thrown == (differ != 0), "systems with different (the same) atoms, fields or ions are (not) combined");
    if (thrown) {
        sym_cover("different systems");
        return;
    }
    sym_cover("combined systems");
    compare(t, s, au2GHz, "the Hamiltonian of the combined system differs from the one of an atom in these fields", a.size, 1e-5);
}
// ------------------------------------------------------------------------------- the basis
extern "C" void entry_basis() {
    sym_mode_real(1);
    species = sym_choice("atom", 0, 1) ? "Rb" : "Sr3";
    double sp = spin();
    MatrixElementCache cache;
    SystemOne<double> t(species, cache);
    static const std::set<int> NS[] = {{1}, {2}, {1, 3}}, LS[] = {{}, {1}, {0, 2, 7}};
    static const std::set<float> JS[][4] = {{{}, {0.5f}, {1.5f}, {2.5f, 9.5f}}, {{}, {1}, {2}, {0, 3, 9}}},
                                MS[][4] = {{{}, {0.5f}, {-1.5f, 2.5f}, {-0.5f, 7.5f}}, {{}, {1}, {0, -2}, {-1, 7}}};
    int whole = spin() == 1;
    auto n = NS[sym_choice("n", 0, 2)], l = LS[sym_choice("l", 0, 2)];
    auto j = JS[whole][sym_choice("j", 0, 3)], m = MS[whole][sym_choice("m", 0, 3)];
    t.restrictN(n);
    if (!l.empty()) t.restrictL(l);
    if (!j.empty()) t.restrictJ(j);
    if (!m.empty()) t.restrictM(m);
    bool window = sym_choice("window", 0, 1);
    if (window && (n.count(3) || !m.empty()) && !TIER) return;
    double lo = 0, hi = 0;
    if (window) t.restrictEnergy(lo = sym_real("lower", -9, 9), hi = sym_real("upper", -9, 9));
    // user-defined: none, another state, an artificial one, one of the list, another atom
    int extra = window ? 0 : sym_choice("extra", 0, 4);
    StateOne x = extra == 2 ? StateOne("A") : StateOne(extra == 4 ? "Cs" : species, extra == 1 ? 9 : *n.begin(), extra == 1 ? 1 : 0, sp, sp);
    if (extra) t.addStates(x);
    std::vector<StateOne> expected;
    for (int vn : n)
        for (int vl = 0; vl < vn; vl++) {
            if (!l.empty() && !l.count(vl)) continue;
            for (double vj = std::fabs(vl - sp); vj <= vl + sp; vj++) {
                if (!j.empty() && !j.count(vj)) continue;
                double e = refEnergy(species, vn, vl, vj, "");
                sym_assume((e >= -9) & (e <= 9));
                if (window && (e <= lo || e >= hi)) continue;
                for (double vm = -vj; vm <= vj; vm++)
                    if (m.empty() || m.count(vm)) expected.emplace_back(species, vn, vl, vj, vm);
            }
        }
    bool contained = false, thrown = false;
    for (auto &e : expected) contained |= e == x;
    std::vector<StateOne> st;
    try {
        st = t.getStates();
    } catch (std::exception &) { thrown = true; }
    sym_assert(thrown == (extra == 4 || (extra && contained) || (!extra && expected.empty())), "a state that is already contained or of another atom is added, an empty basis is accepted, or another one is refused");
    if (thrown) {
        sym_cover("refused state");
        return;
    }
    if (extra) expected.push_back(x), sym_cover("added state");
    sym_cover(window ? "energy window" : "no window");
    sym_assert(st.size() == expected.size(), "the basis does not have the number of states within the ranges");
    for (auto &e : expected) {
        int k = 0;
        for (auto &y : st) k += y == e;
        sym_assert(k == 1, "a state within the ranges is missing in the basis or occurs twice");
    }
    if (st.empty()) return;
    Mat H = dense<double>(t.getHamiltonian()), B = dense<double>(t.getBasisvectors());
    sym_assert(H.r == (int)st.size() && B.c == H.r && B.r == H.r, "there is not one basis vector for each state");
    for (int i = 0; i < H.r; i++)
        for (int k = 0; k < H.r; k++) {
            near(B(i, k), i == k, "the basis vectors are not the states");
            near(H(i, k), i != k || st[i].isArtificial() ? 0 : energyOf(st[i]), "the unperturbed Hamiltonian does not contain the energies of the states");
        }
}
