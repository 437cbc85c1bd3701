// C16: pair matrices built from one-atom matrices.
#include "sym.h"
#include "pairinteraction/Hamiltonianmatrix.hpp"
#include <cmath>
#include <memory>
#include <set>
#include <vector>

struct Basis {
    std::shared_ptr<BasisnamesOne> one[2];
    std::shared_ptr<BasisnamesTwo> two;
};
static Configuration config(int n, int l, float j, float m, int dn, int dl, int dj, int dm) {
    Configuration c;
    c["species1"] << "Rb";
    c["species2"] << "Rb";
    for (int i = 1; i < 3; i++) {
        std::string s = i == 1 ? "1" : "2";
        c["n" + s] << n;
        c["l" + s] << l;
        c["j" + s] << j;
        c["m" + s] << m;
    }
    c["deltaNSingle"] << dn;
    c["deltaLSingle"] << dl;
    c["deltaJSingle"] << dj;
    c["deltaMSingle"] << dm;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
// sets of one-atom states: 0: 1s; 1: 2p_3/2; 2: 2p_1/2 and 2p_3/2; 3: 2s and 2p_1/2; 4: 2s, 2p_1/2, 2p_3/2
static Configuration states(int set) {
    switch (set) {
    case 0: return config(1, 0, .5f, .5f, 0, 0, 0, -1);
    case 1: return config(2, 1, 1.5f, .5f, 0, 0, 0, -1);
    case 2: return config(2, 1, 1.5f, .5f, 0, 0, 1, -1);
    case 3: return config(2, 0, .5f, .5f, 0, 1, 0, -1);
    default: return config(2, 0, .5f, .5f, 0, 1, 1, -1);
    }
}
static Basis common(int set) {
    Basis b;
    b.one[0] = b.one[1] = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(states(set)));
    b.two = std::make_shared<BasisnamesTwo>(b.one[0]);
    return b;
}
static Basis distinct(int set, int set2) {
    Basis b;
    b.one[0] = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(states(set)));
    b.one[1] = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(states(set2)));
    b.two = std::make_shared<BasisnamesTwo>(b.one[0], b.one[1]);
    return b;
}
template <typename S>
static Hamiltonianmatrix<S> diagonal(const std::vector<double> &e, const std::vector<std::vector<double>> *vec = nullptr) {
    std::vector<Eigen::Triplet<S>> te, tb;
    size_t n = e.size();
    for (size_t i = 0; i < n; i++) {
        te.emplace_back(i, i, e[i]);
        if (!vec)
            tb.emplace_back(i, i, S(1));
        else
            for (size_t k = 0; k < (*vec)[i].size(); k++)
                if (!(sym_isconst((*vec)[i][k]) && (*vec)[i][k] == 0)) tb.emplace_back(k, i, S((*vec)[i][k]));
    }
    Eigen::SparseMatrix<S> me(n, n), mb(vec ? (*vec)[0].size() : n, n);
    me.setFromTriplets(te.begin(), te.end());
    mb.setFromTriplets(tb.begin(), tb.end());
    return Hamiltonianmatrix<S>(me, mb);
}
static int sgn(double x) { return (std::lround(x) & 1) ? -1 : 1; }
// the symmetry operations on pair states: position of the image and sign
struct Ops {
    const BasisnamesTwo &b;
    std::vector<int> swap, refl;
    std::vector<int> pL, pR;
    Ops(const BasisnamesTwo &b) : b(b) {
        int n = b.size();
        for (int i = 0; i < n; i++) {
            auto &s = b.get(i);
            int sw = -1, rf = -1;
            for (int k = 0; k < n; k++) {
                auto &t = b.get(k);
                bool ex = true, re = true;
                for (int a = 0; a < 2; a++) {
                    ex = ex && t.n[a] == s.n[1 - a] && t.l[a] == s.l[1 - a] && t.j[a] == s.j[1 - a] && t.m[a] == s.m[1 - a];
                    re = re && t.n[a] == s.n[a] && t.l[a] == s.l[a] && t.j[a] == s.j[a] && t.m[a] == -s.m[a];
                }
                if (ex) sw = k;
                if (re) rf = k;
            }
            swap.push_back(sw);
            refl.push_back(rf);
            pL.push_back(sgn(s.l[0] + s.l[1]));
            pR.push_back(sgn(s.l[0] + s.l[1]) * sgn(s.j[0] + s.j[1]) * sgn(s.m[0] + s.m[1]));
        }
    }
};
typedef std::vector<double> Vec;
static Vec column(const Eigen::SparseMatrix<double> &m, int c) {
    Vec v(m.rows(), 0.);
    for (Eigen::SparseMatrix<double>::InnerIterator t(m, c); t; ++t) v[t.row()] += t.value();
    return v;
}
static double dot(const Vec &a, const Vec &b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); i++)
        if (!(sym_isconst(a[i]) && a[i] == 0) && !(sym_isconst(b[i]) && b[i] == 0)) s += a[i] * b[i];
    return s;
}
static const double TOL = 1e-9;
static void eigen(const Ops &o, const Vec &v, int kind, int eps, const char *what) {
    for (size_t i = 0; i < v.size(); i++) {
        int k = kind == 2 ? o.refl[i] : o.swap[i];
        double f = kind == 0 ? -o.pL[i] : kind == 1 ? -1 : o.pR[i];
        if (sym_isconst(v[i]) && sym_isconst(v[k]) && v[i] == 0 && v[k] == 0) continue;
        sym_assert_near(f * v[i] * eps, v[k], TOL, what); // (Op v)_k = f_i v_i = eps v_k
    }
}
static const parity_t PAR[2] = {EVEN, ODD};
// every sector of the requested symmetries
static void sectors(const Basis &b, const Hamiltonianmatrix<double> &l, const Hamiltonianmatrix<double> &r, const std::vector<double> &e1,
                    const std::vector<double> &e2, bool inv, bool per, bool ref, bool rot, bool energies) {
    Ops o(*b.two);
    int total = 0, n2 = b.two->size();
    std::set<int> Ms;
    for (const auto &s : *b.two) {
        int M = std::lround(s.m[0] + s.m[1]);
        Ms.insert(!rot ? 0 : ref ? std::abs(M) : M);
    }
    for (int i = 0; i < (inv ? 2 : 1); i++)
        for (int p = 0; p < (per ? 2 : 1); p++)
            for (int f = 0; f < (ref ? 2 : 1); f++)
                for (int M : Ms) {
                    Symmetry s;
                    s.inversion = inv ? PAR[i] : NA;
                    s.permutation = per ? PAR[p] : NA;
                    s.reflection = ref ? PAR[f] : NA;
                    s.rotation = rot ? M : (int)NA;
                    auto h = combine(l, r, -1., b.two, s);
                    const auto &ch = h;
                    sym_assert((int)h.num_coordinates() == n2 && ch.entries().rows() == ch.entries().cols() && ch.entries().cols() == ch.basis().cols(), "the pair matrix has wrong dimensions");
                    std::vector<Vec> cols;
                    for (int c = 0; c < ch.basis().cols(); c++) {
                        Vec v = column(ch.basis(), c);
                        sym_assert_near(dot(v, v), 1, TOL, "a pair basis vector is not normalised");
                        if (inv) eigen(o, v, 0, s.inversion, "a pair basis vector does not have the requested inversion parity");
                        if (per) eigen(o, v, 1, s.permutation, "a pair basis vector does not have the requested permutation parity");
                        if (ref) eigen(o, v, 2, s.reflection, "a pair basis vector does not have the requested reflection parity");
                        for (int k = 0; k < n2; k++) {
                            if (sym_isconst(v[k]) && v[k] == 0) continue;
                            const auto &st = b.two->get(k);
                            int m = std::lround(st.m[0] + st.m[1]);
                            if (rot) sym_assert(ref ? std::abs(m) == M : m == M, "a pair basis vector contains states of another total magnetic quantum number");
                            if (energies) sym_assert_near(ch.entries().coeff(c, c), e1[k / e2.size()] + e2[k % e2.size()], TOL, "the energy of a pair is not the sum of the one-atom energies");
                        }
                        for (int d = 0; d < c; d++) sym_assert_near(dot(v, cols[d]), 0, TOL, "two pair basis vectors of a sector are not orthogonal");
                        cols.push_back(v);
                    }
                    total += cols.size();
                }
    sym_assert(total == n2, "the symmetry sectors together do not have as many vectors as there are pairs");
}
// single states as one-atom basis vectors; energies as in zero field: one per (n,l,j) or one per (n,l,j,|m|)
static std::vector<double> energies(const BasisnamesOne &b, bool split, const char *n) {
    std::vector<double> e;
    for (size_t i = 0; i < b.size(); i++) {
        int same = -1;
        auto &s = b.get(i);
        for (size_t k = 0; k < i && same < 0; k++) {
            auto &t = b.get(k);
            if (t.n == s.n && t.l == s.l && t.j == s.j && (!split || std::fabs(t.m) == std::fabs(s.m))) same = k;
        }
        e.push_back(same >= 0 ? e[same] : sym_real(n, -5, 5));
    }
    return e;
}
extern "C" void entry_sectors() {
    sym_mode_real(1);
    int set = sym_choice("states", 0, TIER ? 4 : 3);
    bool inv = sym_choice("inversion", 0, 1), per = sym_choice("permutation", 0, 1), ref = sym_choice("reflection", 0, 1), rot = sym_choice("rotation", 0, 1);
    Basis b = common(set);
    auto e = energies(*b.one[0], true, "energy");
    auto h = diagonal<double>(e);
    if (inv || per)
        sym_cover("exchange symmetry");
    if (ref) sym_cover("reflection symmetry");
    if (ref && (inv || per)) sym_cover("exchange and reflection symmetry");
    sectors(b, h, h, e, e, inv, per, ref, rot, true);
}
// different atoms: only reflection and rotation make sense
extern "C" void entry_distinct() {
    sym_mode_real(1);
    Basis b = distinct(sym_choice("states", 0, 3), sym_choice("states2", 0, 3));
    auto e1 = energies(*b.one[0], false, "energy1"), e2 = energies(*b.one[1], false, "energy2");
    auto h1 = diagonal<double>(e1), h2 = diagonal<double>(e2);
    sym_cover("distinct atoms");
    sectors(b, h1, h2, e1, e2, false, false, sym_choice("reflection", 0, 1), sym_choice("rotation", 0, 1), true);
}
// superpositions of states of equal m as one-atom basis vectors
static void mixed(bool two) {
    sym_mode_real(1);
    int set = sym_choice("parity mixed", 0, 1) ? 3 : 2; // 2s,2p1/2 or 2p1/2,2p3/2
    Basis b = common(set);
    int n = b.one[0]->size();
    double phi = sym_angle("phi"), c = std::cos(phi), s = std::sin(phi);
    std::vector<Vec> v(n, Vec(n, 0.));
    for (int i = 0; i < n; i++) {
        int partner = -1;
        for (int k = 0; k < n; k++)
            if (k != i && b.one[0]->get(k).m == b.one[0]->get(i).m) partner = k;
        if (partner < 0) {
            v[i][i] = 1;
        } else if (i < partner) {
            v[i][i] = c;
            v[i][partner] = s;
        } else {
            v[i][i] = c;
            v[i][partner] = -s;
        }
    }
    std::vector<double> e(n, 0.);
    auto h = diagonal<double>(e, &v);
    if (two) {
        sym_cover("superpositions, two symmetries");
        sectors(b, h, h, e, e, set == 2, set == 3, true, sym_choice("rotation", 0, 1), false);
        return;
    }
    int sym = sym_choice("symmetry", 0, 3);
    if (sym == 1 && set == 3) return; // the field that mixes the parities breaks the inversion symmetry
    sym_cover("superpositions");
    sectors(b, h, h, e, e, sym == 1, sym == 2, sym == 3, sym_choice("rotation", 0, 1), false);
}
extern "C" void entry_mixed() { mixed(false); }
extern "C" void entry_mixed_two() { mixed(true); }
// the energy window
template <typename S>
static void window(bool same) {
    sym_mode_real(1);
    Basis b = same ? common(0) : distinct(0, 0);
    std::vector<double> e1, e2;
    for (int i = 0; i < 2; i++) e1.push_back(sym_real("energy1", -5, 5));
    for (int i = 0; i < 2; i++) e2.push_back(same ? e1[i] : sym_real("energy2", -5, 5));
    auto h1 = diagonal<S>(e1), h2 = diagonal<S>(e2);
    double delta = sym_real("deltaE", -1, 12);
    Symmetry s{NA, NA, NA, NA};
    int sym = same ? sym_choice("symmetry", 0, 2) : 0;
    if (sym == 1) s.inversion = ODD;
    if (sym == 2) s.permutation = EVEN;
    auto h = combine(h1, h2, delta, b.two, s);
    const auto &ch = h;
    std::vector<bool> need(4, false), was(4, false);
    was[3] = need[3] = sym_choice("already necessary", 0, 1);
    energycutoff(h1, h2, delta, need);
    int found = 0;
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) {
            double sum = e1[i] + e2[k];
            bool in = delta < 0 || std::fabs(sum) < delta, edge = !in && std::fabs(sum) <= delta + 2e-11; // the code adds 1e-11
            bool present = false;
            for (int c = 0; c < ch.basis().cols(); c++) {
                if (std::abs(ch.basis().coeff(2 * i + k, c)) == 0.) continue;
                present = true;
                sym_assert_near(std::real(ch.entries().coeff(c, c)), sum, TOL, "the energy of a pair is not the sum of the one-atom energies");
            }
            bool expected = in && (sym == 0 || (sym == 1 ? true : i != k));
            if (!edge) {
                if (expected)
                    sym_cover("inside the window");
                else
                    sym_cover("outside the window");
                sym_assert(present == expected, "not exactly the pairs within the energy window are kept");
                sym_assert(need[2 * i + k] == (in || was[2 * i + k]), "not exactly the pairs within the energy window are reported as necessary");
            }
        }
}
extern "C" void entry_window() { window<double>(false); }
extern "C" void entry_window_same() { window<double>(true); }
extern "C" void entry_window_complex() { window<std::complex<double>>(true); }
// the basis consists of the products of the one-atom basis vectors
template <typename S>
static void product() {
    sym_mode_real(1);
    Basis b = distinct(0, 0);
    std::vector<Eigen::Triplet<S>> t[2];
    std::vector<S> v[2];
    Hamiltonianmatrix<S> h[2];
    for (int a = 0; a < 2; a++) {
        Eigen::SparseMatrix<S> e(2, 2), m(2, 2);
        std::vector<Eigen::Triplet<S>> te, tb;
        for (int i = 0; i < 4; i++) {
            double re = sym_real("re", -2, 2), im = utils::is_complex<S>::value ? sym_real("im", -2, 2) : 0;
            S x;
            reinterpret_cast<double *>(&x)[0] = re;
            if (utils::is_complex<S>::value) reinterpret_cast<double *>(&x)[sizeof(S) / 8 - 1] = im;
            v[a].push_back(x);
            tb.emplace_back(i % 2, i / 2, x);
        }
        for (int i = 0; i < 2; i++) te.emplace_back(i, i, S(sym_real("e", -2, 2)));
        e.setFromTriplets(te.begin(), te.end());
        m.setFromTriplets(tb.begin(), tb.end());
        h[a] = Hamiltonianmatrix<S>(e, m);
    }
    auto r = combine(h[0], h[1], -1., b.two, Symmetry{NA, NA, NA, NA});
    const auto &cr = r;
    sym_assert(r.num_basisvectors() == 4 && r.num_coordinates() == 4, "the pair matrix has wrong dimensions");
    sym_cover("products");
    for (int c1 = 0; c1 < 2; c1++)
        for (int c2 = 0; c2 < 2; c2++)
            for (int r1 = 0; r1 < 2; r1++)
                for (int r2 = 0; r2 < 2; r2++) {
                    std::complex<double> x = v[0][2 * c1 + r1] * v[1][2 * c2 + r2], y = cr.basis().coeff(2 * r1 + r2, 2 * c1 + c2);
                    sym_assert_near(x.real(), y.real(), 0, "a pair basis vector is not the product of the one-atom basis vectors");
                    sym_assert_near(x.imag(), y.imag(), 0, "a pair basis vector is not the product of the one-atom basis vectors");
                }
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 4; k++)
            if (i != k) sym_assert(std::abs(cr.entries().coeff(i, k)) == 0., "the pair matrix of two diagonal matrices is not diagonal");
}
extern "C" void entry_product() { product<double>(); }
extern "C" void entry_product_complex() { product<std::complex<double>>(); }
