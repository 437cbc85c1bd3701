// C15: algebra and pruning of Hamiltonian matrices, in exact arithmetic.
#include "ham.h"
#include <cmath>
#include <memory>

template <typename S>
static S val(const char *n);
template <>
double val<double>(const char *n) { return sym_real(n, -10, 10); }
template <>
cplx val<cplx>(const char *n) {
    double r = sym_real(n, -10, 10);
    return cplx(r, sym_real(n, -10, 10));
}
static double cj(double x) { return x; }
static cplx cj(cplx x) { return std::conj(x); }
static double sq(double x) { return x * x; }
static double sq(cplx x) { return x.real() * x.real() + x.imag() * x.imag(); }

template <typename S>
struct Dense {
    int r, c;
    std::vector<S> a;
    Dense(int r, int c) : r(r), c(c), a(r * c, S(0)) {}
    S &operator()(int i, int j) { return a[j * r + i]; }
    const S &operator()(int i, int j) const { return a[j * r + i]; }
    Dense operator*(const Dense &o) const {
        Dense m(r, o.c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < o.c; j++)
                for (int k = 0; k < c; k++) m(i, j) += (*this)(i, k) * o(k, j);
        return m;
    }
    Dense adj() const {
        Dense m(c, r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) m(j, i) = cj((*this)(i, j));
        return m;
    }
};
template <typename S>
static Dense<S> dense(int r, int c, const char *n, int mask = -1) {
    Dense<S> d(r, c);
    for (int i = 0; i < r * c; i++)
        if (mask >> i & 1) d.a[i] = val<S>(n);
    return d;
}
template <typename S>
static Eigen::SparseMatrix<S> sparse(const Dense<S> &d, int mask = -1) {
    std::vector<Eigen::Triplet<S>> t;
    for (int i = 0; i < d.r * d.c; i++)
        if (mask >> i & 1) t.emplace_back(i % d.r, i / d.r, d.a[i]);
    Eigen::SparseMatrix<S> m(d.r, d.c);
    m.setFromTriplets(t.begin(), t.end());
    return m;
}
static void near(double a, double b, const char *what) { sym_assert_near(a, b, 0, what); }
static void near(cplx a, cplx b, const char *what) {
    sym_assert_near(a.real(), b.real(), 0, what);
    sym_assert_near(a.imag(), b.imag(), 0, what);
}
template <typename S>
static void equal(const Eigen::SparseMatrix<S> &m, const Dense<S> &d, const char *what) {
    sym_assert(m.rows() == d.r && m.cols() == d.c, what);
    for (int i = 0; i < d.r; i++)
        for (int j = 0; j < d.c; j++) near(m.coeff(i, j), d(i, j), what);
}
template <typename S>
static void check(const Hamiltonianmatrix<S> &h, const Dense<S> &e, const Dense<S> &b, const char *we, const char *wb) {
    equal<S>(h.entries(), e, we);
    equal<S>(h.basis(), b, wb);
    sym_assert((int)h.num_basisvectors() == b.c && (int)h.num_coordinates() == b.r, "the reported dimensions are wrong");
}
template <typename S>
static void algebra(int n, int ma, int mb) {
    sym_mode_real(1);
    int op = sym_choice("op", 0, 6);
    int m = n + 1;
    Dense<S> ea = dense<S>(n, n, "a", ma), eb = dense<S>(n, n, "b", mb), ba = dense<S>(m, n, "basis"), bb = dense<S>(m, n, "basis2");
    Hamiltonianmatrix<S> a(sparse(ea, ma), sparse(ba)), b(sparse(eb, mb), sparse(bb)), r;
    S s = val<S>("scalar");
    Dense<S> e = ea;
    for (int i = 0; i < n * n; i++) {
        if (op == 0 || op == 2) e.a[i] = ea.a[i] + eb.a[i];
        if (op == 1 || op == 3) e.a[i] = ea.a[i] - eb.a[i];
        if (op == 4 || op == 5) e.a[i] = ea.a[i] * s;
    }
    switch (op) {
    case 0: r = a + b; break;
    case 1: r = a - b; break;
    case 2: r = a; r += b; break;
    case 3: r = a; r -= b; break;
    case 4: r = a * s; break;
    case 5: r = s * a; break;
    case 6:
        r = a.abs();
        for (int i = 0; i < n * n; i++) {
            double x = sq(ea.a[i]);
            double y = std::real(r.entries().coeff(i % n, i / n));
            sym_assert(y >= 0, "an absolute value is negative");
            near(y * y, x, "abs does not take the absolute value");
            near(std::imag(cplx(r.entries().coeff(i % n, i / n))), 0., "abs does not take the absolute value");
        }
        equal<S>(static_cast<const Hamiltonianmatrix<S> &>(r).basis(), ba, "abs changes the basis");
        sym_cover("abs");
        return;
    }
    sym_cover("algebra");
    check<S>(r, e, ba, "the sum, difference or multiple of matrices is not the entry-wise one", "matrix arithmetic changes the basis");
    // the operands are unchanged
    check<S>(a, ea, ba, "matrix arithmetic changes its operand", "matrix arithmetic changes its operand");
    check<S>(b, eb, bb, "matrix arithmetic changes its operand", "matrix arithmetic changes its operand");
}
extern "C" void entry_algebra() { algebra<double>(2, sym_choice("pattern a", 0, 15), sym_choice("pattern b", 0, 15)); }
extern "C" void entry_algebra_complex() {
    int p[4] = {15, 9, 6, 1};
    algebra<cplx>(2, p[sym_choice("pattern a", 0, 3)], p[sym_choice("pattern b", 0, 3)]);
}
extern "C" void entry_mixed() {
    // real multiples of complex matrices
    sym_mode_real(1);
    Dense<cplx> e = dense<cplx>(2, 2, "a"), b = dense<cplx>(2, 2, "b");
    Hamiltonianmatrix<cplx> a(sparse(e), sparse(b)), r;
    double s = sym_real("scalar", -10, 10);
    r = sym_choice("side", 0, 1) ? s * a : a * s;
    for (auto &x : e.a) x *= s;
    sym_cover("mixed");
    check<cplx>(r, e, b, "a real multiple of a complex matrix is wrong", "a real multiple changes the basis");
}
template <typename S>
static void change(int m, int n, int k) {
    sym_mode_real(1);
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(m, n, "b"), nb = dense<S>(m, k, "new");
    Hamiltonianmatrix<S> h(sparse(e), sparse(b));
    Hamiltonianmatrix<S> r = h.changeBasis(sparse(nb));
    Dense<S> t = b.adj() * nb, x = t.adj() * e * t;
    sym_cover("change of basis");
    check<S>(r, x, nb, "changing the basis does not transform the operator", "the basis is not the one asked for");
}
extern "C" void entry_change() { change<double>(sym_choice("coordinates", 1, 3), sym_choice("vectors", 1, 2), sym_choice("new vectors", 1, 2)); }
extern "C" void entry_change_complex() { change<cplx>(2, TIER ? 2 : 1, 2); }

template <typename S>
static void block(int n, int m) {
    sym_mode_real(1);
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(m, n, "b");
    Hamiltonianmatrix<S> h(sparse(e), sparse(b));
    int k = sym_choice("size", 0, n);
    std::vector<ptrdiff_t> idx;
    for (int i = 0; i < k; i++) idx.push_back(sym_choice("index", 0, n - 1));
    for (int i = 0; i < k; i++)
        for (int j = 0; j < i; j++) sym_assume(idx[i] != idx[j]);
    Hamiltonianmatrix<S> r = h.getBlock(idx);
    Dense<S> x(k, k), y(m, k);
    for (int i = 0; i < k; i++) {
        for (int j = 0; j < k; j++) x(i, j) = e(idx[i], idx[j]);
        for (int j = 0; j < m; j++) y(j, i) = b(j, idx[i]);
    }
    sym_cover("block");
    check<S>(r, x, y, "a block has wrong entries", "a block has wrong basis vectors");
    check<S>(h, e, b, "taking a block changes the matrix", "taking a block changes the matrix");
}
extern "C" void entry_block() { block<double>(3, 3); }
extern "C" void entry_block_complex() { block<cplx>(2, 2); }

// keeps the selected basis vectors and every matrix element among them
template <typename S>
static void kept(const Hamiltonianmatrix<S> &h, const Dense<S> &e, const Dense<S> &b, const std::vector<int> &sel, const char *what) {
    int k = sel.size();
    Dense<S> x(k, k), y(b.r, k);
    for (int i = 0; i < k; i++) {
        for (int j = 0; j < k; j++) x(i, j) = e(sel[i], sel[j]);
        for (int j = 0; j < b.r; j++) y(j, i) = b(j, sel[i]);
    }
    check<S>(h, x, y, what, what);
}
template <typename S>
static void cutoff(int n) {
    sym_mode_real(1);
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(n, n, "b");
    Hamiltonianmatrix<S> h(sparse(e), sparse(b));
    double c = sym_real("cutoff", -10, 10);
    std::vector<int> sel;
    for (int i = 0; i < n; i++)
        if (c > 0 && sq(e(i, i)) < c * c) sel.push_back(i);
    h.applyCutoff(c);
    sym_cover(sel.empty() ? "all cut off" : (int)sel.size() == n ? "none cut off" : "some cut off");
    kept<S>(h, e, b, sel, "the energy cutoff does not keep exactly the vectors below it");
}
extern "C" void entry_cutoff() { cutoff<double>(TIER ? 3 : 2); }
extern "C" void entry_cutoff_complex() { cutoff<cplx>(1); }

static std::vector<bool> mask(int n, const char *name) {
    std::vector<bool> v(n, false);
    for (int i = 0; i < n; i++) v[i] = sym_choice(name, 0, 1);
    return v;
}
template <typename S>
static void vectors(int m, int n, bool all) {
    sym_mode_real(1);
    int pat = (1 << (m * n)) - 1;
    if (sym_choice("sparse", 0, 1)) pat = m * n >= 4 ? 0x3a & pat : 1;
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(m, n, "b", pat);
    Hamiltonianmatrix<S> h(sparse(e), sparse(b, pat));
    std::vector<bool> need = all ? std::vector<bool>(m, true) : mask(m, "necessary");
    std::vector<int> sel;
    for (int j = 0; j < n; j++) {
        double w = 0;
        for (int i = 0; i < m; i++)
            if (need[i]) w += sq(b(i, j));
        if (w > 0.05) sel.push_back(j);
    }
    if (all)
        h.removeUnnecessaryBasisvectors();
    else
        h.removeUnnecessaryBasisvectors(need);
    sym_cover(sel.empty() ? "no vector kept" : (int)sel.size() == n ? "all vectors kept" : "some vectors kept");
    kept<S>(h, e, b, sel, "not exactly the vectors with sufficient weight on the necessary states are kept");
}
extern "C" void entry_vectors() { vectors<double>(TIER ? 3 : 2, 2, false); }
extern "C" void entry_vectors_all() { vectors<double>(2, TIER ? 3 : 2, true); }
extern "C" void entry_vectors_complex() { vectors<cplx>(1, 2, sym_choice("all", 0, 1)); }

template <typename S>
static void states(int m, int n) {
    sym_mode_real(1);
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(m, n, "b");
    Hamiltonianmatrix<S> h(sparse(e), sparse(b));
    std::vector<bool> need = mask(m, "necessary");
    std::vector<int> sel;
    for (int i = 0; i < m; i++)
        if (need[i]) sel.push_back(i);
    h.removeUnnecessaryStates(need);
    Dense<S> y(sel.size(), n);
    for (size_t i = 0; i < sel.size(); i++)
        for (int j = 0; j < n; j++) y(i, j) = b(sel[i], j);
    sym_cover("states");
    check<S>(h, e, y, "removing states changes the entries", "removing states does not keep exactly the coefficients of the remaining ones");
}
extern "C" void entry_states() { states<double>(TIER ? 5 : 4, 2); }
extern "C" void entry_states_complex() { states<cplx>(2, 2); }

template <typename S>
static void find(int m, int n) {
    sym_mode_real(1);
    int pat = (1 << (m * n)) - 1;
    if (sym_choice("sparse", 0, 1)) pat = m * n >= 4 ? 9 : 2;
    Dense<S> e = dense<S>(n, n, "e"), b = dense<S>(m, n, "b", pat);
    const Hamiltonianmatrix<S> h(sparse(e), sparse(b, pat));
    std::vector<bool> was = mask(m, "already necessary"), v = was;
    h.findUnnecessaryStates(v);
    for (int i = 0; i < m; i++) {
        double w = 0;
        for (int j = 0; j < n; j++) w += sq(b(i, j));
        bool want = was[i] || w > 0.05;
        sym_cover(want ? "necessary" : "unnecessary");
        sym_assert(v[i] == want, "not exactly the states with sufficient weight in the basis are reported as necessary");
    }
}
extern "C" void entry_find() { find<double>(2, 2); }
extern "C" void entry_find_complex() { find<cplx>(2, 1); }

// compress: the triplets added are summed up into the matrices
extern "C" void entry_compress() {
    sym_mode_real(1);
    Hamiltonianmatrix<double> h(2, 2);
    Dense<double> e(2, 2), b(3, 2);
    int n = TIER ? 3 : 2;
    for (int round = 0; round < 2; round++) {
        e = Dense<double>(2, 2), b = Dense<double>(3, 2);
        for (int k = 0; k < n; k++) {
            int r = sym_choice("row", 0, 1), c = sym_choice("col", 0, 1);
            double x = sym_real("x", -10, 10), y = sym_real("y", -10, 10);
            h.addEntries(r, c, x);
            e(r, c) += x;
            h.addBasis(r + 1, c, y);
            b(r + 1, c) += y;
        }
        h.compress(2, 3);
        check<double>(h, e, b, "the triplets do not add up to the entries", "the triplets do not add up to the basis");
    }
    sym_cover("compress");
}
// an already diagonal matrix
extern "C" void entry_diagonal() {
    sym_mode_real(1);
    int n = 1;
    Dense<double> e(n, n), b(n, n);
    e(0, 0) = sym_real("e", -10, 10);
    b(0, 0) = sym_real("b", -10, 10);
    Hamiltonianmatrix<double> h(sparse(e), sparse(b));
    h.diagonalize();
    sym_cover("diagonal");
    check<double>(h, e, b, "diagonalising a 1x1 matrix changes it", "diagonalising a 1x1 matrix changes it");
}
