// C13: serialisation of Hamiltonian matrices.
#include "ham.h"
#include <memory>

template <typename S>
static Eigen::SparseMatrix<S> anymatrix(int rows, int cols, const char *n) {
    std::vector<Eigen::Triplet<S>> t;
    int mask = sym_choice((std::string("mask ") + n).c_str(), 0, (1 << (rows * cols)) - 1);
    for (int c = 0; c < cols; c++)
        for (int r = 0; r < rows; r++)
            if (mask >> (c * rows + r) & 1) t.emplace_back(r, c, anyval<S>(n));
    Eigen::SparseMatrix<S> m(rows, cols);
    m.setFromTriplets(t.begin(), t.end());
    return m;
}
template <typename S>
static void check(Hamiltonianmatrix<S> &h, const char *what) {
    Eigen::SparseMatrix<S> e = static_cast<const Hamiltonianmatrix<S> &>(h).entries(), b = static_cast<const Hamiltonianmatrix<S> &>(h).basis();
    bytes_t by = h.serialize();
    Hamiltonianmatrix<S> g;
    g.deserialize(by);
    const Hamiltonianmatrix<S> &cg = g;
    sym_assert(valid(cg.entries()) && valid(cg.basis()), "the matrix read back has an invalid structure");
    same<S>(e, cg.entries(), what);
    same<S>(b, cg.basis(), what);
    sym_assert(g.num_basisvectors() == h.num_basisvectors() && g.num_coordinates() == h.num_coordinates(), what);
}
template <typename S>
static void roundtrip(int maxr, int maxc) {
    int cols = sym_choice("basis vectors", 0, maxc), rows = sym_choice("coordinates", 0, maxr);
    Hamiltonianmatrix<S> h(anymatrix<S>(cols, cols, "entries"), anymatrix<S>(rows, cols, "basis"));
    check(h, "a matrix read back differs from the one serialised");
    sym_cover("round trip");
    uint64_t x = h.hashEntries();
    Hamiltonianmatrix<S> g;
    g.deserialize(h.serialize());
    sym_assert(g.hashEntries() == x, "the hash of a matrix changes when it is read back");
    // as one triangular block: the arithmetic on the copy is the arithmetic on the original
}
extern "C" void entry_roundtrip_real() { roundtrip<double>(TIER ? 3 : 2, 2); }
extern "C" void entry_roundtrip_complex() { roundtrip<cplx>(TIER ? 2 : 1, 2); }
extern "C" void entry_roundtrip_wide() {
    // larger matrices with one arbitrary element per column or none
    int cols = TIER ? 5 : 4, rows = 3;
    std::vector<Eigen::Triplet<double>> te, tb;
    for (int c = 0; c < cols; c++) {
        int r = sym_choice("row", -1, rows - 1);
        if (r >= 0) {
            tb.emplace_back(r, c, sym_double("b"));
            te.emplace_back(r, c, sym_double("e"));
        }
    }
    Eigen::SparseMatrix<double> e(cols, cols), b(rows, cols);
    e.setFromTriplets(te.begin(), te.end());
    b.setFromTriplets(tb.begin(), tb.end());
    Hamiltonianmatrix<double> h(e, b);
    check(h, "a matrix read back differs from the one serialised");
    sym_cover("wide");
}
// the wrong data type is refused
extern "C" void entry_type() {
    Hamiltonianmatrix<double> h(anymatrix<double>(1, 1, "entries"), anymatrix<double>(1, 1, "basis"));
    Hamiltonianmatrix<cplx> g;
    bool thrown = false;
    try {
        g.deserialize(h.serialize());
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "a real matrix is read as a complex one");
    Hamiltonianmatrix<cplx> z(anymatrix<cplx>(1, 1, "entries"), anymatrix<cplx>(1, 1, "basis"));
    thrown = false;
    try {
        h.deserialize(z.serialize());
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "a complex matrix is read as a real one");
    sym_cover("type");
}
// histories of modifications, serialisations, files
template <typename S>
static Hamiltonianmatrix<S> start(const char *n) {
    std::vector<Eigen::Triplet<S>> te, tb;
    for (int c = 0; c < 2; c++) {
        te.emplace_back(c, c, n ? anyval<S>(n) : S(c + 2.5));
        tb.emplace_back(c, c, S(1));
    }
    Eigen::SparseMatrix<S> e(2, 2), b(2, 2);
    e.setFromTriplets(te.begin(), te.end());
    b.setFromTriplets(tb.begin(), tb.end());
    return Hamiltonianmatrix<S>(e, b);
}
template <typename S>
static void history(int steps) {
    Hamiltonianmatrix<S> h = start<S>("a"), other = start<S>("b");
    bool saved = false;
    Eigen::SparseMatrix<S> fe, fb;
    const Hamiltonianmatrix<S> &ch = h;
    for (int i = 0; i < steps; i++) {
        int op = sym_choice("op", 0, 13);
        switch (op) {
        case 0: h.serialize(); break;
        case 1: h.hashBasis(); break;
        case 2: h.entries().coeffRef(h.num_basisvectors() > 1 ? 1 : 0, 0) = anyval<S>("new"); break;
        case 3: h.basis().coeffRef(0, h.num_basisvectors() > 1 ? 1 : 0) = anyval<S>("new"); break;
        case 4:
            h.addEntries(1, 1, anyval<S>("triplet"));
            h.addBasis(0, 0, anyval<S>("triplet"));
            h.compress(2, 2);
            break;
        case 5: {
            std::vector<bool> keep(h.num_coordinates(), true);
            if (h.num_coordinates() > 1) keep[1] = false;
            h.removeUnnecessaryStates(keep);
            break;
        }
        case 6: {
            // only defined when the basis has a coefficient one somewhere (concrete)
            Hamiltonianmatrix<S> k = start<S>(nullptr);
            std::vector<bool> keep(2, true);
            keep[0] = false;
            k.serialize();
            k.removeUnnecessaryBasisvectors(keep);
            h = k;
            break;
        }
        case 7:
            h.save("matrix");
            fe = ch.entries(), fb = ch.basis(), saved = true;
            break;
        case 8: {
            bool ok = h.load("matrix");
            sym_assert(ok == saved, "load does not report whether there is a file");
            if (ok) {
                sym_cover("loaded");
                same<S>(ch.entries(), fe, "a matrix loaded from a file differs from the one saved");
                same<S>(ch.basis(), fb, "a matrix loaded from a file differs from the one saved");
            }
            break;
        }
        case 9: {
            bytes_t by = other.serialize();
            h.deserialize(by);
            break;
        }
        case 10: {
            Hamiltonianmatrix<S> k = start<S>(nullptr);
            k.serialize();
            k.removeUnnecessaryBasisvectors();
            h = k;
            break;
        }
        case 11: {
            std::vector<ptrdiff_t> idx(1, 0);
            Hamiltonianmatrix<S> k = start<S>(nullptr);
            k.serialize();
            h = k.getBlock(idx);
            break;
        }
        case 12: {
            Hamiltonianmatrix<S> k = start<S>(nullptr);
            k.serialize();
            h = k.abs();
            break;
        }
        case 13: h = other; break;
        }
    }
    sym_cover("history");
    check(h, "what is serialised is not the current content of the matrix");
}
extern "C" void entry_history() { history<double>(TIER ? 4 : 3); }
extern "C" void entry_history_complex() { history<cplx>(2); }
// arithmetic after serialisation
extern "C" void entry_arithmetic() {
    Hamiltonianmatrix<double> h = start<double>("a"), g = start<double>("b");
    h.serialize();
    g.serialize();
    switch (sym_choice("op", 0, 7)) {
    case 0: h += g; break;
    case 1: h -= g; break;
    case 2: h = h + g; break;
    case 3: h = h - g; break;
    case 4: h = h * 3.; break;
    case 5: h = 3. * h; break;
    case 6: h = h.changeBasis(static_cast<const Hamiltonianmatrix<double> &>(g).basis()); break;
    case 7: h.applyCutoff(sym_double("cutoff")); break;
    }
    sym_cover("arithmetic");
    check(h, "what is serialised is not the current content of the matrix");
}
