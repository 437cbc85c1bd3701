// C20: operations of the common base of one- and two-atom systems.
#include "sym.h"
#include "pairinteraction/SystemBase.hpp"
#include "pairinteraction/Constants.hpp"
#include <cmath>
#include <string>
#include <type_traits>
#include <vector>
#include <wignerSymbols/wignerSymbols-cpp.h>
double WignerSymbols::wigner3j(double, double, double, double, double, double) { return 0; } // not used here
double WignerSymbols::wigner6j(double, double, double, double, double, double) { return 0; }

// ------------------------------------------------------------------------------ dense reference
typedef std::complex<double> C;
struct Mat {
    int r, c;
    std::vector<C> v;
    Mat(int r = 0, int c = 0) : r(r), c(c), v(r * c) {}
    C &operator()(int i, int k) { return v[i * c + k]; }
    const C &operator()(int i, int k) const { return v[i * c + k]; }
};
static C mul(const C &a, const C &b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C cj(const C &a) { return C(a.real(), -a.imag()); }
static double sq(const C &a) { return a.real() * a.real() + a.imag() * a.imag(); }
static Mat operator*(const Mat &a, const Mat &b) {
    Mat m(a.r, b.c);
    for (int i = 0; i < a.r; i++)
        for (int k = 0; k < b.c; k++)
            for (int x = 0; x < a.c; x++) m(i, k) += mul(a(i, x), b(x, k));
    return m;
}
static Mat operator+(Mat a, const Mat &b) {
    for (size_t i = 0; i < a.v.size(); i++) a.v[i] += b.v[i];
    return a;
}
static Mat operator*(double x, Mat a) {
    for (auto &e : a.v) e *= x;
    return a;
}
static Mat adj(const Mat &a) {
    Mat m(a.c, a.r);
    for (int i = 0; i < a.r; i++)
        for (int k = 0; k < a.c; k++) m(k, i) = cj(a(i, k));
    return m;
}
static Mat identity(int n) {
    Mat m(n, n);
    for (int i = 0; i < n; i++) m(i, i) = 1;
    return m;
}
template <class S>
static S to(const C &c);
template <>
double to<double>(const C &c) { return c.real(); }
template <>
C to<C>(const C &c) { return c; }
static C from(double x) { return x; }
static C from(const C &x) { return x; }
template <class S>
static C number(const std::string &n, double lim = 4) {
    double re = sym_real((n + "r").c_str(), -lim, lim);
    if (std::is_same<S, double>::value) return re;
    return C(re, sym_real((n + "i").c_str(), -lim, lim));
}
template <class S>
static Mat anyMatrix(const std::string &n, int r, int c) {
    Mat m(r, c);
    for (int i = 0; i < r; i++)
        for (int k = 0; k < c; k++) m(i, k) = number<S>(n + std::to_string(i) + std::to_string(k));
    return m;
}
template <class S>
static Mat hermitian(const std::string &n, int r) {
    Mat m(r, r);
    for (int i = 0; i < r; i++)
        for (int k = i; k < r; k++) {
            m(i, k) = number<S>(n + std::to_string(i) + std::to_string(k));
            if (i == k) m(i, k) = m(i, k).real();
            else m(k, i) = cj(m(i, k));
        }
    return m;
}
// an arbitrary rotation of the first two coordinates, with an arbitrary phase
template <class S>
static Mat mixing(const std::string &n, int r) {
    Mat m = identity(r);
    double a = sym_angle(n.c_str()), co = std::cos(a), si = std::sin(a);
    C ph = 1;
    if (!std::is_same<S, double>::value) {
        double b = sym_angle((n + "p").c_str());
        ph = C(std::cos(b), std::sin(b));
    }
    m(0, 0) = co * ph;
    m(1, 0) = si * ph;
    m(0, 1) = -si;
    m(1, 1) = co;
    return m;
}
// a unitary set of basis vectors
template <class S>
static Mat unitary(const std::string &n, int r) {
    switch (sym_choice(n.c_str(), 0, 2)) {
    case 0: return identity(r);
    case 1: { // another order
        Mat m(r, r);
        for (int i = 0; i < r; i++) m((i + 1) % r, i) = i == 0 ? -1 : 1;
        return m;
    }
    default: return mixing<S>(n + "a", r);
    }
}
static void near(const C &a, const C &b, const char *msg) {
    sym_assert_near(a.real(), b.real(), 1e-9, msg);
    sym_assert_near(a.imag(), b.imag(), 1e-9, msg);
}
static void equal(const Mat &a, const Mat &b, const char *msg) {
    sym_assert(a.r == b.r && a.c == b.c, msg);
    for (size_t i = 0; i < a.v.size(); i++) near(a.v[i], b.v[i], msg);
}

// ------------------------------------------------------------------------------ a system
static const int K = 4;
static StateOne stateOf(int id) { return StateOne("Rb", 5 + id, id % 2, id % 2 + .5f, .5f); }
static int idOf(const StateOne &s) {
    for (int i = 0; i < K; i++)
        if (s == stateOf(i)) return i;
    return -1;
}
template <class S>
struct Toy : SystemBase<S, StateOne> {
    typedef Eigen::SparseMatrix<S> Sp;
    std::vector<int> ids;
    Mat B, H, V, R; // V and R: operators on all the states
    double lambda = 0;
    Sp I;
    bool have = false;
    Toy(std::vector<int> ids, Mat B, Mat H, Mat V = Mat(K, K), Mat R = identity(K), bool saving = false)
        : ids(std::move(ids)), B(std::move(B)), H(std::move(H)), V(std::move(V)), R(std::move(R)) {
        this->memory_saving = saving;
    }
    static Sp sparse(const Mat &m) {
        std::vector<Eigen::Triplet<S>> t;
        for (int i = 0; i < m.r; i++)
            for (int k = 0; k < m.c; k++)
                if (!(sym_isconst(m(i, k).real()) && sym_isconst(m(i, k).imag())) || m(i, k) != C(0)) t.emplace_back(i, k, to<S>(m(i, k)));
        Sp s(m.r, m.c);
        s.setFromTriplets(t.begin(), t.end());
        return s;
    }
    static Mat dense(Sp &s) {
        Mat m(s.rows(), s.cols());
        for (int k = 0; k < s.outerSize(); ++k)
            for (typename Sp::InnerIterator it(s, k); it; ++it) {
                sym_assert(it.row() >= 0 && it.row() < m.r, "an entry of a matrix lies outside of it");
                m(it.row(), it.col()) = from(it.value());
            }
        return m;
    }
    void set(double l) {
        this->onParameterChange();
        lambda = l;
    }
    Sp restricted(const Mat &op) {
        Mat m(this->states.size(), this->states.size());
        for (const auto &r : this->states)
            for (const auto &c : this->states) m(r.idx, c.idx) = op(idOf(r.state), idOf(c.state));
        return sparse(m);
    }
    void initializeBasis() override {
        size_t n = 0;
        for (int i : ids) {
            this->states.push_back(enumerated_state<StateOne>(n, stateOf(i)));
            ++n;
        }
        this->basisvectors = sparse(B);
        this->hamiltonian = sparse(H);
    }
    void initializeInteraction() override {
        if (have) return;
        I = this->basisvectors.adjoint() * restricted(V) * this->basisvectors;
        have = true;
    }
    void transformInteraction(const Sp &t) override {
        if (have) I = t.adjoint() * I * t;
    }
    void addInteraction() override { this->hamiltonian += I * lambda; }
    void deleteInteraction() override { have = false; }
    Sp rotateStates(const std::vector<size_t> &idx, double, double, double) override {
        Sp all = restricted(R);
        Mat m(this->states.size(), idx.size()), d = dense(all);
        for (size_t k = 0; k < idx.size(); k++)
            for (int i = 0; i < m.r; i++) m(i, k) = d(i, idx[k]);
        return sparse(m);
    }
    Sp buildStaterotator(double, double, double) override { return restricted(R); }
    void incorporate(SystemBase<S, StateOne> &) override { deleteInteraction(); }
    // ---- what can be observed
    std::vector<int> stateIds() {
        std::vector<int> r;
        for (const auto &s : this->getStates()) r.push_back(idOf(s));
        return r;
    }
    // rows in the order of all the states
    Mat vectors() {
        std::vector<int> ids = stateIds();
        Mat d = dense(this->getBasisvectors()), m(K, d.c);
        sym_assert((int)ids.size() == d.r && (int)this->getNumStates() == d.r, "the basis vectors do not belong to the states");
        for (int i = 0; i < d.r; i++) {
            sym_assert(ids[i] >= 0, "a state does not belong to the system");
            for (int k = 0; k < d.c; k++) m(ids[i], k) += d(i, k);
        }
        for (int i = 0; i < d.r; i++)
            for (int k = 0; k < i; k++) sym_assert(ids[i] != ids[k], "a state is listed twice");
        sym_assert((int)this->getNumBasisvectors() == d.c, "the number of basis vectors is wrong");
        return m;
    }
    Mat matrix() {
        Mat h = dense(this->getHamiltonian());
        sym_assert(h.r == h.c && h.c == (int)this->getNumBasisvectors(), "the Hamiltonian does not belong to the basis vectors");
        return h;
    }
    // the operator on all the states
    Mat physical() {
        Mat h = matrix(), b = vectors();
        return b * h * adj(b);
    }
};
template <class F>
static bool throws(F f) {
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}
// arbitrary magnitudes (times i where i + k is odd)
template <class S>
static Mat magnitudes(const std::string &n, int r, int c) {
    Mat m(r, c);
    for (int i = 0; i < r; i++)
        for (int k = 0; k < c; k++) {
            double x = sym_real((n + std::to_string(i) + std::to_string(k)).c_str(), 0, 2);
            m(i, k) = !std::is_same<S, double>::value && (i + k) % 2 ? C(0, x) : C(x, 0);
        }
    return m;
}
// the rows belonging to ids as rows of all states
static Mat spread(const Mat &b, const std::vector<int> &ids) {
    Mat m(K, b.c);
    for (size_t i = 0; i < ids.size(); i++)
        for (int k = 0; k < b.c; k++) m(ids[i], k) = b(i, k);
    return m;
}
static std::vector<int> someIds(int n) {
    std::vector<int> r;
    int first = sym_choice("first", 0, 1);
    for (int i = 0; i < n; i++) r.push_back(first ? (n - i) % K : i);
    return r;
}

// ------------------------------------------------------------------------------ entries of the Hamiltonian
template <class S>
static void elements(int n) {
    std::vector<int> ids = someIds(n);
    Mat B = unitary<S>("B", n), H = hermitian<S>("H", n);
    Toy<S> t(ids, B, H);
    if (sym_choice("twice", 0, 1)) t.getHamiltonian();
    Mat before = spread(B, ids) * H * adj(spread(B, ids));
    int r = sym_choice("r", 0, n - 1), c = sym_choice("c", 0, n - 1), op = sym_choice("op", 0, 2);
    StateOne sr = stateOf(ids[r]), sc = stateOf(ids[c]);
    sym_cover("an element is read, set or added");
    near(from(t.getHamiltonianEntry(sr, sc)), before(ids[r], ids[c]), "an entry of the Hamiltonian is not the matrix element of the two states");
    if (op == 0) return;
    C value = number<S>("value");
    if (r == c) value = value.real();
    Mat after = before;
    if (op == 1) {
        t.setHamiltonianEntry(sr, sc, to<S>(value));
        after(ids[r], ids[c]) = value;
    } else {
        t.addHamiltonianEntry(sr, sc, to<S>(value));
        after(ids[r], ids[c]) += value;
    }
    if (r != c) after(ids[c], ids[r]) = cj(after(ids[r], ids[c]));
    equal(t.physical(), after, "setting or adding an entry of the Hamiltonian does not change exactly that entry and its conjugate");
    equal(t.vectors(), spread(B, ids), "setting or adding an entry of the Hamiltonian changed the basis");
    near(from(t.getHamiltonianEntry(sr, sc)), after(ids[r], ids[c]), "the entry read back is not the one that was set");
    near(from(t.getHamiltonianEntry(sc, sr)), cj(after(ids[r], ids[c])), "the conjugate entry read back is not the one that was set");
}
extern "C" void entry_elements_real() { elements<double>(2); }
extern "C" void entry_elements_complex() { elements<C>(2); }
extern "C" void entry_elements_three() { elements<C>(3); }

extern "C" void entry_lookup() {
    std::vector<int> ids = someIds(3);
    Mat B = identity(3), H = hermitian<double>("H", 3);
    Toy<double> t(ids, B, H);
    int id = sym_choice("id", 0, K - 1);
    size_t row = 3;
    for (size_t i = 0; i < 3; i++)
        if (ids[i] == id) row = i;
    sym_cover("a state is looked up");
    if (row < 3) {
        sym_assert(t.getStateIndex(stateOf(id)) == row, "the index of a state is not its row");
        std::vector<size_t> all = t.getStateIndex(std::vector<StateOne>{stateOf(ids[2]), stateOf(id)});
        sym_assert(all.size() == 2 && all[0] == 2 && all[1] == row, "the indices of the states are not their rows");
    } else {
        sym_cover("a state that does not exist is looked up");
        sym_assert(throws([&] { t.getStateIndex(stateOf(id)); }), "a state that does not exist was found");
        sym_assert(throws([&] { t.getStateIndex(std::vector<StateOne>{stateOf(ids[0]), stateOf(id)}); }), "a state that does not exist was found");
        sym_assert(throws([&] { t.getHamiltonianEntry(stateOf(id), stateOf(ids[0])); }), "an entry of a state that does not exist was read");
        sym_assert(throws([&] { t.setHamiltonianEntry(stateOf(ids[0]), stateOf(id), 1.); }), "an entry of a state that does not exist was set");
        sym_assert(throws([&] { t.addHamiltonianEntry(stateOf(id), stateOf(ids[0]), 1.); }), "an entry of a state that does not exist was set");
        equal(t.matrix(), H, "a refused change of an entry changed the Hamiltonian");
        sym_assert(throws([&] { t.getBasisvectorIndex(stateOf(id)); }), "a basis vector of a state that does not exist was found");
    }
    sym_assert(throws([&] { t.getStateIndex(StateOne("Rb", ARB, ARB, ARB, ARB)); }), "a generalized state has an index");
}

// ------------------------------------------------------------------------------ overlaps
template <class S>
static void overlap() {
    int n = 3, nv = sym_choice("nv", 1, 2);
    std::vector<int> ids = someIds(n);
    Mat B = anyMatrix<S>("B", n, nv), H = hermitian<S>("H", nv);
    Mat R = identity(K);
    bool rot = sym_choice("rotated", 0, 1);
    if (rot) R = mixing<S>("R", K);
    Toy<S> t(ids, B, H, Mat(K, K), R);
    int which = sym_choice("which", 0, 5);
    double al = rot ? 0.25 : 0;
    std::vector<int> of; // states
    Eigen::VectorX<double> o;
    size_t i0 = sym_choice("i", 0, n - 1);
    StateOne s0 = stateOf(ids[i0]);
    switch (which) {
    case 0:
        of = {ids[i0]};
        o = rot ? t.getOverlap(s0, al, 0, 0) : t.getOverlap(s0);
        break;
    case 1:
        of = {ids[i0]};
        o = rot ? t.getOverlap(i0, 0, al, 0) : t.getOverlap(i0);
        break;
    case 2: {
        size_t i1 = (i0 + 1) % n;
        of = {ids[i0], ids[i1]};
        std::vector<size_t> idx{i0, i1};
        o = rot ? t.getOverlap(idx, 0, 0, al) : t.getOverlap(idx);
        break;
    }
    case 3: { // one of the states does not exist
        of = {ids[i0]};
        int absent = 0 + 1 + 2 + 3 - ids[0] - ids[1] - ids[2];
        std::vector<StateOne> v{s0, stateOf(absent)};
        o = rot ? t.getOverlap(v, al, 0, 0) : t.getOverlap(v);
        break;
    }
    case 4: { // all states with a given l
        int l = ids[i0] % 2;
        for (int i : ids)
            if (i % 2 == l) of.push_back(i);
        StateOne g("Rb", ARB, l, ARB, ARB);
        o = rot ? t.getOverlap(g, al, 0, 0) : t.getOverlap(g);
        break;
    }
    default: {
        of = {ids[i0]};
        StateOne g("Rb", 5 + ids[i0], ARB, ARB, ARB);
        o = rot ? t.getOverlap(g, 0, al, 0) : t.getOverlap(g);
    }
    }
    sym_cover("an overlap");
    sym_assert(o.size() == nv, "there is not one overlap for every basis vector");
    Mat full = adj(spread(B, ids)) * Mat(R);
    // only the part of a rotated state that lies within the system counts
    for (int v = 0; v < nv; v++) {
        double e = 0;
        for (int id : of) e += sq(full(v, id));
        sym_assert_near(o[v], e, 1e-9, "an overlap is not the squared projection on the states");
    }
}
extern "C" void entry_overlap_real() { overlap<double>(); }
extern "C" void entry_overlap_complex() { overlap<C>(); }

// ------------------------------------------------------------------------------ subsets of the basis vectors
template <class S>
static void constrain() {
    int n = 3;
    std::vector<int> ids = someIds(n);
    Mat B = anyMatrix<S>("B", n, 3), H = hermitian<S>("H", 3);
    Toy<S> t(ids, B, H);
    std::vector<size_t> idx;
    int len = sym_choice("len", 1, 3);
    bool bad = false;
    for (int i = 0; i < len; i++) {
        idx.push_back(sym_choice("index", 0, 3));
        if (idx[i] == 3) bad = true;
        for (int k = 0; k < i; k++)
            if (idx[k] == idx[i]) bad = true;
    }
    if (bad) {
        sym_cover("a refused selection of basis vectors");
        sym_assert(throws([&] { t.constrainBasisvectors(idx); }), "a basis vector that does not exist or occurs twice was accepted");
        equal(t.matrix(), H, "a refused selection of basis vectors changed the Hamiltonian");
        equal(t.vectors(), spread(B, ids), "a refused selection of basis vectors changed the basis");
        return;
    }
    t.constrainBasisvectors(idx);
    sym_cover("basis vectors were selected");
    Mat b(K, len), h(len, len), full = spread(B, ids);
    for (int i = 0; i < len; i++) {
        for (int k = 0; k < K; k++) b(k, i) = full(k, idx[i]);
        for (int k = 0; k < len; k++) h(i, k) = H(idx[i], idx[k]);
    }
    equal(t.vectors(), b, "the selected basis vectors are not the wanted ones");
    equal(t.matrix(), h, "the Hamiltonian is not the one of the selected basis vectors");
    sym_assert(t.stateIds() == ids, "selecting basis vectors changed the states");
}
extern "C" void entry_constrain_real() { constrain<double>(); }
extern "C" void entry_constrain_complex() { constrain<C>(); }

// restrictions of an existing basis
template <class S>
static void restrictions(bool energies) {
    int n = 3, nv = 2;
    std::vector<int> ids = someIds(n);
    Mat B = magnitudes<S>("B", n, nv), H = hermitian<S>("H", nv);
    Toy<S> t(ids, B, H);
    t.getHamiltonian();
    double thr = 0.05;
    if (sym_choice("norm", 0, 1)) {
        thr = sym_real("threshold", 0, 1);
        t.setMinimalNorm(thr);
    }
    std::vector<bool> keep(K, true);
    double lo = 0, hi = 0;
    bool low = false, high = false;
    if (energies) {
        int b = sym_choice("bounds", 1, 3);
        low = b & 1, high = b & 2;
        if (low) lo = sym_real("lo", -4, 4);
        if (high) hi = sym_real("hi", -4, 4);
        t.restrictEnergy(low ? lo : std::numeric_limits<double>::lowest(), high ? hi : std::numeric_limits<double>::max());
    } else {
        int which = sym_choice("which", 0, 4), x = sym_choice("x", 0, 2);
        if (which == 0) t.restrictN(5 + x, 6 + x);
        else if (which == 1) t.restrictN(std::set<int>{5, 6 + x});
        else if (which == 2) t.restrictL(0, 0);
        else if (which == 3) t.restrictJ(std::set<float>{1.5f});
        else t.restrictM(-.5f, .5f);
        for (int i = 0; i < K; i++) {
            if (which == 0) keep[i] = i == x || i == x + 1;
            if (which == 1) keep[i] = i == 0 || i == 1 + x;
            if (which == 2) keep[i] = i % 2 == 0;
            if (which == 3) keep[i] = i % 2 == 1;
        }
    }
    // what is left
    Mat full = spread(B, ids);
    for (int i = 0; i < K; i++)
        if (!keep[i])
            for (int v = 0; v < nv; v++) full(i, v) = 0;
    std::vector<int> vecs, left;
    for (int v = 0; v < nv; v++) {
        double norm = 0, e = H(v, v).real();
        for (int i = 0; i < K; i++) norm += sq(full(i, v));
        if (low && e == lo) return; // either
        if (high && e == hi) return;
        if (norm > thr && (!low || e > lo) && (!high || e < hi)) vecs.push_back(v);
    }
    for (int i : ids) {
        double norm = 0;
        for (int v : vecs) norm += sq(full(i, v));
        if (norm > thr && keep[i]) left.push_back(i);
    }
    if (vecs.empty() || left.empty()) {
        sym_cover("nothing is left");
        sym_assert(throws([&] { t.getHamiltonian(); }), "a basis without states or vectors was accepted");
        return;
    }
    sym_cover("a restriction");
    Mat b(K, vecs.size()), h(vecs.size(), vecs.size());
    for (size_t i = 0; i < vecs.size(); i++) {
        for (int k : left) b(k, i) = full(k, vecs[i]);
        for (size_t k = 0; k < vecs.size(); k++) h(i, k) = H(vecs[i], vecs[k]);
    }
    sym_assert(t.stateIds() == left, "the states left are not the allowed ones with sufficient weight");
    equal(t.vectors(), b, "the basis vectors left are not the allowed ones with sufficient norm");
    equal(t.matrix(), h, "the Hamiltonian is not the one of the basis vectors left");
    equal(t.matrix(), h, "reading the system changed it");
    for (size_t i = 0; i < left.size(); i++) sym_assert(t.getStateIndex(stateOf(left[i])) == i, "a state left is not found at its row");
    sym_assert(throws([&] {
                   t.addStates(stateOf(ids[0]));
                   t.getHamiltonian();
               }),
               "a state was added to an existing basis");
}
extern "C" void entry_restrict_states() { restrictions<double>(false); }
extern "C" void entry_restrict_energy() { restrictions<double>(true); }
extern "C" void entry_restrict_complex() { restrictions<C>(false); }

// ------------------------------------------------------------------------------ sequences of operations
template <class S>
static void history(int n, int steps, bool canonical) {
    std::vector<int> ids;
    for (int i = 0; i < n; i++) ids.push_back(i);
    Mat B = canonical ? mixing<S>("B", n) : unitary<S>("B", n), H = hermitian<S>("H", n);
    Mat V = hermitian<S>("V", K), R = identity(K);
    Mat r2 = mixing<S>("R", 2);
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) R(i, k) = r2(i, k);
    bool saving = !canonical && sym_choice("saving", 0, 1);
    Toy<S> t(ids, B, H, V, R, saving);
    // the operators on the states, without and with interaction, and the subspace
    Mat b = spread(B, ids), h0 = b * H * adj(b), h = h0, p = b * adj(b);
    double l = 0;
    bool dirty = false, contained = false, constrained = false;
    auto build = [&] {
        if (dirty) {
            h = h0 + l * (p * V * p);
            dirty = false;
            contained = true;
        }
    };
    for (int i = 0; i < steps; i++) {
        switch (sym_choice("op", 0, canonical ? 4 : 3)) {
        case 0: {
            double x = sym_real(("l" + std::to_string(i)).c_str(), -2, 2);
            bool refused = throws([&] { t.set(x); });
            sym_assert(refused == (saving && contained), "a change of the parameters is refused exactly if it is not possible any more");
            if (!refused) l = x, dirty = true;
            break;
        }
        case 1:
            build();
            equal(t.physical(), h, "the Hamiltonian is not the one of the current parameters");
            break;
        case 2:
            build();
            t.rotate(0.25, 0, 0);
            h0 = R * h0 * adj(R);
            h = R * h * adj(R);
            p = R * p * adj(R);
            break;
        case 3: {
            if (t.getNumBasisvectors() < 2 || constrained) break;
            constrained = true;
            build();
            t.getHamiltonian();
            Mat x = t.vectors();
            size_t k = sym_choice("vector", 0, x.c - 1);
            t.constrainBasisvectors({k});
            Mat q(K, 1);
            for (int a = 0; a < K; a++) q(a, 0) = x(a, k);
            p = q * adj(q);
            h = p * h * p;
            h0 = p * h0 * p;
            break;
        }
        default:
            build();
            t.canonicalize();
        }
    }
    build();
    sym_cover("a history");
    equal(t.physical(), h, "the Hamiltonian after a sequence of operations is not the one of the system they describe");
    Mat x = t.vectors();
    equal(x * adj(x), p, "the basis vectors after a sequence of operations do not span the space of the system");
}
extern "C" void entry_history_real() { history<double>(2, TIER ? 5 : 4, false); }
extern "C" void entry_history_complex() { history<C>(2, TIER ? 5 : 4, false); }
extern "C" void entry_canonical() { history<double>(2, TIER ? 5 : 4, true); }

// after a diagonalization (numbers; arbitrary rotation and parameter)
extern "C" void entry_diagonalized() {
    std::vector<int> ids = someIds(2);
    Mat B = identity(2), H(2, 2), V(K, K), R = identity(K);
    H(0, 0) = 1, H(1, 1) = -0.5;
    if (sym_choice("H", 0, 1)) H(0, 1) = H(1, 0) = 0.25;
    V(ids[0], ids[1]) = V(ids[1], ids[0]) = 0.75;
    V(ids[0], ids[0]) = 0.5;
    if (sym_choice("vectors", 0, 1)) B(0, 0) = B(1, 1) = 0.6, B(1, 0) = 0.8, B(0, 1) = -0.8;
    Mat r = mixing<double>("R", 2);
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) R(ids[i], ids[k]) = r(i, k);
    Toy<double> t(ids, B, H, V, R);
    double l = sym_choice("parameter", 0, 2);
    t.set(l);
    t.diagonalize();
    sym_cover("diagonalized");
    Mat b = spread(B, ids), p = b * adj(b), h0 = b * H * adj(b), h = h0 + l * V;
    Mat d = t.matrix(), x = t.vectors();
    near(d(0, 1), 0, "the Hamiltonian is not diagonal after its diagonalization");
    near(d(1, 0), 0, "the Hamiltonian is not diagonal after its diagonalization");
    equal(x * d * adj(x), h, "diagonalizing changed the operator");
    equal(x * adj(x), p, "diagonalizing changed the space");
    int op = sym_choice("op", 0, 4);
    if (op == 1) {
        t.rotate(0, 0.25, 0);
        h0 = R * h0 * adj(R), h = R * h * adj(R), p = R * p * adj(R);
    }
    if (op == 2) t.canonicalize();
    if (op == 3) {
        double value = sym_real("value", -4, 4);
        t.setHamiltonianEntry(stateOf(ids[0]), stateOf(ids[1]), value);
        h(ids[0], ids[1]) = h(ids[1], ids[0]) = value;
    }
    if (op == 4) {
        size_t k = sym_choice("vector", 0, 1);
        t.constrainBasisvectors({k});
        sym_assert(t.getNumBasisvectors() == 1, "there is more than the selected vector");
        near(t.matrix()(0, 0), d(k, k), "the energy of a selected eigenvector is another one");
        Mat y = t.vectors();
        for (int i = 0; i < K; i++) near(y(i, 0), x(i, k), "the selected eigenvector is another one");
        return;
    }
    equal(t.physical(), h, "an operation after a diagonalization describes another system");
    double l2 = sym_real("l2", -2, 2);
    t.set(l2);
    equal(t.physical(), h0 + l2 * (p * V * p), "the Hamiltonian after a diagonalization is not the one of the new parameters");
}

// ------------------------------------------------------------------------------ combining systems
template <class S>
static void combine() {
    int n1 = sym_choice("n1", 1, 2), n2 = sym_choice("n2", 1, 2), off = sym_choice("off", 0, 2);
    bool order = sym_choice("order", 0, 1);
    std::vector<int> i1, i2;
    for (int i = 0; i < n1; i++) i1.push_back(order ? n1 - 1 - i : i);
    for (int i = 0; i < n2; i++) i2.push_back(off + i);
    bool common = off < n1;
    // one vector each if they have states in common
    Mat B1, B2;
    bool orthogonal = true;
    if (!common) {
        B1 = n1 == 2 ? mixing<S>("B1", 2) : identity(1);
        B2 = n2 == 2 ? mixing<S>("B2", 2) : identity(1);
    } else {
        if (n1 != 2 || n2 != 2 || off != 0) return;
        B1 = Mat(2, 1), B2 = Mat(2, 1);
        Mat m = mixing<S>("B", 2);
        orthogonal = sym_choice("orthogonal", 0, 1);
        for (int i = 0; i < 2; i++) {
            B1(order ? 1 - i : i, 0) = m(i, 0);
            B2(i, 0) = m(i, 1);
        }
        if (!orthogonal) {
            B2(0, 0) = 1;
            B2(1, 0) = 0;
            sym_assume(sq(m(0, 0)) > 0.01);
        }
    }
    Mat H1 = hermitian<S>("H", B1.c), H2 = hermitian<S>("G", B2.c), V = hermitian<S>("V", K);
    Toy<S> a(i1, B1, H1, V), b(i2, B2, H2, V);
    int par = sym_choice("parameter", 0, 2); // 0: none, 1: before, 2: after
    double l = sym_real("l", -2, 2);
    if (par == 1) {
        a.set(l);
        b.set(l);
        if (sym_choice("built", 0, 1)) {
            a.getHamiltonian();
            b.getHamiltonian();
        }
    }
    if (!orthogonal) {
        sym_cover("systems that are not orthogonal");
        sym_assert(throws([&] { a.add(b); }), "systems with vectors that are not orthogonal were combined");
        return;
    }
    a.add(b);
    if (par == 2) a.set(l);
    sym_cover("combined systems");
    int nv = B1.c + B2.c;
    Mat x = spread(B1, i1), y = spread(B2, i2), z(K, nv), h(nv, nv);
    for (int i = 0; i < K; i++)
        for (int k = 0; k < nv; k++) z(i, k) = k < B1.c ? x(i, k) : y(i, k - B1.c);
    for (int i = 0; i < nv; i++)
        for (int k = 0; k < nv; k++) {
            if (i < B1.c && k < B1.c) h(i, k) = H1(i, k);
            if (i >= B1.c && k >= B1.c) h(i, k) = H2(i - B1.c, k - B1.c);
        }
    equal(a.vectors(), z, "the basis vectors of combined systems are not those of both systems");
    Mat full = h + l * (adj(z) * V * z), got = a.matrix();
    if (par == 0) equal(got, h, "the Hamiltonian of combined systems does not consist of the ones of the systems");
    else
        for (int i = 0; i < nv; i++)
            for (int k = 0; k < nv; k++) {
                bool same = (i < B1.c) == (k < B1.c);
                if (same || par == 2) near(got(i, k), full(i, k), "the Hamiltonian of combined systems does not contain the interaction of the systems");
            }
    equal(b.vectors(), y, "combining systems changed the other system");
    if (par) { // another parameter
        double l2 = sym_real("l2", -2, 2);
        a.set(l2);
        equal(a.matrix(), h + l2 * (adj(z) * V * z), "the Hamiltonian of combined systems is not the one of the new parameters");
    }
}
extern "C" void entry_combine_real() { combine<double>(); }
extern "C" void entry_combine_complex() { combine<C>(); }

// ------------------------------------------------------------------------------ main contributions
template <class S>
static void mainstates() {
    int n = 2, nv = 2;
    std::vector<int> ids = someIds(n);
    Mat B = anyMatrix<S>("B", n, nv), H = hermitian<S>("H", nv);
    for (int k = 0; k < nv; k++) sym_assume(sq(B(0, k)) != sq(B(1, k)));
    for (int i = 0; i < n; i++) sym_assume(sq(B(i, 0)) != sq(B(i, 1)));
    Toy<S> t(ids, B, H);
    std::vector<StateOne> m = t.getMainStates();
    sym_cover("main states");
    sym_assert(m.size() == (size_t)nv, "there is not one main state for every basis vector");
    for (int k = 0; k < nv; k++) {
        int best = sq(B(0, k)) > sq(B(1, k)) ? 0 : 1;
        sym_assert(m[k] == stateOf(ids[best]), "the main state of a basis vector is not the one with the largest coefficient");
    }
    for (int i = 0; i < n; i++) {
        size_t best = sq(B(i, 0)) > sq(B(i, 1)) ? 0 : 1;
        sym_assert(t.getBasisvectorIndex(stateOf(ids[i])) == best, "the basis vector of a state is not the one in which it has the largest coefficient");
    }
}
extern "C" void entry_main_real() { mainstates<double>(); }
extern "C" void entry_main_complex() { mainstates<C>(); }

// several states at once
extern "C" void entry_vectors_of_states() {
    int n = 3, nv = sym_choice("nv", 1, 3);
    std::vector<int> ids = someIds(n);
    Mat B(n, nv);
    if (nv == 3) {
        Mat m = mixing<double>("B", 3);
        int shift = sym_choice("shift", 0, 2);
        for (int i = 0; i < 3; i++)
            for (int k = 0; k < 3; k++) B(i, (k + shift) % 3) = m(i, k);
        sym_assume(sq(m(0, 0)) > 0.51 || sq(m(0, 0)) < 0.49);
    } else
        B = anyMatrix<double>("B", n, nv);
    Toy<double> t(ids, B, hermitian<double>("H", nv));
    int ns = sym_choice("ns", 1, 2), a = sym_choice("a", 0, 2), c = ns == 2 ? sym_choice("c", 0, 2) : a;
    std::vector<StateOne> s{stateOf(ids[a])};
    if (ns == 2) s.push_back(stateOf(ids[c]));
    std::vector<size_t> r;
    bool refused = throws([&] { r = t.getBasisvectorIndex(s); });
    if (ns == 2 && a == c) {
        sym_assert(refused, "the same state was accepted twice");
        return;
    }
    if (ns > nv) {
        sym_cover("more states than basis vectors");
        sym_assert(refused, "basis vectors were found for more states than there are basis vectors");
        return;
    }
    sym_cover("basis vectors of states");
    sym_assert(!refused && (int)r.size() == ns, "no basis vector was found for a state");
    for (size_t x : r) sym_assert(x < (size_t)nv, "a basis vector that does not exist was found");
    if (ns == 2) sym_assert(r[0] != r[1], "the same basis vector was found for two states");
    // no other choice of vectors overlaps more with the states
    auto w = [&](int v) { return sq(B(a, v)) + (ns == 2 ? sq(B(c, v)) : 0); };
    for (int v = 0; v < nv; v++) {
        bool chosen = (size_t)v == r[0] || (ns == 2 && (size_t)v == r[1]);
        if (!chosen)
            for (size_t x : r) sym_assert(w(v) <= w(x), "a basis vector was chosen that overlaps less with the states than another one");
    }
    if (nv == 3 && ns == 2 && sq(B(2, r[0])) == 0 && sq(B(2, r[1])) == 0) // a pair of mixed states: each gets its own
        sym_assert(sq(B(a, r[0])) >= sq(B(c, r[0])), "the basis vectors of two states are exchanged");
}

extern "C" void entry_connections() {
    int n = 2, kind = sym_choice("kind", 0, 2);
    Mat B1 = identity(2);
    if (kind == 1) B1(0, 0) = 0.6, B1(1, 0) = 0.8, B1(0, 1) = -0.8, B1(1, 1) = 0.6;
    if (kind == 2) B1(0, 0) = B1(1, 1) = 0, B1(0, 1) = -1, B1(1, 0) = 1;
    std::vector<int> i1{0, 1}, i2{1, 0};
    if (sym_choice("states", 0, 1)) i2 = {1, 2};
    Mat B2 = magnitudes<double>("C", n, 2);
    double t = sym_real("threshold", 0, 1);
    Toy<double> a(i1, B1, hermitian<double>("H", 2)), b(i2, B2, hermitian<double>("G", 2));
    Mat x = adj(spread(B1, i1)) * spread(B2, i2);
    double o[2][2];
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 2; k++) o[i][k] = std::fabs(x(i, k).real());
    for (int i = 0; i < 2; i++) {
        sym_assume(o[i][0] != o[i][1]);
        sym_assume(o[0][i] != o[1][i]);
        for (int k = 0; k < 2; k++) sym_assume(o[i][k] != t);
    }
    auto c = a.getConnections(b, t * t);
    sym_cover("connections");
    sym_assert(c[0].size() == c[1].size(), "a connection has one end only");
    for (size_t i = 0; i < 2; i++)
        for (size_t k = 0; k < 2; k++) {
            bool want = o[i][k] > t && o[i][k] > o[i][1 - k] && o[i][k] > o[1 - i][k], got = false;
            for (size_t x = 0; x < c[0].size(); x++)
                if (c[0][x] == i && c[1][x] == k) got = true;
            sym_assert(got == want, "the connections are not the pairs of vectors with mutually largest overlap above the threshold");
        }
}

// ------------------------------------------------------------------------------ diagonalization and new names for the states
extern "C" void entry_unitarize() {
    int n = 2;
    std::vector<int> ids = someIds(n);
    int kind = sym_choice("kind", 0, 2);
    Mat B = identity(2), H = hermitian<C>("H", 2);
    if (kind == 1) B(0, 0) = 0.6, B(1, 0) = C(0, 0.8), B(0, 1) = -0.8, B(1, 1) = C(0, 0.6);
    if (kind == 2) B(0, 0) = 0, B(0, 1) = 1, B(1, 0) = 1, B(1, 1) = 0;
    Toy<C> t(ids, B, H, hermitian<C>("V", K));
    bool field = sym_choice("field", 0, 1);
    Mat h = H;
    if (field) {
        double l = sym_real("l", -2, 2);
        t.set(l);
        h = H + l * (adj(spread(B, ids)) * t.V * spread(B, ids));
    }
    t.unitarize();
    sym_cover("unitarized");
    Mat got = t.matrix();
    equal(got, h, "unitarize() changed the Hamiltonian");
    equal(Toy<C>::dense(t.getBasisvectors()), identity(2), "the basis vectors are not the new states");
    auto st = t.getStates();
    sym_assert(st.size() == 2 && st[0].isArtificial() && st[1].isArtificial() && st[0] != st[1], "the new states are not two different artificial ones");
    sym_assert(t.getStateIndex(st[0]) == 0 && t.getStateIndex(st[1]) == 1, "the new states are not found");
    near(t.getHamiltonianEntry(st[0], st[1]), h(0, 1), "an entry of the new states is not the one of the vectors");
    if (field) sym_assert(throws([&] { t.set(1); }), "parameters were changed after the states have been renamed");
}
extern "C" void entry_diagonal() {
    int n = 2;
    std::vector<int> ids = someIds(n);
    Mat B = anyMatrix<double>("B", n, 2), H(2, 2);
    H(0, 0) = sym_real("a", -4, 4);
    H(1, 1) = sym_real("b", -4, 4);
    sym_assume(sq(H(0, 0)) > 1e-6 && sq(H(1, 1)) > 1e-6);
    Toy<double> t(ids, B, H);
    t.diagonalize();
    sym_cover("already diagonal");
    equal(t.matrix(), H, "diagonalizing a diagonal matrix changed it");
    equal(t.vectors(), spread(B, ids), "diagonalizing a diagonal matrix changed the basis vectors");
}

// ------------------------------------------------------------------------------ systems of two atoms
static StateTwo pairOf(int a, int b) { return StateTwo(stateOf(a), stateOf(b)); }
struct Pairs : SystemBase<double, StateTwo> {
    typedef Eigen::SparseMatrix<double> Sp;
    std::vector<StateTwo> list;
    Mat B, H;
    Pairs(std::vector<StateTwo> list, Mat B, Mat H) : list(std::move(list)), B(std::move(B)), H(std::move(H)) {}
    void initializeBasis() override {
        for (size_t i = 0; i < list.size(); i++) states.push_back(enumerated_state<StateTwo>(i, list[i]));
        basisvectors = Toy<double>::sparse(B);
        hamiltonian = Toy<double>::sparse(H);
    }
    void initializeInteraction() override {}
    void transformInteraction(const Sp &) override {}
    void addInteraction() override {}
    void deleteInteraction() override {}
    Sp rotateStates(const std::vector<size_t> &, double, double, double) override { return Sp(); }
    Sp buildStaterotator(double, double, double) override { return Sp(); }
    void incorporate(SystemBase<double, StateTwo> &) override {}
};
extern "C" void entry_pairs() {
    int a[3] = {0, 1, 2}, b[3];
    std::vector<StateTwo> list;
    std::vector<StateOne> first, second;
    for (int i = 0; i < 3; i++) {
        b[i] = (i + 1 + sym_choice("partner", 0, 1)) % K;
        first.push_back(stateOf(a[i]));
        second.push_back(stateOf(b[i]));
    }
    bool label = sym_choice("label", 0, 1); // artificial states are never restricted
    if (label) second[1] = StateOne(std::string("G"));
    for (int i = 0; i < 3; i++) list.push_back(StateTwo(first[i], second[i]));
    double h[3] = {sym_real("h0", -4, 4), sym_real("h1", -4, 4), sym_real("h2", -4, 4)};
    Mat H(3, 3);
    for (int i = 0; i < 3; i++) H(i, i) = h[i];
    Pairs t(list, identity(3), H);
    t.getHamiltonian();
    auto o = t.getOverlap(StateTwo(first[0], second[0]));
    for (int i = 0; i < 3; i++) sym_assert_near(o[i], i == 0, 1e-9, "an overlap with a pair state is wrong");
    auto allowed = [&](auto f) {
        std::vector<bool> r;
        for (int i = 0; i < 3; i++) r.push_back(f(first[i]) && (second[i].isArtificial() || f(second[i])));
        return r;
    };
    std::vector<bool> keep;
    int which = sym_choice("which", 0, 4), x = sym_choice("x", 0, 1);
    switch (which) {
    case 0:
        t.restrictN(5, 6 + x);
        keep = allowed([&](const StateOne &s) { return s.getN() <= 6 + x; });
        break;
    case 1:
        t.restrictL(std::set<int>{x});
        keep = allowed([&](const StateOne &s) { return s.getL() == x; });
        break;
    case 2:
        t.restrictJ(std::set<float>{x + .5f});
        keep = allowed([&](const StateOne &s) { return s.getJ() == x + .5f; });
        break;
    case 3:
        t.restrictM(std::set<float>{x - .5f});
        keep = allowed([&](const StateOne &s) { return s.getM() == x - .5f; });
        break;
    default: {
        t.restrictN(std::set<int>{5, 6, 7});
        t.restrictL(0, x);
        keep = allowed([&](const StateOne &s) { return s.getN() <= 7 && s.getL() <= x; });
    }
    }
    std::vector<int> left;
    for (int i = 0; i < 3; i++)
        if (keep[i]) left.push_back(i);
    if (left.empty()) {
        sym_assert(throws([&] { t.getHamiltonian(); }), "a basis without states was accepted");
        return;
    }
    sym_cover("a restriction of pair states");
    auto st = t.getStates();
    sym_assert(st.size() == left.size() && t.getNumBasisvectors() == left.size(), "the number of pair states left is wrong");
    for (size_t i = 0; i < left.size(); i++) {
        sym_assert(st[i] == list[left[i]] && t.getStateIndex(list[left[i]]) == i, "a pair state left is not an allowed one");
        sym_assert_near(t.getHamiltonianEntry(st[i], st[i]), h[left[i]], 1e-9, "the energy of a pair state left is another one");
    }
    t.unitarize();
    auto nw = t.getStates();
    for (size_t i = 0; i < nw.size(); i++) {
        sym_assert(nw[i].isArtificial()[0] && nw[i].isArtificial()[1] && nw[i].getFirstState() != nw[i].getSecondState(), "the new pair states are not artificial");
        for (size_t k = 0; k < i; k++) sym_assert(nw[i] != nw[k], "two of the new pair states are the same");
        sym_assert_near(t.getHamiltonianEntry(nw[i], nw[i]), h[left[i]], 1e-9, "the energy of a new pair state is another one");
    }
}
