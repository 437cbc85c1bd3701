// C10: enumeration of one- and two-atom bases (legacy code path).
#include "sym.h"
#include "pairinteraction/Basisnames.hpp"
#include <cmath>
#include <vector>

struct Start { int n, l; float j, m; };
static Start start(const char *suf, int nmax) {
    std::string s(suf);
    Start r;
    r.n = sym_concretize(sym_int(("n" + s).c_str(), 1, nmax));
    r.l = sym_concretize(sym_int(("l" + s).c_str(), 0, r.n - 1));
    int up = r.l == 0 ? 1 : sym_choice(("up" + s).c_str(), 0, 1);
    r.j = r.l + (up ? 0.5f : -0.5f);
    r.m = sym_half(("m" + s).c_str(), -2 * nmax, 2 * nmax);
    sym_assume(r.m <= r.j);
    sym_assume(-r.m <= r.j);
    int twice = sym_concretize((int)(2 * r.m));
    sym_assume((twice & 1) != 0);
    r.m = twice / 2.f;
    return r;
}
struct Win { int dn, dl, dj, dm; };
static Win window(int maxdn) {
    return {sym_choice("dn", 0, maxdn), sym_choice("dl", -1, 1), sym_choice("dj", -1, 1), sym_choice("dm", -1, 1)};
}
static Configuration config(const Start &a, const Start &b, const Win &w) {
    Configuration c;
    c["species1"] << "Rb";
    c["species2"] << "Rb";
    c["n1"] << a.n;
    c["l1"] << a.l;
    c["j1"] << a.j;
    c["m1"] << a.m;
    c["n2"] << b.n;
    c["l2"] << b.l;
    c["j2"] << b.j;
    c["m2"] << b.m;
    c["deltaNSingle"] << w.dn;
    c["deltaLSingle"] << w.dl;
    c["deltaJSingle"] << w.dj;
    c["deltaMSingle"] << w.dm;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
static bool inside(const Start &s, const Win &w, int n, int l, float j, float m) {
    return std::abs(n - s.n) <= w.dn && (w.dl < 0 || std::abs(l - s.l) <= w.dl) && (w.dj < 0 || std::fabs(j - s.j) <= w.dj) &&
        (w.dm < 0 || std::fabs(m - s.m) <= w.dm);
}
template <class F>
static std::vector<StateOneOld> reference(int nmax, F in) {
    std::vector<StateOneOld> r;
    for (int n = 1; n <= nmax; n++)
        for (int l = 0; l < n; l++)
            for (int up = l == 0 ? 1 : 0; up < 2; up++) {
                float j = l - 0.5f + up;
                for (int k = 0; k <= 2 * j; k++)
                    if (in(n, l, j, k - j)) r.push_back(StateOneOld(n, l, j, k - j));
            }
    return r;
}
static void compare(const BasisnamesOne &b, const std::vector<StateOneOld> &ref, const char *what) {
    sym_assert(b.size() == ref.size(), "the basis does not have as many states as the window admits");
    sym_assert(b.dim() == ref.size(), "the dimension of the basis is not its number of states");
    size_t pos = 0;
    for (const auto &s : b) {
        sym_assert(s.idx == pos, "the index stored in a state is not its position in the basis");
        pos++;
    }
    for (auto &r : ref) {
        int k = 0;
        for (const auto &s : b) k += (s.n == r.n && s.l == r.l && s.j == r.j && s.m == r.m);
        sym_assert(k == 1, "an allowed state is not listed exactly once");
    }
}
static const int NM = TIER ? 3 : 2;
extern "C" void entry_one() {
    auto s = start("1", NM);
    auto w = window(1);
    int second = sym_choice("second", 0, 1);
    Start other{NM + 2, 0, 0.5f, 0.5f};
    auto b = second ? BasisnamesOne::fromSecond(config(other, s, w)) : BasisnamesOne::fromFirst(config(s, other, w));
    compare(b, reference(NM + 2, [&](int n, int l, float j, float m) { return inside(s, w, n, l, j, m); }), "one");
    sym_assert(b.constructedFromFirst() == !second, "the basis misreports from which atom it was constructed");
    sym_assert(b.initial().size() == 1 && b.initial()[0].n == s.n && b.initial()[0].l == s.l && b.initial()[0].j == s.j && b.initial()[0].m == s.m, "the initial state is not the configured one");
    sym_cover("one-atom basis");
}
extern "C" void entry_both() {
    auto s = start("1", 2), t = start("2", 2);
    Win w{sym_choice("dn", 0, 1), sym_choice("dl", TIER ? -1 : 0, 1), sym_choice("dj", 0, 1), sym_choice("dm", TIER ? 0 : 1, 1)};
    if (!TIER && w.dn == 1) sym_assume(s.n == 1);
    if (sym_choice("unrestricted", 0, 1)) w.dl = w.dj = w.dm = -1;
    auto b = BasisnamesOne::fromBoth(config(s, t, w));
    compare(b, reference(5, [&](int n, int l, float j, float m) { return inside(s, w, n, l, j, m) || inside(t, w, n, l, j, m); }), "both");
    sym_cover("basis from both atoms");
    Configuration c = config(s, t, w);
    c["species2"] << "Cs";
    bool thrown = false;
    try {
        BasisnamesOne::fromBoth(c);
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "atoms of different species are accepted for a common basis");
}
static BasisnamesOne tiny(const char *suf, bool first) {
    Start s{sym_choice(("n" + std::string(suf)).c_str(), 1, 2), 0, 0.5f, 0.5f - sym_choice(("down" + std::string(suf)).c_str(), 0, 1)};
    Win w{sym_choice(("dn" + std::string(suf)).c_str(), 0, 1), 0, 0, sym_choice(("dm" + std::string(suf)).c_str(), 0, 1)};
    Start o{5, 0, 0.5f, 0.5f};
    return first ? BasisnamesOne::fromFirst(config(s, o, w)) : BasisnamesOne::fromSecond(config(o, s, w));
}
static bool eq1(const StateTwoOld &p, int i, const StateOneOld &s) { return p.n[i] == s.n && p.l[i] == s.l && p.j[i] == s.j && p.m[i] == s.m; }
extern "C" void entry_two() {
    auto a = std::make_shared<BasisnamesOne>(tiny("1", true)), b = std::make_shared<BasisnamesOne>(tiny("2", false));
    BasisnamesTwo p(a, b);
    sym_assert(p.size() == a->size() * b->size() && p.dim() == p.size(), "the pair basis does not have as many states as the product");
    size_t pos = 0;
    for (const auto &x : *a)
        for (const auto &y : *b) {
            int k = 0;
            for (size_t i = 0; i < p.size(); i++) k += eq1(p.get(i), 0, x) && eq1(p.get(i), 1, y);
            sym_assert(k == 1, "a pair of one-atom states is not listed exactly once");
            pos++;
        }
    for (size_t i = 0; i < p.size(); i++) sym_assert(p.get(i).idx == i, "the index stored in a pair state is not its position");
    auto in = p.initial();
    sym_assert(eq1(in, 0, a->initial()[0]) && eq1(in, 1, b->initial()[0]), "the initial pair state is not composed of the initial one-atom states");
    sym_assert(in.idx < p.size() && p.get(in.idx) == in, "the initial pair state has a wrong index");
    sym_cover("pair basis");
    // back to one-atom bases
    std::shared_ptr<const BasisnamesTwo> pp = std::make_shared<BasisnamesTwo>(p);
    for (int i = 0; i < 2; i++) {
        auto c = i ? BasisnamesOne::fromSecond(pp) : BasisnamesOne::fromFirst(pp);
        std::vector<StateOneOld> ref;
        for (const auto &x : i ? *b : *a) ref.push_back(x);
        compare(c, ref, "from pair");
    }
    bool thrown = false;
    try {
        BasisnamesTwo q(a);
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "a pair basis is built from a basis of one atom only");
}
extern "C" void entry_two_combined() {
    Start s{sym_choice("n1", 1, 2), 0, 0.5f, 0.5f}, t{sym_choice("n2", 1, 2), 0, 0.5f, -0.5f};
    Win w{0, 0, 0, sym_choice("dm", 0, 1)};
    auto a = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(config(s, t, w)));
    BasisnamesTwo p(a);
    sym_assert(p.size() == a->size() * a->size() && p.dim() == p.size(), "the combined pair basis does not have as many states as the product");
    for (size_t i = 0; i < p.size(); i++) {
        sym_assert(p.get(i).idx == i, "the index stored in a combined pair state is not its position");
        sym_assert(eq1(p.get(i), 0, a->get(i / a->size())) && eq1(p.get(i), 1, a->get(i % a->size())), "the combined pair basis is not the product of the one-atom basis with itself");
    }
    sym_assert(p.initial().idx < p.size() && p.get(p.initial().idx) == p.initial(), "the initial combined pair state has a wrong index");
    bool thrown = false;
    try {
        BasisnamesTwo q(a, a);
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "a pair basis is built from two bases of both atoms");
    sym_cover("combined pair basis");
}
// removal of unnecessary states, for every mask; twice in a row
static std::vector<bool> mask(const char *nm, size_t n) {
    std::vector<bool> m(n, false);
    for (size_t i = 0; i < n; i++) m[i] = sym_int(nm, 0, 1) != 0;
    return m;
}
extern "C" void entry_remove_one() {
    // names as of fromStates: the index is set to the position
    std::vector<StateOneOld> v;
    int n = sym_choice("count", 0, TIER ? 6 : 4);
    for (int i = 0; i < n; i++) v.push_back(StateOneOld((idx_t)i, 10 + i, 0, 0.5f, 0.5f));
    auto b = BasisnamesOne::fromStates(v);
    sym_assert(b.size() == n && b.dim() == n, "a basis of given states has a wrong size");
    std::vector<StateOneOld> left = v;
    for (int round = 0; round < 2; round++) {
        auto m = mask("necessary", left.size());
        std::vector<StateOneOld> nl;
        for (size_t i = 0; i < left.size(); i++)
            if (m[i]) nl.push_back(left[i]);
        b.removeUnnecessaryStates(m);
        left = nl;
        sym_assert(b.size() == left.size() && b.dim() == left.size(), "removal keeps a wrong number of states");
        for (size_t i = 0; i < left.size(); i++) {
            sym_assert(b.get(i) == left[i], "removal keeps other states than the necessary ones");
            sym_assert(b.get(i).idx == i, "the index of a state is not its position after removal");
        }
    }
    sym_cover("removed one-atom states");
}
extern "C" void entry_remove_two() {
    Start s{1, 0, 0.5f, 0.5f};
    Win w{0, 0, 0, sym_choice("dm", 0, 1)};
    auto a = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(config(s, s, w)));
    auto b = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(config(s, s, Win{0, 0, 0, 1})));
    BasisnamesTwo p(a, b), k(a, b);
    std::vector<StateTwoOld> left;
    for (size_t i = 0; i < p.size(); i++) left.push_back(p.get(i));
    auto init = p.initial();
    for (int round = 0; round < 2; round++) {
        auto m = mask("necessary", left.size());
        std::vector<StateTwoOld> nl;
        for (size_t i = 0; i < left.size(); i++)
            if (m[i]) nl.push_back(left[i]);
        p.removeUnnecessaryStates(m);
        if (round == 0) {
            k.removeUnnecessaryStatesKeepIdx(m);
            sym_assert(k.size() == nl.size(), "removal with kept indices keeps a wrong number of states");
            for (size_t i = 0; i < nl.size(); i++) sym_assert(k.get(i) == nl[i] && k.get(i).idx == nl[i].idx, "removal with kept indices keeps other states or indices");
        }
        left = nl;
        sym_assert(p.size() == left.size() && p.dim() == left.size(), "removal keeps a wrong number of pair states");
        for (size_t i = 0; i < left.size(); i++) {
            sym_assert(p.get(i) == left[i], "removal keeps other pair states than the necessary ones");
            sym_assert(p.get(i).idx == i, "the index of a pair state is not its position after removal");
            if (left[i] == init) sym_assert(p.initial().idx == i, "the index of the initial pair state is not its position after removal");
        }
    }
    sym_cover("removed pair states");
}
