// C08: one- and two-atom states.
#include "sym.h"
#include "pairinteraction/Constants.hpp"
#include "pairinteraction/State.hpp"
#include <string>
#include <type_traits>
#include <utility>
#include <wignerSymbols/wignerSymbols-cpp.h>
double WignerSymbols::wigner3j(double, double, double, double, double, double) { return 0; } // not used here
double WignerSymbols::wigner6j(double, double, double, double, double, double) { return 0; }

static const int HL = 1 << 21;
static const char *const SP[] = {"Rb", "Cs", "Sr1", "Sr3", "Rb1"};
struct Q { // what a state was made of
    bool label;
    std::string sp;
    int n, l;
    float j, m;
};
static bool operator==(const Q &a, const Q &b) {
    return a.label == b.label && a.sp == b.sp && a.n == b.n && a.l == b.l && a.j == b.j && a.m == b.m;
}
static Q ordinary(const std::string &sp) {
    Q q{false, sp, sym_int("n", INT32_MIN, INT32_MAX), sym_int("l", INT32_MIN, INT32_MAX), sym_half("j", -HL, HL), sym_half("m", -HL, HL)};
    sym_assume(q.n != 0);
    return q;
}
static Q labelled(const std::string &sp) { return Q{true, sp, 0, 0, 0, 0}; }
static StateOne make(const Q &q) { return q.label ? StateOne(q.sp) : StateOne(q.sp, q.n, q.l, q.j, q.m); }
static StateTwo make(const Q &a, const Q &b) { return StateTwo(make(a), make(b)); }
static std::string letters(const char *n) {
    std::string s = "R";
    char c[2];
    sym_bytes(n, c, 1);
    s += c[0];
    return s;
}
static Q any(int kind, const char *n) { return kind ? labelled(SP[sym_choice(n, 0, 1)]) : ordinary(SP[sym_choice(n, 0, 1)]); }
template <class F>
static bool throws(F f) {
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}
template <class T>
static void relations(const T &a, const T &b, bool same) {
    bool eq = a == b;
    sym_assert(eq == same, "equality does not compare exactly the species and the quantum numbers");
    sym_assert((a != b) == !eq, "inequality is not the negation of equality");
    sym_assert((b == a) == eq, "equality is not symmetric");
    sym_assert(a == a && !(a != a), "a state differs from itself");
    bool lt = a < b, gt = b < a;
    sym_assert(!(a < a) && a <= a, "a state is less than itself");
    sym_assert(!(lt && gt), "two states are each less than the other");
    sym_assert((lt || gt) == !eq, "the order does not distinguish exactly the unequal states");
    sym_assert((a <= b) == !gt, "less-or-equal does not agree with less");
    sym_assert(std::hash<T>()(a) == a.getHash(), "the hash is not the one of the state");
    if (eq) {
        sym_cover("equal states");
        sym_assert(std::hash<T>()(a) == std::hash<T>()(b), "equal states hash differently");
    } else
        sym_cover("different states");
}
extern "C" void entry_one() {
    int ka = sym_choice("a is artificial", 0, 1), kb = sym_choice("b is artificial", 0, 1);
    Q a = any(ka, "a"), b = any(kb, "b");
    relations(make(a), make(b), a == b);
}
extern "C" void entry_one_species() { // every letter in the species or label
    int k = sym_choice("artificial", 0, 1);
    Q a = k ? labelled(letters("a")) : Q{false, letters("a"), 5, 1, 0.5f, 0.5f};
    Q b = k ? labelled(letters("b")) : Q{false, letters("b"), 5, 1, 0.5f, 0.5f};
    relations(make(a), make(b), a == b);
}
static Q pick(bool label, int sp) { return label ? labelled(SP[sp]) : ordinary(SP[sp]); }
extern "C" void entry_two() {
    int k = sym_choice("kinds", 0, 5), sp = sym_choice("species", 0, 2);
    Q a1 = pick(k == 1, 0), a2 = pick(k == 2, 0), b1 = pick(k == 1 || k == 4, sp & 1), b2 = pick(k == 2 || k == 5, sp >> 1);
    if (k == 3) b1 = a2, b2 = a1; // exchanged
    relations(make(a1, a2), make(b1, b2), a1 == b1 && a2 == b2);
}
static void chain(const StateOne &a, const StateOne &b, const StateOne &c) {
    sym_assume(a < b);
    sym_assume(b < c);
    sym_cover("chain of states");
    sym_assert(a < c, "the order of states is not transitive");
}
extern "C" void entry_one_transitive() {
    int k = sym_choice("artificial", -1, TIER ? 2 : -1);
    Q a = any(k == 0, "a"), b = any(k == 1, "b"), c = any(k == 2, "c");
    chain(make(a), make(b), make(c));
}
extern "C" void entry_two_transitive() {
    // quick: only m of one atom and two quantum numbers of the other differ
    int k = sym_choice("fixed", 0, TIER ? 4 : 3);
    Q q[3][2];
    for (int i = 0; i < 3; i++)
        for (int s = 0; s < 2; s++) {
            if (k == 4) q[i][s] = ordinary(SP[s]);
            else if ((k & 1) == s) q[i][s] = Q{false, SP[s], 5, 1, 0.5f, sym_half("m", -HL, HL)};
            else if (k & 2) q[i][s] = Q{false, SP[s], 5, 1, sym_half("j", -HL, HL), sym_half("m", -HL, HL)};
            else {
                q[i][s] = Q{false, SP[s], sym_int("n", INT32_MIN, INT32_MAX), sym_int("l", INT32_MIN, INT32_MAX), 0.5f, 0.5f};
                sym_assume(q[i][s].n != 0);
            }
        }
    StateTwo a = make(q[0][0], q[0][1]), b = make(q[1][0], q[1][1]), c = make(q[2][0], q[2][1]);
    sym_assume(a < b);
    sym_assume(b < c);
    sym_cover("chain of pairs");
    sym_assert(a < c, "the order of pairs is not transitive");
}
static bool matches(const Q &a, const Q &p) {
    return a.sp == p.sp && (p.n == ARB || a.n == p.n) && (p.l == ARB || a.l == p.l) && (p.j == ARB || a.j == p.j) && (p.m == ARB || a.m == p.m);
}
static bool general(const Q &a) { return a.n == ARB || a.l == ARB || a.j == ARB || a.m == ARB; }
extern "C" void entry_one_subset() {
    Q a = any(sym_choice("artificial", 0, 1), "a"), p = ordinary(SP[sym_choice("p", 0, 1)]);
    StateOne x = make(a), y = make(p);
    bool ref = matches(a, p);
    if (ref) sym_cover("match");
    else sym_cover("no match");
    sym_assert((x ^ y) == ref, "pattern matching does not treat exactly the arbitrary components as wildcards");
    sym_assert(x ^ x, "a state does not match itself");
    sym_assert(x.isGeneralized() == general(a) && y.isGeneralized() == general(p), "a state is not generalized exactly if a component is arbitrary");
}
extern "C" void entry_two_subset() {
    Q a = ordinary("Rb"), b = ordinary("Cs"), p = ordinary(SP[sym_choice("p", 0, 1)]), r = ordinary("Cs");
    StateTwo x = make(a, b), y = make(p, r);
    sym_cover("pair match");
    sym_assert((x ^ y) == (matches(a, p) && matches(b, r)), "pattern matching of pairs does not treat exactly the arbitrary components as wildcards");
    auto g = y.isGeneralized();
    sym_assert(g[0] == general(p) && g[1] == general(r) && y.isGeneralized(0) == general(p) && y.isGeneralized(1) == general(r),
               "an atom of a pair is not generalized exactly if a component is arbitrary");
}
static float spin(const std::string &sp) { return !sp.empty() && sp.back() >= '0' && sp.back() <= '9' ? (sp.back() - '0' - 1) / 2.f : 0.5f; }
static std::string elem(const std::string &sp) { return !sp.empty() && sp.back() >= '0' && sp.back() <= '9' ? sp.substr(0, sp.size() - 1) : sp; }
static void getters(const StateOne &s, const Q &q) {
    sym_assert(s.isArtificial() == q.label, "a state is not artificial exactly if it has a label");
    if (q.label) {
        sym_cover("artificial state");
        sym_assert(s.getLabel() == q.sp, "the label is not the one given");
        sym_assert(throws([&] { s.getN(); }) && throws([&] { s.getL(); }) && throws([&] { s.getJ(); }) && throws([&] { s.getM(); }) && throws([&] { s.getS(); }),
                   "an artificial state gives access to quantum numbers");
        sym_assert(throws([&] { s.getSpecies(); }) && throws([&] { s.getElement(); }) && throws([&] { s.getEnergy(); }) && throws([&] { s.getNStar(); }),
                   "an artificial state gives access to a species or an energy");
        sym_assert(throws([&] { s.getReflected(); }), "an artificial state is reflected");
        sym_assert(!s.isGeneralized(), "an artificial state is generalized");
    } else {
        sym_cover("ordinary state");
        sym_assert(throws([&] { s.getLabel(); }), "an ordinary state gives access to a label");
        sym_assert(s.getN() == q.n && s.getL() == q.l && s.getJ() == q.j && s.getM() == q.m && s.getSpecies() == q.sp, "the quantum numbers are not those given");
        sym_assert(s.getElement() == elem(q.sp) && s.getS() == spin(q.sp), "element or spin do not follow from the species");
    }
}
extern "C" void entry_guards() {
    int k = sym_choice("artificial", 0, 1);
    std::string sp = SP[sym_choice("species", 0, 4)];
    if (k && sym_choice("empty", 0, 1)) sp = "";
    Q q = k ? labelled(sp) : ordinary(sp);
    getters(make(q), q);
}
extern "C" void entry_species() { // the spin follows from the last letter
    Q q{false, letters("a"), 5, 1, 0.5f, 0.5f};
    getters(make(q), q);
    if (spin(q.sp) != 0.5f) sym_cover("species with another spin");
    Q e{false, "7", 5, 1, 0.5f, 0.5f};
    getters(make(e), e);
}
extern "C" void entry_zero() { // n == 0 is reserved for artificial states
    int l = sym_int("l", INT32_MIN, INT32_MAX);
    float j = sym_half("j", -HL, HL), m = sym_half("m", -HL, HL);
    sym_cover("principal quantum number zero");
    sym_assert(throws([&] { StateOne s("Rb", 0, l, j, m); }), "an ordinary state with principal quantum number zero is accepted");
}
extern "C" void entry_pair() {
    int k = sym_choice("artificial", 0, 3);
    std::string s1 = SP[sym_choice("s1", 0, 4)], s2 = SP[sym_choice("s2", 0, TIER ? 4 : 2)];
    Q a = k & 1 ? labelled(s1) : ordinary(s1), b = k & 2 ? labelled(s2) : ordinary(s2);
    StateTwo p = make(a, b);
    getters(p.getFirstState(), a);
    getters(p.getSecondState(), b);
    sym_assert(p.getFirstState() == make(a) && p.getFirstState().getHash() == make(a).getHash(), "the first atom of a pair is not the one given");
    sym_assert(p.getSecondState() == make(b) && p.getSecondState().getHash() == make(b).getHash(), "the second atom of a pair is not the one given");
    auto art = p.isArtificial();
    sym_assert(art[0] == a.label && art[1] == b.label, "a pair misreports artificial atoms");
    for (int i = 0; i < 2; i++) {
        const Q &q = i ? b : a;
        sym_assert(p.isArtificial(i) == q.label, "a pair misreports an artificial atom");
        if (q.label) {
            sym_assert(p.getLabel(i) == q.sp, "a pair misreports a label");
            sym_assert(throws([&] { p.getN(i); }) && throws([&] { p.getL(i); }) && throws([&] { p.getJ(i); }) && throws([&] { p.getM(i); }) && throws([&] { p.getS(i); }) &&
                           throws([&] { p.getSpecies(i); }) && throws([&] { p.getElement(i); }) && throws([&] { p.getEnergy(i); }) && throws([&] { p.getNStar(i); }),
                       "an artificial atom gives access to quantum numbers");
        } else {
            sym_assert(throws([&] { p.getLabel(i); }), "an ordinary atom gives access to a label");
            sym_assert(p.getN(i) == q.n && p.getL(i) == q.l && p.getJ(i) == q.j && p.getM(i) == q.m && p.getSpecies(i) == q.sp && p.getElement(i) == elem(q.sp) &&
                           p.getS(i) == spin(q.sp),
                       "the quantum numbers of an atom are not those given");
        }
    }
    if (k == 0) {
        sym_cover("ordinary pair");
        sym_assert(p.getN()[0] == a.n && p.getN()[1] == b.n && p.getL()[0] == a.l && p.getL()[1] == b.l && p.getJ()[0] == a.j && p.getJ()[1] == b.j && p.getM()[0] == a.m &&
                       p.getM()[1] == b.m && p.getS()[0] == spin(s1) && p.getS()[1] == spin(s2),
                   "the quantum numbers of a pair are not those of its atoms");
        sym_assert(p.getSpecies()[0] == s1 && p.getSpecies()[1] == s2 && p.getElement()[0] == elem(s1) && p.getElement()[1] == elem(s2), "the species of a pair are not those of its atoms");
        StateTwo q({{a.sp, b.sp}}, {{a.n, b.n}}, {{a.l, b.l}}, {{a.j, b.j}}, {{a.m, b.m}});
        sym_assert(q == p && q.getHash() == p.getHash() && q.getElement() == p.getElement() && q.getS() == p.getS(), "the same pair built from components differs");
        sym_assert(throws([&] { p.getLabel(); }), "an ordinary pair gives access to labels");
    } else {
        sym_assert(throws([&] { p.getN(); }) && throws([&] { p.getL(); }) && throws([&] { p.getJ(); }) && throws([&] { p.getM(); }) && throws([&] { p.getS(); }) &&
                       throws([&] { p.getSpecies(); }) && throws([&] { p.getElement(); }) && (k == 2 || throws([&] { p.getEnergy(); })) && throws([&] { p.getReflected(); }),
                   "a pair with an artificial atom gives access to quantum numbers");
        if (k == 3) {
            sym_cover("artificial pair");
            StateTwo q({{s1, s2}});
            sym_assert(p.getLabel()[0] == s1 && p.getLabel()[1] == s2, "the labels of a pair are not those given");
            sym_assert(q == p && q.getHash() == p.getHash(), "the same pair built from labels differs");
        } else
            sym_assert(throws([&] { p.getLabel(); }), "a pair with an ordinary atom gives access to labels");
    }
}
extern "C" void entry_reflect_one() {
    Q a = ordinary(SP[sym_choice("species", 0, 4)]);
    sym_assume(a.m != ARB && a.m != -ARB); // an arbitrary m has no sign
    StateOne s = make(a), r = s.getReflected();
    Q b = a;
    b.m = 0 - a.m;
    StateOne d = make(b);
    getters(r, b);
    relations(r, d, true);
    relations(r.getReflected(), s, true);
    if (a.m == 0) {
        sym_cover("reflected m = 0");
        relations(r, s, true);
    } else {
        sym_cover("reflected");
        relations(r, s, false);
    }
}
extern "C" void entry_reflect_two() {
    Q a = ordinary(SP[sym_choice("species", 0, 2)]), b = ordinary("Cs");
    sym_assume(a.m != ARB && a.m != -ARB && b.m != ARB && b.m != -ARB);
    StateTwo s = make(a, b), r = s.getReflected();
    Q x = a, y = b;
    x.m = 0 - a.m;
    y.m = 0 - b.m;
    StateTwo d = make(x, y);
    getters(r.getFirstState(), x);
    getters(r.getSecondState(), y);
    relations(r, d, true);
    relations(r.getReflected(), s, true);
    sym_cover("reflected pair");
}
extern "C" void entry_zero_sign() { // m = 0 and m = -0 are the same quantum number
    float j = sym_choice("j", 0, 2);
    StateOne a("Rb", 5, 1, j, 0.0f), b("Rb", 5, 1, j, -0.0f);
    relations(a, b, true);
    relations(a, a.getReflected(), true);
    relations(b.getReflected(), a.getReflected(), true);
    relations(StateTwo(a, b), StateTwo(b, a), true);
    relations(StateTwo(a, b).getReflected(), StateTwo(b, a), true);
}
extern "C" void entry_copy() { // copies and assignments keep everything
    int k = sym_choice("artificial", 0, 1);
    Q a = any(k, "a"), b = ordinary("Sr3");
    StateOne s = make(a), t = make(b);
    StateOne c(s), d = t;
    d = s;
    getters(c, a);
    getters(d, a);
    relations(c, s, true);
    relations(d, s, true);
    std::swap(s, t);
    getters(s, b);
    getters(t, a);
    relations(t, c, true);
    StateTwo p(c, t), q(t, d);
    relations(p, q, true);
    sym_cover("copied");
}
