// C07: legacy one- and two-atom states.
#include "sym.h"
#include "pairinteraction/Constants.hpp"
#include "pairinteraction/StateOld.hpp"
#include <string>

// every int for n and l; every half integer with |.| <= 2^20 (including the arbitrary marker) for j and m
static const int HL = 1 << 21;
static StateOneOld one(const std::string &sp = "Rb") {
    int n = sym_int("n", INT32_MIN, INT32_MAX), l = sym_int("l", INT32_MIN, INT32_MAX);
    float j = sym_half("j", -HL, HL), m = sym_half("m", -HL, HL);
    return StateOneOld(sp, n, l, j, m);
}
static StateTwoOld two() { return StateTwoOld(one("Rb"), one("Cs")); }
static bool same(const StateOneOld &a, const StateOneOld &b) { return a.n == b.n && a.l == b.l && a.j == b.j && a.m == b.m; }
static bool same(const StateTwoOld &a, const StateTwoOld &b) {
    return a.n == b.n && a.l == b.l && a.j == b.j && a.m == b.m;
}
template <class T>
static void relations(const T &a, const T &b) {
    bool eq = a == b;
    sym_assert(eq == same(a, b), "equality does not compare exactly the quantum numbers");
    sym_assert((a != b) == !eq, "inequality is not the negation of equality");
    sym_assert(a == a && !(a != a), "a state differs from itself");
    sym_assert((b == a) == eq, "equality is not symmetric");
    bool lt = a < b, gt = b < a;
    sym_assert(!(a < a), "a state is less than itself");
    sym_assert(!(lt && gt), "two states are each less than the other");
    sym_assert((lt || gt) == !eq, "the order does not distinguish exactly the unequal states");
    if (eq) {
        sym_cover("equal states");
        sym_assert(std::hash<T>()(a) == std::hash<T>()(b), "equal states hash differently");
    } else
        sym_cover("different states");
}
extern "C" void entry_one() {
    auto a = one(), b = one();
    relations(a, b);
}
extern "C" void entry_two() {
    auto a = two(), b = two();
    relations(a, b);
}
extern "C" void entry_one_transitive() {
    auto a = one(), b = one(), c = one();
    sym_assume(a < b);
    sym_assume(b < c);
    sym_cover("chain of states");
    sym_assert(a < c, "the order of states is not transitive");
}
extern "C" void entry_two_transitive() {
    auto a = two(), b = two(), c = two();
    sym_assume(a < b);
    sym_assume(b < c);
    sym_cover("chain of pairs");
    sym_assert(a < c, "the order of pairs is not transitive");
}
extern "C" void entry_one_subset() {
    auto a = one(), p = one();
    bool ref = (p.n == ARB || a.n == p.n) && (p.l == ARB || a.l == p.l) && (p.j == ARB || a.j == p.j) && (p.m == ARB || a.m == p.m);
    if (ref) sym_cover("match");
    else sym_cover("no match");
    sym_assert((a ^ p) == ref, "pattern matching does not treat exactly the arbitrary components as wildcards");
    sym_assert(a ^ a, "a state does not match itself");
}
extern "C" void entry_two_subset() {
    auto a = two(), p = two();
    bool ref = true;
    for (int i = 0; i < 2; i++)
        ref = ref && (p.n[i] == ARB || a.n[i] == p.n[i]) && (p.l[i] == ARB || a.l[i] == p.l[i]) && (p.j[i] == ARB || a.j[i] == p.j[i]) && (p.m[i] == ARB || a.m[i] == p.m[i]);
    sym_cover("pair match");
    sym_assert((a ^ p) == ref, "pattern matching of pairs does not treat exactly the arbitrary components as wildcards");
}
static std::string spec(const char *n) {
    static const char *s[] = {"Rb", "Cs", "Sr1", "Sr3", "", "Na"};
    return s[sym_choice(n, 0, TIER ? 5 : 4)];
}
static bool full(const StateOneOld &a, const StateOneOld &b) { return same(a, b) && a.species == b.species && a.element == b.element && a.s == b.s; }
extern "C" void entry_compose() {
    auto a = one(spec("s1")), b = one(spec("s2"));
    StateTwoOld p(a, b);
    sym_assert(full(p.first(), a) && full(p.getFirstState(), a), "the first atom of a pair is not the one given");
    sym_assert(full(p.second(), b) && full(p.getSecondState(), b), "the second atom of a pair is not the one given");
    sym_assert(p.getN()[0] == a.getN() && p.getL()[0] == a.getL() && p.getJ()[0] == a.getJ() && p.getM()[0] == a.getM() && p.getSpecies()[0] == a.getSpecies(), "the accessors of a pair disagree with the first atom");
    sym_assert(p.getN()[1] == b.getN() && p.getL()[1] == b.getL() && p.getJ()[1] == b.getJ() && p.getM()[1] == b.getM() && p.getSpecies()[1] == b.getSpecies(), "the accessors of a pair disagree with the second atom");
    for (int i = 0; i < 2; i++) {
        const auto &x = i ? b : a;
        sym_assert(p.element[i] == x.element && p.s[i] == x.s, "element or spin of a pair disagrees with the atom");
    }
    StateTwoOld q({{a.species, b.species}}, {{a.n, b.n}}, {{a.l, b.l}}, {{a.j, b.j}}, {{a.m, b.m}});
    sym_assert(q == p && q.species == p.species && q.element == p.element && q.s == p.s, "the same pair built from components differs");
    StateTwoOld r(7, a, b);
    sym_assert(r.idx == 7 && full(r.first(), a) && full(r.second(), b), "a pair built with an index is not composed of the given atoms");
    sym_cover("composed");
}
extern "C" void entry_set() {
    auto a = one(spec("s1")), b = one("K"), c = one(spec("s2"));
    StateTwoOld p(a, b), q(b, a);
    p.setFirstState(c);
    sym_assert(full(p.first(), c), "setting the first atom does not store it");
    sym_assert(full(p.second(), b), "setting the first atom changes the second");
    sym_assert(p.element[0] == c.element && p.s[0] == c.s, "setting the first atom leaves a stale element or spin");
    q.setSecondState(c);
    sym_assert(full(q.second(), c), "setting the second atom does not store it");
    sym_assert(full(q.first(), b), "setting the second atom changes the first");
    sym_assert(q.element[1] == c.element && q.s[1] == c.s, "setting the second atom leaves a stale element or spin");
    sym_cover("set");
}
extern "C" void entry_order() {
    auto a = one("Rb"), b = one("Cs");
    StateTwoOld p(a, b), r(b, a);
    auto o = p.order(), oo = o.order(), ro = r.order();
    sym_assert(!(o.second() < o.first()), "ordering a pair does not put the smaller atom first");
    sym_assert((full(o.first(), a) && full(o.second(), b)) || (full(o.first(), b) && full(o.second(), a)), "ordering a pair changes its atoms");
    sym_assert(oo == o && oo.species == o.species, "ordering is not idempotent");
    sym_assert(ro == o, "the ordered pair depends on the initial order");
    if (same(a, b)) sym_cover("ordered equal atoms");
    else sym_cover("ordered different atoms");
}
extern "C" void entry_species() {
    // the spin follows from the digit at the end of the species
    char c[3] = {'S', 'r', 0};
    std::string sp = "S";
    sym_bytes("c", c, 1);
    sp += c[0];
    StateOneOld a(sp, 1, 0, 0.5f, 0.5f);
    StateTwoOld p(a, StateOneOld("Rb", 1, 0, 0.5f, 0.5f));
    bool digit = c[0] >= '0' && c[0] <= '9';
    sym_assert(a.species == sp && a.element == (digit ? std::string("S") : sp), "the element is not the species without the digit");
    sym_assert(a.s == (digit ? (c[0] - '0' - 1) / 2.f : 0.5f), "the spin does not follow from the species");
    sym_assert(p.element[0] == a.element && p.s[0] == a.s && p.element[1] == "Rb" && p.s[1] == 0.5f, "a pair analyses the species differently");
    if (digit) sym_cover("species with digit");
    else sym_cover("species without digit");
}
