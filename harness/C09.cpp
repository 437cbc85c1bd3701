// C09: the order on symmetry sectors is a strict total order over all four labels.
#include "sym.h"
#include "pairinteraction/Symmetry.hpp"
#include <map>

static Symmetry mk(const char *n) {
    // every int value is admitted for every label
    Symmetry s;
    s.inversion = (parity_t)sym_int(n, INT_MIN, INT_MAX);
    s.reflection = (parity_t)sym_int(n, INT_MIN, INT_MAX);
    s.permutation = (parity_t)sym_int(n, INT_MIN, INT_MAX);
    s.rotation = sym_int(n, INT_MIN, INT_MAX);
    return s;
}
static bool same(const Symmetry &a, const Symmetry &b) {
    return a.inversion == b.inversion && a.reflection == b.reflection && a.permutation == b.permutation && a.rotation == b.rotation;
}
extern "C" void entry_order() {
    Symmetry a = mk("a"), b = mk("b");
    bool lt = a < b, gt = b < a;
    sym_assert(!(a < a), "a sector is less than itself");
    sym_assert(!(lt && gt), "two sectors are each less than the other");
    if (same(a, b)) {
        sym_cover("equal");
        sym_assert(!lt && !gt, "equal sectors are ordered");
    } else {
        sym_cover("different");
        sym_assert(lt || gt, "different sectors are equivalent as keys");
    }
}
extern "C" void entry_transitive() {
    Symmetry a = mk("a"), b = mk("b"), c = mk("c");
    sym_assume(a < b);
    sym_assume(b < c);
    sym_cover("chain");
    sym_assert(a < c, "the order is not transitive");
}
extern "C" void entry_map() {
    Symmetry a = mk("a"), b = mk("b"), c = mk("c");
    std::map<Symmetry, int> m;
    m[a] = 1;
    m[b] = 2;
    m[c] = 3;
    size_t n = 1 + (!same(a, b)) + (!same(c, a) && !same(c, b));
    sym_cover("map");
    sym_assert(m.size() == n, "a map keyed by sectors holds a wrong number of entries");
    sym_assert(m.at(c) == 3, "wrong entry found for the last key");
    sym_assert(m.at(b) == (same(c, b) ? 3 : 2), "wrong entry found for the second key");
    sym_assert(m.at(a) == (same(a, c) ? 3 : same(a, b) ? 2 : 1), "wrong entry found for the first key");
    sym_assert(m.count(a) == 1 && m.count(b) == 1 && m.count(c) == 1, "a stored sector is not found");
}
