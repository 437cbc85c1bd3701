// Multivariate Laurent polynomials with rational coefficients over algebraic generators:
// the exact-arithmetic value domain ("RE") of pisym.
#pragma once
#include <gmpxx.h>
#include <map>
#include <string>
#include <vector>
#include <utility>
#include <z3.h>

typedef std::vector<std::pair<int, int>> Mono; // (generator, exponent), sorted, exponent != 0

struct Poly {
    std::map<Mono, mpq_class> t;
    Z3_ast z3 = nullptr;
    int ver = 0;
    bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
};
typedef const Poly *PolyP;

struct Gen {
    enum K { VAR, SQRT, INV, UF, COSH, SINH, ANGLE } k = VAR; // COSH/SINH: cos/sin of half an angle
    std::string name, fn;
    PolyP arg = nullptr, arg2 = nullptr;
    Z3_ast z3 = nullptr, z3inv = nullptr;
    PolyP rule2 = nullptr; // g^2 -> rule2
    int gc = -1, gs = -1;  // for ANGLE: generators of cos(g/2), sin(g/2)
    bool bounded = false, enclosed = false;
    mpq_class lo, hi;
};
