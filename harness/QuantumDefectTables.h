// Tables of quantum defects, their Rydberg-Ritz evaluation and database files (C02, C05).
#pragma once
#include "sym.h"
#include "sqlmodel.h"
#include "pairinteraction/Constants.hpp"
#include <cstdio>
#include <string>
#include <vector>

struct Pot {
    std::string el;
    int l;
    double ac;
    int Z;
    double a1, a2, a3, a4, rc;
};
struct Ritz {
    std::string el;
    int l;
    double j, d[5], Ry;
};
struct Tables {
    std::vector<Pot> pot;
    std::vector<Ritz> ritz;
};
struct Expect {
    bool ok = false;
    double ac, a1, a2, a3, a4, rc, nstar, energy;
    int Z;
};
static Expect oracle(const Tables &t, const std::string &sp, int n, int l, double j) {
    Expect e;
    bool any = false;
    int lm = 0, rm = 0;
    for (auto &p : t.pot)
        if (p.el == sp) lm = any && p.l < lm ? lm : p.l, any = true;
    if (!any) return e;
    if (l < lm) lm = l;
    const Pot *p = nullptr;
    for (auto &x : t.pot)
        if (x.el == sp && x.l == lm && !p) p = &x;
    if (!p) return e;
    any = false;
    for (auto &r : t.ritz)
        if (r.el == sp) rm = any && r.l < rm ? rm : r.l, any = true;
    if (!any) return e;
    if (l < rm) rm = l;
    double jm = 0;
    any = false;
    for (auto &r : t.ritz)
        if (r.el == sp && r.l == rm) jm = any && r.j < jm ? jm : r.j, any = true;
    if (!any) return e;
    if (j < jm) jm = j;
    const Ritz *r = nullptr;
    for (auto &x : t.ritz)
        if (x.el == sp && x.l == rm && x.j == jm && !r) r = &x;
    if (!r) return e;
    e.ok = true;
    e.ac = p->ac, e.Z = p->Z, e.a1 = p->a1, e.a2 = p->a2, e.a3 = p->a3, e.a4 = p->a4, e.rc = p->rc;
    double x = n - r->d[0], i2 = 1 / (x * x);
    e.nstar = n - (r->d[0] + i2 * (r->d[1] + i2 * (r->d[2] + i2 * (r->d[3] + i2 * r->d[4]))));
    e.energy = -(r->Ry / 109737.31568525) / (2 * e.nstar * e.nstar) * au2GHz;
    return e;
}
// --------------------------------------------------------------------------- database files
static std::string num(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static std::string inum(int v) { return std::to_string(v); }
static double coef(const char *n, bool small = true) { return sym_real(n, small ? -1 : 0.5, small ? 1 : 2); }
static Pot pot(const char *el, int l) { return {el, l, coef("ac"), sym_int("Z", 1, 90), coef("a1"), coef("a2"), coef("a3"), coef("a4"), coef("rc")}; }
static Ritz ritz(const char *el, int l, double j) {
    return {el, l, j, {coef("d0"), coef("d2"), coef("d4"), coef("d6"), coef("d8")}, coef("Ry", false) };
}
#ifdef SYM_ENGINE
static sqlm::Cell cell(double v) {
    sqlm::Cell c;
    c.kind = 2, c.d = v;
    return c;
}
static sqlm::Cell icell(int v) {
    sqlm::Cell c;
    c.kind = 1, c.i = v;
    return c;
}
static sqlm::Cell tcell(const std::string &v) {
    sqlm::Cell c;
    c.kind = 3, c.s = v;
    return c;
}
// in the symbolic runs the script is handed to the model ready-made
static std::string text(const Tables &t, bool drop, bool reversed = false) {
    sqlm::Prepared p;
    p.drop = drop;
    sqlm::Table a, b;
    a.name = "model_potential", b.name = "rydberg_ritz";
    a.col = {"element", "l", "ac", "z", "a1", "a2", "a3", "a4", "rc"};
    b.col = {"element", "l", "j", "d0", "d2", "d4", "d6", "d8", "ry"};
    for (auto &p : t.pot) a.rows.push_back({tcell(p.el), icell(p.l), cell(p.ac), icell(p.Z), cell(p.a1), cell(p.a2), cell(p.a3), cell(p.a4), cell(p.rc)});
    for (auto &r : t.ritz) b.rows.push_back({tcell(r.el), icell(r.l), cell(r.j), cell(r.d[0]), cell(r.d[1]), cell(r.d[2]), cell(r.d[3]), cell(r.d[4]), cell(r.Ry)});
    if (reversed) {
        for (size_t i = 0; 2 * i + 1 < a.rows.size(); i++) std::swap(a.rows[i], a.rows[a.rows.size() - 1 - i]);
        for (size_t i = 0; 2 * i + 1 < b.rows.size(); i++) std::swap(b.rows[i], b.rows[b.rows.size() - 1 - i]);
    }
    p.tables = {a, b};
    sqlm::prepared().push_back(p);
    return "@" + std::to_string(sqlm::prepared().size() - 1);
}
#else
static std::string text(const Tables &t, bool drop, bool reversed = false) {
    std::string s;
    if (drop) s += "drop table if exists model_potential; drop table if exists `rydberg_ritz`;\n";
    s += "create table model_potential (element text, L int, ac real, Z int, a1 real, a2 real, a3 real, a4 real, rc real);\n"
         "create table rydberg_ritz (element text, L int, J real, d0 real, d2 real, d4 real, d6 real, d8 real, Ry real);\n";
    std::vector<std::string> v;
    for (auto &p : t.pot)
        v.push_back("insert into model_potential values('" + p.el + "'," + std::to_string(p.l) + "," + num(p.ac) + "," + inum(p.Z) + "," + num(p.a1) + "," + num(p.a2) +
                    "," + num(p.a3) + "," + num(p.a4) + "," + num(p.rc) + ");\n");
    for (auto &r : t.ritz) {
        std::string x = "insert into rydberg_ritz values('" + r.el + "'," + std::to_string(r.l) + "," + (r.j == 0.5 ? "0.5" : r.j == 1.5 ? "1.5" : r.j == 2.5 ? "2.5" : "1");
        for (int i = 0; i < 5; i++) x += "," + num(r.d[i]);
        v.push_back(x + "," + num(r.Ry) + ");\n");
    }
    for (size_t i = 0; i < v.size(); i++) s += v[reversed ? v.size() - 1 - i : i];
    return s;
}
#endif
static void writeFile(const char *name, const std::string &s) {
    FILE *f = fopen(name, "wb");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
