// C05: quantum defects from arbitrary databases, over every history of lookups.  Exact arithmetic.
#include "sym.h"
#include "sqlmodel.h"
#include "QuantumDefectTables.h"
#include "pairinteraction/Constants.hpp"
#include "EmbeddedDatabase.hpp"
#include "pairinteraction/QuantumDefect.hpp"
#include <cstdio>
#include <string>
#include <vector>

static void near(double a, double b, const char *what) { sym_assert_near(a, b, 1e-12, what); }
static void compare(const Expect &e, const std::string &sp, int n, int l, double j, const char *db, const char *throwmsg) {
    bool thrown = false;
    try {
        QuantumDefect *q = db ? new QuantumDefect(sp, n, l, j, std::string(db)) : new QuantumDefect(sp, n, l, j);
        sym_assert(e.ok, throwmsg);
        sym_assert(q->species == sp && q->n == n && q->l == l && q->j == j, "the state is not the one that was asked for");
        sym_assert(q->Z == e.Z, "the core charge differs from the database");
        near(q->ac, e.ac, "the polarisability differs from the database");
        near(q->a1, e.a1, "a1 differs from the database");
        near(q->a2, e.a2, "a2 differs from the database");
        near(q->a3, e.a3, "a3 differs from the database");
        near(q->a4, e.a4, "a4 differs from the database");
        near(q->rc, e.rc, "rc differs from the database");
        near(q->nstar, e.nstar, "the effective quantum number is not n minus the Rydberg-Ritz series");
        near(q->energy, e.energy, "the energy is not that of the effective quantum number");
        delete q;
    } catch (std::exception &) {
        thrown = true;
    }
    sym_assert(thrown == !e.ok, "a lookup fails although the rows are there");
}
static double pickJ() {
    static const double js[] = {0.5, 1.5, 2.5, 3.5, 1, 0, -0.5};
    return js[sym_choice("j", 0, TIER ? 6 : 4)];
}
static int pickN() {
    static const int ns[] = {10, 60, 1000000};
    return ns[TIER ? sym_choice("n", 0, 2) : 0];
}
// every set of rows of a species (next to rows of another one with larger l), every state
extern "C" void entry_tables() {
    sym_mode_real(1);
    sym_allow_divzero(1);
    int pm = sym_choice("potential rows", 0, 7), rm = sym_choice("Rydberg-Ritz rows", 0, 31);
    if (!TIER) sym_assume(pm == 7 || rm == 31 || (pm == 3 && rm == 7) || pm == 0 || rm == 0);
    Tables t;
    static const int rl[] = {0, 1, 1, 2, 2};
    static const double rj[] = {0.5, 0.5, 1.5, 1.5, 2.5};
    for (int i = 0; i < 3; i++)
        if (pm >> i & 1) t.pot.push_back(pot("Xx", i));
    t.pot.push_back(pot("Yy", 3));
    for (int i = 0; i < 5; i++)
        if (rm >> i & 1) t.ritz.push_back(ritz("Xx", rl[i], rj[i]));
    t.ritz.push_back(ritz("Yy", 3, 2.5));
    writeFile("a.sql", text(t, true, sym_choice("reversed", 0, 1)));
    int l = sym_choice("l", TIER ? -1 : 0, 3), n = pickN();
    double j = pickJ();
    Expect e = oracle(t, "Xx", n, l, j);
    compare(e, "Xx", n, l, j, "a.sql", "a lookup succeeds although rows are missing");
    sym_cover(e.ok ? "found" : "missing rows");
}
// every sequence of lookups in two files, a missing file and (optionally) the embedded database
static void history(int len, int nstates) {
    sym_mode_real(1);
    sym_allow_divzero(1);
    Tables a, b;
    a.pot = {pot("Xx", 0), pot("Xx", 1), pot("Yy", 0)};
    a.ritz = {ritz("Xx", 0, 0.5), ritz("Xx", 1, 0.5), ritz("Yy", 0, 0.5)};
    b.pot = {pot("Xx", 0)};
    b.ritz = {ritz("Xx", 0, 0.5), ritz("Xx", 0, 1.5)};
    writeFile("a.sql", text(a, sym_choice("first file drops tables", 0, 1)));
    writeFile("b.sql", text(b, TIER ? sym_choice("second file drops tables", 0, 1) : 0));
    writeFile("c.sql", "-- nothing in here\n");
    const char *files[] = {"a.sql", "b.sql", "c.sql", "missing.sql"};
    static const struct {
        const char *el;
        int n, l;
        double j;
    } states[] = {{"Xx", 10, 0, 0.5}, {"Xx", 10, 0, 1.5}, {"Xx", 11, 0, 0.5}, {"Xx", 10, 1, 0.5}, {"Yy", 10, 0, 0.5}};
    for (int i = 0; i < len; i++) {
        int f = sym_choice("file", 0, 3);
        auto &s = states[sym_choice("state", 0, nstates - 1)];
        Expect e;
        if (f < 2) e = oracle(f == 0 ? a : b, s.el, s.n, s.l, s.j);
        compare(e, s.el, s.n, s.l, s.j, files[f], f == 2 ? "a lookup in an empty database succeeds" : f == 3 ? "a lookup in a missing database succeeds" : "a lookup succeeds although rows are missing");
        if (f == 0) sym_cover("first file");
        if (f == 1) sym_cover("second file");
        if (f == 2) sym_cover("empty file");
        if (f == 3) sym_cover("missing file");
    }
}
extern "C" void entry_history() { history(TIER ? 4 : 3, 2); }
extern "C" void entry_states() { history(TIER ? 3 : 2, 5); }
// the embedded database: every row with each l and j around the table's end, between lookups in a file
extern "C" void entry_embedded() {
    sym_mode_real(1);
    sym_allow_divzero(1);
    static const char *species[] = {"Li", "Na", "K", "Rb", "Cs", "Sr1", "Sr3", "nop"};
    Tables x;
    x.pot = {pot("Rb", 0)};
    x.ritz = {ritz("Rb", 0, 0.5)};
    writeFile("x.sql", text(x, true));
    // read the embedded tables through the wrapper, independently of QuantumDefect
    EmbeddedDatabase db;
    Tables t;
    {
        sqlite::statement s(db);
        s.set("select element,L,ac,Z,a1,a2,a3,a4,rc from model_potential;");
        s.prepare();
        while (s.step())
            t.pot.push_back({s.get<std::string>(0), s.get<int>(1), s.get<double>(2), s.get<int>(3), s.get<double>(4), s.get<double>(5), s.get<double>(6), s.get<double>(7), s.get<double>(8)});
        s.reset();
        s.set("select element,L,J,d0,d2,d4,d6,d8,Ry from rydberg_ritz;");
        s.prepare();
        while (s.step())
            t.ritz.push_back({s.get<std::string>(0), s.get<int>(1), s.get<double>(2), {s.get<double>(3), s.get<double>(4), s.get<double>(5), s.get<double>(6), s.get<double>(7)}, s.get<double>(8)});
    }
    int cold = sym_choice("first lookup", 0, 1);
    if (!cold) compare(oracle(t, "Li", 20, 0, 0.5), "Li", 20, 0, 0.5, "", "");
    int before = sym_choice("file before", 0, 1);
    std::string sp = species[cold ? 3 : sym_choice("species", 0, 7)];
    int l = cold ? 1 : sym_choice("l", 0, 5), n = pickN();
    double j = sym_choice("j", 0, 1) ? l + 0.5 : l > 0 ? l - 0.5 : 0.5;
    if (sp == "Sr1") j = l;
    if (sp == "Sr3") j = l + sym_choice("dj", l ? -1 : 1, 1);
    if (before) compare(oracle(x, "Rb", n, 0, 0.5), "Rb", n, 0, 0.5, "x.sql", "");
    Expect e = oracle(t, sp, n, l, j);
    compare(e, sp, n, l, j, sym_choice("empty name", 0, 1) ? "" : nullptr, "a lookup succeeds although rows are missing in the embedded database");
    sym_cover(e.ok ? "embedded" : "not in the embedded database");
}
