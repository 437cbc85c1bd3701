// What the checks of the matrix elements put in place of the Wigner symbols, the quantum defects and the
// radial wavefunctions: the exact symbols or unknown functions, and unknown wavefunctions on a grid of
// two points.  Everything depends on the arguments (and the database) only.
#pragma once
#include "sym.h"
#include "pairinteraction/QuantumDefect.hpp"
#include "pairinteraction/Wavefunction.hpp"
#include <cmath>
#include <string>
#include <vector>
#include <wignerSymbols/wignerSymbols-cpp.h>

static bool unknownSymbols = false; // 3j and 6j symbols as unknown functions
// arguments are told apart by equality only, which keeps them symbolic
struct Application {
    const char *what;
    std::vector<double> args;
};
static std::vector<Application> seenApplications;
static double unknownFunction(const char *what, std::vector<double> args) {
    for (size_t i = 0; i < seenApplications.size(); i++) {
        auto &s = seenApplications[i];
        if (std::string(what) != s.what) continue;
        size_t k = 0;
        while (k < args.size() && args[k] == s.args[k]) k++;
        if (k == args.size()) return sym_uf1("unknown", i);
    }
    seenApplications.push_back({what, args});
    return sym_uf1("unknown", seenApplications.size() - 1);
}
static const double *factorials() {
    static double f[60];
    if (f[0] == 0) {
        f[0] = 1;
        for (int i = 1; i < 60; i++) f[i] = f[i - 1] * i;
    }
    return f;
}
static double fac(double x) { return factorials()[(int)(x + 0.25)]; }
static bool isInt(double x) { return x == std::floor(x); }
static bool triangle(double a, double b, double c) { return a + b >= c && a + c >= b && b + c >= a && isInt(a + b + c); }
static double tri(double a, double b, double c) { return fac(a + b - c) * fac(a - b + c) * fac(-a + b + c) / fac(a + b + c + 1); }
// Racah's formulas
static double exact3j(double j1, double j2, double j3, double m1, double m2, double m3) {
    if (m1 + m2 + m3 != 0 || !triangle(j1, j2, j3) || std::fabs(m1) > j1 || std::fabs(m2) > j2 || std::fabs(m3) > j3) return 0;
    if (!isInt(j1 + m1) || !isInt(j2 + m2) || !isInt(j3 + m3)) return 0;
    double s = 0;
    for (int t = 0; t < 40; t++) {
        double d[5] = {j3 - j2 + t + m1, j3 - j1 + t - m2, j1 + j2 - j3 - t, j1 - t - m1, j2 - t + m2}, p = fac(t);
        bool ok = true;
        for (double x : d) {
            if (x < 0) ok = false;
            else p *= fac(x);
        }
        if (ok) s += (t % 2 ? -1 : 1) / p;
    }
    double r = std::sqrt(tri(j1, j2, j3) * fac(j1 + m1) * fac(j1 - m1) * fac(j2 + m2) * fac(j2 - m2) * fac(j3 + m3) * fac(j3 - m3)) * s;
    return std::fmod(std::fabs(j1 - j2 - m3), 2) == 1 ? -r : r;
}
static double exact6j(double a, double b, double c, double d, double e, double f) {
    // the library gives no usable value when the triangle conditions are violated
    if (!triangle(a, b, c) || !triangle(a, e, f) || !triangle(d, b, f) || !triangle(d, e, c)) return 1000;
    double s = 0;
    for (int t = 0; t < 40; t++) {
        double n[7] = {t - a - b - c, t - a - e - f, t - d - b - f, t - d - e - c, a + b + d + e - t, b + c + e + f - t, c + a + f + d - t}, p = 1;
        bool ok = true;
        for (double x : n) {
            if (x < 0) ok = false;
            else p *= fac(x);
        }
        if (ok) s += (t % 2 ? -1 : 1) * fac(t + 1) / p;
    }
    return std::sqrt(tri(a, b, c) * tri(a, e, f) * tri(d, b, f) * tri(d, e, c)) * s;
}
double WignerSymbols::wigner3j(double l1, double l2, double l3, double m1, double m2, double m3) {
    if (unknownSymbols) return unknownFunction("3j", {l1, l2, l3, m1, m2, m3});
    return exact3j(l1, l2, l3, m1, m2, m3);
}
double WignerSymbols::wigner6j(double l1, double l2, double l3, double l4, double l5, double l6) {
    if (unknownSymbols) return unknownFunction("6j", {l1, l2, l3, l4, l5, l6});
    return exact6j(l1, l2, l3, l4, l5, l6);
}

// ------------------------------------------------------------------------------- quantum defects
static const char *const DBS[] = {"", "a.sql", "b.sql"};
static const char *const SPECIES[] = {"Rb", "Sr1", "Sr3", "Cs", "Na"};
static int number(const char *const *t, int n, const std::string &s) {
    for (int i = 0; i < n; i++)
        if (s == t[i]) return i;
    return -1;
}
// the state has no quantum defects: the real constructor throws
static bool unknownSpecies(const std::string &sp) { return number(SPECIES, 5, sp) < 0; }
static double atomUF(const char *what, int z, int n, int l, double j) { return unknownFunction(what, {(double)z, (double)n, (double)l, j}); }
static int atomId(const std::string &sp, const std::string &db) { return number(SPECIES, 5, sp) + 10 * number(DBS, 3, db); }
QuantumDefect::QuantumDefect(std::string sp, int n, int l, double j, std::nullptr_t)
    : e(), species(std::move(sp)), n(n), l(l), j(j), ac(e.ac), Z(e.Z), a1(e.a1), a2(e.a2), a3(e.a3), a4(e.a4), rc(e.rc), nstar(e.nstar), energy(e.energy) {}
void QuantumDefect::setup(sqlite3 *, std::string const &db) {
    if (unknownSpecies(species)) throw std::runtime_error("no such species");
    e.Z = atomId(species, db);
}
QuantumDefect::QuantumDefect(std::string const &sp, int n, int l, double j) : QuantumDefect(sp, n, l, j, nullptr) { setup(nullptr, ""); }
QuantumDefect::QuantumDefect(std::string const &sp, int n, int l, double j, std::string const &db) : QuantumDefect(sp, n, l, j, nullptr) { setup(nullptr, db); }
static double refEnergy(const std::string &sp, int n, int l, double j, const std::string &db) { return atomUF("energy", atomId(sp, db), n, l, j); }
static double refNstar(const std::string &sp, int n, int l, double j, const std::string &db) { return atomUF("nstar", atomId(sp, db), n, l, j); }
double energy_level(std::string const &sp, int n, int l, double j, std::string const &db) { return refEnergy(sp, n, l, j, db); }
double nstar(std::string const &sp, int n, int l, double j, std::string const &db) { return refNstar(sp, n, l, j, db); }

// ------------------------------------------------------------------------------- wavefunctions
// arbitrary values for known states, or an unknown function
struct KnownPsi {
    int z, n, l;
    double j, psi;
};
static std::vector<KnownPsi> knownPsi;
static double psiOf(const char *method, int z, int n, int l, double j) {
    for (auto &k : knownPsi)
        if (k.z == z && k.l == l && k.j == j && k.n == n) return k.psi;
    return atomUF(method, z, n, l, j);
}
Numerov::Numerov(QuantumDefect const &qd) : qd(qd), xy(2, 2) {}
Eigen::MatrixX<double> Numerov::integrate() {
    xy << 2, psiOf("Numerov", qd.Z, qd.n, qd.l, qd.j), 3, 0;
    return xy;
}
Whittaker::Whittaker(QuantumDefect const &qd) : qd(qd), xy(2, 2) {}
Eigen::MatrixX<double> Whittaker::integrate() {
    xy << 2, psiOf("Whittaker", qd.Z, qd.n, qd.l, qd.j), 3, 0;
    return xy;
}
// the radial integral in atomic units
static double refRadial(bool numerov, int z, int n1, int l1, double j1, int n2, int l2, double j2, int power) {
    const char *m = numerov ? "Numerov" : "Whittaker";
    double x = 1;
    for (int i = 0; i < 2 * power + (numerov ? 2 : 1); i++) x *= 2;
    return 2 * 0.01 * x * psiOf(m, z, n1, l1, j1) * psiOf(m, z, n2, l2, j2);
}
