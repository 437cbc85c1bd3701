// C06: radial grids, grid search, Numerov recurrence, model potential, Whittaker functions, radial
// integrals.  Exact arithmetic where values are symbolic.
#include "sym.h"
#include "QuantumDefectTables.h"
#include "pairinteraction/QuantumDefect.hpp"
#include "pairinteraction/Wavefunction.hpp"
#include <cmath>
#include <string>
#include <type_traits>
#include <vector>

#ifdef SYM_ENGINE
// the confluent hypergeometric function of GSL: an unknown function
extern "C" double gsl_sf_hyperg_U(double a, double b, double z) { return sym_uf2("U", sym_uf2("ab", a, b), z); }
#else
#include <gsl/gsl_errno.h>
extern "C" double gsl_sf_hyperg_U(double a, double b, double z);
static auto handlerOff = gsl_set_error_handler_off();
#endif

// --------------------------------------------------------------------------------- grid search
static void search(int n, bool absent) {
    sym_mode_real(1);
    Eigen::VectorXd x(n);
    double last = 0;
    for (int i = 0; i < n; i++) x(i) = last = last + sym_real("step", 0.001, 1);
    if (!absent) {
        int k = sym_choice("position", 0, n - 1);
        // up to rounding: one or two units in the last place off
        double off = sym_real("rounding", -2.2e-16, 2.2e-16);
        double d = x(k) * (1 + off);
        int r = findidx(x, d);
        sym_assert(r == k, "the position found is not that of the value");
        sym_cover("present");
        return;
    }
    double d = sym_real("value", -1, 10);
    bool near = false;
    for (int i = 0; i < n; i++) near = near || (d - x(i) < 1e-6 && x(i) - d < 1e-6);
    sym_assume(!near);
    bool thrown = false;
    try {
        findidx(x, d);
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "a value that is not there is found");
    sym_cover("absent");
}
extern "C" void entry_findidx() { search(sym_choice("size", 1, TIER ? 9 : 6), false); }
extern "C" void entry_findidx_absent() { search(sym_choice("size", 0, TIER ? 7 : 5), true); }
// a column of a matrix, as the integration uses it
extern "C" void entry_findidx_column() {
    sym_mode_real(1);
    int n = sym_choice("size", 1, 5);
    Eigen::MatrixXd x(n, 2);
    double last = 0;
    for (int i = 0; i < n; i++) {
        x(i, 0) = last = last + sym_real("step", 0.001, 1);
        x(i, 1) = sym_real("other column", -10, 10);
    }
    int k = sym_choice("position", 0, n - 1);
    sym_assert(findidx(x.col(0), x(k, 0)) == k, "the position found in a column is not that of the value");
    sym_cover("column");
}
// ----------------------------------------------------------------------------- quantum defects
static QuantumDefect *defect(const char *species, int n, int l, double j, const Tables &t) {
    static int k = 0;
    std::string name = std::string("w") + char('a' + k++) + ".sql";
    writeFile(name.c_str(), text(t, true));
    return new QuantumDefect(species, n, l, j, name);
}
static Tables hydrogenic(const char *sp, int l, double j, double Ry) {
    Tables t;
    t.pot = {{sp, l, 0, 1, 0, 0, 0, 0, 1}};
    t.ritz = {{sp, l, j, {0, 0, 0, 0, 0}, Ry}};
    return t;
}
// ------------------------------------------------------------------------- grids of the solvers
template <typename T>
static Eigen::MatrixXd solve(QuantumDefect const &qd) {
    T s(qd);
    return s.integrate();
}
static void grid(const Eigen::MatrixXd &xy, double xmin, double xmax, const char *what) {
    std::string w = what;
    sym_assert(xy.cols() == 2 && xy.rows() >= 2, "a grid has no points");
    int n = xy.rows();
    bool equidistant = true;
    for (int i = 0; i + 1 < n; i++) equidistant = equidistant && std::fabs(xy(i + 1, 0) - xy(i, 0) - 0.01) < 1e-12;
    sym_assert(equidistant, "the points of a grid are not equidistant");
    sym_assert(xy(0, 0) >= 1, "a grid starts too far inside");
    sym_assert(xy(0, 0) <= xmin, "a grid does not reach the inner turning point");
    sym_assert(xy(n - 1, 0) < xmax && xy(n - 1, 0) >= xmax - 0.0100001, "a grid does not end at the outer limit");
}
extern "C" void entry_grids() {
    static const int ns[] = {1, 2, 3, 4, 8, 15, 5, 6, 7, 30, 60};
    int n = ns[sym_choice("n", 0, TIER ? 10 : 5)], l = sym_choice("l", 0, n - 1);
    sym_assume(l < 2 || l > n - 3 || (TIER && n < 10));
    QuantumDefect *qd = defect("Xx", n, l, l + 0.5, hydrogenic("Xx", l, l + 0.5, 109737.31568525));
    double turning = n * n - n * std::sqrt(n * n - (l - 1) * (l - 1));
    double xmax = std::sqrt(2 * n * (n + 15));
    Eigen::MatrixXd a = solve<Numerov>(*qd);
    grid(a, turning < 2.08 ? 1.4422 : std::sqrt(turning), xmax, "Numerov");
    int rows = a.rows();
    bool finite = true, recurrence = true;
    double norm = 0;
    for (int i = 0; i < rows; i++) {
        finite = finite && std::isfinite(a(i, 1));
        norm += 2 * a(i, 1) * a(i, 1) * a(i, 0) * a(i, 0) * 0.01;
    }
    sym_assert(finite, "a radial wave function has infinite or undefined values");
    sym_assert(std::fabs(norm - 1) < 1e-9, "a radial wave function is not normalised");
    sym_assert(a(rows - 1, 1) == 0, "the inward solution does not start from zero");
    sym_assert((a(rows - 2, 1) > 0) == ((n - l) % 2 != 0) && a(rows - 2, 1) != 0, "the inward solution starts with the wrong sign");
    auto c = [&](int i, double k) { return 0.01 * 0.01 * k / 12 * model_potential::g(*qd, a(i, 0) * a(i, 0)); };
    for (int i = 0; i + 2 < rows; i++) {
        double y0 = a(i, 1) * (1 - c(i, 1)), y1 = a(i + 1, 1) * (2 + c(i + 1, 10)), y2 = a(i + 2, 1) * (1 - c(i + 2, 1));
        recurrence = recurrence && std::fabs(y0 - y1 + y2) <= 1e-10 * (std::fabs(y0) + std::fabs(y1) + std::fabs(y2));
    }
    sym_assert(recurrence, "the inward solution does not satisfy the Numerov recurrence");
    sym_cover("grids");
}
// ------------------------------------------------------------------------------- model potential
extern "C" void entry_potential() {
    sym_mode_real(1);
    sym_allow_divzero(1);
    static const struct {
        const char *name;
        double s;
    } species[] = {{"Xx", 0.5}, {"Sr1", 0}, {"Sr3", 1}, {"Yb2", 0.5}, {"Ho4", 1.5}};
    auto &sp = species[sym_choice("species", 0, 4)];
    int l = sym_choice("l", 0, 5), twoj = sym_choice("two j - 2l", -2, 2);
    double j = l + twoj / 2.;
    sym_assume(j >= 0);
    Tables t;
    t.pot = {pot(sp.name, l)};
    t.ritz = {ritz(sp.name, l, j)};
    // the value of j is written to the file as one of a few literals
    static const double js[] = {0.5, 1.5, 2.5, 1};
    bool literal = false;
    for (double k : js) literal = literal || k == j;
    if (!literal) t.ritz[0].j = 2.5;
    sym_assume(literal || j > 2.5);
    int n = 10;
    QuantumDefect *qd = defect(sp.name, n, l, j, t);
    double x = sym_real("x", 0.01, 1000);
    const Pot &p = t.pot[0];
    double Zl = 1 + (p.Z - 1) * std::exp(-(p.a1 * x)) - x * (p.a3 + p.a4 * x) * std::exp(-(p.a2 * x));
    double Vp = p.ac / (2 * x * x * x * x) * (1 - std::exp(-std::pow(x / p.rc, 6)));
    double fine = 7.2973525664e-3, Vso = 0;
    if (l < 4) Vso = fine * fine / 4 * (j * (j + 1) - l * (l + 1) - sp.s * (sp.s + 1)) / (x * x * x);
    double V = Vso - Zl / x - Vp;
    sym_assert_near(model_potential::V(*qd, x), V, 1e-9, "the model potential is not the sum of its documented parts");
    double g = (4. * l * l + 4 * l + 0.75) / x + 8 * x * (V - qd->energy / au2GHz);
    sym_assert_near(model_potential::g(*qd, x), g, 1e-9, "the coefficient of the radial equation is wrong");
    sym_cover(l < 4 ? "spin-orbit" : "without spin-orbit");
}
// ---------------------------------------------- the recurrence for arbitrary energies, short grids
template <typename T, typename = void>
struct Access {
    static bool set(T &, const Eigen::MatrixXd &) { return false; }
};
template <typename T>
struct Access<T, std::enable_if_t<std::is_same<std::decay_t<decltype(std::declval<T &>().xy)>, Eigen::MatrixXd>::value>> {
    static bool set(T &s, const Eigen::MatrixXd &m) {
        s.xy = m;
        return true;
    }
};
extern "C" void entry_recurrence() {
    sym_mode_real(1);
    sym_allow_divzero(1);
    int rows = sym_choice("points", 2, TIER ? 4 : 3), l = sym_choice("l", 0, 1), n = sym_choice("n", 2, 3);
    QuantumDefect *qd = defect("Xx", n, l, l + 0.5, hydrogenic("Xx", l, l + 0.5, sym_real("Ry", 0.5, 200000)));
    Numerov s(*qd);
    Eigen::MatrixXd xy = Eigen::MatrixXd::Zero(rows, 2);
    double x0 = sym_choice("start", 1, 3);
    for (int i = 0; i < rows; i++) xy(i, 0) = x0 + i * 0.01;
    if (!Access<Numerov>::set(s, xy)) { // renamed: only the full grids are checked
        sym_cover("short grid");
        return;
    }
    Eigen::MatrixXd a = s.integrate();
    sym_assert(a.rows() == rows && a.cols() == 2, "the size of the grid changes during the integration");
    for (int i = 0; i < rows; i++) sym_assert_near(a(i, 0), xy(i, 0), 0, "the integration moves the grid");
    auto g = [&](int i) { return model_potential::g(*qd, a(i, 0) * a(i, 0)); };
    double h = 0.01 * 0.01 / 12, norm = 0;
    for (int i = 0; i + 2 < rows; i++)
        sym_assert_near(a(i, 1) * (1 - h * g(i)) + a(i + 2, 1) * (1 - h * g(i + 2)), a(i + 1, 1) * (2 + 10 * h * g(i + 1)), 1e-9,
                        "the inward solution does not satisfy the Numerov recurrence");
    for (int i = 0; i < rows; i++) norm += 2 * a(i, 1) * a(i, 1) * a(i, 0) * a(i, 0) * 0.01;
    sym_assert_near(norm, 1, 1e-9, "a radial wave function is not normalised");
    sym_assert_near(a(rows - 1, 1), 0, 0, "the inward solution does not start from zero");
    double first = a(rows - 2, 1);
    sym_assert((n - l) % 2 == 0 ? first < 0 : first > 0, "the inward solution starts with the wrong sign");
    sym_cover("short grid");
}
// ------------------------------------------------------------------------------------- Whittaker
extern "C" void entry_whittaker() {
    sym_mode_real(1);
    sym_allow_divzero(1);
    int l = sym_choice("l", 0, 4);
    double nu = sym_real("nu", 5, 20), r = sym_real("r", 0.5, 100);
    double z = 2 * r / nu;
    double w = std::exp(-(z / 2)) * std::pow(z, l + 1.) * gsl_sf_hyperg_U(l + 1 - nu, 2 * l + 2, z);
    double norm = 1 / std::sqrt(nu * nu * std::tgamma(nu + l + 1) * std::tgamma(nu - l));
    sym_assert_near(whittaker_functions::WhittakerW(nu, l + .5, z), w, 1e-9, "the Whittaker function is not the confluent hypergeometric one");
    sym_assert_near(whittaker_functions::RadialWFWhittaker(r, nu, l), norm * w, 1e-9, "the Coulomb function differs from its definition");
    sym_cover("Whittaker");
}
extern "C" void entry_whittaker_grid() {
    int n = sym_choice("n", 1, TIER ? 7 : 3), l = sym_choice("l", 0, n - 1);
    QuantumDefect *qd = defect("Xx", n, l, l + 0.5, hydrogenic("Xx", l, l + 0.5, 109737.31568525));
    Eigen::MatrixXd a = solve<Whittaker>(*qd);
    grid(a, 1, std::sqrt(2 * n * (n + 15)), "Whittaker");
    for (int k = 0; k < a.rows(); k += TIER ? 1 : 97) {
        double y = whittaker_functions::RadialWFWhittaker(a(k, 0) * a(k, 0), qd->nstar, l);
        sym_assert_near(a(k, 1), (n - l) % 2 == 0 ? -y : y, 1e-12, "a point of a Coulomb function is not filled");
    }
    sym_cover("Whittaker grid");
}
// ------------------------------------------------------------------------------- radial integrals
static Eigen::MatrixXd wave[2];
static QuantumDefect *which[2];
static constexpr double step = 1. / 64;
template <typename Real>
struct Fake { // a solver with given solutions
    const QuantumDefect *q;
    explicit Fake(QuantumDefect const &qd) : q(&qd) {}
    static constexpr double dx = step;
    Eigen::MatrixXd integrate() { return wave[q == which[1]]; }
    static auto power_kernel(int p) { return Real::power_kernel(p); }
};
template <typename Real>
static void integral(int kernel0) {
    sym_mode_real(1);
    Tables t = hydrogenic("Xx", 0, 0.5, 109737);
    which[0] = defect("Xx", 10, 0, 0.5, t), which[1] = defect("Xx", 11, 0, 0.5, t);
    int start[2], len[2];
    for (int w = 0; w < 2; w++) {
        start[w] = w == 0 ? 64 : 64 + sym_choice("start", -3, TIER ? 5 : 4), len[w] = sym_choice("points", 1, TIER ? 5 : 4);
        wave[w] = Eigen::MatrixXd::Zero(len[w], 2);
        for (int i = 0; i < len[w]; i++) {
            wave[w](i, 0) = (start[w] + i) * step;
            if (i + 1 < len[w]) wave[w](i, 1) = sym_real("y", -1, 1); // the solutions start from zero outside
        }
    }
    int power = sym_choice("power", 0, 3);
    double sum = 0;
    for (int i = 0; i < len[0]; i++) {
        int k = start[0] + i - start[1];
        if (k < 0 || k >= len[1]) continue;
        double x = (start[0] + i) * step, f = step;
        for (int e = 0; e < 2 * power + kernel0; e++) f = f * x;
        sum = sum + wave[0](i, 1) * wave[1](k, 1) * f;
    }
    double a = IntegrateRadialElement<Fake<Real>>(*which[0], power, *which[1]);
    double b = IntegrateRadialElement<Fake<Real>>(*which[1], power, *which[0]);
    sym_assert_near(a, 2 * sum, 1e-9, "a radial integral is not the sum over the common points");
    sym_assert_near(b, a, 1e-9, "a radial integral is not symmetric");
    sym_cover(start[0] + len[0] <= start[1] || start[1] + len[1] <= start[0] ? "no overlap" : "overlap");
}
extern "C" void entry_integral_numerov() { integral<Numerov>(2); }
extern "C" void entry_integral_whittaker() { integral<Whittaker>(1); }
// the real solvers: grids that start at different points
extern "C" void entry_integral_real() {
    static const int ns[] = {1, 2, 5, 12}, ls[] = {0, 1, 4, 11};
    int i = sym_choice("first", 0, TIER ? 3 : 2), k = sym_choice("second", 0, TIER ? 3 : 2);
    sym_assume(i <= k);
    double Ry = 109737.31568525;
    QuantumDefect *a = defect("Xx", ns[i], ls[i], ls[i] + 0.5, hydrogenic("Xx", ls[i], ls[i] + 0.5, Ry));
    QuantumDefect *b = defect("Xx", ns[k], ls[k], ls[k] + 0.5, hydrogenic("Xx", ls[k], ls[k] + 0.5, Ry));
    Eigen::MatrixXd x = solve<Numerov>(*a), y = solve<Numerov>(*b);
    int shift = (int)std::lround((y(0, 0) - x(0, 0)) / 0.01), power = sym_choice("power", 0, 1);
    double sum = 0, scale = 0;
    for (int p = 0; p < x.rows(); p++) {
        int q = p - shift;
        if (q < 0 || q >= y.rows()) continue;
        double v = 2 * x(p, 1) * y(q, 1) * std::pow(x(p, 0), 2 * power + 2) * 0.01;
        sum += v, scale += std::fabs(v);
    }
    double r = IntegrateRadialElement<Numerov>(*a, power, *b);
    sym_assert(std::fabs(r - sum) <= 1e-9 * (1 + scale), "a radial integral is not the sum over the common points");
    sym_assert(std::fabs(IntegrateRadialElement<Numerov>(*b, power, *a) - r) <= 1e-9 * (1 + scale), "a radial integral is not symmetric");
    sym_cover("real solutions");
}
