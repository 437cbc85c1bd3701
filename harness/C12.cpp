// C12: Wigner rotation matrices against the closed form of the spin-j representation.
#include "sym.h"
#include "pairinteraction/WignerD.hpp"
#include <cmath>

static double fact(int n) {
    double r = 1;
    for (int i = 2; i <= n; i++) r *= i;
    return r;
}
static double ipow(double x, int n) {
    double r = 1;
    for (int i = 0; i < n; i++) r *= x;
    return r;
}
// <j m| exp(-i beta J_y) |j m'> from c = cos(beta/2), s = sin(beta/2); all arguments are twice the quantum number
static double closed(int j2, int m2, int mp2, double c, double s) {
    int jm = (j2 + m2) / 2, jn = (j2 - m2) / 2, jp = (j2 + mp2) / 2, jq = (j2 - mp2) / 2, d = (m2 - mp2) / 2;
    double r = 0;
    for (int k = 0; k <= j2; k++) {
        if (jp - k < 0 || d + k < 0 || jn - k < 0) continue;
        double t = ipow(c, j2 - d - 2 * k) * ipow(s, d + 2 * k) / (fact(jp - k) * fact(k) * fact(d + k) * fact(jn - k));
        r = (d + k) % 2 ? r - t : r + t;
    }
    return r * std::sqrt(fact(jm) * fact(jn) * fact(jp) * fact(jq));
}
static void pick(int &j2, int &m2, int &mp2, int max) {
    j2 = sym_choice("2j", 0, max);
    m2 = 2 * sym_choice("j+m", 0, j2) - j2;
    mp2 = 2 * sym_choice("j+m'", 0, j2) - j2;
}
// every angle but those closer to the right angle than 1e-9
extern "C" void entry_small() {
    sym_mode_real(1);
    int j2, m2, mp2;
    pick(j2, m2, mp2, TIER ? 10 : 6);
    double b = sym_angle("beta");
    sym_assume(b < M_PI / 2 - 1e-9 || b > M_PI / 2 + 1e-9);
    WignerD w;
    double r = w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, b);
    sym_assert_near(r, closed(j2, m2, mp2, std::cos(b / 2), std::sin(b / 2)), 1e-9, "an element of the small rotation matrix differs from the closed form");
    sym_cover("small");
}
// angles at and next to the right angle and other special ones
extern "C" void entry_special() {
    static const double angles[] = {0, M_PI / 2, M_PI / 2 - 1e-16, M_PI / 2 + 3e-16, M_PI / 2 - 3e-16, M_PI / 2 + 1e-12, M_PI / 2 - 1e-10, M_PI / 2 + 1e-9, M_PI / 2 + 1e-5,
                                    -M_PI / 2, M_PI, -M_PI, M_PI / 4, 3 * M_PI / 2, 2 * M_PI, 5 * M_PI / 2, 1e-300};
    int j2, m2, mp2;
    double b = angles[sym_choice("angle", 0, 16)];
    pick(j2, m2, mp2, TIER ? 8 : 4);
    WignerD w;
    double r = w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, b);
    sym_assert_near(r, closed(j2, m2, mp2, std::cos(b / 2), std::sin(b / 2)), 1e-9, "an element of the small rotation matrix at a special angle differs from the closed form");
    if (b == 0) sym_assert_near(r, m2 == mp2, 1e-9, "the small rotation matrix at angle zero is not the identity");
    sym_cover("special");
}
// the full matrix: phases exp(-i m alpha) and exp(-i m' gamma), for every alpha, gamma; and every beta
extern "C" void entry_full() {
    sym_mode_real(1);
    int j2, m2, mp2;
    pick(j2, m2, mp2, TIER ? 5 : 3);
    double a = sym_angle("alpha"), g = sym_angle("gamma"), b = sym_choice("right angle", 0, 1) ? M_PI / 2 : sym_angle("beta");
    if (!sym_isconst(b)) sym_assume(b < M_PI / 2 - 1e-9 || b > M_PI / 2 + 1e-9);
    WignerD w;
    std::complex<double> r = w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, a, b, g);
    double d = closed(j2, m2, mp2, std::cos(b / 2), std::sin(b / 2)), ph = a * (m2 / 2.) + g * (mp2 / 2.);
    sym_assert_near(r.real(), d * std::cos(ph), 1e-9, "the full rotation matrix has a wrong real part");
    sym_assert_near(r.imag(), -(d * std::sin(ph)), 1e-9, "the full rotation matrix has a wrong imaginary part");
    sym_cover("full");
}
// the matrix of the code itself is orthogonal
extern "C" void entry_orthogonal() {
    sym_mode_real(1);
    int j2 = sym_choice("2j", 0, TIER ? 5 : 3);
    int m2 = 2 * sym_choice("row", 0, j2) - j2, n2 = 2 * sym_choice("other row", 0, j2) - j2;
    double b = sym_angle("beta");
    sym_assume(b < M_PI / 2 - 1e-9 || b > M_PI / 2 + 1e-9);
    WignerD w;
    double t = 0;
    for (int k = -j2; k <= j2; k += 2) t += w(j2 / 2.f, m2 / 2.f, k / 2.f, b) * w(j2 / 2.f, n2 / 2.f, k / 2.f, b);
    sym_assert_near(t, m2 == n2, 1e-9, "the rows of the small rotation matrix are not orthonormal");
    sym_cover("orthogonal");
}
