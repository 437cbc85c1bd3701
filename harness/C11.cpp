// C11: Green tensors against an independent closed form, differentiated automatically, in exact arithmetic.
#include "sym.h"
#include "pairinteraction/GreenTensor.hpp"
#include <cmath>
#include <limits>
#include <stdexcept>

struct Dual { // value and derivative
    double v, d;
    Dual(double v = 0, double d = 0) : v(v), d(d) {}
};
static Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
static Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
static Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }

struct Geo { // positions of the two atoms
    double a[3], b[3];
    bool plate;
};
// T(v) = 3 v v^T / |v|^5 - 1 / |v|^3, from the derivatives of 1/|v|
static Dual freespace(const Dual *v, int i, int j) {
    Dual r2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
    double n = std::sqrt(r2.v);
    Dual i2 = {1 / r2.v, -r2.d / (r2.v * r2.v)};
    Dual i1 = {1 / n, -r2.d / (2 * n * r2.v)};
    Dual i3 = i1 * i2;
    Dual t = Dual(3) * v[i] * v[j] * i3 * i2;
    return i == j ? t - i3 : t;
}
// coupling of dipole i of the first and j of the second atom; q in 0..2: differentiated with respect to
// a[q], 3..5: to b[q-3], -1: not at all
static Dual coupling(const Geo &g, int i, int j, int q) {
    Dual a[3], b[3], v[3];
    for (int k = 0; k < 3; k++) {
        a[k] = Dual(g.a[k], q == k);
        b[k] = Dual(g.b[k], q == 3 + k);
        v[k] = b[k] - a[k];
    }
    Dual t = freespace(v, i, j);
    if (g.plate) { // image of the second atom's dipole below a perfect conductor at z = 0
        Dual w[3] = {b[0] - a[0], b[1] - a[1], a[2] + b[2]};
        // image charge: opposite sign; the image of a dipole (px,py,pz) is (-px,-py,pz)
        Dual m = freespace(w, i, j);
        t = j == 2 ? t + m : t - m;
    }
    return t;
}
static void eq(double a, double b, const char *what) { sym_assert_near(a, b, 0, what); }

static void checkDD(GreenTensor &t, const Geo &g) {
    auto m = t.getDDTensor();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            eq(m(i, j), coupling(g, i, j, -1).v, g.plate ? "the dipole-dipole tensor with a surface is not the dipole coupling plus that of the image dipole"
                                                          : "the dipole-dipole tensor is not 3rr/r^5-1/r^3");
    if (!g.plate) {
        eq(m(0, 0) + m(1, 1) + m(2, 2), 0, "the dipole-dipole tensor is not traceless");
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < i; j++) eq(m(i, j), m(j, i), "the dipole-dipole tensor is not symmetric");
    }
}
static void checkDQ(GreenTensor &t, const Geo &g) {
    auto m = t.getDQTensor();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            for (int k = 0; k < 3; k++)
                eq(m(i, j, k), coupling(g, i, j, k).d, g.plate ? "the dipole-quadrupole tensor with a surface is not the gradient with respect to the first atom"
                                                               : "the dipole-quadrupole tensor is not the gradient with respect to the first atom");
}
static void checkQD(GreenTensor &t, const Geo &g) {
    auto m = t.getQDTensor();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            for (int k = 0; k < 3; k++)
                eq(m(i, j, k), coupling(g, j, k, 3 + i).d, g.plate ? "the quadrupole-dipole tensor with a surface is not the gradient with respect to the second atom"
                                                                   : "the quadrupole-dipole tensor is not the gradient with respect to the second atom");
}
static void read(GreenTensor &t, const Geo &g, int which) {
    if (which == 0) checkDD(t, g);
    if (which == 1) checkDQ(t, g);
    if (which == 2) checkQD(t, g);
}
static Geo vacuum(double x, double y, double z) { return {{0, 0, 0}, {x, y, z}, false}; }
static Geo surface(double x, double z, double d) { return {{0, 0, d - z / 2}, {x, 0, d + z / 2}, true}; }

// all separations without a surface, with every component zero or not
extern "C" void entry_vacuum() {
    sym_mode_real(1);
    int nz = sym_choice("nonzero components", 1, 7);
    double x = nz & 1 ? sym_real("x", -100, 100) : 0, y = nz & 2 ? sym_real("y", -100, 100) : 0, z = nz & 4 ? sym_real("z", -100, 100) : 0;
    sym_assume(x * x + y * y + z * z > 0);
    GreenTensor t(x, y, z);
    Geo g = vacuum(x, y, z);
    for (int i = 0; i < 3; i++) read(t, g, i);
    sym_cover("vacuum");
}
// all separations in the xz-plane and all surface distances
extern "C" void entry_surface() {
    sym_mode_real(1);
    int nz = sym_choice("nonzero components", 1, 3);
    double x = nz & 1 ? sym_real("x", -100, 100) : 0, z = nz & 2 ? sym_real("z", -100, 100) : 0, d = sym_real("d", 0, 100);
    sym_assume(x * x + z * z > 0);
    double zA = d - z / 2, zB = d + z / 2;
    sym_assume(zA != 0 || zB != 0 );
    GreenTensor t(x, 0, z);
    bool thrown = false;
    try {
        t.addSurface(d);
    } catch (std::exception &) {
        thrown = true;
    }
    sym_assert(thrown == (zA < 0 || zB < 0), "a surface is not refused exactly if an atom would be inside the plate");
    Geo g = thrown ? vacuum(x, 0, z) : surface(x, z, d);
    sym_cover(thrown ? "inside the plate" : "outside the plate");
    for (int i = 0; i < 3; i++) read(t, g, i);
}
// not in the xz-plane
extern "C" void entry_plane() {
    sym_mode_real(1);
    double x = sym_real("x", -100, 100), y = sym_real("y", -100, 100), z = sym_real("z", -100, 100), d = sym_real("d", 0, 100);
    sym_assume(y != 0);
    GreenTensor t(x, y, z);
    bool before = sym_choice("read before", 0, 1);
    Geo g = vacuum(x, y, z);
    if (before)
        for (int i = 0; i < 3; i++) read(t, g, i);
    bool thrown = false;
    try {
        t.addSurface(d);
    } catch (std::exception &) {
        thrown = true;
    }
    sym_assert(thrown, "a surface is accepted although the atoms are not in the xz-plane");
    for (int i = 0; i < 3; i++) read(t, g, i);
    sym_cover("plane");
}
// every history of reads and of adding surfaces, refused or not
extern "C" void entry_history() {
    sym_mode_real(1);
    double x = sym_real("x", 0.5, 100), z = sym_real("z", 0.5, 100);
    double d[2] = {sym_real("d0", 51, 100), sym_real("d1", 51, 100)};
    GreenTensor t(x, 0, z);
    Geo g = vacuum(x, 0, z);
    int n = TIER ? 5 : 4;
    for (int i = 0; i < n; i++) {
        int op = sym_choice("op", 0, 5);
        if (op < 3) {
            read(t, g, op);
            sym_cover("read");
        } else if (op < 5) {
            t.addSurface(d[op - 3]);
            g = surface(x, z, d[op - 3]);
            sym_cover("surface");
        } else {
            bool thrown = false;
            try {
                t.addSurface(z / 4);
            } catch (std::exception &) {
                thrown = true;
            }
            sym_assert(thrown, "a surface between the atoms is accepted");
            sym_cover("refused");
        }
    }
}
// the tensors returned by reference agree with each other and do not change by reading
extern "C" void entry_reread() {
    sym_mode_real(1);
    double x = sym_real("x", 0.5, 100), z = sym_real("z", 0.5, 100), d = sym_real("d", 51, 100);
    bool s = sym_choice("surface", 0, 1);
    GreenTensor t(x, 0, z);
    if (s) t.addSurface(d);
    const auto &dd = t.getDDTensor();
    const auto &dq = t.getDQTensor();
    const auto &qd = t.getQDTensor();
    auto a = dd;
    auto b = dq, c = qd;
    for (int i = 0; i < 2; i++) {
        t.getQDTensor();
        t.getDDTensor();
        t.getDQTensor();
    }
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            eq(dd(i, j), a(i, j), "reading changes the dipole-dipole tensor");
            for (int k = 0; k < 3; k++) {
                eq(dq(i, j, k), b(i, j, k), "reading changes the dipole-quadrupole tensor");
                eq(qd(i, j, k), c(i, j, k), "reading changes the quadrupole-dipole tensor");
            }
        }
    sym_cover("reread");
}
