// C17: hashing utilities, conjugation/conversion helpers, random integers.
#include "sym.h"
#include "pairinteraction/utils.hpp"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>

extern "C" void entry_fnv() {
    int n = sym_choice("n", 0, TIER ? 24 : 10);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    sym_bytes("byte", b.get(), n);
    unsigned __int128 h = 0xcbf29ce484222325ull;
    for (int i = 0; i < n; i++) {
        h ^= b[i];
        h = (uint64_t)(h * 1099511628211ull); // FNV prime 2^40 + 2^8 + 0xb3
    }
    uint64_t r = utils::FNV64(b.get(), n);
    sym_cover("fnv");
    sym_assert(r == (uint64_t)h, "FNV64 is not the FNV-1a hash of the bytes");
}

extern "C" void entry_range_last() {
    // whatever came before, changing the last element changes the combined hash
    size_t s = sym_bits64("seed");
    uint64_t x = sym_bits64("x"), y = sym_bits64("y");
    size_t a = s, b = s;
    utils::hash_combine(a, x);
    utils::hash_combine(b, y);
    if (x == y) {
        sym_cover("equal element");
        sym_assert(a == b, "equal elements combine to different hashes");
    } else {
        sym_cover("different element");
        sym_assert(a != b, "hash_combine ignores the combined element");
    }
}

extern "C" void entry_array() {
    std::array<int, 3> v, w;
    int lim = TIER ? 4095 : 255;
    for (int i = 0; i < 3; i++) v[i] = sym_int("v", -lim, lim);
    w = v;
    int pos = sym_choice("pos", 0, 2);
    w[pos] = sym_int("w", -lim, lim);
    utils::hash<std::array<int, 3>> h;
    size_t a = h(v), b = h(w);
    size_t c = utils::hash_range(v.begin(), v.end());
    sym_assert(a == c, "the hash of an array differs from the hash of the range of its elements");
    if (v == w) {
        sym_cover("equal arrays");
        sym_assert(a == b, "equal arrays hash differently");
    } else if (pos == 2) {
        sym_cover("arrays differ in the last element");
        sym_assert(a != b, "the hash of an array does not depend on its last element");
    } else {
        sym_cover("arrays differ in an inner element");
    }
}
// an inner element matters: for every array and every small change of one inner element there is
// no agreement for *all* continuations; checked on one fixed continuation that separates all pairs
extern "C" void entry_inner() {
    int lim = TIER ? 63 : 15;
    int x = sym_int("x", 0, lim), y = sym_int("y", 0, lim);
    sym_assume(x != y);
    int pos = sym_choice("pos", 0, 1), other = sym_choice("other", 0, 3);
    std::array<int, 3> v{other, other, other}, w = v;
    v[pos] = x;
    w[pos] = y;
    utils::hash<std::array<int, 3>> h;
    sym_cover("inner");
    sym_assert(h(v) != h(w), "the hash of an array does not depend on an inner element");
}
extern "C" void entry_position() {
    int lim = TIER ? 1023 : 255;
    int x = sym_int("x", 0, lim), y = sym_int("y", 0, lim);
    sym_assume(x != y);
    std::array<int, 2> v{x, y}, w{y, x};
    utils::hash<std::array<int, 2>> h;
    sym_cover("swap");
    sym_assert(h(v) != h(w), "the hash of an array does not depend on the order of its elements");
}
extern "C" void entry_length() {
    int v[3];
    for (int i = 0; i < 3; i++) v[i] = sym_int("v", -1000, 1000);
    int n = sym_choice("n", 0, 3);
    size_t seed = 0;
    for (int i = 0; i < n; i++) utils::hash_combine(seed, v[i]);
    sym_cover("length");
    sym_assert(utils::hash_range(v, v + n) == seed, "hash_range does not combine exactly the elements of the range");
}
extern "C" void entry_complex() {
    // any bit patterns; std::hash<double> is an arbitrary function of the bytes, except for zeros
    double re = sym_double("re"), im = sym_double("im"), re2 = sym_double("re2"), im2 = sym_double("im2");
    std::complex<double> a(re, im), b(re2, im2);
    utils::hash<std::complex<double>> h;
    size_t ha = h(a), hb = h(b);
    if (a == b) {
        sym_cover("equal complex");
        sym_assert(ha == hb, "equal complex numbers hash differently");
    }
    std::array<double, 2> p{re, im};
    sym_assert(ha == utils::hash<std::array<double, 2>>()(p), "the hash of a complex number is not that of its two parts in order");
}

extern "C" void entry_algebra() {
    double re = sym_real("re", -1e6, 1e6), im = sym_real("im", -1e6, 1e6);
    std::complex<double> z(re, im);
    auto c = utils::conjugate(z);
    sym_assert(c.real() == re && c.imag() == -im, "conjugate of a complex number is wrong");
    sym_assert(utils::conjugate(re) == re, "conjugate of a real number is not the number");
    std::complex<float> zf(1.5f, -2.25f);
    auto cf = utils::conjugate(zf);
    sym_assert(cf.real() == 1.5f && cf.imag() == 2.25f, "conjugate of a single precision complex number is wrong");
    double r = utils::convert<double>(z);
    sym_assert(r == re, "conversion of a complex number to real is not its real part");
    sym_assert(utils::convert<double>(re) == re, "conversion of a real number changes it");
    std::complex<double> k = utils::convert<std::complex<double>>(re);
    sym_assert(k.real() == re && k.imag() == 0, "conversion of a real number to complex changes it");
    auto i = utils::imaginary_unit<std::complex<double>>();
    sym_assert(i.real() == 0 && i.imag() == 1, "the imaginary unit is wrong");
    bool thrown = false;
    try {
        double x = utils::imaginary_unit<double>();
        (void)x;
    } catch (std::runtime_error &) {
        thrown = true;
    }
    sym_assert(thrown, "the imaginary unit of a real type does not raise an error");
    sym_cover("algebra");
}
extern "C" void entry_true() {
    int n = sym_choice("n", 0, 4);
    std::vector<int> v;
    bool all = true;
    for (int i = 0; i < n; i++) {
        v.push_back(sym_int("e", INT32_MIN, INT32_MAX));
        all = all && v.back() != 0;
    }
    sym_assert(utils::is_true(v) == all, "is_true of a range is not the conjunction of its elements");
    bool b = sym_int("b", 0, 1) != 0;
    sym_assert(utils::is_true(b) == b, "is_true of a truth value is not that value");
    sym_cover("truth");
}
// every output of the generator: under the engine the engine's operator() is replaced by an
// arbitrary value of its range, natively the generator is seeded such that it produces that value
static int draws = 0;
extern "C" unsigned long lcg_shim(void *) {
    sym_assume(draws++ < 1); // outputs rejected by the distribution are outside the bounds
    return (unsigned long)sym_int("r", 1, 2147483646);
}
static void prime() {
    if (sym_symbolic()) return;
    unsigned long r = sym_int("r", 1, 2147483646), x = 1;
    unsigned long m = 2147483647ul, e = m - 2, b = 16807;
    for (; e; e >>= 1, b = b * b % m)
        if (e & 1) x = x * b % m;
    utils::randint_engine().seed(r * x % m);
}
extern "C" unsigned rd_shim(void *) { return 1; }
extern "C" void rd_init_shim(void *, const std::string &) {}
extern "C" void rd_fini_shim(void *) {}
template <typename T>
static void rnd(T lo, T hi, int nw) {
    static const uint32_t widths[] = {0, 1, 2, 3, 9, 10, 63, 64, 99, 1000, 65535, 65536, 2147483645u};
    uint32_t w = widths[sym_choice("width", 0, nw)];
    T pos[] = {lo, (T)(hi - w), 0, (T)-1, 17, (T)-1000};
    T a = pos[sym_choice("position", 0, 5)];
    sym_assume((long)a >= (long)lo && (long)a + (long)w <= (long)hi);
    T b = (T)(a + w);
    prime();
    T x = utils::randint<T>(a, b);
    sym_cover("random");
    sym_assert(a <= x && x <= b, "a random integer lies outside the requested interval");
}
extern "C" void entry_randint_int() { rnd<int>(INT32_MIN, INT32_MAX, 12); }
extern "C" void entry_randint_long() { rnd<long>(INT32_MIN, INT32_MAX, 12); }
extern "C" void entry_randint_unsigned() { rnd<unsigned>(0, INT32_MAX, 12); }
extern "C" void entry_randint_short() {
    static const int widths[] = {0, 1, 5, 255, 256, 65535};
    int w = widths[sym_choice("width", 0, 5)];
    int pos[] = {-32768, 32767 - w, 0, -1, 17, -1000};
    short a = (short)pos[sym_choice("position", 0, 5)];
    sym_assume(a + w <= 32767);
    prime();
    short x = utils::randint<short>(a, (short)(a + w));
    sym_assert(a <= x && x <= a + w, "a random integer lies outside the requested interval");
}
