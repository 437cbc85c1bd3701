// C14: reading damaged matrix files.
#include "ham.h"
#include <cstdio>
#include <exception>
#include <memory>

template <typename S>
static bytes_t good(int shape) {
    typedef Eigen::Triplet<S> T;
    std::vector<T> te, tb;
    int n = shape == 0 ? 1 : 2, m = shape == 2 ? 3 : n;
    te.emplace_back(0, 0, S(1.5));
    if (n > 1) te.emplace_back(1, 1, S(-2.5));
    if (shape == 2) te.emplace_back(1, 0, S(0.5));
    tb.emplace_back(0, 0, S(1));
    if (n > 1) tb.emplace_back(m - 1, 1, S(1));
    Eigen::SparseMatrix<S> e(n, n), b(m, n);
    e.setFromTriplets(te.begin(), te.end());
    b.setFromTriplets(tb.begin(), tb.end());
    Hamiltonianmatrix<S> h(e, b);
    return h.serialize();
}
// reads the bytes; whatever they are, the result is a valid matrix or a failure
template <typename S>
static bool read(const bytes_t &by) {
    std::unique_ptr<bytes_t> in(new bytes_t(by.begin(), by.end())); // exact size: overruns are visible
    Hamiltonianmatrix<S> h;
    const Hamiltonianmatrix<S> &c = h;
    bool ok;
    try {
        h.deserialize(*in);
        ok = true;
    } catch (std::exception &) {
        ok = false;
    }
    if (ok) {
        sym_cover("accepted");
        sym_assert(valid(c.entries()), "damaged data give a matrix with an invalid structure");
        sym_assert(valid(c.basis()), "damaged data give a basis with an invalid structure");
    } else {
        sym_cover("rejected");
    }
    return ok;
}
static void damage(bytes_t &b, size_t pos, size_t n) {
    for (size_t i = 0; i < n; i++) {
        unsigned char x;
        sym_bytes("damage", &x, 1);
        if (pos + i < b.size()) b[pos + i] = x;
    }
}
// every truncation
extern "C" void entry_truncate() {
    bytes_t b = good<double>(sym_choice("shape", 0, 2));
    int len = sym_choice("length", 0, 400);
    sym_assume(len < (int)b.size());
    b.resize(len);
    sym_assert(!read<double>(b), "truncated data are accepted");
}
extern "C" void entry_truncate_complex() {
    bytes_t b = good<cplx>(0);
    int len = sym_choice("length", 0, 400);
    sym_assume(len < (int)b.size());
    b.resize(len);
    sym_assert(!read<cplx>(b), "truncated data are accepted");
}
// offsets of the items of a serialised matrix: (type, value) pairs in the order of the format
struct Item { size_t pos, len; int kind; }; // kind: 0 type tag, 1 number, 2 length, 3 index data, 4 floating point data
template <typename S>
static std::vector<Item> items(const bytes_t &b) {
    std::vector<Item> r;
    size_t p = 0;
    auto num = [&](size_t len, int kind) {
        r.push_back({p, 2, 0});
        r.push_back({p + 2, len, kind});
        p += 2 + len;
    };
    auto vec = [&](size_t size, int kind) {
        int32_t n;
        unsigned char t[4];
        for (int i = 0; i < 4; i++) t[i] = b[p + 2 + i];
        memcpy(&n, t, 4);
        num(4, 2);
        r.push_back({p, 2, 0});
        p += 2;
        for (int i = 0; i < n; i++) {
            r.push_back({p, size, kind});
            p += size;
        }
    };
    for (int k = 0; k < 2; k++) {
        num(1, 1);
        num(4, 1);
        num(4, 1);
        vec(8, 4);
        if (utils::is_complex<S>::value) vec(8, 4);
        vec(4, 3);
        vec(4, 3);
    }
    sym_assert(p == b.size(), "the serialised matrix does not have the documented layout");
    return r;
}
template <typename S>
static void one(int shape) {
    bytes_t b = good<S>(shape);
    auto it = items<S>(b);
    int i = sym_choice("item", 0, 80);
    sym_assume(i < (int)it.size());
    damage(b, it[i].pos, it[i].len);
    read<S>(b);
}
extern "C" void entry_item() { one<double>(sym_choice("shape", 0, 2)); }
extern "C" void entry_item_complex() { one<cplx>(0); }
// two items at once: a length or type together with any other one
extern "C" void entry_pair() {
    bytes_t b = good<double>(TIER ? 1 : 0);
    auto it = items<double>(b);
    int i = sym_choice("item", 0, 80), k = sym_choice("other", 0, 80);
    sym_assume(i < (int)it.size() && k < (int)it.size() && i < k);
    sym_assume(it[i].kind >= 1 && it[i].kind <= 3 && it[k].kind >= 1 && it[k].kind <= 3);
    damage(b, it[i].pos, it[i].len);
    damage(b, it[k].pos, it[k].len);
    read<double>(b);
}
// a length of another integer type: 64-bit lengths, negative ones
extern "C" void entry_long_length() {
    bytes_t b = good<double>(0);
    auto it = items<double>(b);
    int i = sym_choice("item", 0, 80);
    sym_assume(i < (int)it.size() && it[i].kind == 2);
    int type = sym_choice("type", 0, 3);
    int tag = type == 0 ? 1064 : type == 1 ? 1164 : type == 2 ? 1032 : 1132, len = type < 2 ? 8 : 4;
    bytes_t c;
    for (size_t p = 0; p < it[i].pos - 2; p++) c.push_back(b[p]);
    c.push_back(tag & 255);
    c.push_back(tag >> 8);
    size_t at = c.size();
    for (int k = 0; k < len; k++) c.push_back(0);
    for (size_t p = it[i].pos + 4; p < b.size(); p++) c.push_back(b[p]);
    damage(c, at, len);
    read<double>(c);
}
// a file: load reports failure and the matrix goes on to describe what it contains
extern "C" void entry_load() {
    bytes_t b = good<double>(0);
    auto it = items<double>(b);
    int how = sym_choice("how", 0, 2);
    if (how == 0) {
        int len = sym_choice("length", 0, 400);
        sym_assume(len < (int)b.size());
        b.resize(len);
    } else if (how == 1) {
        int i = sym_choice("item", 0, 80);
        sym_assume(i < (int)it.size() && it[i].kind >= 1 && it[i].kind <= 3);
        damage(b, it[i].pos, it[i].len);
    } else {
        // nothing but arbitrary bytes
        int n = sym_choice("junk", 0, 8);
        b.clear();
        b.resize(n);
        damage(b, 0, n);
    }
    FILE *f = fopen("damaged", "wb");
    if (!b.empty()) fwrite(&b[0], 1, b.size(), f);
    fclose(f);
    Hamiltonianmatrix<double> h;
    const Hamiltonianmatrix<double> &c = h;
    bytes_t start = good<double>(1);
    if (sym_choice("start", 0, 1)) h.deserialize(start);
    bool ok = h.load("damaged");
    sym_assert(valid(c.entries()) && valid(c.basis()), "loading a damaged file leaves a matrix with an invalid structure");
    if (ok)
        sym_cover("load accepts");
    else
        sym_cover("load rejects");
    Hamiltonianmatrix<double> g;
    const Hamiltonianmatrix<double> &cg = g;
    bytes_t again = h.serialize();
    g.deserialize(again);
    same<double>(c.entries(), cg.entries(), "after loading a damaged file, what is serialised is not the content of the matrix");
    same<double>(c.basis(), cg.basis(), "after loading a damaged file, what is serialised is not the content of the matrix");
}
