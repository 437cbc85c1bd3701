// C01: a cache is a write-once map over every history of save / restore / clear.
#include "sym.h"
#include "pairinteraction/Cache.hpp"
#include <string>
#include <vector>

struct Key {
    int bucket, id;
    bool operator==(const Key &o) const { return bucket == o.bucket && id == o.id; }
};
struct KeyHash {
    // equal for keys that differ in id only: collisions in the full hash; 0 and 13, 1 and 14, ...
    // collide in the bucket
    size_t operator()(const Key &k) const { return (size_t)k.bucket; }
};
struct Elem {
    int v;
    std::string s;
    bool operator==(const Elem &o) const { return v == o.v && s == o.s; }
};

static void history(int steps, int nkeys) {
    std::vector<Key> keys;
    for (int i = 0; i < nkeys; i++) keys.push_back({sym_choice("bucket", 0, 1) * 13, sym_int("id", INT32_MIN, INT32_MAX)});
    Cache<Key, Elem, KeyHash> c;
    std::vector<std::pair<Key, Elem>> ref;
    auto lookup = [&](const Key &k) -> const Elem * {
        for (auto &p : ref)
            if (p.first == k) return &p.second;
        return nullptr;
    };
    for (int i = 0; i < steps; i++) {
        int op = sym_choice("op", 0, 2 * nkeys);
        if (op == 2 * nkeys) {
            c.clear();
            ref.clear();
            sym_cover("clear");
            continue;
        }
        const Key &k = keys[op % nkeys];
        const Elem *r = lookup(k);
        if (op < nkeys) {
            Elem e{sym_int("value", INT32_MIN, INT32_MAX), std::string("a string that does not fit inside ") + char('0' + i)};
            bool thrown = false;
            try {
                c.save(k, e);
            } catch (std::exception &) {
                thrown = true;
            }
            if (r) {
                sym_cover("save of a present key");
                sym_assert(thrown, "saving under a key that is present is not refused");
            } else {
                sym_cover("save of a new key");
                sym_assert(!thrown, "saving under a new key is refused");
                ref.push_back({k, e});
            }
        } else {
            auto o = c.restore(k);
            if (r) {
                sym_cover("hit");
                sym_assert(o.has_value(), "a saved element is not restored");
                sym_assert(*o == *r, "restore returns another element than was saved");
            } else {
                sym_cover("miss");
                sym_assert(!o.has_value(), "restore returns an element for a key without one");
            }
        }
    }
    // final sweep over all keys
    for (auto &k : keys) {
        const Elem *r = lookup(k);
        auto o = c.restore(k);
        sym_assert(o.has_value() == (r != nullptr), "the final contents have a wrong set of keys");
        if (r) sym_assert(*o == *r, "the final contents have a wrong element");
    }
}
extern "C" void entry_history2() { history(TIER ? 5 : 4, 2); }
extern "C" void entry_history3() { history(TIER ? 4 : 3, 3); }

// more elements than the initial number of buckets, i.e. with rehashing
extern "C" void entry_many() {
    int n = TIER ? 60 : 30;
    int stride = sym_choice("stride", 0, 2); // all colliding, colliding in the bucket, spread
    Cache<Key, int, KeyHash> c;
    std::vector<int> v;
    for (int i = 0; i < n; i++) {
        v.push_back(sym_int("value", INT32_MIN, INT32_MAX));
        c.save({stride == 0 ? 5 : stride == 1 ? 13 * i : i, i}, v[i]);
    }
    for (int i = 0; i < n; i++) {
        auto o = c.restore({stride == 0 ? 5 : stride == 1 ? 13 * i : i, i});
        sym_assert(o.has_value() && *o == v[i], "an element is lost or changed among many");
    }
    sym_assert(!c.restore({5, n}).has_value(), "an element is found that was never saved");
    c.clear();
    for (int i = 0; i < n; i++) sym_assert(!c.restore({stride == 0 ? 5 : stride == 1 ? 13 * i : i, i}).has_value(), "an element survives clear");
    c.save({5, 0}, 7);
    sym_assert(*c.restore({5, 0}) == 7, "saving after clear fails");
    sym_cover("many");
}
// default hash on strings and ints; a returned element is a copy
extern "C" void entry_types() {
    Cache<std::string, std::string> c;
    char b[3];
    sym_bytes("key", b, 2);
    std::string k(b, 2), v("some value that is longer than the small buffer");
    c.save(k, v);
    auto o = c.restore(k);
    sym_assert(o.has_value() && *o == v, "a string element is not restored");
    *o = "changed";
    sym_assert(*c.restore(k) == v, "changing a restored copy changes the cache");
    char d[3];
    sym_bytes("other", d, 2);
    std::string k2(d, 2);
    if (k2 != k) {
        sym_cover("other string key");
        sym_assert(!c.restore(k2).has_value(), "an element is found under another string key");
        c.save(k2, "x");
        sym_assert(*c.restore(k2) == "x" && *c.restore(k) == v, "elements under two string keys are mixed up");
    }
    Cache<int, double> ci;
    int x = sym_int("x", INT32_MIN, INT32_MAX);
    x = sym_concretize(x & 0x80000003);
    ci.save(x, 1.5);
    sym_assert(*ci.restore(x) == 1.5, "an element is not restored for an int key");
}
