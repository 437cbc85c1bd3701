// C02: concurrent operations of caches and concurrent quantum-defect lookups, over every schedule of
// the critical sections.  Data races (accesses not ordered by happens-before), deadlocks and locks
// that stay held are reported by the engine, also for operations that end in an exception.
#include "sym.h"
#include "sqlmodel.h"
#include "pairinteraction/Cache.hpp"
#include "pairinteraction/QuantumDefect.hpp"
#include "QuantumDefectTables.h"
#include <optional>
#include <string>
#include <vector>

// ------------------------------------------------------------------------------------------- Cache
struct Key {
    int bucket, id; // arbitrary identities: keys of one bucket may be equal
    bool operator==(const Key &o) const { return bucket == o.bucket && id == o.id; }
};
struct KeyHash {
    size_t operator()(const Key &k) const { return (size_t)k.bucket; }
};
struct CopyError {};
struct Elem {
    int tag;
    int v; // arbitrary, fixed by the tag
    std::string s;
    Elem(int tag, int v) : tag(tag), v(v), s("a string that does not fit inside ") { s += char('a' + tag); }
    Elem(const Elem &o) : tag(o.tag), v(o.v), s(o.s) {
        if (tag == 20) throw CopyError();
    }
};
// 0,1,2: save key k; 3,4,5: restore key k; 6: clear; 7: save an element whose copy fails
struct Op {
    int op;
    int value;   // of a save
    int result;  // -1 nothing, -2 refused, -3 copy failed, otherwise the value read
};
static Key keys[3];
static int values[20];
static Cache<Key, Elem, KeyHash> *cache;
struct Prog {
    std::vector<Op> ops;
};
static void runOps(void *p) {
    for (auto &o : static_cast<Prog *>(p)->ops) {
        o.result = -1;
        try {
            if (o.op < 3) cache->save(keys[o.op], Elem(o.value, values[o.value]));
            else if (o.op < 6) {
                if (auto r = cache->restore(keys[o.op - 3])) {
                    o.result = r->tag;
                    sym_assert(r->v == values[r->tag] && r->s.back() == 'a' + r->tag, "an element read by a thread is torn");
                }
            } else if (o.op == 6) cache->clear();
            else {
                Elem e(19, 0);
                e.tag = 20;
                cache->save(keys[0], e);
            }
        } catch (CopyError &) {
            o.result = -3;
        } catch (std::exception &) {
            o.result = -2;
        }
    }
}
struct Model {
    int m[3] = {-1, -1, -1}, at[3];
    Model() {
        for (int i = 0; i < 3; i++)
            for (at[i] = 0; !(keys[at[i]] == keys[i]);) at[i]++;
    }
    bool apply(const Op &o) { // false: not what the thread has seen
        int r = -1;
        if (o.op < 3) {
            if (m[at[o.op]] >= 0) r = -2;
            else m[at[o.op]] = o.value;
        } else if (o.op < 6) r = m[at[o.op - 3]];
        else if (o.op == 6) m[0] = m[1] = m[2] = -1;
        else if (o.result == -2) r = m[0] >= 0 ? -2 : -1; // refused before the copy is made
        else r = -3;
        return r == o.result;
    }
};
static bool linearizable(std::vector<Prog> &p, std::vector<size_t> pos, const Model &m, const int *final) {
    bool end = true;
    for (size_t t = 0; t < p.size(); t++) {
        if (pos[t] == p[t].ops.size()) continue;
        end = false;
        Model n = m;
        if (!n.apply(p[t].ops[pos[t]])) continue;
        auto q = pos;
        q[t]++;
        if (linearizable(p, q, n, final)) return true;
    }
    for (int k = 0; k < 3; k++) end = end && m.m[m.at[k]] == final[k];
    return end;
}
static void concurrent(int nthreads, int nops, int maxop) {
    cache = new Cache<Key, Elem, KeyHash>;
    std::vector<Prog> progs(nthreads + 1);
    for (int i = 0; i < 3; i++) keys[i] = Key{i == 2 ? 13 : 0, sym_int("key", INT32_MIN, INT32_MAX)};
    for (int i = 0; i <= nthreads * nops; i++) values[i] = sym_int("value", INT32_MIN, INT32_MAX);
    int v = 0;
    // something may be there before
    int before = sym_choice("before", 0, 1);
    if (before) {
        progs[0].ops.push_back({0, v++, 0});
        runOps(&progs[0]);
    }
    static const int opcodes[] = {0, 3, 6, 1, 4, 2, 5, 7};
    for (int t = 1; t <= nthreads; t++)
        for (int i = 0; i < nops; i++) progs[t].ops.push_back({opcodes[sym_choice("operation", 0, maxop)], v++, 0});
    for (int t = 1; t <= nthreads; t++) sym_thread(runOps, &progs[t]);
    sym_join();
    int final[3];
    for (int k = 0; k < 3; k++) {
        auto r = cache->restore(keys[k]);
        final[k] = r ? r->tag : -1;
        if (r) sym_assert(r->v == values[r->tag], "a stored element has changed");
    }
    for (auto &p : progs)
        for (auto &o : p.ops) {
            if (o.result == -2) sym_cover("refused");
            if (o.result == -3) sym_cover("copy failed");
            if (o.op == 6) sym_cover("clear");
        }
    Model m;
    std::vector<size_t> pos(progs.size(), 0);
    if (before) {
        pos[0] = 1;
        m.m[0] = 0;
    }
    sym_assert(linearizable(progs, pos, m, final), "what the threads have seen is the outcome of no sequential order");
    delete cache;
}
extern "C" void entry_cache_two() { concurrent(2, 2, TIER ? 7 : 3); }
extern "C" void entry_cache_three() { concurrent(3, 1, 7); }
extern "C" void entry_T_cache_three_two() { concurrent(3, 2, 2); }
// ------------------------------------------------------------------------------ quantum defects
struct Lookup {
    int file, state;
    bool ok;
    double ac, nstar, energy;
};
static const char *const files[] = {"a.sql", "b.sql", ""};
static const struct {
    const char *el;
    int n, l;
    double j;
} states[] = {{"Rb", 10, 0, 0.5}, {"Xx", 10, 0, 0.5}, {"Rb", 10, 1, 0.5}, {"Rb", 11, 0, 0.5}};
static void lookup(Lookup &o) {
    o.ok = false;
    try {
        auto &s = states[o.state];
        QuantumDefect q(s.el, s.n, s.l, s.j, files[o.file]);
        o.ok = true;
        o.ac = q.ac, o.nstar = q.nstar, o.energy = q.energy;
    } catch (std::exception &) {
    }
}
struct LProg {
    std::vector<Lookup> v;
};
static void runLookups(void *p) {
    for (auto &o : static_cast<LProg *>(p)->v) lookup(o);
}
static void lookups(int nthreads, int nops, int nfiles, int nstates) {
    sym_mode_real(1);
    sym_allow_divzero(1);
    Tables a, b;
    a.pot = {pot("Rb", 0)};
    a.ritz = {ritz("Rb", 0, 0.5)};
    b.pot = {pot("Rb", 0), pot("Rb", 1), pot("Xx", 0)};
    b.ritz = {ritz("Rb", 0, 0.5), ritz("Rb", 1, 0.5), ritz("Xx", 0, 0.5)};
    writeFile("a.sql", text(a, true));
    writeFile("b.sql", text(b, true));
    // what a single thread finds
    LProg progs[4];
    for (int t = 0; t < nthreads; t++)
        for (int i = 0; i < nops; i++) progs[t].v.push_back({sym_choice("file", 0, nfiles - 1), sym_choice("state", 0, nstates - 1), false, 0, 0, 0});
    for (int t = 0; t < nthreads; t++) sym_thread(runLookups, &progs[t]);
    sym_join();
    for (int t = 0; t < nthreads; t++)
        for (auto &o : progs[t].v) {
            Lookup r = o;
            lookup(r);
            sym_assert(r.ok == o.ok, "a lookup fails or succeeds because of another thread");
            if (!r.ok) {
                sym_cover("missing state");
                continue;
            }
            sym_cover("found");
            static const char *diff = "a lookup next to another thread differs from a lookup on its own";
            sym_assert_near(o.ac, r.ac, 0, diff);
            sym_assert_near(o.nstar, r.nstar, 0, diff);
            sym_assert_near(o.energy, r.energy, 0, diff);
            if (o.file < 2) {
                Expect e = oracle(o.file ? b : a, states[o.state].el, states[o.state].n, states[o.state].l, states[o.state].j);
                sym_assert(e.ok, "a lookup next to another thread succeeds without rows");
                sym_assert_near(o.ac, e.ac, 1e-12, "the potential is that of another database or state");
                sym_assert_near(o.nstar, e.nstar, 1e-12, "the effective quantum number is that of another database or state");
                sym_assert_near(o.energy, e.energy, 1e-9, "the energy is that of another database or state");
            }
        }
}
extern "C" void entry_lookup_two() { lookups(2, 1, 2, 2); }
extern "C" void entry_lookup_pairs() { lookups(2, 2, 1, 2); }
extern "C" void entry_T_lookup_three() { lookups(3, 1, 2, 2); }
extern "C" void entry_T_lookup_pairs() { lookups(2, 2, 2, 2); }
