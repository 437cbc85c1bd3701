// C04: the SQLite wrapper against a model of the library in which every call may fail with any code.
// The same model replaces the library in the native replay.
#include "sym.h"
#include "pairinteraction/SQLite.hpp"
#include <cstring>
#include <set>
#include <vector>

// ------------------------------------------------------------------ model of the library
static const int codes[] = {SQLITE_ERROR, SQLITE_BUSY, SQLITE_NOMEM, SQLITE_MISUSE, SQLITE_IOERR_READ};
static bool faults = true;
static int lastRc = 0, calls = 0;
static int outcome(const char *nm) {
    calls++;
    int k = faults ? sym_choice(nm, -1, TIER ? 4 : 1) : -1;
    lastRc = k < 0 ? 0 : codes[k];
    return lastRc;
}
struct Bound {
    int kind = 0, i = 0, n = 0;
    double d = 0;
    const char *p = nullptr;
    std::string copy;
};
struct sqlite3 { int open; };
struct sqlite3_stmt {
    sqlite3 *db;
    std::string sql;
    int row = -1; // -1 before the first row
    bool ended = false;
    int err = 0;
    Bound b[4];
};
static int nrows = 0;
static std::vector<sqlite3_stmt *> live;
static int opened = 0, closed = 0;
static int cellI[8][3];
static double cellD[8][3];
static std::string cellS[8][3];
static int (*busyFn)(void *, int) = nullptr;
static void *busyArg = nullptr;
static int busyInstalled = 0, lastFlags = 0;
static std::string lastName, lastExec;
extern "C" {
const char *sqlite3_errstr(int e) { return e == SQLITE_DONE ? "no more rows available" : "description"; }
const char *sqlite3_errmsg(sqlite3 *) { return "message"; }
int sqlite3_open_v2(const char *f, sqlite3 **pp, int flags, const char *) {
    lastName = f;
    lastFlags = flags;
    *pp = new sqlite3{1}; // also handed out when opening fails
    opened++;
    return outcome("open");
}
int sqlite3_close(sqlite3 *p) {
    if (!p) return 0;
    closed++;
    delete p;
    return 0;
}
int sqlite3_busy_handler(sqlite3 *, int (*f)(void *, int), void *a) {
    busyFn = f;
    busyArg = a;
    busyInstalled++;
    return outcome("busy_handler");
}
int sqlite3_prepare_v2(sqlite3 *db, const char *sql, int n, sqlite3_stmt **pp, const char **) {
    *pp = nullptr;
    int rc = outcome("prepare");
    if (rc) return rc;
    auto *s = new sqlite3_stmt;
    s->db = db;
    s->sql = n < 0 ? std::string(sql) : std::string(sql, n);
    live.push_back(s);
    *pp = s;
    return 0;
}
int sqlite3_finalize(sqlite3_stmt *s) {
    if (!s) return 0;
    for (size_t i = 0; i < live.size(); i++)
        if (live[i] == s) {
            live.erase(live.begin() + i);
            delete s;
            return 0;
        }
    sym_fail("a statement is finalised that does not exist");
    return 0;
}
int sqlite3_step(sqlite3_stmt *s) {
    if (!s) return lastRc = SQLITE_MISUSE;
    int rc = outcome("step");
    if (rc) return s->err = rc;
    if (s->ended) s->row = -1, s->ended = false; // starts over, as the library does
    s->err = 0;
    if (++s->row < nrows) return lastRc = SQLITE_ROW;
    s->ended = true;
    return lastRc = SQLITE_DONE;
}
int sqlite3_reset(sqlite3_stmt *s) {
    if (!s) return lastRc = 0;
    s->row = -1;
    s->ended = false;
    int e = s->err;
    s->err = 0;
    return lastRc = e;
}
int sqlite3_exec(sqlite3 *, const char *sql, int (*)(void *, int, char **, char **), void *, char **) {
    lastExec = sql;
    return outcome("exec");
}
int sqlite3_bind_text(sqlite3_stmt *s, int w, const char *p, int n, void (*d)(void *)) {
    if (!s || (s->row >= 0 && !s->ended)) return lastRc = SQLITE_MISUSE; // not in the middle of a result
    if (w < 1 || w > 3) return lastRc = SQLITE_RANGE;
    s->b[w].kind = 3;
    if (n < 0) n = strlen(p);
    s->b[w].n = n;
    if (d == SQLITE_TRANSIENT) s->b[w].copy.assign(p, n), s->b[w].p = nullptr;
    else s->b[w].p = p;
    return outcome("bind");
}
int sqlite3_bind_double(sqlite3_stmt *s, int w, double v) {
    if (!s || (s->row >= 0 && !s->ended)) return lastRc = SQLITE_MISUSE; // not in the middle of a result
    if (w < 1 || w > 3) return lastRc = SQLITE_RANGE;
    s->b[w].kind = 2;
    s->b[w].d = v;
    return outcome("bind");
}
int sqlite3_bind_int(sqlite3_stmt *s, int w, int v) {
    if (!s || (s->row >= 0 && !s->ended)) return lastRc = SQLITE_MISUSE; // not in the middle of a result
    if (w < 1 || w > 3) return lastRc = SQLITE_RANGE;
    s->b[w].kind = 1;
    s->b[w].i = v;
    return outcome("bind");
}
double sqlite3_column_double(sqlite3_stmt *s, int f) { return cellD[s->row][f]; }
int sqlite3_column_int(sqlite3_stmt *s, int f) { return cellI[s->row][f]; }
const unsigned char *sqlite3_column_text(sqlite3_stmt *s, int f) { return (const unsigned char *)cellS[s->row][f].c_str(); }
}
static std::string boundText(int w) {
    Bound &b = live.at(0)->b[w];
    return b.p ? std::string(b.p, b.n) : b.copy; // reading p finds out whether the text is still there
}
// runs f; 0 if it returned, otherwise 1 if the error carries the code rc, 2 if it does not
template <class F>
static int outcomeOf(F f, int rc) {
    try {
        f();
        return 0;
    } catch (sqlite::error &e) {
        std::string w = e.what(), c = std::to_string(rc);
        size_t p = w.find(c);
        while (p != std::string::npos) { // as a number of its own
            bool l = p == 0 || !isdigit(w[p - 1]), r = p + c.size() == w.size() || !isdigit(w[p + c.size()]);
            if (l && r) return 1;
            p = w.find(c, p + 1);
        }
        return 2;
    }
}
static void expect(int o, int rc, const char *what) {
    if (rc == 0 && o != 0) sym_fail((std::string(what) + " fails although the library succeeded").c_str());
    if (rc != 0 && o == 0) sym_fail((std::string(what) + " succeeds although the library failed").c_str());
    if (rc != 0 && o == 2) sym_fail((std::string(what) + " throws an error without the code of the library").c_str());
}
static sqlite3 DB{1};

// every sequence of operations and result codes
static void protocol(int len) {
    nrows = sym_choice("rows", 0, 1);
    sqlite::statement st(&DB, "first");
    std::string sql = "first";
    bool prepared = false, valid = true;
    int expected = 0; // the row the next step has to deliver
    bool fresh = false; // prepared or reset, not stepped since
    for (int i = 0; i < len; i++) {
        calls = 0;
        lastRc = 0;
        switch (sym_choice("op", 0, 5)) {
        case 0: // set
            sql = std::string("query ") + char('0' + i);
            st.set(sql);
            sym_assert(calls == 0, "setting the query calls the library");
            prepared = false;
            break;
        case 1: {
            int o = outcomeOf([&] { st.prepare(); }, (lastRc));
            (void)o;
            o = lastRc ? (o == 0 ? 0 : 1) : o;
            expect(o, lastRc, "prepare");
            if (!lastRc) {
                prepared = true;
                expected = 0;
                fresh = true;
                sym_assert(live.size() == 1 && live[0]->sql == sql && live[0]->db == &DB, "prepare does not prepare the query that was set");
            }
            break;
        }
        case 2: {
            bool row = false, thrown = false;
            std::string w;
            try {
                row = st.step();
            } catch (sqlite::error &e) {
                thrown = true;
                w = e.what();
            }
            if (!prepared) {
                sym_cover("step without prepare");
                sym_assert(thrown && calls == 0, "stepping an unprepared statement is not refused");
            } else if (!valid) {
                sym_cover("step after the end");
                sym_assert(thrown && calls == 0, "stepping after the end is not refused");
            } else if (lastRc == SQLITE_ROW) {
                sym_cover("row");
                sym_assert(!thrown && row, "a row is not reported");
                sym_assert(live.size() == 1 && live[0]->row == expected, "stepping does not deliver the rows from the first one on after preparing or resetting");
                expected++;
                fresh = false;
            } else if (lastRc == SQLITE_DONE) {
                sym_cover("done");
                sym_assert(!thrown && !row, "the end is not reported");
                sym_assert(expected == nrows, "the end is reported although rows are left after preparing or resetting");
                valid = false;
                fresh = false;
            } else {
                sym_cover("failed step");
                fresh = false;
                sym_assert(thrown, "a failed step is not reported");
                int rc = lastRc;
                sym_assert(outcomeOf([&] { throw sqlite::error(rc, ""); }, rc) == 1 && w.find(" " + std::to_string(rc) + ":") != std::string::npos,
                           "the error of a step does not carry the code");
                valid = false;
            }
            break;
        }
        case 3: {
            bool thrown = false;
            try {
                st.reset();
            } catch (sqlite::error &) {
                thrown = true;
            }
            sym_assert(thrown == (lastRc != 0), "reset does not report exactly the failures of the library");
            if (!lastRc) {
                if (expected > 0 && !live.empty()) sym_cover("reset in the middle");
                valid = true;
                expected = 0;
                fresh = !live.empty();
            }
            break;
        }
        case 4: {
            std::string q = std::string("exec ") + char('0' + i);
            bool thrown = false;
            try {
                st.exec(q);
            } catch (sqlite::error &) {
                thrown = true;
            }
            sym_assert(lastExec == q && calls == 1, "exec does not execute the given query once");
            sym_assert(thrown == (lastRc != 0), "exec does not report exactly the failures of the library");
            sql = q;
            prepared = false;
            break;
        }
        case 5: {
            bool thrown = false;
            try {
                st.bind(2, 7);
            } catch (sqlite::error &) {
                thrown = true;
            }
            sym_assert(thrown == (lastRc != 0), "bind does not report exactly the failures of the library");
            sym_assert(!fresh || live.empty() || calls > 0, "values cannot be bound after preparing or resetting");
            break;
        }
        }
    }
}
extern "C" void entry_protocol() {
    protocol(TIER ? 5 : 4);
    sym_assert(live.empty(), "a prepared statement is not finalised");
}
extern "C" void entry_codes() {
    // the error carries the code for every call
    int which = sym_choice("which", 0, 8);
    static int rcs[] = {1, 5, 7, 11, 14, 19, 21, 26, 266, 2067};
    int rc = rcs[sym_choice("rc", 0, 9)];
    faults = false;
    sqlite::statement st(&DB, "q");
    (void)which;
    bool ok = false;
    try {
        throw sqlite::error(rc, "text");
    } catch (std::exception &e) {
        ok = std::string(e.what()).find(std::to_string(rc)) != std::string::npos && std::string(e.what()).find("text") != std::string::npos;
    }
    sym_assert(ok, "an error does not carry code and message");
    sym_cover("codes");
}
// any number of rows, any row may fail
extern "C" void entry_iterate() {
    nrows = sym_choice("rows", 0, TIER ? 6 : 4);
    for (int r = 0; r < nrows; r++) cellI[r][1] = sym_int("cell", INT32_MIN, INT32_MAX);
    faults = false;
    sqlite::statement st(&DB, "select");
    st.prepare();
    faults = sym_choice("faulty", 0, 1);
    for (int round = 0; round < 2; round++) {
        std::vector<int> got;
        int n = 0, good = 0;
        bool thrown = false;
        try {
            for (auto &&r : st) {
                sym_assert(n < nrows, "iteration visits more rows than there are");
                sym_assert(&r == &st, "dereferencing an iterator does not give the statement");
                got.push_back(r.get<int>(1));
                n++;
            }
        } catch (sqlite::error &) {
            thrown = true;
        }
        bool failed = lastRc != SQLITE_DONE;
        sym_assert(thrown == failed, "iteration does not report exactly the failures of the library");
        if (!failed) sym_assert(n == nrows, "iteration does not visit every row");
        for (int i = 0; i < n; i++) sym_assert(got[i] == cellI[i][1], "iteration visits the rows in another order");
        if (n == nrows) sym_cover("complete iteration");
        if (failed) sym_cover("failed iteration");
        if (failed) break;
        st.reset(); // second round: the same rows again
    }
}
extern "C" void entry_bind() {
    faults = false;
    sqlite::statement st(&DB, "insert");
    st.prepare();
    int len = sym_choice("len", 0, 3);
    char b[4];
    sym_bytes("text", b, len);
    std::string s(b, len), s2 = s + " which is long enough to be allocated on the heap";
    int where = sym_int("where", -1, 4);
    int rcwant = where < 1 || where > 3 ? SQLITE_RANGE : 0;
    int kind = sym_choice("kind", 0, 4);
    int iv = sym_int("i", INT32_MIN, INT32_MAX);
    double dv = sym_double("d");
    faults = true;
    lastRc = 0;
    bool thrown = false;
    try {
        switch (kind) {
        case 0: st.bind(where, s); break;
        case 1: st.bind(where, s2); break;
        case 2: st.bind(where, s + " which is long enough to be allocated on the heap"); break;
        case 3: st.bind(where, iv); break;
        case 4: st.bind(where, dv); break;
        }
    } catch (sqlite::error &) {
        thrown = true;
    }
    if (rcwant) sym_assert(lastRc == rcwant, "a value is bound to another position than requested");
    sym_assert(thrown == (lastRc != 0), "bind does not report exactly the failures of the library");
    if (rcwant || thrown) return;
    where = sym_concretize(where);
    faults = false;
    st.step();
    Bound &x = live[0]->b[where];
    switch (kind) {
    case 0: sym_assert(x.kind == 3 && boundText(where) == s, "a text is not bound unchanged"); break;
    case 1:
    case 2: sym_assert(x.kind == 3 && boundText(where) == s2, "a long or temporary text is not bound unchanged"); break;
    case 3: sym_assert(x.kind == 1 && x.i == iv, "an int is not bound unchanged"); break;
    case 4: {
        uint64_t p, q;
        memcpy(&p, &x.d, 8);
        memcpy(&q, &dv, 8);
        sym_assert(x.kind == 2 && p == q, "a double is not bound unchanged");
        break;
    }
    }
    for (int w = 1; w <= 3; w++)
        if (w != where) sym_assert(live[0]->b[w].kind == 0, "another position than the requested one is bound");
    sym_cover("bound");
}
extern "C" void entry_get() {
    faults = false;
    nrows = 2;
    for (int r = 0; r < 2; r++)
        for (int f = 0; f < 3; f++) {
            cellI[r][f] = sym_int("ci", INT32_MIN, INT32_MAX);
            cellD[r][f] = sym_double("cd");
            char b[2] = {0};
            sym_bytes("cs", b, 1);
            cellS[r][f] = b; // up to the first zero, as SQLite texts
        }
    sqlite::statement st(&DB, "select");
    st.prepare();
    int f = sym_choice("field", 0, 2);
    for (int r = 0; r < 2; r++) {
        st.step();
        sym_assert(st.get<int>(f) == cellI[r][f], "an int is not read from the requested field");
        double d = st.get<double>(f);
        sym_assert(memcmp(&d, &cellD[r][f], 8) == 0, "a double is not read from the requested field");
        sym_assert(st.get<std::string>(f) == cellS[r][f], "a text is not read from the requested field");
    }
    sym_cover("fields");
}
extern "C" void entry_stream() {
    faults = false;
    std::stringstream ss;
    ss << "select " << 42;
    sqlite::statement st(&DB);
    st.set(ss);
    st.prepare();
    sym_assert(live.size() == 1 && live[0]->sql == "select 42", "a query set from a stream is changed");
    st.set("other");
    st.prepare();
    sym_assert(live.size() == 1 && live[0]->sql == "other", "preparing again does not replace the old statement");
    sqlite::statement mv(std::move(st));
    sym_cover("stream");
}
extern "C" void entry_handle() {
    {
        int rc = -1, flags = sym_choice("flags", 0, 1) ? SQLITE_OPEN_READONLY : 0;
        bool thrown = false;
        try {
            sqlite::handle h = flags ? sqlite::handle("file name", flags) : sqlite::handle("file name");
            rc = lastRc;
            sym_assert(lastName == "file name", "another file is opened than requested");
            sym_assert(lastFlags == (flags ? flags : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)), "the flags are not passed on");
            sqlite3 *raw = h;
            sym_assert(raw != nullptr && busyInstalled >= 1 && busyArg == &h && busyFn, "no busy handler is installed for the handle");
            faults = false;
            sqlite::handle h2(std::move(h));
            sym_assert(busyArg == &h2 && (sqlite3 *)h2 == raw && (sqlite3 *)h == nullptr, "moving a handle does not move the database and its busy handler");
            sqlite::handle h3("other");
            h3 = std::move(h2);
            sym_assert(busyArg == &h3 && (sqlite3 *)h3 == raw, "move assignment does not move the database and its busy handler");
            sym_assert(opened == 2 && closed == 1, "move assignment does not close the replaced database");
            int prior = sym_int("prior", 0, INT32_MAX);
            int again = busyFn(busyArg, prior);
            sym_assert((again != 0) == (prior < 100000), "a busy database is not retried exactly up to the threshold");
            if (again) sym_cover("retry");
            else sym_cover("give up");
        } catch (sqlite::error &) {
            thrown = true;
            rc = lastRc;
            sym_cover("open fails");
        }
        sym_assert(thrown == (rc != 0), "opening does not report exactly the failures of the library");
    }
    sym_assert(opened == closed, "a database is not closed exactly once");
}
extern "C" unsigned rd_shim(void *) { return 1; }
extern "C" void rd_init_shim(void *, const std::string &) {}
extern "C" void rd_fini_shim(void *) {}
