// A small in-memory database: an interpreter for the SQL used for tables of quantum defects.  In the
// symbolic runs it stands for the SQLite library (the native replays use the real one); natively it
// serves as the oracle's reader of the embedded database.  "@k" stands for the k-th prepared script.
#pragma once
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <sqlite3.h>
#include <string>
#include <vector>

namespace sqlm {
struct Cell {
    int kind = 0; // 0 NULL, 1 int, 2 real, 3 text
    int i = 0;
    double d = 0;
    std::string s;
    double real() const { return kind == 1 ? i : kind == 2 ? d : 0; }
};
struct Table {
    std::string name;
    std::vector<std::string> col, type;
    std::vector<std::vector<Cell>> rows;
    std::vector<int> key; // columns that identify a row
};
struct Db {
    std::vector<Table> tables;
    bool transaction = false;
    std::vector<Table> before; // the tables at the start of the transaction
    std::vector<Table> *temp = nullptr; // the temporary tables of the current connection
    const void *owner = nullptr;        // the connection of the transaction
    Table *find(const std::string &n) {
        if (temp)
            for (auto &t : *temp)
                if (t.name == n) return &t;
        for (auto &t : tables)
            if (t.name == n) return &t;
        return nullptr;
    }
};
struct Prepared { // a script that creates and fills tables, known to the model by its number: "@k"
    bool drop;
    std::vector<Table> tables;
};
inline std::vector<Prepared> &prepared() {
    static std::vector<Prepared> v;
    return v;
}
inline std::vector<double> &numbers() { // written as "#k" in the text of a statement
    static std::vector<double> v;
    return v;
}
struct Tok {
    char k = 0; // w word, q quoted identifier, s string, n number, @ symbol, # known number, ? parameter, p punctuation, 0 end
    std::string s;
};
inline char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline std::string lower(std::string s) {
    for (auto &c : s) c = low(c);
    return s;
}
struct Lex {
    const char *p;
    Tok t;
    explicit Lex(const char *p) : p(p) { next(); }
    static bool wc(char c) { return (low(c) >= 'a' && low(c) <= 'z') || (c >= '0' && c <= '9') || c == '_'; }
    void next() {
        for (;;) {
            while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
            if (p[0] == '-' && p[1] == '-') {
                while (*p && *p != '\n') p++;
                continue;
            }
            break;
        }
        t = Tok();
        if (!*p) return;
        const char *b = p;
        if (*p == '\'' || *p == '"' || *p == '`') {
            char q = *p++;
            b = p;
            while (*p && *p != q) p++;
            t.k = q == '\'' ? 's' : 'q';
            t.s.assign(b, p - b);
            if (*p) p++;
            return;
        }
        if ((*p >= '0' && *p <= '9') || (*p == '.' && p[1] >= '0' && p[1] <= '9')) {
            while (wc(*p) || *p == '.' || ((*p == '-' || *p == '+') && low(p[-1]) == 'e')) p++;
            t.k = 'n';
        } else if (*p == '@' || *p == '?' || *p == '#') {
            t.k = *p++;
            b = p;
            while (*p >= '0' && *p <= '9') p++;
        } else if (wc(*p)) {
            while (wc(*p)) p++;
            t.k = 'w';
        } else {
            p++;
            if ((b[0] == '<' || b[0] == '>' || b[0] == '!' || b[0] == '=') && (*p == '=' || *p == '>')) p++;
            t.k = 'p';
        }
        t.s.assign(b, p - b);
    }
    bool is(const char *w) const { return (t.k == 'w' || t.k == 'p') && lower(t.s) == w; }
    bool accept(const char *w) {
        if (!is(w)) return false;
        next();
        return true;
    }
};
struct Bad {};
inline Cell literal(Lex &l, bool neg) {
    Cell c;
    if (l.t.k == 's') c.kind = 3, c.s = l.t.s;
    else if (l.t.k == 'n') {
        if (l.t.s.find_first_of(".eE") == std::string::npos && l.t.s.size() < 10) c.kind = 1, c.i = atoi(l.t.s.c_str()) * (neg ? -1 : 1);
        else c.kind = 2, c.d = atof(l.t.s.c_str()) * (neg ? -1 : 1);
    } else if (l.t.k == '#') c.kind = 2, c.d = numbers().at(atoi(l.t.s.c_str())) * (neg ? -1 : 1);
    else if (!l.is("null")) throw Bad();
    l.next();
    return c;
}
inline bool sameCell(const Cell &a, const Cell &b) {
    if (!a.kind || !b.kind || (a.kind == 3) != (b.kind == 3)) return false;
    if (a.kind == 3) return a.s == b.s;
    if (a.kind == 1 && b.kind == 1) return a.i == b.i;
    return a.real() == b.real();
}
inline void affinity(Cell &c, const std::string &type) {
    bool in = type.find("int") == 0, re = type == "real" || type == "float" || type == "double";
    if ((in || re) && c.kind == 3) c.kind = 2, c.d = atof(c.s.c_str());
    if (re && c.kind == 1) c.kind = 2, c.d = c.i;
    if (in && c.kind == 2 && c.d == (int)c.d) c.kind = 1, c.i = (int)c.d;
}
inline std::string name(Lex &l) {
    if (l.t.k != 'w' && l.t.k != 'q') throw Bad();
    std::string s = lower(l.t.s);
    l.next();
    return s;
}
// executes a script; false on an error, with the statements before it done
inline bool script(Db &db, const char *text) {
    try {
        Lex l(text);
        while (l.t.k) {
            if (l.accept(";")) continue;
            if (l.t.k == '@') {
                Prepared &p = prepared().at(atoi(l.t.s.c_str()));
                for (auto &t : p.tables) {
                    if (p.drop)
                        for (size_t i = 0; i < db.tables.size(); i++)
                            if (db.tables[i].name == t.name) {
                                db.tables.erase(db.tables.begin() + i);
                                break;
                            }
                    if (db.find(t.name)) throw Bad();
                    db.tables.push_back(t);
                }
                l.next();
                continue;
            }
            if (l.is("begin") || l.is("commit") || l.is("end") || l.is("rollback") || l.is("pragma")) {
                bool b = l.is("begin");
                if (!l.is("pragma")) {
                    if (db.transaction == b) throw Bad();
                    db.transaction = b;
                    if (b) db.before = db.tables;
                    else if (l.is("rollback")) db.tables = db.before;
                }
                while (l.t.k && !l.is(";")) l.next();
            } else if (l.accept("drop")) {
                if (!l.accept("table")) throw Bad();
                bool ife = l.accept("if");
                if (ife) l.accept("exists");
                std::string n = name(l);
                bool f = false;
                for (size_t i = 0; i < db.tables.size(); i++)
                    if (db.tables[i].name == n) {
                        db.tables.erase(db.tables.begin() + i);
                        f = true;
                        break;
                    }
                if (!f && !ife) throw Bad();
            } else if (l.accept("create")) {
                bool temporary = l.accept("temporary") || l.accept("temp");
                if (temporary && !db.temp) throw Bad();
                if (!l.accept("table")) throw Bad();
                bool ine = l.accept("if");
                if (ine) l.accept("not"), l.accept("exists");
                Table t;
                t.name = name(l);
                if (!l.accept("(")) throw Bad();
                do {
                    if (l.is("primary") || l.is("unique")) {
                        l.next();
                        l.accept("key");
                        if (!l.accept("(")) throw Bad();
                        do {
                            std::string c = name(l);
                            for (size_t i = 0; i < t.col.size(); i++)
                                if (t.col[i] == c) t.key.push_back(i);
                        } while (l.accept(","));
                        if (!l.accept(")")) throw Bad();
                        continue;
                    }
                    t.col.push_back(name(l));
                    t.type.push_back(l.is(",") || l.is(")") ? "" : name(l));
                    while (!l.is(",") && !l.is(")") && l.t.k) l.next();
                } while (l.accept(","));
                if (!l.accept(")")) throw Bad();
                if (l.accept("without") && !l.accept("rowid")) throw Bad();
                if (!db.find(t.name)) (temporary ? *db.temp : db.tables).push_back(t);
                else if (!ine) throw Bad();
            } else if (l.accept("insert")) {
                bool ignore = false, replace = false;
                if (l.accept("or")) {
                    ignore = l.accept("ignore");
                    if (!ignore) replace = l.accept("replace");
                    if (!ignore && !replace) throw Bad();
                }
                if (!l.accept("into")) throw Bad();
                Table *t = db.find(name(l));
                if (!t) throw Bad();
                std::vector<size_t> to;
                if (l.accept("(")) {
                    do {
                        std::string c = name(l);
                        size_t i = 0;
                        while (i < t->col.size() && t->col[i] != c) i++;
                        if (i == t->col.size()) throw Bad();
                        to.push_back(i);
                    } while (l.accept(","));
                    if (!l.accept(")")) throw Bad();
                } else
                    for (size_t i = 0; i < t->col.size(); i++) to.push_back(i);
                if (!l.accept("values")) throw Bad();
                do {
                    if (!l.accept("(")) throw Bad();
                    std::vector<Cell> r(t->col.size());
                    size_t k = 0;
                    do {
                        bool neg = l.accept("-");
                        if (k >= to.size()) throw Bad();
                        r[to[k++]] = literal(l, neg);
                    } while (l.accept(","));
                    if (!l.accept(")") || k != to.size()) throw Bad();
                    for (size_t i = 0; i < r.size(); i++) affinity(r[i], t->type[i]);
                    bool add = true;
                    for (size_t i = 0; add && i < t->rows.size() && !t->key.empty(); i++) {
                        bool same = true;
                        for (int c : t->key)
                            if (same && !sameCell(t->rows[i][c], r[c])) same = false;
                        if (!same) continue;
                        if (replace) t->rows[i] = r;
                        else if (!ignore) throw Bad();
                        add = false;
                    }
                    if (add) t->rows.push_back(r);
                } while (l.accept(","));
            } else throw Bad();
            if (l.t.k && !l.is(";")) throw Bad();
        }
    } catch (Bad &) {
        return false;
    }
    return true;
}
#ifdef SYM_ENGINE
// -1, 0, 1; NULL compares as 2
inline int compare(const Cell &a, const Cell &b) {
    if (!a.kind || !b.kind) return 2;
    if ((a.kind == 3) != (b.kind == 3)) return a.kind == 3 ? 1 : -1;
    if (a.kind == 3) return a.s < b.s ? -1 : a.s == b.s ? 0 : 1;
    if (a.kind == 1 && b.kind == 1) return a.i < b.i ? -1 : a.i == b.i ? 0 : 1;
    double x = a.real(), y = b.real();
    return x < y ? -1 : x == y ? 0 : 1;
}
inline bool equal(const Cell &a, const Cell &b) { return sameCell(a, b); }
struct Query { // evaluates the text of a select statement again for every row
    Db &db;
    std::vector<Cell> param;
    std::vector<std::vector<Cell>> result;
    Table *t = nullptr;
    const std::vector<Cell> *row = nullptr;
    static const int MAXPARAM = 15;
    explicit Query(Db &db) : db(db), param(MAXPARAM + 1) {}
    int nparam = 0;
    Table joined;
    std::string alias;
    int column(const std::string &n) {
        for (size_t i = 0; i < t->col.size(); i++)
            if (t->col[i] == n || (alias != "" && alias + "." + t->col[i] == n)) return i;
        if (t == &joined) // without the name of the table
            for (size_t i = 0; i < t->col.size(); i++)
                if (t->col[i].substr(t->col[i].find('.') + 1) == n) return i;
        throw Bad();
    }
    std::string colname(Lex &l) {
        std::string n = name(l);
        if (l.accept(".")) n += "." + name(l);
        return n;
    }
    Cell value(Lex &l) {
        if (l.accept("(")) {
            Cell c = value(l);
            if (!l.accept(")")) throw Bad();
            return c;
        }
        if (l.t.k == '?') {
            int k = l.t.s.empty() ? ++nparam : atoi(l.t.s.c_str());
            if (k < 1 || k > MAXPARAM) throw Bad();
            l.next();
            return param[k];
        }
        if ((l.t.k == 'w' || l.t.k == 'q') && !l.is("null")) {
            int k = column(colname(l));
            return row ? (*row)[k] : Cell();
        }
        bool neg = l.accept("-");
        return literal(l, neg);
    }
    bool cond(Lex &l) {
        bool r = conj(l);
        while (l.accept("or")) {
            bool x = conj(l);
            r = r || x;
        }
        return r;
    }
    bool conj(Lex &l) {
        bool r = prim(l);
        while (l.accept("and")) {
            bool x = prim(l);
            r = r && x;
        }
        return r;
    }
    bool prim(Lex &l) {
        if (l.accept("not")) return !prim(l);
        if (l.is("(")) { // condition or value in parentheses
            Lex save = l;
            int np = nparam;
            try {
                l.next();
                bool r = cond(l);
                if (!l.accept(")")) throw Bad();
                return r;
            } catch (Bad &) {
                l = save;
                nparam = np;
            }
        }
        Cell a = value(l);
        std::string op = lower(l.t.s);
        if (l.t.k != 'p' && op != "is" && op != "between") throw Bad();
        l.next();
        if (op == "is") {
            bool n = l.accept("not");
            if (!l.accept("null")) throw Bad();
            return (a.kind == 0) != n;
        }
        Cell b = value(l);
        if (op == "=" || op == "==") return equal(a, b);
        int c = compare(a, b);
        if (op == "between") {
            if (!l.accept("and")) throw Bad();
            int e = compare(a, value(l));
            return (c == 0 || c == 1) && e <= 0;
        }
        if (c == 2) return false;
        if (op == "!=" || op == "<>") return c != 0;
        if (op == "<") return c < 0;
        if (op == "<=") return c <= 0;
        if (op == ">") return c > 0;
        if (op == ">=") return c >= 0;
        throw Bad();
    }
    bool constraint = false; // the last insertion was refused
    void insert(Lex &l, bool execute) {
        l.next();
        bool ignore = false, replace = false;
        if (l.accept("or")) {
            ignore = l.accept("ignore");
            if (!ignore) replace = l.accept("replace");
            if (!ignore && !replace) throw Bad();
        }
        if (!l.accept("into")) throw Bad();
        t = db.find(name(l));
        if (!t) throw Bad();
        std::vector<int> to;
        if (l.accept("(")) {
            do to.push_back(column(name(l)));
            while (l.accept(","));
            if (!l.accept(")")) throw Bad();
        } else
            for (size_t i = 0; i < t->col.size(); i++) to.push_back(i);
        if (!l.accept("values") || !l.accept("(")) throw Bad();
        std::vector<Cell> r(t->col.size());
        size_t k = 0;
        row = nullptr;
        nparam = 0;
        do {
            if (k >= to.size()) throw Bad();
            r[to[k]] = value(l);
            k++;
        } while (l.accept(","));
        if (k != to.size() || !l.accept(")")) throw Bad();
        l.accept(";");
        if (l.t.k) throw Bad();
        result.clear();
        constraint = false;
        if (!execute) return;
        for (size_t i = 0; i < r.size(); i++) affinity(r[i], t->type[i]);
        for (size_t i = 0; i < t->rows.size() && !t->key.empty(); i++) {
            bool same = true;
            for (int c : t->key)
                if (same && !equal(t->rows[i][c], r[c])) same = false;
            if (!same) continue;
            if (replace) t->rows[i] = r;
            constraint = !ignore && !replace;
            return;
        }
        t->rows.push_back(r);
    }
    // checks the text (and computes the result if execute)
    void run(const char *sql, bool execute) {
        Lex l(sql);
        if (l.is("insert")) return insert(l, execute);
        if (!l.accept("select")) throw Bad();
        alias = "";
        bool distinct = l.accept("distinct");
        (void)distinct;
        struct Item { std::string fn, col; };
        std::vector<Item> items;
        do {
            Item it;
            if (l.accept("*")) it.fn = "*";
            else {
                it.col = colname(l);
                if (l.accept("(")) {
                    it.fn = it.col;
                    if (it.fn != "max" && it.fn != "min" && it.fn != "count") throw Bad();
                    if (l.accept("*")) it.col = "";
                    else it.col = name(l);
                    if (!l.accept(")")) throw Bad();
                }
                if (l.accept("as")) name(l);
            }
            items.push_back(it);
        } while (l.accept(","));
        if (!l.accept("from")) throw Bad();
        std::string tname = name(l);
        t = db.find(tname);
        if (!t) throw Bad();
        if (l.accept("as") || (l.t.k == 'w' && !l.is("where") && !l.is("order") && !l.is("limit") && !l.is("inner") && !l.is("join"))) tname = name(l);
        alias = tname;
        if (l.is("inner") || l.is("join")) {
            l.accept("inner");
            if (!l.accept("join")) throw Bad();
            std::string n2 = name(l);
            Table *u = db.find(n2), *first = t;
            if (!u) throw Bad();
            if (l.accept("as") || (l.t.k == 'w' && !l.is("on"))) n2 = name(l);
            if (!l.accept("on")) throw Bad();
            alias = "";
            joined = Table();
            for (auto &c : first->col) joined.col.push_back(tname + "." + c);
            for (auto &c : u->col) joined.col.push_back(n2 + "." + c);
            t = &joined;
            Lex on = l;
            row = nullptr;
            cond(l);
            if (execute)
                for (auto &a : first->rows)
                    for (auto &b : u->rows) {
                        std::vector<Cell> r = a;
                        r.insert(r.end(), b.begin(), b.end());
                        row = &r;
                        Lex c = on;
                        if (cond(c)) joined.rows.push_back(r);
                    }
            row = nullptr;
        }
        bool agg = false;
        for (auto &it : items) {
            if (it.fn != "*" && it.col != "") column(it.col);
            if (it.fn != "" && it.fn != "*") agg = true;
        }
        Lex w = l;
        bool where = w.accept("where");
        // syntax check and what follows
        row = nullptr;
        nparam = 0;
        Lex e = w;
        if (where) cond(e);
        std::string order;
        bool desc = false;
        int limit = -1;
        if (e.accept("order")) {
            if (!e.accept("by")) throw Bad();
            order = colname(e);
            column(order);
            desc = e.accept("desc");
            if (!desc) e.accept("asc");
        }
        if (e.accept("limit")) limit = atoi(e.t.s.c_str()), e.next();
        e.accept(";");
        if (e.t.k) throw Bad();
        if (!execute) return;
        std::vector<const std::vector<Cell> *> sel;
        for (auto &r : t->rows) {
            row = &r;
            nparam = 0;
            Lex c = w;
            if (!where || cond(c)) sel.push_back(&r);
        }
        if (order != "") {
            int k = column(order);
            for (size_t i = 1; i < sel.size(); i++)
                for (size_t j = i; j > 0; j--) {
                    int c = compare((*sel[j - 1])[k], (*sel[j])[k]);
                    if (desc ? c < 0 : c > 0 && c != 2) std::swap(sel[j - 1], sel[j]);
                    else break;
                }
        }
        result.clear();
        if (agg) {
            std::vector<Cell> o;
            for (auto &it : items) {
                Cell best;
                if (it.fn == "count") {
                    best.kind = 1;
                    for (auto *r : sel) best.i += it.col == "" || (*r)[column(it.col)].kind != 0;
                } else if (it.fn == "") {
                    if (!sel.empty()) best = (*sel[0])[column(it.col)];
                } else {
                    for (auto *r : sel) {
                        const Cell &c = (*r)[column(it.col)];
                        if (!c.kind) continue;
                        if (!best.kind || compare(c, best) == (it.fn == "max" ? 1 : -1)) best = c;
                    }
                }
                o.push_back(best);
            }
            result.push_back(o);
        } else {
            for (auto *r : sel) {
                if (limit >= 0 && (int)result.size() >= limit) break;
                std::vector<Cell> o;
                for (auto &it : items) {
                    if (it.fn == "*")
                        for (auto &c : *r) o.push_back(c);
                    else o.push_back((*r)[column(it.col)]);
                }
                result.push_back(o);
            }
        }
    }
};
#endif
} // namespace sqlm
#ifdef SYM_ENGINE
struct sqlite3 {
    sqlm::Db own, &db;
    std::vector<sqlm::Table> temp;
    sqlm::Db &use() {
        db.temp = &temp;
        if (!db.transaction) db.owner = this;
        return db;
    }
    explicit sqlite3(sqlm::Db *d) : db(d ? *d : own) {}
};
// the files; a second connection sees what the first one wrote
static std::vector<std::pair<std::string, sqlm::Db *>> sqlmFiles;
struct sqlite3_stmt {
    sqlm::Query q;
    std::string sql;
    sqlite3 *conn;
    int row = -1;
    sqlite3_stmt(sqlite3 *c, const std::string &s) : q(c->use()), sql(s), conn(c) {}
};
static int sqlmOpen = 0, sqlmStatements = 0;
extern "C" {
const char *sqlite3_errstr(int) { return "description"; }
const char *sqlite3_errmsg(sqlite3 *) { return "message"; }
int sqlite3_open_v2(const char *name, sqlite3 **pp, int, const char *) {
    std::string f = name;
    sqlm::Db *d = nullptr;
    if (f != ":memory:" && f != "") {
        for (auto &x : sqlmFiles)
            if (x.first == f) d = x.second;
        if (!d) sqlmFiles.push_back({f, d = new sqlm::Db});
    }
    *pp = new sqlite3(d);
    sqlmOpen++;
    return 0;
}
int sqlite3_close(sqlite3 *p) {
    if (p->db.transaction && p->db.owner == p) p->db.tables = p->db.before, p->db.transaction = false; // rolled back
    p->db.temp = nullptr;
    delete p;
    sqlmOpen--;
    return 0;
}
int sqlite3_get_autocommit(sqlite3 *p) { return !p->db.transaction; }
int sqlite3_busy_handler(sqlite3 *, int (*)(void *, int), void *) { return 0; }
int sqlite3_prepare_v2(sqlite3 *db, const char *sql, int, sqlite3_stmt **pp, const char **) {
    *pp = nullptr;
    auto *s = new sqlite3_stmt(db, sql);
    try {
        s->q.run(sql, false);
    } catch (sqlm::Bad &) {
        delete s;
        return SQLITE_ERROR;
    }
    sqlmStatements++;
    *pp = s;
    return 0;
}
int sqlite3_finalize(sqlite3_stmt *s) {
    if (s) sqlmStatements--;
    delete s;
    return 0;
}
int sqlite3_step(sqlite3_stmt *s) {
    if (!s) return SQLITE_MISUSE;
    if (s->row < 0) s->conn->use(), s->q.run(s->sql.c_str(), true);
    if (s->q.constraint) return SQLITE_CONSTRAINT;
    if (++s->row < (int)s->q.result.size()) return SQLITE_ROW;
    s->row = -1;
    return SQLITE_DONE;
}
int sqlite3_reset(sqlite3_stmt *s) {
    if (s) s->row = -1;
    return 0;
}
int sqlite3_exec(sqlite3 *db, const char *sql, int (*)(void *, int, char **, char **), void *, char **) {
    return sqlm::script(db->use(), sql) ? 0 : SQLITE_ERROR;
}
int sqlite3_bind_text(sqlite3_stmt *s, int w, const char *p, int n, void (*)(void *)) {
    if (!s || w < 1 || w > sqlm::Query::MAXPARAM) return s ? SQLITE_RANGE : SQLITE_MISUSE;
    s->q.param[w].kind = 3;
    s->q.param[w].s.assign(p, n < 0 ? strlen(p) : n);
    return 0;
}
int sqlite3_bind_double(sqlite3_stmt *s, int w, double v) {
    if (!s || w < 1 || w > sqlm::Query::MAXPARAM) return s ? SQLITE_RANGE : SQLITE_MISUSE;
    s->q.param[w].kind = 2;
    s->q.param[w].d = v;
    return 0;
}
int sqlite3_bind_int(sqlite3_stmt *s, int w, int v) {
    if (!s || w < 1 || w > sqlm::Query::MAXPARAM) return s ? SQLITE_RANGE : SQLITE_MISUSE;
    s->q.param[w].kind = 1;
    s->q.param[w].i = v;
    return 0;
}
double sqlite3_column_double(sqlite3_stmt *s, int f) { return s->q.result[s->row][f].real(); }
int sqlite3_column_int(sqlite3_stmt *s, int f) {
    auto &c = s->q.result[s->row][f];
    return c.kind == 1 ? c.i : c.kind == 2 ? (int)c.d : 0;
}
const unsigned char *sqlite3_column_text(sqlite3_stmt *s, int f) { return (const unsigned char *)s->q.result[s->row][f].s.c_str(); }
}
#endif
