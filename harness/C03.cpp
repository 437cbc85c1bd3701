// C03: configurations as maps, JSON round trip, streamed values.
#include "sym.h"
#include "pairinteraction/ConfParser.hpp"
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>

static std::string text(const char *nm, int maxlen, int minlen = 0) {
    int n = sym_choice((std::string(nm) + "_len").c_str(), minlen, maxlen);
    char b[8] = {0};
    sym_bytes(nm, b, n);
    for (int i = 0; i < n; i++) sym_assume((unsigned char)b[i] < 0x80); // ASCII (one-byte UTF-8)
    return std::string(b, n);
}
typedef std::map<std::string, std::string> Ref;
static void same(const Configuration &c, const Ref &r, const char *where) {
    sym_assert(c.size() == r.size(), "a configuration has a wrong number of keys");
    auto it = r.begin();
    for (auto const &p : c) {
        sym_assert(it != r.end() && p.first == it->first && p.second.str() == it->second, "iterating over a configuration yields another key or value");
        ++it;
    }
    for (auto &p : r) {
        sym_assert(c.count(p.first) == 1, "a key that was set is not counted");
        sym_assert(c[p.first].str() == p.second, "constant access yields another value than was set");
        sym_assert(c.find(p.first) != c.end() && c.find(p.first)->second.str() == p.second, "find does not yield the value that was set");
    }
}
extern "C" void entry_map() {
    Configuration c;
    Ref r;
    std::vector<std::string> keys;
    int n = TIER ? 4 : 3;
    for (int i = 0; i < n; i++) {
        std::string k = text("key", 2), v = text("value", 1);
        c[k] << v;
        r[k] = v;
        keys.push_back(k);
        same(c, r, "set");
    }
    std::string k = text("key", 1);
    bool have = r.count(k) != 0;
    const Configuration &cc = c;
    sym_assert(c.count(k) == (have ? 1 : 0), "a key is miscounted");
    sym_assert((cc.find(k) != cc.end()) == have && (c.find(k) != c.end()) == have, "find misses a key or finds an absent one");
    bool thrown = false;
    try {
        cc[k];
    } catch (std::out_of_range &) {
        thrown = true;
    }
    sym_assert(thrown == !have, "constant access does not throw exactly for the absent keys");
    same(c, r, "constant access");
    if (have) sym_cover("present key");
    else sym_cover("absent key");
}
extern "C" void entry_append() {
    Configuration a, b;
    Ref ra, rb;
    for (int i = 0; i < 2; i++) {
        std::string k = text("ka", 1, 1), v = text("va", 1);
        a[k] << v;
        ra[k] = v;
        std::string k2 = text("kb", 1, 1), v2 = text("vb", 1);
        b[k2] << v2;
        rb[k2] = v2;
    }
    Configuration a0 = a;
    sym_assert(a0 == a && a == a, "a copy of a configuration is not equal to it");
    sym_assert((a == b) == (ra == rb), "equality of configurations is not equality of their contents");
    auto &ret = (a += b);
    for (auto &p : rb) ra[p.first] = p.second;
    sym_assert(&ret == &a, "appending does not return the configuration appended to");
    same(a, ra, "append");
    same(b, rb, "append");
    a += a;
    same(a, ra, "append itself");
    sym_cover("append");
}
// ---- JSON files.  Under the engine the JSON text itself is left out: the property tree that is
// written is the one that is read (Boost's writer and parser are trusted to be inverse to each other).
typedef boost::property_tree::ptree ptree;
static std::map<std::string, ptree> files;
extern "C" void shim_write_json(const std::string &f, const ptree &pt, const std::locale &, bool) { files[f] = pt; }
extern "C" void shim_read_json(const std::string &f, ptree &pt, const std::locale &) { pt = files.at(f); }
static void roundtrip(int n, int klen, int vlen) {
    Configuration c;
    Ref r;
    for (int i = 0; i < n; i++) {
        std::string k = text("key", klen), v = text("value", vlen);
        c[k] << v;
        r[k] = v;
    }
    std::string f = "conf.json";
    const Configuration &cc = c;
    cc.save_to_json(f);
    same(c, r, "save");
    Configuration d;
    d.load_from_json(f);
    same(d, r, "load");
    sym_assert(c == d && d == c, "a configuration differs after saving and loading");
    // loading into a configuration that already has keys: the loaded values win
    Configuration e;
    std::string k = text("other", 1);
    e[k] << "old";
    Ref re{{k, "old"}};
    for (auto &p : r) re[p.first] = p.second;
    e.load_from_json(f);
    same(e, re, "load into");
    sym_cover("json");
}
extern "C" void entry_json1() { roundtrip(1, TIER ? 4 : 3, 2); }
extern "C" void entry_json2() { roundtrip(2, TIER ? 2 : 1, 1); }
extern "C" void entry_json3() { roundtrip(TIER ? 3 : 2, 1, 0); }
extern "C" void entry_json_words() {
    static const char *w[] = {"a.b", "a", "a.b.c", "", ".", "species1", "a/b", "\"q\\"};
    Configuration c;
    int i = sym_choice("i", 0, 7), j = sym_choice("j", 0, 7), k = sym_choice("k", 0, 7);
    Ref r;
    for (int x : {i, j, k}) {
        std::string v = std::string("v") + char('0' + x) + "\n\t\"\\/.";
        c[w[x]] << v;
        r[w[x]] = v;
    }
    c.save_to_json("w.json");
    Configuration d;
    d.load_from_json("w.json");
    same(d, r, "words");
    sym_cover("words");
}
// ---- values
extern "C" void entry_value_text() {
    Configuration c;
    std::string t = text("text", 3);
    auto &v = c["x"];
    v << t;
    std::string o = "before";
    v >> o;
    sym_assert(o == t, "a text is not read back unchanged");
    const auto &cv = v;
    std::string o2;
    cv >> o2;
    sym_assert(o2 == t && v.str() == t, "a text is not read back unchanged from a constant value");
    bool nul = false;
    for (char ch : t) nul = nul || ch == 0;
    if (!nul) {
        c["y"] << t.c_str();
        sym_assert(c["y"].str() == t && c["y"] == c["x"], "a C string is not stored unchanged");
        sym_cover("C string");
    }
    c["z"] << c["x"];
    sym_assert(c["z"].str() == t, "streaming a value into another changes it");
    cv >> c["w"];
    sym_assert(c["w"].str() == t, "streaming a constant value out changes it");
    v >> c["u"];
    sym_assert(c["u"].str() == t && v.str() == t, "streaming a value out changes it");
    std::string t2 = text("other", 1);
    v << t2;
    sym_assert(v.str() == t2, "streaming in appends to the old text instead of replacing it");
    sym_assert((c["x"] == c["z"]) == (t == t2), "equality of values is not equality of their texts");
}
extern "C" void entry_value_number() {
    Configuration c;
    static const long big[] = {0x7fffffffL, -0x7fffffffL - 1, 1000000000, 32767, -32768, 65536, 1000000, 999999, -1000000};
    int i = sym_choice("i", 0, 9);
    int v = i == 9 ? sym_concretize(sym_int("v", -130, 130)) : (int)big[i];
    c["i"] << v;
    int o = 77;
    c["i"] >> o;
    sym_assert(o == v, "an int is not read back unchanged");
    const Configuration &cc = c;
    o = 77;
    cc["i"] >> o;
    sym_assert(o == v, "an int is not read back unchanged from a constant configuration");
    size_t z = i == 9 ? (size_t)(v + 130) : i == 0 ? ~(size_t)0 : i == 1 ? (size_t)1 << 63 : (size_t)big[i] & 0x7fffffff;
    c["z"] << z;
    size_t oz = 5;
    c["z"] >> oz;
    sym_assert(oz == z, "a size is not read back unchanged");
    oz = 5;
    cc["z"] >> oz;
    sym_assert(oz == z, "a size is not read back unchanged from a constant configuration");
    const auto ci = cc["i"], cz = cc["z"];
    o = 77, oz = 5;
    ci >> o;
    cz >> oz;
    sym_assert(o == v && oz == z, "an int or size is not read back unchanged from a constant value");
    if (i == 9) {
        float f = v / 2.f, of = 0;
        double d = v / 4., od = 0, od2 = 0;
        c["f"] << f;
        c["f"] >> of;
        c["d"] << d;
        c["d"] >> od;
        cc["d"] >> od2;
        sym_assert(of == f && od == d && od2 == d, "a short decimal number is not read back unchanged");
        float of2 = 0;
        cc["f"] >> of2;
        sym_assert(of2 == f, "a short decimal number is not read back unchanged from a constant configuration");
        const auto cf = cc["f"], cd = cc["d"];
        of2 = od2 = 0;
        cf >> of2;
        cd >> od2;
        sym_assert(of2 == f && od2 == d, "a short decimal number is not read back unchanged from a constant value");
        sym_cover("small numbers");
    } else
        sym_cover("extreme numbers");
}
