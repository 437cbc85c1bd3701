// pisym driver: runs the entries of a bitcode module and writes a JSON report.
#include "interp.h"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

std::string gOutDir, gEntry;
int gEntryIdx = 0;
extern std::map<std::string, int> labelIdx;
void addRedirect(const std::string &from, const std::string &to);
void flushStats();
void runAll();
void initModule();
void runCtor(Function *F);
extern long gMaxInstr, gRlimit, gExtTimeout;

static std::string js(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?';
        else o += c;
    }
    return o + "\"";
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> v;
    std::string c;
    for (char x : s) {
        if (x == ',') { if (!c.empty()) v.push_back(c); c.clear(); }
        else c += x;
    }
    if (!c.empty()) v.push_back(c);
    return v;
}
// labels of sym_cover calls that are statically reachable from the entry
static void labelsFrom(Function *F, std::set<Function *> &seen, std::set<std::string> &out) {
    if (!seen.insert(F).second) return;
    auto scan = [&](auto &&self, Value *v, int d) -> void {
        if (auto *f = dyn_cast<Function>(v)) { labelsFrom(f, seen, out); return; }
        if (d > 4) return;
        if (auto *g = dyn_cast<GlobalVariable>(v)) {
            if (g->isConstant() && g->hasInitializer()) self(self, g->getInitializer(), d + 1);
            return;
        }
        if (auto *c = dyn_cast<Constant>(v))
            for (auto &o : c->operands()) self(self, o.get(), d + 1);
    };
    for (auto &bb : *F)
        for (auto &I : bb) {
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                auto *cf = dyn_cast_or_null<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (cf && cf->getName() == "sym_cover") {
                    auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
                    if (g && g->hasInitializer())
                        if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) out.insert(cd->getAsCString().str());
                    continue;
                }
            }
            for (auto &o : I.operands())
                if (isa<Constant>(o.get())) scan(scan, o.get(), 0);
        }
}
int main(int argc, char **argv) {
    std::string file, entries, redirects;
    int jobs = 8;
    double timeout = 600;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (s == "--out") gOutDir = nx();
        else if (s == "--entries") entries = nx();
        else if (s == "--timeout") timeout = std::stod(nx());
        else if (s == "--jobs") jobs = std::stoi(nx());
        else if (s == "--redirects") redirects = nx();
        else if (s == "--maxinstr") gMaxInstr = std::stol(nx());
        else if (s == "--hashbits") { extern int gHashBits; gHashBits = std::stoi(nx()); }
        else if (s == "--rlimit") gRlimit = std::stol(nx());
        else if (s == "--exttimeout") gExtTimeout = std::stol(nx());
        else file = s;
    }
    setpgid(0, 0);
    struct rlimit rl = {512ul << 20, 512ul << 20};
    setrlimit(RLIMIT_STACK, &rl);
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(file, err, C);
    if (!mod) {
        err.print("pisym", errs());
        return 3;
    }
    M = mod.get();
    static DataLayout dl(M);
    DL = &dl;
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SH->tokens = jobs;
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    initHandlers();
    if (!redirects.empty()) {
        std::ifstream f(redirects);
        std::string a, b;
        while (f >> a >> b) addRedirect(a, b);
    }
    std::vector<Function *> fs;
    for (auto &e : split(entries)) {
        Function *F = M->getFunction(e);
        if (!F || F->isDeclaration()) {
            fprintf(stderr, "pisym: entry %s not found\n", e.c_str());
            return 3;
        }
        fs.push_back(F);
    }
    std::set<std::string> labels;
    for (auto *F : fs) {
        std::set<Function *> seen;
        labelsFrom(F, seen, labels);
    }
    for (auto &l : labels) {
        int k = labelIdx.size();
        if (k < MAXLAB) labelIdx[l] = k;
    }
    initModule();
    double t0 = now();
    std::vector<pid_t> kids;
    std::map<pid_t, size_t> who;
    std::vector<double> elapsed(fs.size(), -1), started(fs.size(), 0);
    size_t next = 0;
    bool timedOut = false;
    std::vector<long> stat(fs.size(), 0);
    double violT = 0;
    while (next < fs.size() || !who.empty()) {
        bool progressed = false;
        if (next < fs.size() && !SH->stop) {
            int t = SH->tokens.load();
            if (t > 0 && SH->tokens.compare_exchange_strong(t, t - 1)) {
                fflush(stdout), fflush(stderr);
                pid_t p = fork();
                if (p == 0) {
                    gEntry = fs[next]->getName().str();
                    gEntryIdx = next;
                    Thread *T = new Thread;
                    T->vc.resize(1, 1);
                    threads.push_back(T);
                    cur = T;
                    if (GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors")) {
                        std::vector<std::pair<uint64_t, Function *>> cs;
                        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                            for (auto &o : ca->operands()) {
                                auto *st = cast<ConstantStruct>(o.get());
                                if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
                                    cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
                            }
                        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
                        for (auto &c : cs) runCtor(c.second);
                    }
                    pushCall(*T, getFunc(fs[next]), {}, nullptr);
                    runAll();
                    _exit(0);
                }
                started[next] = now();
                who[p] = next++;
                progressed = true;
            }
        } else if (next < fs.size() && SH->stop)
            next = fs.size();
        int st;
        pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            auto it = who.find(p);
            if (it == who.end()) continue;
            elapsed[it->second] = now() - started[it->second];
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                SH->errors++;
                if (SH->errlock.fetch_add(1) == 0) snprintf(SH->errmsg, sizeof SH->errmsg, "entry %s died (status %d)", fs[it->second]->getName().str().c_str(), st);
            }
            who.erase(it);
            progressed = true;
        }
        double t = now();
        if (SH->viols.load() && !violT) violT = t;
        if (violT && t - violT > 20 && !SH->stop) SH->stop = 1;
        if (SH->errors.load() && !SH->viols.load() && !violT && !SH->stop) {
            // give other paths a moment to find a violation, then stop
            static double e0 = 0;
            if (!e0) e0 = t;
            if (t - e0 > 30) SH->stop = 3;
        }
        if (t - t0 > timeout && !SH->stop) {
            SH->stop = 2;
            timedOut = true;
        }
        if ((SH->stop == 2 && t - t0 > timeout + 10) || (violT && t - violT > 45) || (SH->stop == 3 && t - t0 > timeout)) {
            for (auto &k : who) (void)k;
            break;
        }
        if (!progressed) usleep(2000);
    }
    // stop what is left (our process group only)
    if (!who.empty()) {
        signal(SIGTERM, SIG_IGN);
        kill(0, SIGTERM);
        usleep(100000);
        while (waitpid(-1, nullptr, WNOHANG) > 0) {}
    }
    std::ofstream o(gOutDir + "/result.json");
    o << "{\n\"time\": " << now() - t0 << ",\n\"timeout\": " << (timedOut ? "true" : "false") << ",\n";
    o << "\"killed\": " << (who.empty() ? "false" : "true") << ",\n";
#define S(x) o << "\"" #x "\": " << SH->x.load() << ",\n";
    S(paths) S(cut) S(forks) S(instrs) S(queries) S(qsat) S(qunsat) S(qunk) S(solver_us) S(extq) S(asserts) S(assertq) S(transitions) S(errors) S(viols)
    o << "\"errmsg\": " << js(SH->errmsg) << ",\n\"entries\": {";
    for (size_t i = 0; i < fs.size(); i++) o << (i ? ", " : "") << js(fs[i]->getName().str()) << ": " << elapsed[i];
    o << "},\n\"entry_paths\": {";
    for (size_t i = 0; i < fs.size(); i++) o << (i ? ", " : "") << js(fs[i]->getName().str()) << ": " << SH->entryPaths[i & 255].load();
    o << "},\n\"labels\": {";
    int n = 0;
    for (auto &l : labelIdx) o << (n++ ? ", " : "") << js(l.first) << ": " << SH->lab[l.second].load();
    o << "},\n\"samples\": [";
    for (int i = 0; i < std::min(8, SH->nsamples.load()); i++) o << (i ? ", " : "") << js(SH->samples[i]);
    o << "],\n\"functions\": [";
    n = 0;
    int id = 0;
    for (auto &F : *M) {
        int k = id++;
        if (k >= MAXFN || !SH->fn[k].load()) continue;
        std::string file;
        int line = 0;
        if (auto *sp = F.getSubprogram()) {
            file = sp->getFilename().str();
            if (file.size() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            line = sp->getLine();
        }
        o << (n++ ? ",\n" : "\n") << "[" << js(demangle(F.getName().str())) << ", " << js(file) << ", " << line << "]";
    }
    o << "]\n}\n";
    o.close();
    fflush(stdout);
    _exit(0);
}
