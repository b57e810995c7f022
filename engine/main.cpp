// lsym: symbolic execution of LLVM bitcode with z3 deciding every branch and assertion.
#include "executor.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string jq(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
template <class M> static std::string jmap(const M& m) {
    std::string r = "{";
    for (auto& kv : m) { if (r.size() > 1) r += ", "; r += jq(kv.first) + ": " + std::to_string(kv.second); }
    return r + "}";
}
static std::string inputsJ(const std::vector<std::pair<std::string, int64_t>>& v) {
    std::string r = "[";
    for (auto& p : v) { if (r.size() > 1) r += ", "; r += "[" + jq(p.first) + ", " + std::to_string(p.second) + "]"; }
    return r + "]";
}
static void writeResult(Executor& ex, const std::string& path, double wall, const std::string& fatal = "") {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    Results& r = ex.res;
    fprintf(f, "{\"fatal\": %s, \"paths\": %lu, \"infeasible\": %lu, \"incomplete\": %lu, \"pending\": %lu, \"forks\": %lu, \"instrs\": %lu, \"asserts\": %lu, \"assert_queries\": %lu,\n",
        jq(fatal).c_str(), r.paths, r.infeasible, r.incomplete, r.pending, r.forks, r.instrs, r.asserts, r.assertQueries);
    fprintf(f, "\"queries\": %lu, \"model_hits\": %lu, \"cache_hits\": %lu, \"z3_calls\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"bounds\": %lu, \"rewritten\": %lu, \"confirmed\": %lu, \"contradicted\": %lu, \"z3_time\": %.3f, \"max_query\": %.3f, \"wall\": %.3f,\n",
        gStats.queries, gStats.modelHits, gStats.cacheHits, gStats.z3calls, gStats.sat, gStats.unsat, gStats.unknown, gStats.bounds, gStats.rewritten, gStats.confirmed, gStats.contradicted, gStats.z3time, gStats.maxq, wall);
    fprintf(f, "\"incomplete_why\": %s,\n\"covers\": %s,\n\"asserted\": %s,\n", jmap(r.incompleteWhy).c_str(), jmap(r.covers).c_str(), jmap(r.asserted).c_str());
    fprintf(f, "\"symbolic\": {");
    bool first = true;
    for (auto& kv : r.symbolic) { fprintf(f, "%s%s: [%ld, %ld]", first ? "" : ", ", jq(kv.first).c_str(), (long)kv.second.first, (long)kv.second.second); first = false; }
    fprintf(f, "},\n\"functions\": [");
    first = true;
    for (auto& s : r.functions) { fprintf(f, "%s%s", first ? "" : ", ", jq(s).c_str()); first = false; }
    fprintf(f, "],\n\"errors\": [");
    first = true;
    for (auto& e : r.errors) {
        fprintf(f, "%s\n{\"kind\": %s, \"msg\": %s, \"where\": %s, \"stack\": %s, \"inputs\": %s}", first ? "" : ",", jq(e.kind).c_str(), jq(e.msg).c_str(), jq(e.where).c_str(), jq(e.stack).c_str(), inputsJ(e.inputs).c_str());
        first = false;
    }
    fprintf(f, "],\n\"samples\": [");
    first = true;
    for (auto& v : r.samples) { fprintf(f, "%s%s", first ? "" : ",\n", inputsJ(v).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
}

static int gargc; static char** gargv; static int gret;
static void* realMain(void*) {
    Options o;
    std::string bc;
    std::vector<std::string> entries;
    for (int i = 1; i < gargc; i++) {
        std::string a = gargv[i];
        auto nx = [&]() { return std::string(gargv[++i]); };
        if (a == "--entry") entries.push_back(nx());
        else if (a == "--time") o.timeLimit = atof(nx().c_str());
        else if (a == "--out") o.out = nx();
        else if (a == "--jobs") o.jobs = atoi(nx().c_str());
        else if (a == "--max-instr") o.maxInstr = atoll(nx().c_str());
        else if (a == "--max-errors") o.maxErrors = atoi(nx().c_str());
        else if (a == "--max-depth") o.maxDepth = atoi(nx().c_str());
        else if (a == "--samples") o.samples = atoi(nx().c_str());
        else if (a == "--rfast") o.rFast = atoll(nx().c_str());
        else if (a == "--rslow") o.rSlow = atoll(nx().c_str());
        else bc = a;
    }
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto m = llvm::parseIRFile(bc, err, ctx);
    if (!m) { err.print("lsym", llvm::errs()); gret = 3; return nullptr; }
    Executor ex(m.get(), o);
    double t0 = nowSec();
    if (!ex.setup()) {
        fprintf(stderr, "setup failed: %s\n", ex.setupError.c_str());
        for (auto& e : entries) writeResult(ex, o.out + "/" + e + ".0.json", 0, "setup: " + ex.setupError);
        gret = 3; return nullptr;
    }
    double tSetup = nowSec() - t0;
    if (getenv("LSYM_TRACE")) fprintf(stderr, "setup %.2fs\n", tSetup);
    // one forked process per entry keeps the entries independent; a process with pending paths hands half of
    // them to a new process whenever fewer processes than jobs are running
    auto* running = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    running->store((int)entries.size());
    for (auto& e : entries) {
        pid_t p = fork();
        if (p) continue;
        double t1 = nowSec();
        ex.deadline = t0 + o.timeLimit;
        StateP s = ex.initial(e);
        if (!s) { writeResult(ex, o.out + "/" + e + ".0.json", 0, ex.setupError); _exit(0); }
        ex.solver.reset(new Solver());
        ex.solver->setLimits(o.rFast, o.rSlow);
        ex.push0(std::move(s));
        std::string name = "0";
        unsigned kids = 0;
        ex.lastShare = t1;
        ex.share = [&]() {
            int n = running->load();
            do if (n >= (int)o.jobs) return false; while (!running->compare_exchange_weak(n, n + 1));
            std::deque<StateP> mine, theirs;
            // every other one of the pending states, from the shallowest on
            for (size_t i = 0; i < ex.work.size(); i++) (i % 2 ? mine : theirs).push_back(std::move(ex.work[i]));
            pid_t q = fork();
            if (q < 0) running->fetch_sub(1);
            if (q == 0) {
                ex.work = std::move(theirs);
                ex.res = Results();
                gStats = SolverStats();
                ex.solver.release();
                ex.solver.reset(new Solver());
                ex.solver->setLimits(o.rFast, o.rSlow);
                name = std::to_string(getpid()); kids = 0; t1 = nowSec(); ex.lastShare = t1;
                return true;
            }
            if (q < 0) { for (size_t i = 0; i < theirs.size(); i++) mine.push_back(std::move(theirs[i])); }
            else kids++;
            ex.work = std::move(mine);
            return true;
        };
        ex.explore();
        ex.collectFunctions();
        ex.lines(e + "." + std::to_string(getpid()));
        writeResult(ex, o.out + "/" + e + "." + name + ".json", nowSec() - t1);
        running->fetch_sub(1);
        while (kids) {
            int st; if (wait(&st) <= 0) break;
            kids--;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(stderr, "lsym: part of %s failed (status %d)\n", e.c_str(), st);
        }
        _exit(0);
    }
    for (;;) {
        int st; pid_t p = wait(&st);
        if (p <= 0) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(stderr, "lsym: child %d failed (status %d)\n", p, st);
    }
    gret = 0;
    return nullptr;
}

int main(int argc, char** argv) {
    gargc = argc; gargv = argv;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, size_t(1) << 30);
    pthread_t th;
    if (pthread_create(&th, &at, realMain, nullptr)) { realMain(nullptr); return gret; }
    pthread_join(th, nullptr);
    fflush(stdout);
    _exit(gret);
}
