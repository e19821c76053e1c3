#include "exec.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
using namespace arv;

int main(int argc, char** argv) {
    std::string file, entry, out; double budget = 600; unsigned timeout = 20000; std::string dump; std::vector<std::string> cuts; bool trace = false; uint64_t maxVisits = 100000, unroll = 24; std::set<std::string> noContract;
    bool noLoops = false; std::string markOut; bool list = false, en_forkSelect = false; std::string poolFile; int jobs = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--timeout") timeout = atoi(nx().c_str()); else if (a == "--trace") trace = true; else if (a == "--dump") dump = nx(); else if (a == "--cut") cuts.push_back(nx());
        else if (a == "--max-visits") maxVisits = atoll(nx().c_str()); else if (a == "--fork-select") en_forkSelect = true; else if (a == "--unroll") unroll = atoll(nx().c_str()); else if (a == "--no-contract") noContract.insert(nx()); else if (a == "--pool") poolFile = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--list") list = true; else if (a == "--no-loops") noLoops = true; else if (a == "--mark") markOut = nx(); else file = a;
    }
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(file, err, ctx);
    if (!m) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    if (list) { for (auto& f : *m) if (!f.isDeclaration() && f.getName().starts_with("vh_")) printf("%s\n", f.getName().str().c_str()); return 0; }
    Engine en(*m); en.useLoops = !noLoops;
    if (!markOut.empty()) { // keep the variables of functions with loop invariants in memory, under their source names
        en.readAnnotations();
        for (auto& f : *m) if (!f.isDeclaration()) for (auto& sp : en.loopSpecs) if (Engine::globMatch(demangle(f.getName().str()), sp->glob)) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::OptimizeNone); }
        std::error_code ec; raw_fd_ostream os(markOut, ec); WriteBitcodeToFile(*m, os);
        return 0;
    }
    en.budget = budget; en.S.timeoutMs = timeout; en.trace = trace; en.maxVisits = maxVisits; en.unroll = unroll; en.forkSelect = en_forkSelect; en.disabledContracts = noContract;
    for (auto& c : cuts) en.cutNames.insert(c);
    en.S.keepProved = !dump.empty();
    const Function* f = m->getFunction(entry);
    if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    en.readAnnotations(); en.initExt();
    int pfd[2] = {-1, -1};
    if (jobs > 1) {
        void* p = MAP_FAILED;
        if (!poolFile.empty()) { int fd = open(poolFile.c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, 64) == 0) p = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
        else p = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p != MAP_FAILED && pipe(pfd) == 0) { en.pool = (std::atomic<int>*)p; en.pool->fetch_add(1); en.poolMax = jobs; }
    }
    en.runMain(f);
    if (en.pool) en.pool->fetch_sub(1);
    if (en.isChild && !out.empty()) out += "." + std::to_string(getpid());
    { std::vector<std::pair<uint64_t, std::string>> v; for (auto& p : en.forkAt) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; ++i) fprintf(stderr, "FORKS %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
    std::string s = "{";
    char b[256];
    auto num = [&](const char* k, double v) { snprintf(b, 256, "\"%s\":%.6g,", k, v); s += b; };
    num("paths", en.paths); num("steps", en.steps); num("obligations", en.oblig); num("discharged", en.discharged); num("trivial", en.trivial);
    num("memory_checks", en.memObl); num("memory_trivial", en.memTriv); num("queries", en.S.queries); num("cache_hits", en.S.cacheHits); num("solver_s", en.S.secs); num("slowest_query_s", en.S.slowest);
    num("wall_s", en.elapsed()); num("interval_decisions", en.ivHits); num("undefs", en.undefs); num("unknown", en.S.unknowns); num("loops_cut", en.loopsCut); num("invariants", en.invCount);
    s += "\"labels\":{"; bool first = true;
    for (auto& p : en.byLabel) { snprintf(b, 256, "[%llu,%llu]", (unsigned long long)p.second.first, (unsigned long long)p.second.second); s += std::string(first ? "" : ",") + "\"" + Engine::jesc(p.first) + "\":" + b; first = false; }
    s += "},\"covers\":{"; first = true;
    for (auto& n : en.coverNames) en.covers[n];
    for (auto& p : en.covers) { s += std::string(first ? "" : ",") + "\"" + Engine::jesc(p.first) + "\":" + std::to_string(p.second); first = false; }
    auto strs = [&](const char* k, auto& v) { s += std::string("],\"") + k + "\":["; bool f1 = true; for (auto& x : v) { s += std::string(f1 ? "" : ",") + "\"" + Engine::jesc(x) + "\""; f1 = false; } };
    s += "},\"bounded_loops\":{"; first = true;
    for (auto& p : en.boundedLoops) { s += std::string(first ? "" : ",") + "\"" + Engine::jesc(p.first) + "\":" + std::to_string(p.second); first = false; }
    s += "},\"dummy\":[";
    strs("unsupported", en.unsup);
    std::vector<std::string> uc, ue, fe; for (auto& p : en.usedContracts) uc.push_back(p.first); for (auto& p : en.usedExt) ue.push_back(p.first);
    std::vector<std::string> ul(en.usedLoops.begin(), en.usedLoops.end());
    for (auto& p : en.fnsEntered) if (p.find("arg_router::") != std::string::npos && p.rfind("std::", 0) != 0) fe.push_back(p.size() > 300 ? p.substr(0, 300) + "..." : p);
    strs("contracts_used", uc); strs("externals_used", ue); strs("functions", fe); strs("signature_mismatch", en.sigMismatch); strs("loop_notes", en.loopNotes); strs("loops_with_invariant", ul);
    s += "],\"failures\":["; first = true;
    for (auto& fl : en.fails) {
        if (!first) s += ","; first = false;
        s += "{\"label\":\"" + Engine::jesc(fl.label) + "\",\"kind\":\"" + fl.kind + "\",\"where\":\"" + Engine::jesc(fl.where) + "\",\"replayable\":" + (fl.replayable ? "true" : "false") + ",\"inputs\":" + fl.inputs + ",\"stack\":[";
        bool f2 = true; for (auto& q : fl.stack) { s += std::string(f2 ? "" : ",") + "\"" + Engine::jesc(q) + "\""; f2 = false; }
        s += "]}";
    }
    s += "],\"entry\":\"" + entry + "\"}";
    if (!dump.empty()) { int n = 0; for (auto& q : en.S.proved) { std::ofstream o(dump + "/q" + std::to_string(n++) + ".smt2"); o << en.S.smt2(q.first); if (n > 2000) break; } }
    if (out.empty()) puts(s.c_str()); else { std::ofstream o(out); o << s << "\n"; }
    fflush(stdout);
    if (en.pool && !en.isChild) { close(pfd[1]); char ch; while (read(pfd[0], &ch, 1) > 0) {} } // until every worker has ended
    _exit(0);
}
