// The environment a run of the program meets: heap, clocks, storage, standard output.
#include "app.h"
#include <signal.h>
#include <errno.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>

static std::string put(const Graph& g) { scratchWrite("app.xml", g.xml()); return scratch() + "/app.xml"; }
struct Req { std::vector<std::string> args; bool sdf = false, strong = false, dse = false; };
static std::vector<Req> requests() {
    std::vector<Req> r;
    for (const char* a : {"KPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "NKPeriodicThroughput", "SPeriodicThroughput", "ASPeriodicThroughput", "EG1", "EGN", "LP1", "LPN", "REALLP1",
                          "SymbExec", "CycleCount", "CycleDetection", "PrintInfos", "PrintXML", "PrintGraph", "PrintKiter", "PrintKPeriodicScheduling", "1PeriodicScheduling", "SPeriodicScheduling", "SPeriodicSizing"}) r.push_back({{"-a", a}});
    for (const char* a : {"deGrooteThroughput", "deGrooteCleanThroughput"}) r.push_back({{"-a", a}, true});
    r.push_back({{"-a", "ASAPScheduling"}, false, true});
    r.push_back({{"-a", "PeriodicSizing", "-pPERIOD=100"}});
    r.push_back({{"-a", "PeriodicSizing", "-pPERIOD=40", "-pILP=1"}});
    r.push_back({{"-a", "ThroughputBufferingDSE"}, false, false, true});
    for (const char* m : {"-pSYMB_EXEC_ORIGINAL=1", "-pSYMB_EXEC_CORRECTED=1", "-pCOARSE=2"}) r.push_back({{"-a", "ThroughputBufferingDSE", m}, false, false, true});
    r.push_back({{"-a", "PeriodicDSE"}, false, false, true});
    r.push_back({{"-a", "SPeriodicDSE"}, false, false, true});
    r.push_back({{"-a", "AddVBuffers", "-pPERIOD=50", "-a", "PrintXML"}});
    r.push_back({{"-a", "AddVBuffers", "-pMUL=3", "-a", "KPeriodicThroughput"}});
    r.push_back({{"-a", "RemoveReentrancy", "-a", "PrintXML"}});
    r.push_back({{"-a", "PartialExpansion", "-a", "PrintXML"}});
    r.push_back({{"-a", "createNoC", "-a", "moduloMapping", "-a", "xyRouting", "-a", "PrintMapping"}});
    r.push_back({{"-a", "createNoC", "-a", "moduloMapping", "-a", "xyRouting", "-a", "ModelNoCConflictFreeCommunication", "-a", "PrintXML"}});
    r.push_back({{"-a", "SymbolicExecutionWP", "-ppsize=2"}, false, true});
    r.push_back({{"-a", "SingleOutput", "-a", "PrintXML"}});
    r.push_back({{"-a", "FixedOffsetBufferSizing", "-pOFFSET=AVERAGE", "-pPERIOD=200"}});
    r.push_back({{"-a", "BackPressureSizing", "-pPERIOD=200"}});
    return r;
}
// Explorations by symbolic execution take long on wide rates.
static void modest(GenOpt& o, const Req& r) { if (r.dse && r.args.size() > 2) { o.spice = 25; o.extraChan = 1; o.maxPhases = 2; o.maxQ = 3; o.maxRate = 2; o.selfloops = false; o.maxTotal = 8; } }
// What an answer says: everything printed, except the measured durations.
static std::string canon(const std::string& s) {
    std::string o;
    for (auto& l : splitLines(s)) {
        if (l.find("Execution Time") != l.npos || l.find("Scheduling Size") != l.npos) continue;
        ll z; double t; char q; if (sscanf(l.c_str(), "%lld;%lf;%c", &z, &t, &q) == 3) { size_t e = l.rfind(';'); if (e != l.npos && e) e = l.rfind(';', e - 1); o += l.substr(0, e) + "\n"; continue; }   // the last two columns are durations
        o += l + "\n";
    }
    return o;
}
SCENARIO(C17, same_answer, 6) {
    auto rq = requests(); const Req& r = c.tp.pick(rq);
    GenOpt o; o.maxTasks = r.dse ? 3 : 6; o.strong = r.strong || r.dse || c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); if (r.sdf) o.maxPhases = 1; if (r.dse) { o.maxTotal = 14; o.maxDur = 3; } modest(o, r);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    std::string f = put(g), what; c.say("application: " + g.brief()); std::vector<std::string> args = {"-f", f}; for (auto& a : r.args) { args.push_back(a); what += a + " "; }
    c.say("request: " + what); c.sample = g.brief() + what;
    EnvPlan a; std::string first; CallResult ra;
    for (int k = 0; k < 2; k++) {
        EnvPlan e = benignEnv(c.tp); if (k == 0) { ull s = e.rndSeed; e = EnvPlan(); e.rnd = 3; e.rndSeed = s; } else { e.rnd = a.rnd; e.rndSeed = a.rndSeed; if (!e.guard && c.tp.chance(1, 3)) e.guard = 4; }
        CallResult x = progcall(e, args); c.absorb(x); std::string out = canon(x.out);
        c.say("environment: " + e.str() + " -> " + x.how());
        if (x.sig == SIGXCPU || x.sig == SIGKILL) throw Skip{"too expensive"};
        if (!k) { a = e; ra = x; first = out; continue; }
        c.require(x.sig == ra.sig && x.code == ra.code, "outcome", what + "ended with " + ra.how() + " in one environment and " + x.how() + " in another");
        if (out != first) { auto A = splitLines(first), B = splitLines(out); size_t i = 0; while (i < A.size() && i < B.size() && A[i] == B[i]) i++;
            c.fail("answer", what + "answers differently in another environment: '" + (i < A.size() ? A[i] : "") + "' / '" + (i < B.size() ? B[i] : "") + "'"); }
    }
}

// ---------------------------------------------------------------- storage the application is read from
static std::string reqName(const std::vector<std::string>& a) { std::string w; for (auto& x : a) w += x + " "; return w; }
static Req drawRequest(Ctx& c, Graph& g) {
    auto rq = requests(); Req r = c.tp.pick(rq);
    GenOpt o; o.maxTasks = r.dse ? 2 : 5; o.strong = r.strong || r.dse || c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); if (r.sdf) o.maxPhases = 1; if (r.dse) { o.maxTotal = 8; o.maxDur = 3; } modest(o, r);
    g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    return r;
}
static CallResult reference(Ctx& c, const EnvPlan& e, const std::vector<std::string>& args) {
    CallResult r = progcall(e, args); c.absorb(r);
    if (r.sig || r.code) throw Skip{"refused without any fault"};
    return r;
}
static bool disk(const CallResult& r) { return r.sig == SIGXCPU || r.sig == SIGKILL; }

SCENARIO(C15, faulty_input, 6) {
    Graph g; Req r = drawRequest(c, g); std::string f = put(g); size_t len = g.xml().size();
    std::vector<std::string> args = {"-f", f}; args.insert(args.end(), r.args.begin(), r.args.end()); std::string what = reqName(r.args);
    c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    EnvPlan e = benignEnv(c.tp); CallResult ref = reference(c, e, args); std::string want = canon(ref.out);
    EnvPlan x = e; bool must = false; std::string fk;
    switch (c.tp.draw(6)) {
        case 0: x.reads.push_back({IO_SHORT, 1 + (ll)c.tp.draw(c.tp.chance(1, 2) ? 8 : 300)}); must = true; fk = "short reads"; break;
        case 1: x.reads.push_back({IO_EOF, (ll)c.tp.draw((uint32_t)len + 1)}); fk = "truncated input"; break;
        case 2: x.reads.push_back({IO_SHORT, 1 + (ll)c.tp.draw((uint32_t)len)}); x.reads.push_back({IO_EIO, (ll)c.tp.draw((uint32_t)(len / x.reads[0].at + 3))}); fk = "input error"; break;
        case 3: x.openFailAt = c.tp.draw(3); { static const int en[] = {EMFILE, EACCES, EIO, ENOENT}; x.openFail = en[c.tp.draw(4)]; } fk = "open failure"; break;
        case 4: x.reads.push_back({IO_SHORT, 1 + (ll)c.tp.draw((uint32_t)len)}); x.reads.push_back({IO_EIO_ONCE, (ll)c.tp.draw((uint32_t)(len / x.reads[0].at + 3))}); fk = "passing input error"; break;
        default: x.reads.push_back({IO_SHORT, 1 + (ll)c.tp.draw((uint32_t)len)}); x.reads.push_back({IO_EINTR, (ll)c.tp.draw(4)}); fk = "interrupted read"; break;
    }
    CallResult y = progcall(x, args); c.absorb(y); c.say(fk + ": " + x.str() + " -> " + y.how()); c.cnt["fault " + fk]++;
    if (disk(y)) throw Skip{"too expensive"};
    if (must) c.require(!y.sig && !y.code, "refused", what + "gives no answer when its input arrives in pieces: " + y.how());
    c.require(y.sig != SIGSEGV && y.sig != SIGBUS, "crash", what + "crashes on " + fk + ": " + y.how());
    if (!y.sig && !y.code && canon(y.out) != want) c.fail("answer", what + "exits with success after " + fk + " but its answer differs from that of the whole application");
    c.cnt[y.sig || y.code ? "refused" : "answered"]++;
}
// a file written by the program while the machine goes down, then read after the restart
SCENARIO(C15, torn_file, 2) {
    Graph g; Req r = drawRequest(c, g); std::string f = put(g), out = scratch() + "/saved.xml", what = reqName(r.args); ::unlink(out.c_str());
    c.say("application: " + g.brief()); c.say("saved, cut by a crash, then read for: " + what); c.sample = g.brief() + what;
    EnvPlan e = benignEnv(c.tp); reference(c, e, {"-f", f, "-a", "PrintXML", "-pfilename=" + out}); std::string all = scratchRead("saved.xml");
    c.require(!all.empty(), "empty", "PrintXML -pfilename= exits with success but saves nothing");
    std::vector<std::string> args = {"-f", out}; args.insert(args.end(), r.args.begin(), r.args.end());
    CallResult ref = reference(c, e, args); std::string want = canon(ref.out);
    size_t keep = c.tp.draw((uint32_t)all.size() + 1); std::string torn = all.substr(0, keep); if (c.tp.chance(1, 3) && keep) { size_t from = keep - c.tp.draw((uint32_t)std::min<size_t>(keep, 64)); torn += std::string(keep - from, '\0'); c.cnt["fault lost block"]++; }
    scratchWrite("saved.xml", torn); c.say(fmt("durable: %zu of %zu bytes", torn.size(), all.size())); c.cnt["fault torn file"]++;
    CallResult y = progcall(e, args); c.absorb(y);
    if (disk(y)) throw Skip{"too expensive"};
    c.require(y.sig != SIGSEGV && y.sig != SIGBUS, "crash", what + "crashes on a file cut by a crash: " + y.how());
    if (!y.sig && !y.code && canon(y.out) != want) c.fail("answer", what + fmt("exits with success on a file cut after %zu of %zu bytes but its answer differs from that of the whole application", torn.size(), all.size()));
    c.cnt[y.sig || y.code ? "refused" : "answered"]++;
}

// ---------------------------------------------------------------- storage the results are written to
SCENARIO(C16, faulty_stdout, 3) {
    Graph g; Req r = drawRequest(c, g); std::string f = put(g);
    std::vector<std::string> args = {"-f", f}; args.insert(args.end(), r.args.begin(), r.args.end()); std::string what = reqName(r.args);
    c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    EnvPlan e = benignEnv(c.tp); CallResult ref = reference(c, e, args);
    if (ref.out.empty()) throw Skip{"prints nothing"};
    EnvPlan x = e; if (c.tp.chance(1, 3)) x.outs.push_back({c.tp.chance(1, 2) ? IO_EIO_ONCE : IO_EIO, (ll)c.tp.draw((uint32_t)ref.k[K_OUT] + 1)}); else x.outs.push_back({IO_ENOSPC, (ll)c.tp.draw((uint32_t)ref.out.size() + 20)});
    CallResult y = progcall(x, args); c.absorb(y); c.say(x.str() + " -> " + y.how());
    if (disk(y)) throw Skip{"too expensive"};
    if (!y.sig && !y.code && y.out != ref.out) c.fail("lost", what + fmt("exits with success although only %zu of %zu bytes of its answer were accepted by standard output", y.out.size(), ref.out.size()));
    c.cnt[y.sig || y.code ? "reported" : "complete"]++;
}
SCENARIO(C16, faulty_file, 6) {
    GenOpt o; Graph g; std::vector<std::string> args, files; std::string what, out = scratch() + "/result";
    int kind = c.tp.draw(6); bool fresh = false; bool dse = kind >= 3;
    o.maxTasks = dse ? 2 : 6; o.strong = dse || c.tp.chance(1, 2); if (dse) { o.maxTotal = 8; o.maxDur = 3; } if (kind == 3 && c.tp.chance(2, 3)) modest(o, Req{{"-a", "", ""}, false, false, true});
    g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"}; g.name = "g"; std::string f = put(g);
    // the directories of the logs are there, or left for the command to create
    auto dirs = [&]() { ::mkdir((scratch() + "/logs").c_str(), 0755); for (const char* d : {"/logs/dse_logs", "/logs/pp_logs"}) if (fresh) ::rmdir((scratch() + d).c_str()); else ::mkdir((scratch() + d).c_str(), 0755); };
    auto wipeOut = [&]() { ::unlink(out.c_str()); for (const char* d : {"dse_logs", "pp_logs"}) if (DIR* D = opendir((scratch() + "/logs/" + d).c_str())) { while (dirent* n = readdir(D)) if (n->d_name[0] != '.') ::unlink((scratch() + "/logs/" + d + "/" + n->d_name).c_str()); closedir(D); } dirs(); };
    auto slurp = [&]() { std::map<std::string, std::string> m; std::string s = scratchRead("result"); if (!s.empty()) m["result"] = s; for (const char* d : {"dse_logs", "pp_logs"}) if (DIR* D = opendir((scratch() + "/logs/" + d).c_str())) { while (dirent* n = readdir(D)) if (n->d_name[0] != '.') m[std::string(d) + "/" + n->d_name] = scratchRead(std::string("logs/") + d + "/" + n->d_name); closedir(D); } return m; };
    std::string log = "-pLOGDIR=" + scratch() + "/logs/";
    switch (kind) {
        case 0: args = {"-f", f, "-a", "PrintXML", "-pfilename=" + out}; break;
        case 1: args = {"-f", f, "-a", "PrintGraph", "-pfilename=" + out}; break;
        case 2: args = {"-f", f, "-a", "createNoC", "-a", "moduloMapping", "-a", "PrintMapping", "-pfilename=" + out}; break;
        case 3: args = {"-f", f, "-a", "ThroughputBufferingDSE", log}; if (int m = o.maxRate == 2 ? c.tp.draw(4) : 0) args.push_back(m == 1 ? "-pSYMB_EXEC_ORIGINAL=1" : m == 2 ? "-pSYMB_EXEC_CORRECTED=1" : "-pCOARSE=2"); fresh = c.tp.chance(1, 3); break;
        case 4: args = {"-f", f, "-a", "PeriodicDSE", log}; break;
        default: args = {"-f", f, "-a", "SPeriodicDSE", log}; break;
    }
    for (size_t i = 2; i < args.size(); i++) what += (args[i].find("filename") != args[i].npos ? "-pfilename=" : args[i].find("LOGDIR") != args[i].npos ? "-pLOGDIR=" : args[i]) + " ";
    c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    EnvPlan e = benignEnv(c.tp); wipeOut(); CallResult ref = reference(c, e, args); auto want = slurp(); ll total = 0; for (auto& p : want) total += p.second.size();
    c.require(total > 0, "empty", what + "exits with success but saves nothing");
    EnvPlan x = e; bool must = false, older = c.tp.chance(1, 4), dir = false; std::string fk;
    switch (c.tp.draw(kind == 3 && fresh ? 10 : 9)) {
        case 0: x.writes.push_back({IO_ENOSPC, (ll)c.tp.draw((uint32_t)total + 40)}); fk = "full disk"; break;
        case 1: x.writes.push_back({IO_SHORT, 1 + (ll)c.tp.draw(200)}); x.writes.push_back({IO_EIO, (ll)c.tp.draw((uint32_t)(total / x.writes[0].at + 3))}); fk = "disk error"; break;
        case 2: x.openFailAt = 1 + c.tp.draw(3); { static const int en[] = {EMFILE, EACCES, ENOSPC, EROFS}; x.openFail = en[c.tp.draw(4)]; } fk = "open failure"; break;
        case 3: x.writes.push_back({IO_SHORT, 1 + (ll)c.tp.draw(300)}); must = true; fk = "short writes"; break;
        case 4: x.writes.push_back({IO_SHORT, 1 + (ll)c.tp.draw(200)}); x.writes.push_back({c.tp.chance(1, 2) ? IO_EIO_ONCE : IO_FULL_ONCE, (ll)c.tp.draw((uint32_t)(total / x.writes[0].at + 3))}); fk = "passing disk error"; break;
        case 5: x.closeFailAt = c.tp.draw(2); { static const int en[] = {EIO, EDQUOT, ENOSPC}; x.closeFail = en[c.tp.draw(3)]; } fk = "close failure"; break;
        case 6: dir = c.tp.chance(1, 2); { static const int en[] = {EACCES, EXDEV, EBUSY}; x.renameFail = en[c.tp.draw(3)]; } fk = "unusable place"; break;
        case 9: x.mkdirFail = true; fk = "directory refused"; break;
        case 7: older = must = true; fk = "older results"; break;
        default: x.writes.push_back({IO_SHORT, 1 + (ll)c.tp.draw(300)}); x.writes.push_back({IO_EINTR, (ll)c.tp.draw(6)}); must = true; fk = "interrupted write"; break;
    }
    wipeOut();
    // results of an earlier, longer run are still there
    if (older || dir) { fresh = false; dirs(); }
    if (older) for (auto& p : want) { std::string n = (p.first == "result" ? "" : "logs/") + p.first; scratchWrite(n, p.second + std::string(1 + c.tp.draw(300), 'x') + "\n"); c.cnt["fault older results"]++; }
    if (dir && !older) for (auto& p : want) ::mkdir((scratch() + "/" + (p.first == "result" ? "" : "logs/") + p.first).c_str(), 0755);
    CallResult y = progcall(x, args); c.absorb(y); auto got = slurp();
    if (dir && !older) for (auto& p : want) ::rmdir((scratch() + "/" + (p.first == "result" ? "" : "logs/") + p.first).c_str()); c.say(fk + ": " + x.str() + " -> " + y.how()); c.cnt["fault " + fk]++;
    if (disk(y)) throw Skip{"too expensive"};
    if (must) c.require(!y.sig && !y.code, "refused", what + "fails on " + fk + ": " + y.how());
    if (!y.sig && !y.code && got != want) { ll n = 0; for (auto& p : got) n += p.second.size(); c.fail("lost", what + fmt("exits with success after %s although its files hold %lld bytes instead of %lld", fk.c_str(), n, total)); }
    c.cnt[y.sig || y.code ? "reported" : "complete"]++;
}

// ---------------------------------------------------------------- memory
SCENARIO(C18, memory_runs_out, 6) {
    Graph g; Req r = drawRequest(c, g); std::string f = put(g);
    std::vector<std::string> args = {"-f", f}; args.insert(args.end(), r.args.begin(), r.args.end()); std::string what = reqName(r.args);
    c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    EnvPlan e = benignEnv(c.tp); CallResult ref = reference(c, e, args); std::string want = canon(ref.out);
    for (int k = 0; k < 4; k++) {
        EnvPlan x = e; x.failAlloc = c.tp.draw((uint32_t)ref.k[K_ALLOC]); x.failForever = c.tp.chance(1, 2); if (c.tp.chance(1, 4)) { x.failMinSize = 1ll << c.tp.range(6, 14); x.failAlloc = c.tp.draw(20); }
        CallResult y = progcall(x, args); c.absorb(y); c.say(x.str() + " -> " + y.how());
        if (disk(y)) continue;
        if (!y.k[K_ALLOCFAIL]) { c.cnt["not reached"]++; continue; }
        if (!y.sig && !y.code && canon(y.out) != want) { auto A = splitLines(want), B = splitLines(canon(y.out)); size_t i = 0; while (i < A.size() && i < B.size() && A[i] == B[i]) i++;
            c.fail("answer", what + fmt("exits with success after a failed allocation but its answer differs: '%.100s' instead of '%.100s'", i < B.size() ? B[i].c_str() : "", i < A.size() ? A[i].c_str() : "")); }
        c.cnt[y.sig || y.code ? "refused" : "answered"]++;
    }
}
