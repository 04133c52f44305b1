// Several commands in one process; structural analyses.
#include "app.h"
#include <signal.h>

struct Step { std::vector<std::string> args; bool sdf = false, strong = false, dse = false; };
static std::vector<Step> steps() {
    std::vector<Step> r;
    for (const char* a : {"KPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "NKPeriodicThroughput", "SPeriodicThroughput", "ASPeriodicThroughput", "EG1", "EGN", "LP1", "LPN", "REALLP1",
                          "SymbExec", "CycleCount", "CycleDetection", "PrintInfos", "PrintXML", "PrintGraph", "PrintKiter", "PrintKPeriodicScheduling", "1PeriodicScheduling", "SPeriodicScheduling"}) r.push_back({{"-a", a}});
    for (const char* a : {"deGrooteThroughput", "deGrooteCleanThroughput"}) r.push_back({{"-a", a}, true});
    r.push_back({{"-a", "ASAPScheduling"}, false, true});
    r.push_back({{"-pPERIOD=100", "-a", "PeriodicSizing"}});
    r.push_back({{"-pPERIOD=40", "-pILP=1", "-a", "PeriodicSizing"}});
    r.push_back({{"-pPERIOD=120", "-a", "SPeriodicSizing"}});
    for (const char* a : {"ThroughputBufferingDSE", "PeriodicDSE", "SPeriodicDSE"}) r.push_back({{"-a", a}, false, false, true});
    return r;
}
static std::string canon(const std::string& s) {
    std::string o;
    for (auto& l : splitLines(s)) {
        if (l.find("Execution Time") != l.npos || l.find("Scheduling Size") != l.npos) continue;
        ll z; double t; char q; if (sscanf(l.c_str(), "%lld;%lf;%c", &z, &t, &q) == 3) { size_t e = l.rfind(';'); if (e != l.npos && e) e = l.rfind(';', e - 1); o += l.substr(0, e) + "\n"; continue; }
        o += l + "\n";
    }
    return o;
}
SCENARIO(C12, commands_in_a_row, 6) {
    auto st = steps(); int n = (int)c.tp.range(2, 4); std::vector<Step> p; GenOpt o; o.maxTasks = 5; o.selfloops = c.tp.chance(1, 4); o.strong = c.tp.chance(1, 2);
    for (int i = 0; i < n; i++) { p.push_back(c.tp.pick(st)); if (p.back().sdf) o.maxPhases = 1; if (p.back().strong || p.back().dse) o.strong = true; if (p.back().dse) { o.maxTotal = 8; o.maxDur = 3; o.maxTasks = 2; } }
    if (c.tp.chance(1, 4) && std::none_of(p.begin(), p.end(), [](const Step& s) { return s.dse; })) o.maxDur = 100000;   // long durations lead the exploration into ill-conditioned linear programs
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    scratchWrite("app.xml", g.xml()); std::vector<std::string> all = {"-f", scratch() + "/app.xml"}; std::string want, what; c.say("application: " + g.brief());
    for (auto& s : p) {
        std::vector<std::string> a = {"-f", scratch() + "/app.xml"}; for (auto& x : s.args) { a.push_back(x); all.push_back(x); what += x + " "; }
        CallResult r = progcall(benignEnv(c.tp), a, 6); c.absorb(r); if (r.sig || r.code) throw Skip{"one command refuses or is too expensive"}; want += r.out;
    }
    c.say("commands: " + what); c.sample = g.brief() + what;
    CallResult r = progcall(benignEnv(c.tp), all, 60); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL || r.k[K_HEAPFULL]) throw Skip{"too expensive"};
    c.require(!r.sig && !r.code, "outcome", what + "in one run end with " + r.how() + " although each of them alone succeeds");
    auto A = splitLines(canon(want)), B = splitLines(canon(r.out)); size_t i = 0; while (i < A.size() && i < B.size() && A[i] == B[i]) i++;
    if (i < A.size() || i < B.size()) c.fail("answer", what + "in one run: '" + (i < B.size() ? B[i] : "") + "' where the command alone says '" + (i < A.size() ? A[i] : "") + "'");
}

SCENARIO(C19, circuits, 6) {
    GenOpt o; o.maxTasks = c.tp.chance(1, 4) ? 7 : 5; o.strong = c.tp.chance(1, 2); o.extraChan = (int)c.tp.range(0, 7); o.live = c.tp.chance(1, 2); o.maxPhases = 2; o.maxTotal = 40; Graph g = genGraph(c.tp, o);
    // a circuit may be broken or tasks renumbered by shuffling the declaration order of the tasks
    if (c.tp.chance(1, 2)) { size_t n = g.t.size(); std::vector<int> perm(n); std::iota(perm.begin(), perm.end(), 0); for (size_t i = n; i > 1; i--) std::swap(perm[i - 1], perm[c.tp.draw((uint32_t)i)]); std::vector<Task> t(n); for (size_t i = 0; i < n; i++) t[perm[i]] = g.t[i]; g.t = t; for (auto& e : g.c) { e.src = perm[e.src]; e.dst = perm[e.dst]; } g.solve(); }
    int n = (int)g.t.size(); c.say("application: " + g.brief()); c.sample = g.brief(); scratchWrite("app.xml", g.xml()); std::string f = scratch() + "/app.xml";
    std::map<std::string, ll> want; ll total = 0; std::vector<int> path; std::vector<char> onp(n, 0);
    std::function<void(int, int)> walk = [&](int s, int v) { path.push_back(v); onp[v] = 1; for (auto& e : g.c) if (e.src == v && e.dst != v) { if (e.dst == s) { std::string k; for (int x : path) k += std::to_string(x + 1) + " -> "; want[k + std::to_string(s + 1)]++; total++; } else if (e.dst > s && !onp[e.dst]) walk(s, e.dst); } path.pop_back(); onp[v] = 0; };
    for (int s = 0; s < n && total < 3000; s++) walk(s, s);
    if (total >= 3000) throw Skip{"too many circuits"};
    std::string a = askProgram(c, "CycleDetection", benignEnv(c.tp), f, {"-a", "CycleDetection"}), b = askProgram(c, "CycleCount", benignEnv(c.tp), f, {"-a", "CycleCount"});
    double has = numAfter(a, "has_cycles result:"), cnt = numAfter(b, "Total number of cycles:");
    c.require(has == (total > 0 ? 1 : 0), "has_cycles", fmt("CycleDetection answers %g for an application with %lld circuits", has, total));
    c.require(cnt == total, "count", fmt("CycleCount counts %g circuits of %lld", cnt, total));
    std::map<std::string, ll> got; for (auto& l : splitLines(b)) if (l.find(" -> ") != l.npos) got[l]++;
    for (auto& p : want) c.require(got[p.first] == p.second, "circuit", fmt("CycleCount lists the circuit %s %lld times instead of %lld", p.first.c_str(), got[p.first], p.second));
    for (auto& p : got) c.require(want.count(p.first) > 0, "circuit", "CycleCount lists " + p.first + ", which is no circuit");
    c.states += total;
}
