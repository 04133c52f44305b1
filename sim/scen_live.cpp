// Consistency, liveness and history scenarios.
#include "app.h"
#include "kapi.h"
static std::string put(const Graph& g) { scratchWrite("app.xml", g.xml()); return scratch() + "/app.xml"; }

// fires the untimed application in a seeded order; every task at most lim[i] times
static std::vector<ll> fireAll(Ctx& c, const Graph& g, const std::vector<ll>& lim, std::vector<ll>& fired) {
    size_t n = g.t.size(); std::vector<ll> tok; for (auto& e : g.c) tok.push_back(e.tok); fired.assign(n, 0);
    uint32_t bias = c.tp.draw(3); int last = -1;
    while (true) {
        std::vector<int> en;
        for (size_t i = 0; i < n; i++) { if (fired[i] >= lim[i]) continue; size_t ph = fired[i] % g.t[i].dur.size(); bool ok = true; for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == (int)i && tok[k] < g.c[k].cons[ph]) ok = false; if (ok) en.push_back((int)i); }
        if (en.empty()) break;
        int i = en[c.tp.draw((uint32_t)en.size())];
        if (bias == 1 && last >= 0 && std::find(en.begin(), en.end(), last) != en.end()) i = last;       // greedy: keep firing the same task
        if (bias == 2 && c.tp.chance(3, 4)) i = en.back();                                              // one task is starved
        last = i; size_t ph = fired[i] % g.t[i].dur.size();
        for (size_t k = 0; k < g.c.size(); k++) { if (g.c[k].dst == i) tok[k] -= g.c[k].cons[ph]; if (g.c[k].src == i) tok[k] += g.c[k].prod[ph]; }
        fired[i]++; c.states++;
    }
    return tok;
}
SCENARIO(C01, repetition_vector, 3) {
    GenOpt o; o.maxTasks = c.tier ? 8 : 6; o.selfloops = c.tp.chance(1, 4); o.maxQ = c.tp.chance(1, 4) ? 12 : 5; o.maxTotal = 150; o.zeroDur = c.tp.chance(1, 4); o.allowAuto = c.tp.chance(1, 3);
    o.strong = c.tp.chance(1, 3);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    EnvPlan e = benignEnv(c.tp); c.say("application: " + g.brief()); c.sample = g.brief(); std::string x = g.xml();
    std::string s = askLibrary(c, "repetition vector", e, [&] { return kapi::repetition(x); }); c.say(s);
    std::istringstream in(s); std::string w; in >> w; c.require(w == "ok", "rejected", "a consistent application is rejected: " + s);
    std::map<std::string, ll> ni; ll v; while (in >> w >> v) ni[w] = v;
    std::vector<ll> lim; for (auto& t : g.t) { c.require(ni.count(t.name) && ni[t.name] > 0, "missing", "no positive repetition count for " + t.name); lim.push_back(ni[t.name]); }
    std::vector<ll> fired; std::vector<ll> tok = fireAll(c, g, lim, fired);
    for (size_t i = 0; i < g.t.size(); i++) c.require(fired[i] == lim[i], "stuck", fmt("a live application cannot complete the announced iteration: %s stops after %lld of %lld firings", g.t[i].name.c_str(), fired[i], lim[i]));
    for (size_t k = 0; k < g.c.size(); k++) c.require(tok[k] == g.c[k].tok, "residue", fmt("after the announced firings channel %s holds %lld tokens instead of %lld", g.c[k].name.c_str(), tok[k], g.c[k].tok));
    for (size_t i = 0; i < g.t.size(); i++) c.require(lim[i] == g.q[i] * (ll)g.t[i].dur.size(), "minimal", fmt("%s is announced %lld times per iteration, the smallest iteration has %lld", g.t[i].name.c_str(), lim[i], g.q[i] * (ll)g.t[i].dur.size()));
}
SCENARIO(C01, inconsistent, 2) {
    GenOpt o; o.maxTasks = 5; o.extraChan = 4; o.strong = c.tp.chance(1, 2); Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    // break the balance of one channel that lies on an undirected cycle (otherwise the rates could still be matched)
    int k = (int)c.tp.draw((uint32_t)g.c.size()); auto& v = c.tp.chance(1, 2) ? g.c[k].prod : g.c[k].cons; v[c.tp.draw((uint32_t)v.size())] += c.tp.range(1, 3);
    Graph h = g; if (h.solve()) throw Skip{"still consistent"};
    c.say("application: " + g.brief()); c.sample = g.brief(); EnvPlan e = benignEnv(c.tp); std::string f = put(g);
    std::string x = g.xml(); std::string s = askLibrary(c, "repetition vector", e, [&] { return kapi::repetition(x); }); c.say(s);
    c.require(s == "inconsistent", "accepted", "an inconsistent application is given a repetition vector: " + s);
    static const std::vector<std::string> as = {"KPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "NKPeriodicThroughput", "SPeriodicThroughput", "EG1", "EGN", "LP1", "LPN", "SymbExec", "deGrooteThroughput", "PeriodicSizing", "ThroughputBufferingDSE", "ASAPScheduling", "1PeriodicScheduling"};
    std::string a = c.tp.pick(as); std::vector<std::string> args = {"-f", f, "-a", a}; if (a == "PeriodicSizing") args.push_back("-pPERIOD=100");
    CallResult r = progcall(e, args); c.absorb(r); c.say(a + " " + r.how());
    c.require(r.sig || r.code, "answered:" + a, a + " completes normally on an inconsistent application: " + r.out.substr(0, 200));
}
SCENARIO(C03, deadlock, 5) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(3, 4); o.selfloops = c.tp.chance(1, 5); o.live = false; bool sdf = c.tp.chance(1, 3); if (sdf) o.maxPhases = 1;
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    if (c.tp.chance(1, 2)) { Graph l = g; for (auto& x : l.c) x.tok += c.tp.range(0, 4); for (auto& x : l.c) if (x.src == x.dst && x.tok == 1) x.tok = 2; g = l; }
    std::vector<ll> lim, f1, f2; for (size_t i = 0; i < g.t.size(); i++) lim.push_back(g.q[i] * (ll)g.t[i].dur.size());
    fireAll(c, g, lim, f1); fireAll(c, g, lim, f2); bool live = f1 == lim;
    if (f1 != f2) c.fail("harness", "the simulated verdict depends on the order of firings");
    c.say("application: " + g.brief()); c.say(live ? "live" : "deadlocks"); c.cnt[live ? "apps_live" : "apps_deadlocked"]++; c.sample = g.brief() + (live ? "live" : "deadlocks");
    EnvPlan e = benignEnv(c.tp); std::string f = put(g);
    struct A { const char* n; const char* key; bool exact; bool sdfonly; };
    static const std::vector<A> as = {{"KPeriodicThroughput", "KPeriodic Throughput is", true, false}, {"NKPeriodicThroughput", "NPeriodic throughput is", true, false}, {"EGN", "throughput is", true, false}, {"SymbExec", "Throughput is", true, false}, {"ASAPScheduling", "ASAP throughput is", true, false},
        {"1PeriodicThroughput", "1Periodic throughput is", false, false}, {"2PeriodicThroughput", "2Periodic throughput is", false, false}, {"SPeriodicThroughput", "SPeriodic throughput is", false, false}, {"LPN", "throughput is", true, false}, {"LP1", "throughput is", false, false}, {"REALLP1", "throughput is", false, false}, {"BufferlessKPeriodicScheduling", "Maximum throughput is", true, false},
        {"deGrooteThroughput", "throughput is", true, true}, {"deGrooteCleanThroughput", "throughput is", true, true}};
    const A& a = as[c.tp.draw(sdf ? 14 : 12)]; std::string n = a.n;
    CallResult r = progcall(e, {"-f", f, "-a", n}); c.absorb(r); bool fo = false; double v = numAfter(r.out, a.key, &fo); if (r.sig || r.code) fo = false;
    c.say(n + " " + r.how() + fmt(" %.9g", fo ? v : NAN));
    if (live) c.require(!a.exact || (fo && v > 1e-9), "live:" + n, n + (fo ? fmt(" reports throughput %.9g for an application that never blocks", v) : " gives no throughput for an application that never blocks (" + r.how() + ")"));
    else c.require(!fo || !(v > 1e-9), "dead:" + n, fmt("%s reports throughput %.9g for an application that blocks", n.c_str(), v));
    if (live && !fo) c.require(!a.exact, "noanswer:" + n, n + " gave no answer: " + r.how());
    c.cnt[live ? (fo ? "verdict_live" : "verdict_declined") : (fo ? "verdict_blocked" : "verdict_refused")]++;
}
