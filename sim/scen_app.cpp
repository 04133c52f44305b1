#include "app.h"
#include <cstring>
#include "kapi.h"
#include <signal.h>

static std::string put(const Graph& g) { scratchWrite("app.xml", g.xml()); return scratch() + "/app.xml"; }

// ---- throughput against the simulated self-timed application -------------
SCENARIO(C02, thr_selftimed, 6) {
    GenOpt o; o.maxTasks = c.tier ? 7 : 6; o.zeroDur = c.tp.chance(1, 4); o.strong = c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4);
    if (c.tp.chance(1, 4)) { o.maxDur = 50; o.maxQ = 6; o.maxTotal = 120; }
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    Thr t = selfTimed(g); c.simtime += t.simtime; c.states += t.states;
    if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g);
    c.say("application: " + g.brief()); c.say("simulated long-run rate " + thrStr(t)); c.say("environment: " + e.str());
    std::string s = askProgram(c, "KPeriodicThroughput", e, f, {"-a", "KPeriodicThroughput"});
    bool found; double v = numAfter(s, "KPeriodic Throughput is", &found);
    c.require(found, "output", "no throughput printed"); c.say(fmt("reported %.9g", v));
    c.sample = g.brief() + fmt("-> %.9g", v);
    c.require(near(v, ratio(t), 1e-6), "kp-value", fmt("reported throughput %.9g, but the application runs at %s = %.9g", v, thrStr(t).c_str(), ratio(t)));
    double p = numAfter(s, "KPeriodic Period is", &found); c.require(found && (std::isinf(v) || near(p, 1 / v, 1e-5) || std::fabs(p - 1 / v) < 1e-6), "kp-period", fmt("reported period %.9g does not match throughput %.9g", p, v));
}
SCENARIO(C02, thr_disturbed, 3) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(3, 4); o.selfloops = c.tp.chance(1, 4);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief());
    std::string s = askProgram(c, "KPeriodicThroughput", e, f, {"-a", "KPeriodicThroughput"});
    double v = numAfter(s, "KPeriodic Throughput is"); c.say(fmt("reported %.9g", v));
    Stall st; st.maxDelay = (int)c.tp.range(1, 30); st.until = c.tp.range(1, 200);
    Thr t = disturbed(c, g, st, 60000); c.simtime += t.simtime; c.states += t.states;
    if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
    c.say("rate once stalls stop: " + thrStr(t)); c.sample = g.brief();
    c.require(near(v, ratio(t), 1e-6), "kp-recovery", fmt("reported throughput %.9g, but after the disturbances the application settles at %s = %.9g", v, thrStr(t).c_str(), ratio(t)));
}
SCENARIO(C02, thr_engines, 5) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(1, 2); o.zeroDur = c.tp.chance(1, 5); bool sdf = c.tp.chance(1, 2); if (sdf) o.maxPhases = 1; o.maxTotal = 40; o.selfloops = c.tp.chance(1, 4);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    Thr t = selfTimed(g); c.simtime += t.simtime; c.states += t.states; if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief()); c.say("simulated long-run rate " + thrStr(t));
    struct A { const char* n; const char* key; double tol; bool sdfonly; };
    static const std::vector<A> as = {{"NKPeriodicThroughput", "NPeriodic throughput is", 1e-6, false}, {"EGN", "throughput is", 1e-6, false}, {"LPN", "throughput is", 1e-5, false}, {"SymbExec", "Throughput is", 1e-6, false}, {"BufferlessKPeriodicScheduling", "Maximum throughput is", 1e-6, false}, {"deGrooteThroughput", "throughput is", 2e-5, true}, {"deGrooteCleanThroughput", "throughput is", 2e-5, true}};
    const A& a = as[c.tp.draw(sdf ? 7 : 5)];
    std::string s = askProgram(c, a.n, e, f, {"-a", a.n}); bool found; double v = numAfter(s, a.key, &found);
    c.require(found, std::string("output:") + a.n, std::string(a.n) + " printed no throughput"); c.say(fmt("%s reported %.9g", a.n, v)); c.sample = g.brief() + a.n;
    c.require(near(v, ratio(t), a.tol), std::string("engine:") + a.n, fmt("%s reported throughput %.9g, but the application runs at %s = %.9g", a.n, v, thrStr(t).c_str(), ratio(t)));
}
// Feedback applications whose channels run through long chains of relays: the critical cycle is long and hard to settle on.
SCENARIO(C02, thr_relays, 2) {
    GenOpt o; o.maxTasks = 6; o.maxPhases = c.tp.chance(1, 3) ? 3 : 1; o.strong = true; o.zeroRate = false; o.maxQ = 4; o.maxTotal = 24; Graph b = genGraph(c.tp, o); if (b.c.empty()) throw Skip{"graph without channels"};
    Graph g = b; g.c.clear(); size_t n = 0; int longest = (int)c.tp.range(1, 10); ll dur = c.tp.chance(2, 3) ? 1 : 0; bool net = c.tp.chance(1, 2); if (net) for (auto& t : g.t) for (auto& d : t.dur) d = c.tp.range(2, 8);
    for (auto& e : b.c) {
        int k = e.src == e.dst ? 0 : (int)c.tp.range(0, longest); if (!k) { Chan h = e; h.name = fmt("b%zu", n++); g.c.push_back(h); continue; }
        ll u = net || c.tp.chance(2, 3) ? 1 : vsum(e.prod); int prev = e.src; std::vector<ll> prod = e.prod;
        for (int i = 0; i < k; i++) { Task t; t.name = fmt("r%zu_%d", n, i); t.dur = {net ? 1 - i % 2 : dur && c.tp.chance(3, 4) ? 1 : dur ? c.tp.range(1, 4) : c.tp.range(0, 1)}; g.t.push_back(t); Chan h; h.name = fmt("b%zu_%d", n, i); h.src = prev; h.dst = (int)g.t.size() - 1; h.prod = prod; h.cons = {u}; g.c.push_back(h); prev = h.dst; prod = {u}; }
        Chan h; h.name = fmt("b%zu", n++); h.src = prev; h.dst = e.dst; h.prod = prod; h.cons = e.cons; h.tok = e.tok; g.c.push_back(h);
    }
    g.solve(); if (g.q.empty()) throw Skip{"rates do not balance"}; if (vsum(g.q) > 400) throw Skip{"too expensive"};
    Thr t = selfTimed(g, 400000); c.simtime += t.simtime; c.states += t.states; if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief()); c.say("simulated long-run rate " + thrStr(t)); c.sample = g.brief(); c.cnt["relays"] += g.t.size() - b.t.size();
    static const std::vector<std::pair<const char*, const char*>> as = {{"KPeriodicThroughput", "KPeriodic Throughput is"}, {"NKPeriodicThroughput", "NPeriodic throughput is"}, {"EGN", "throughput is"}, {"BufferlessKPeriodicScheduling", "Maximum throughput is"}};
    auto& a = as[c.tp.chance(1, 2) ? 0 : c.tp.draw(4)]; std::string s = askProgram(c, a.first, e, f, {"-a", a.first}); bool found; double v = numAfter(s, a.second, &found);
    c.require(found, std::string("output:") + a.first, std::string(a.first) + " printed no throughput"); c.say(fmt("%s reported %.9g", a.first, v));
    c.require(near(v, ratio(t), 1e-6), std::string("relays:") + a.first, fmt("%s reported throughput %.9g, but the application runs at %s = %.9g", a.first, v, thrStr(t).c_str(), ratio(t)));
}
// ---- periodic bounds ------------------------------------------------------
SCENARIO(C04, thr_order, 6) {
    GenOpt o; o.maxTasks = 6; o.strong = c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); o.zeroDur = c.tp.chance(1, 5);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    Thr t = selfTimed(g); c.simtime += t.simtime; c.states += t.states; if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief()); c.say("simulated long-run rate " + thrStr(t));
    auto ask = [&](const char* a, const char* k) { std::string s = askProgram(c, a, e, f, {"-a", a}); bool fo; double v = numAfter(s, k, &fo); c.require(fo, std::string("output:") + a, std::string(a) + " printed no throughput"); c.say(fmt("%s %.9g", a, v)); return v; };
    double one = ask("1PeriodicThroughput", "1Periodic throughput is"), eg1 = ask("EG1", "throughput is"), sp = ask("SPeriodicThroughput", "throughput is"), asp = ask("ASPeriodicThroughput", "throughput is");
    double two = ask("2PeriodicThroughput", "2Periodic throughput is"), kp = ask("KPeriodicThroughput", "KPeriodic Throughput is");
    for (double* x : {&one, &two, &sp, &asp, &eg1}) if (*x < 1e-9) { *x = 0; c.cnt["no_schedule_of_that_shape"]++; }   // a negative (or vanishing) answer announces that no schedule of that shape exists
    // the LP formulations may decline (exit 1) when no schedule of that shape exists, never when one does
    auto askLp = [&](const char* a, double ref) { CallResult r = progcall(e, {"-f", f, "-a", a}); c.absorb(r); if (ref <= 0 && r.sig == 0 && r.code == 1) { c.say(std::string(a) + " declines"); c.cnt["lp_declined"]++; return 0.0; }
        c.require(r.sig == 0 && r.code == 0, std::string("noanswer:") + a, fmt("%s gave no answer (%s) although a schedule with throughput %.9g exists", a, r.how().c_str(), ref)); bool fo; double v = numAfter(r.out, "throughput is", &fo); c.require(fo, std::string("output:") + a, std::string(a) + " printed no throughput"); c.say(fmt("%s %.9g", a, v)); return v; };
    double lp = askLp("LP1", one), rlp = askLp("REALLP1", sp);
    auto le = [](double a, double b) { return a <= b * (1 + 1e-6) + 1e-12; };
    c.require(le(kp, ratio(t)), "kp>real", "K-periodic above what the application can do");
    c.require(le(one, kp), "1p>kp", fmt("1-periodic %.9g above K-periodic %.9g", one, kp)); c.require(le(two, kp), "2p>kp", fmt("2-periodic %.9g above K-periodic %.9g", two, kp));
    c.require(le(one, two), "1p>2p", fmt("1-periodic %.9g above 2-periodic %.9g", one, two));
    c.require(le(sp, one), "sp>1p", fmt("strictly periodic %.9g above 1-periodic %.9g", sp, one)); c.require(le(asp, sp), "asp>sp", fmt("approximate strictly periodic %.9g above exact %.9g", asp, sp));
    c.require(near(one, eg1, 1e-6), "1p!=eg1", fmt("1-periodic %.9g but event-graph form %.9g", one, eg1));
    c.require(near(lp, one, 1e-5), "lp!=1p", fmt("LP 1-periodic %.9g but %.9g", lp, one));
    c.require(near(rlp, sp, 1e-5), "rlp!=sp", fmt("LP strictly periodic %.9g but %.9g", rlp, sp));
    c.sample = g.brief();
}
// ---- published schedules --------------------------------------------------
SCENARIO(C05, sched_exec, 6) {
    GenOpt o; o.maxTasks = 6; o.strong = c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); o.zeroDur = c.tp.chance(1, 5);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    EnvPlan e = benignEnv(c.tp); c.say("application: " + g.brief());
    static const std::vector<std::string> as = {"1P", "KP", "SP", "LP", "LPN", "RLP"};
    std::string a = c.tp.pick(as); long k = c.tp.range(1, 3); std::string x = g.xml();
    std::string s = askLibrary(c, "schedule:" + a, e, [&] { return kapi::schedule(x, a, k); });
    c.say(a + " " + s); PubSched p = parseSched(s); c.sample = g.brief() + a;
    double thr = numAfter(s, "throughput");
    if (!p.ok || !(thr > 0) || p.t.empty()) {
        c.cnt["no_schedule"]++;
        c.require(a != "KP" && a != "LPN", "none:" + a, "no schedule published for a live application"); return;
    }
    std::string bad = executeSchedule(c, g, p, c.tp.chance(1, 2), 4);
    c.require(bad.empty(), "exec:" + a, a + " schedule: " + bad);
}
SCENARIO(C05, sched_printed, 4) {
    static const std::vector<std::vector<std::string>> as = {{"ASAPScheduling", "ASAP period is", "ASAP throughput is"}, {"1PeriodicScheduling", "1Periodic period     is", "1Periodic throughput is"}, {"SPeriodicScheduling", "SPeriodic period     is", "SPeriodic throughput is"}};
    auto& a = as[c.tp.draw(3)]; bool asap = a[0] == "ASAPScheduling";
    GenOpt o; o.maxTasks = 5; o.strong = asap || c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    EnvPlan e = benignEnv(c.tp); c.say("application: " + g.brief()); std::string f = put(g);
    if (!asap) {   // when no schedule of that shape exists the command has nothing to print and stops
        const char* th = a[0] == "SPeriodicScheduling" ? "SPeriodicThroughput" : "1PeriodicThroughput"; double v = numAfter(askProgram(c, th, e, f, {"-a", th}), "throughput is");
        if (!(v > 1e-9)) { c.cnt["no_schedule_of_that_shape"]++; CallResult r = progcall(e, {"-f", f, "-a", a[0]}); c.absorb(r); c.require(r.sig || r.code || !(numAfter(r.out, a[2]) > 1e-9), "phantom:" + a[0], a[0] + " publishes a schedule although none of that shape exists"); return; }
    }
    size_t width = 80; std::vector<std::string> req = {"-a", a[0]}; if (c.tp.chance(2, 3)) { width = (size_t)c.tp.range(1, c.tp.chance(1, 3) ? 300 : 60); req.insert(req.begin() + (c.tp.chance(1, 2) ? 0 : 2), fmt("-pLINE=%zu", width)); }
    std::string s = askProgram(c, a[0], e, f, req); PubSched p = parsePrinted(s, a[1]); bool fo; double thr = numAfter(s, a[2], &fo); c.sample = g.brief() + a[0];
    c.say(a[0] + fmt(" period %.9Lg throughput %.9g, %zu tasks", p.omega, thr, p.t.size()));
    c.require(fo && p.ok, "output:" + a[0], a[0] + " printed no throughput or period");
    if (asap) { Thr t = selfTimed(g); if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"}; c.require(near(thr, ratio(t), 2e-5), "asap-rate", fmt("as-soon-as-possible schedule announces %.9g but the application runs at %s", thr, thrStr(t).c_str())); }
    if (!(thr > 1e-9) || p.t.empty()) { c.cnt["no_schedule"]++; c.require(!asap, "none:" + a[0], "no schedule published for a live application"); return; }
    c.require(near(thr * (double)p.omega, 1, 2e-5), "period:" + a[0], fmt("throughput %.9g and period %.9Lg disagree", thr, p.omega));
    std::string bad = executeSchedule(c, g, p, c.tp.chance(1, 2), asap ? 12 : 4, asap ? 2e-5 : 3e-5);
    c.require(bad.empty(), "exec:" + a[0], a[0] + " printed schedule: " + bad);
    if (!asap) return;   // fractional starts cannot be drawn on whole columns
    // the chart shows the same firings
    std::map<std::string, std::string> row, chart; for (auto& l : splitLines(s)) { char* z; long id = strtol(l.c_str(), &z, 10); if (z == l.c_str()) continue; if (!strncmp(z, " |", 2)) { c.require(chart.emplace(std::to_string(id), std::string(z + 2)).second, "chart:" + a[0], a[0] + fmt(": task %ld has two rows in the chart", id)); } else if (!strncmp(z, ") ", 2)) { size_t q = l.find(" | starts:"); if (q != l.npos) row[l.substr(z + 2 - l.c_str(), q - (z + 2 - l.c_str()))] = std::to_string(id); } }
    for (auto& t : g.t) {
        auto it = p.t.find(t.name); if (it == p.t.end() || !row.count(t.name)) continue; c.require(chart.count(row[t.name]), "chart:" + a[0], a[0] + ": " + t.name + " has no row in the chart"); auto& x = it->second; bool whole = x.p == floorl(x.p) && x.p > 0 && !x.starts.empty(); for (auto v : x.init) whole = whole && v == floorl(v); for (auto v : x.starts) whole = whole && v == floorl(v) && v < 1e5; for (auto d : t.dur) whole = whole && d > 0; if (!whole) { c.cnt["charts_not_on_whole_units"]++; continue; }
        std::string want(width, ' '); size_t n = 0; auto mark = [&](long double v) { ll d = t.dur[n++ % t.dur.size()]; for (ll k = 0; k < d; k++) { ll at = (ll)v + k; if (at >= 0 && at < (ll)width) want[at] = k ? '#' : '@'; } }; for (auto v : x.init) mark(v); for (ll r = 0; x.starts[0] + r * x.p < width; r++) for (auto v : x.starts) mark(v + r * x.p);
        c.require(chart[row[t.name]] == want, "chart:" + a[0], a[0] + fmt(": the chart of %s is drawn [%s], the schedule is [%s]", t.name.c_str(), chart[row[t.name]].c_str(), want.c_str())); c.cnt["charts_checked"]++;
    }
}

// the schedule and the constraint graph drawn for periodicities chosen by the user
SCENARIO(C05, sched_chosen, 3) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); o.maxTotal = 40; Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"}; std::string f = put(g); c.say("application: " + g.brief());
    std::vector<ll> K(g.t.size(), 1); bool full = c.tp.chance(1, 3), xml = c.tp.chance(1, 2), dep = c.tp.chance(1, 4); std::vector<std::string> args = {"-f", f, "-a", "PrintKPeriodicScheduling", "-pSCHED=1"}; if (xml) args.push_back("-pXML=1"); if (dep) args.push_back("-pDEP=1"); std::string what = "PrintKPeriodicScheduling"; ll ev = 0;
    for (size_t i = 0; i < g.t.size(); i++) { if (full) K[i] = g.q[i] * (c.tp.chance(1, 6) ? 2 : 1); else if (c.tp.chance(2, 3)) K[i] = c.tp.range(1, 4); else continue; args.push_back("-p" + g.t[i].name + fmt("=%lld", K[i])); what += fmt(" %s=%lld", g.t[i].name.c_str(), K[i]); }
    for (size_t i = 0; i < g.t.size(); i++) ev += K[i] * (ll)g.t[i].dur.size(); if (ev > 80) throw Skip{"too many events"}; c.sample = g.brief() + what; c.say(what);
    CallResult r = progcall(benignEnv(c.tp), args, 20); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"}; c.require(!r.sig && !r.code, "noanswer:chosen", what + " gave no answer: " + r.how());
    PubSched p; std::map<int, std::string> names; std::map<std::string, std::vector<std::pair<long double, ll>>> st; long double lastStart = 0; int lastId = -1; double lastDur = 0; bool all = true; size_t blocks = 0, reps = 0;
    auto ph = [&](const std::string& n) { for (auto& t : g.t) if (t.name == n) return (ll)t.dur.size(); return 0LL; }; auto idx = [&](const std::string& n) { for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].name == n) return (int)i; return -1; };
    for (auto& l : splitLines(r.out)) { int id; char nm[256]; double d, s, per, rep; ll k, ni, k2, p2; double om;
        if (sscanf(l.c_str(), "\\taskname{%d}{%255[^}]}%% ki=%lld Ni=%lld", &id, nm, &k, &ni) == 4) { c.require(!names.count(id) && idx(nm) >= 0, "drawing", what + ": two tasks share a line, or a task is unknown: " + nm); int i = idx(nm); names[id] = nm; c.require(k == K[i] && ni == g.q[i] * (ll)g.t[i].dur.size(), "drawing", what + fmt(": the drawing says ki=%lld Ni=%lld for ", k, ni) + nm); }
        else if (sscanf(l.c_str(), "\\addexecution[initblock]{%d}{}{%lf}{%lf} %% %lld * %lld * %lf/%lld", &id, &d, &s, &k2, &p2, &om, &ni) == 7) { if (!(om > 0) || std::isinf(om) || !(om < 1e8)) { all = false; continue; } c.require(names.count(id), "drawing", what + ": an execution of no task"); p.omega = om; st[names[id]].push_back({s, (ll)d}); lastId = id; lastStart = s; lastDur = d; blocks++; }
        else if (sscanf(l.c_str(), "\\addperiodictask[repeatblock]{%d}{}{%lf}{%lf}{%lf}{%lf}", &id, &d, &s, &per, &rep) == 5 && all) { reps++; c.require(id == lastId && d == lastDur, "drawing", what + ": a repetition does not follow its first execution"); c.require(near(s, (double)lastStart + per, 1e-5), "drawing", what + fmt(": the repetition of the execution at %.9Lg starts at %.9g, the period is %.9g", lastStart, s, per)); p.t[names[id]].p = per; c.require(rep >= 0 || std::floor(rep) == rep, "drawing", what); } }
    if (!all || !blocks) { c.cnt["no_schedule"]++; c.require(!full, "none:chosen", what + " draws no schedule although these periodicities always admit one"); return; } c.require(blocks == (size_t)ev && reps == blocks, "drawing", what + fmt(" draws %zu executions instead of %lld", blocks, ev));
    for (auto& x : st) { auto v = x.second; int i = idx(x.first); std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); (void)ph; bool same = true; for (size_t k = 0; k < v.size(); k++) same = same && x.second[k] == v[k]; v = same ? v : x.second; for (size_t k = 0; k < v.size(); k++) { c.require(v[k].second == g.t[i].dur[k % g.t[i].dur.size()], "drawing", what + fmt(": execution %zu of %s lasts %lld", k, x.first.c_str(), v[k].second)); p.t[x.first].starts.push_back(v[k].first); } }
    p.ok = true; Thr t = selfTimed(g); if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"}; double best = ratio(t); c.simtime += t.simtime;
    c.require(1 / (double)p.omega <= best * (1 + 1e-5), "rate:chosen", what + fmt(" draws a schedule of period %.9Lg but the application runs at %s", p.omega, thrStr(t).c_str())); if (full) c.require(near(1 / (double)p.omega, best, 1e-5), "rate:chosen", what + fmt(" draws a schedule of period %.9Lg but these periodicities admit the rate %s", p.omega, thrStr(t).c_str()));
    std::string bad = executeSchedule(c, g, p, c.tp.chance(1, 2), 4, 3e-5); c.require(bad.empty(), "exec:chosen", what + ": " + bad);
    if (!xml) return;
    // the constraints: the drawn starts satisfy each, and together they impose exactly that period
    struct Arc { int a, b; double w, d; }; std::vector<Arc> as; std::map<std::string, int> node; std::vector<double> at; auto ev2 = [&](ll id, ll f, ll oc) { std::string key = fmt("%lld,%lld,%lld", id, f, oc); if (!node.count(key)) { c.require(id >= 1 && id <= (ll)g.t.size() && f >= 1 && f <= (ll)g.t[id - 1].dur.size() && oc >= 1 && oc <= K[id - 1], "constraints", what + ": a constraint on the event " + key); node[key] = (int)at.size(); at.push_back((double)p.t[g.t[id - 1].name].starts[(oc - 1) * (ll)g.t[id - 1].dur.size() + f - 1]); } return node[key]; };
    for (auto& l : splitLines(r.out)) { size_t q = l.find("<Arc "), w = l.find(" weight='"), d = l.find(" time='"), k = l.find("] ", l.find("<!-- [")); if (q == l.npos || w == l.npos || d == l.npos || k == l.npos) continue; ll a, b, e, x, y, z; c.require(sscanf(l.c_str() + k, "] %lld,%lld,%lld to %lld,%lld,%lld", &a, &b, &e, &x, &y, &z) == 6, "constraints", "unreadable: " + l); int u = ev2(a, b, e), v = ev2(x, y, z); as.push_back({u, v, atof(l.c_str() + w + 9), atof(l.c_str() + d + 7)}); }
    c.require(!as.empty(), "constraints", what + " prints no constraint"); double om = (double)p.omega; for (auto& a : as) c.require(at[a.b] - at[a.a] >= a.d - om * a.w - 3e-5 * std::max(1.0, om), "constraints", what + fmt(": the drawn starts break a constraint by %.6g", a.d - om * a.w - (at[a.b] - at[a.a])));
    auto posCycle = [&](double per) { std::vector<double> D(at.size(), 0); for (size_t i = 0; i <= at.size(); i++) { bool ch = false; for (auto& a : as) { double n = D[a.a] + a.d - per * a.w; if (n > D[a.b] + 1e-9) { D[a.b] = n; ch = true; } } if (!ch) return false; } return true; };
    c.require(posCycle(om * (1 - 1e-3)), "constraints", what + fmt(": the printed constraints admit a shorter period than the %.9g drawn", om)); c.cnt["constraint_graphs_checked"]++;
}
