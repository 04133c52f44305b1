// Conflicts on the network: flows that meet in a router become one task that serves them in turn.
#include "doc.h"
#include <dirent.h>
#include <signal.h>
#include <cstring>
#include <unistd.h>

static ll nth(const std::vector<ll>& i, const std::vector<ll>& p, ll k) { return k < (ll)i.size() ? i[k] : p[(k - (ll)i.size()) % (ll)p.size()]; }
static std::string stage(const std::string& part) {   // the document written for a stage of the construction
    DIR* d = opendir(scratch().c_str()); if (!d) return ""; std::string r; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.find(part) != n.npos && n.size() > 4 && n.substr(n.size() - 4) == ".xml" && n.find("bufferless_noc_schedule_") == 0) r = n; } closedir(d); return r;
}

static void forget() { DIR* d = opendir(scratch().c_str()); if (!d) return; std::vector<std::string> v; while (dirent* e = readdir(d)) if (!strncmp(e->d_name, "bufferless_noc_schedule_", 24)) v.push_back(e->d_name); closedir(d); for (auto& n : v) unlink((scratch() + "/" + n).c_str()); }

SCENARIO(C07, shared_routers, 6) {
    forget();
    GenOpt o; o.maxTasks = 5; o.maxPhases = 1; o.maxQ = 2; o.maxRate = 2; o.maxTotal = 12; o.extraChan = 2; o.spice = 18; o.strong = c.tp.chance(1, 2); o.zeroRate = false; Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    scratchWrite("app.xml", g.xml()); ll N = (ll)g.t.size(), n = std::max<ll>(2, (ll)std::ceil(std::sqrt((double)N))), S = n * n; std::vector<std::string> a = {"-f", scratch() + "/app.xml", "-a", "createNoC"};
    if (c.tp.chance(1, 2)) { ll row = -1; if (c.tp.chance(1, 2)) row = (ll)c.tp.draw((uint32_t)n); for (ll i = 0; i < N; i++) if (c.tp.chance(2, 3)) a.push_back("-p" + g.t[i].name + fmt("=%lld", S + (row >= 0 ? row * n + (ll)(c.tp.draw((uint32_t)n) % n) : (ll)(c.tp.draw((uint32_t)S) % S)))); }
    a.insert(a.end(), {"-a", c.tp.chance(1, 2) ? "randomMapping" : "moduloMapping", "-a", c.tp.chance(1, 2) ? "randomRouting" : "xyRouting", "-a", "BufferlessNoCScheduling", "-pPRINT=1"});
    std::string what; for (size_t i = 2; i < a.size(); i++) what += a[i] + " "; c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    CallResult r = progcall(benignEnv(c.tp), a, 10); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"}; c.require(!r.sig && !r.code, "refused", what + "gives no answer: " + r.how());
    std::string f0 = stage("_ModelNoCConflictFreeCommunication"), f1 = stage("_end."); c.require(!f0.empty() && !f1.empty(), "refused", what + ": a stage of the construction is not written");
    Doc B = mean(c, scratchRead(f0), "the application on the network"), E = mean(c, scratchRead(f1), "the application without conflicts");
    // ---- who meets whom: flows through one router that come in or leave by the same link, and so on
    std::map<std::string, int> flow; std::vector<std::string> name; std::vector<ll> li, lo, grp; std::vector<const DChan*> in, out;
    for (auto& t : B.t) { ll e, x, y; if (sscanf(t.name.c_str(), "router-%lld_%lld_%lld", &e, &x, &y) != 3) continue; flow[t.name] = (int)name.size(); name.push_back(t.name); li.push_back(x); lo.push_back(y); grp.push_back((ll)grp.size()); in.push_back(nullptr); out.push_back(nullptr); }
    for (auto& e : B.c) { if (flow.count(e.dst)) in[flow[e.dst]] = &e; if (flow.count(e.src)) out[flow[e.src]] = &e; }
    for (size_t i = 0; i < name.size(); i++) if (!in[i] || !out[i]) c.fail("harness", "a router without channels: " + name[i]);
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < name.size(); i++) for (size_t j = 0; j < i; j++) if ((li[i] == li[j] || lo[i] == lo[j]) && grp[i] != grp[j]) { ll m = std::min(grp[i], grp[j]); grp[i] = grp[j] = m; ch = true; } }
    std::map<std::string, const DTask*> et; for (auto& t : E.t) { c.require(!et.count(t.name), "tasks", what + ": two tasks are called " + t.name); et[t.name] = &t; } std::map<std::string, const DChan*> ec; for (auto& e : E.c) { c.require(!ec.count(e.name), "channels", what + ": two channels are called " + e.name); ec[e.name] = &e; }
    for (auto& t : B.t) if (!flow.count(t.name)) c.require(et.count(t.name) && *et[t.name] == t, "tasks", what + ": the task " + t.name + " is changed or missing");
    for (auto& e : B.c) { bool a = flow.count(e.src), b = flow.count(e.dst); if (!a && !b) c.require(ec.count(e.name) && *ec[e.name] == e, "channels", what + ": the channel " + e.name + " is changed or missing"); else { c.require(ec.count(e.name), "channels", what + ": the channel " + e.name + " is missing"); auto* z = ec[e.name]; c.require(z->tok == e.tok && (a || (z->src == e.src && z->p == e.p && z->pi.empty())) && (b || (z->dst == e.dst && z->c == e.c && z->ci.empty())), "channels", what + ": the channel " + e.name + " is changed"); } }
    c.require(ec.size() == B.c.size(), "channels", what + fmt(": %zu channels become %zu", B.c.size(), ec.size()));
    Graph bg; std::map<std::string, int> bi; for (auto& t : B.t) { Task x; x.name = t.name; for (auto v : t.dur) x.dur.push_back((ll)v); bi[t.name] = (int)bg.t.size(); bg.t.push_back(x); } for (auto& e : B.c) { Chan h; h.name = e.name; h.src = bi[e.src]; h.dst = bi[e.dst]; h.prod = e.p; h.cons = e.c; h.tok = e.tok; bg.c.push_back(h); } if (!bg.solve()) c.fail("harness", "the application on the network does not balance");
    std::map<ll, std::vector<int>> groups; for (size_t i = 0; i < name.size(); i++) groups[grp[i]].push_back((int)i); std::set<std::string> served; size_t merged = 0;
    for (auto& gr : groups) {
        auto& v = gr.second; std::string M = ec[in[v[0]]->name]->dst; c.require(et.count(M), "router", what + ": a flow through a router leads nowhere"); c.require(served.insert(M).second, "router", what + ": " + M + " serves flows that do not meet"); const DTask& m = *et[M];
        if (v.size() == 1) { const DTask* b = nullptr; for (auto& t : B.t) if (t.name == name[v[0]]) b = &t; c.require(M == name[v[0]] && *b == m && *ec[in[v[0]]->name] == *in[v[0]] && *ec[out[v[0]]->name] == *out[v[0]], "router", what + ": " + M + " meets no other flow but is changed"); continue; }
        merged++; c.require(m.reent, "router", what + ": " + M + " may serve two flows at a time"); size_t I = m.init.size(), P = m.dur.size(); std::map<int, ll> first, round;
        for (int i : v) { auto *x = ec[in[i]->name], *y = ec[out[i]->name]; c.require(x->dst == M && y->src == M, "router", what + ": " + name[i] + " still meets other flows outside " + M); }
        for (size_t k = 0; k < I + P; k++) { int who = -1; for (int i : v) { auto *x = ec[in[i]->name], *y = ec[out[i]->name]; ll cs = nth(x->ci, x->c, (ll)k), pr = nth(y->pi, y->p, (ll)k); c.require(cs == pr && (cs == 0 || cs == 1), "router", what + fmt(": firing %zu of %s takes %lld tokens of a flow and gives %lld", k, M.c_str(), cs, pr)); if (cs) { c.require(who < 0, "router", what + fmt(": firing %zu of ", k) + M + " serves two flows at once"); who = i; } } c.require(who >= 0, "router", what + fmt(": firing %zu of ", k) + M + " serves nobody"); (k < I ? first : round)[who]++; }
        for (size_t k = 0; k < I + P; k++) c.require((k < I ? m.init[k] : m.dur[k - I]) == 0, "router", what + ": " + M + " takes time");
        for (int i : v) c.require(round[i] > 0 && round[i] * bg.q[bi[name[v[0]]]] == round[v[0]] * bg.q[bi[name[i]]], "router", what + fmt(": %s serves one flow %lld times and another %lld times in a round", M.c_str(), round[i], round[v[0]]));
    }
    c.require(E.t.size() == B.t.size() - name.size() + groups.size(), "tasks", what + fmt(": %zu tasks at the end", E.t.size())); c.cnt["merged_routers"] += (ll)merged; c.cnt["lone_routers"] += (ll)(groups.size() - merged);
    // ---- it keeps running
    std::map<std::string, ll> fired, target; std::vector<ll> tk; for (auto& e : E.c) tk.push_back(e.tok); for (auto& t : B.t) if (!flow.count(t.name)) target[t.name] = 0; ll k0 = 1; for (auto& gr : groups) if (gr.second.size() > 1) { const DTask& m = *et[ec[in[gr.second[0]]->name]->dst]; ll rd = 0; for (size_t k = m.init.size(); k < m.init.size() + m.dur.size(); k++) { auto* x = ec[in[gr.second[0]]->name]; rd += nth(x->ci, x->c, (ll)k); } ll q = bg.q[bi[name[gr.second[0]]]]; k0 = std::max(k0, (rd + q - 1) / q + ((ll)m.init.size() + (ll)m.dur.size()) / (ll)m.dur.size()); }
    for (auto& x : target) x.second = 6 * k0 * bg.q[bi[x.first]]; ll steps = 0;
    for (bool go = true; go && steps < 200000;) { go = false; for (auto& t : E.t) while ((!target.count(t.name) || fired[t.name] < target[t.name]) && steps < 200000) { ll k = fired[t.name]; bool ok = true, any = false; for (size_t e = 0; e < E.c.size(); e++) if (E.c[e].dst == t.name) { ll x = nth(E.c[e].ci, E.c[e].c, k); any = any || x; if (tk[e] < x) ok = false; } if (!ok || (!any && !target.count(t.name))) break; for (size_t e = 0; e < E.c.size(); e++) { if (E.c[e].dst == t.name) tk[e] -= nth(E.c[e].ci, E.c[e].c, k); if (E.c[e].src == t.name) tk[e] += nth(E.c[e].pi, E.c[e].p, k); } fired[t.name]++; steps++; go = true; } }
    for (auto& x : target) if (flow.find(x.first) == flow.end() && g.q.size()) { bool own = false; for (auto& t : g.t) if (t.name == x.first) own = true; if (own) c.require(fired[x.first] >= 4 * k0 * bg.q[bi[x.first]], "liveness", what + fmt(": %s stops after %lld firings", x.first.c_str(), fired[x.first])); }
    // ---- the drawn schedule is executed
    std::map<long, std::string> row; std::map<std::string, std::vector<std::pair<double, double>>> st; for (auto& l : splitLines(r.out)) { size_t p = l.find(" pos=\""), w = l.find("width=\""); if (p == l.npos || l[0] != '"') continue; double x, y; if (sscanf(l.c_str() + p + 6, "%lf,%lf", &x, &y) != 2) continue; long key = std::lround(y * 10); if (l.find("shape=plaintext") != l.npos) { size_t q = l.find('"', 1); row[key] = l.substr(1, q - 1); continue; } double d = w == l.npos ? 0 : atof(l.c_str() + w + 7) * 72; c.require(row.count(key), "drawing", what + ": an execution of no task"); st[row[key]].push_back({x - d / 2, d}); }
    c.require(!st.empty(), "drawing", what + ": nothing is drawn"); for (auto& x : st) c.require(et.count(x.first), "drawing", what + ": an unknown task is drawn: " + x.first);
    for (auto& t : E.t) if (!t.init.empty()) { c.cnt["startup_not_executed"]++; return; }   // analyses of start-up phases: known findings of C02 and C03
    auto dur = [&](const DTask& t, ll k) { return (double)(k < (ll)t.init.size() ? t.init[k] : t.dur[(k - (ll)t.init.size()) % (ll)t.dur.size()]); }; const double eps = 2e-3;
    for (auto& t : E.t) { auto& v = st[t.name]; for (size_t k = 0; k < v.size(); k++) { c.require(std::fabs(v[k].second - dur(t, (ll)k)) < eps, "drawing", what + fmt(": firing %zu of %s is drawn with the duration %g", k, t.name.c_str(), v[k].second)); if (k) c.require(v[k].first >= v[k - 1].first + dur(t, (ll)k - 1) - eps, "overlap", what + fmt(": firing %zu of %s starts at %g, before the previous one ends", k, t.name.c_str(), v[k].first)); } }
    for (auto& e : E.c) { auto &p = st[e.src], &q = st[e.dst]; const DTask& ps = *et[e.src]; ll have = e.tok, took = 0; size_t k = 0; for (size_t j = 0; j < q.size(); j++) { while (k < p.size() && p[k].first + dur(ps, (ll)k) <= q[j].first + eps) have += nth(e.pi, e.p, (ll)k++); if (q[j].first > 58) break;   // the drawing stops at 60
 took += nth(e.ci, e.c, (ll)j); c.require(took <= have, "exec", what + fmt(": firing %zu of %s at %g finds %lld tokens of %lld on ", j, e.dst.c_str(), q[j].first, have - took + nth(e.ci, e.c, (ll)j), nth(e.ci, e.c, (ll)j)) + e.name); c.cnt["drawn_firings"]++; } }
}
