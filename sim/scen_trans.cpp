// Transformations: what an application becomes.
#include "doc.h"
#include <signal.h>

static Doc transformed(Ctx& c, const std::vector<std::string>& args, const std::string& what) {
    std::vector<std::string> a = {"-f", scratch() + "/app.xml"}; for (auto& x : args) a.push_back(x); a.push_back("-a"); a.push_back("PrintXML");
    CallResult r = progcall(benignEnv(c.tp), a, 30); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"};
    c.require(!r.sig && !r.code, "refused", what + " gives no answer: " + r.how()); size_t i = r.out.find("<?xml"); c.require(i != r.out.npos, "refused", what + ": no application is printed");
    std::string x = r.out.substr(i); trim(x); return mean(c, x, "the application after " + what);
}
static Doc original(Ctx& c, Graph& g) { if (c.tp.chance(1, 3)) for (auto& e : g.c) e.size = c.tp.range(1, 9); scratchWrite("app.xml", g.xml()); c.say("application: " + g.brief()); c.sample = g.brief(); return meaning(g.xml()); }
static DChan* chan(Doc& d, const std::string& n) { for (auto& x : d.c) if (x.name == n) return &x; return nullptr; }
static DTask* task(Doc& d, const std::string& n) { for (auto& x : d.t) if (x.name == n) return &x; return nullptr; }
static ll per(const std::vector<ll>& i, const std::vector<ll>& p, ll k) { return k < (ll)i.size() ? i[k] : p[(k - (ll)i.size()) % (ll)p.size()]; }

SCENARIO(C11, remove_reentrancy, 2) {
    GenOpt o; o.maxTasks = 6; o.allowAuto = c.tp.chance(1, 3); o.selfloops = c.tp.chance(1, 3); o.strong = c.tp.chance(1, 2); Graph g = genGraph(c.tp, o); Doc want = original(c, g); std::vector<std::string> args; std::string what = "RemoveReentrancy";
    int how = (int)c.tp.draw(3); std::string l; for (size_t i = 0; i < g.t.size(); i++) if (how == 0 || c.tp.chance(1, 2)) { want.t[i].reent = false; l += (l.empty() ? "" : ",") + (how == 1 ? g.t[i].name : std::to_string(i + 1)); }
    if (how && l.empty()) { l = how == 1 ? g.t[0].name : "1"; want.t[0].reent = false; } if (how == 1) args = {"-ptaskname=" + l}; if (how == 2) args = {"-ptaskid=" + l};
    args.push_back("-a"); args.push_back("RemoveReentrancy"); if (c.tp.chance(1, 3)) { args.insert(args.begin(), {"-a", "PrintInfos"}); what += " after PrintInfos"; }
    Doc got = transformed(c, args, what + " " + l); got.app = want.app; got.graph = want.graph; got.type = want.type; std::string d = differs(want, got); c.require(d.empty(), "content", what + " " + l + ": " + d);
}

// every channel gets a companion that holds its free space; the bounded application keeps the period it was sized for
SCENARIO(C11, virtual_buffers, 3) {
    GenOpt o; o.spice = 31; o.maxTasks = 5; o.strong = c.tp.chance(1, 2); o.zeroRate = false; if (c.tp.chance(1, 2)) o.maxPhases = 1; Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"}; Doc want = original(c, g);
    double thr; { CallResult r = progcall(benignEnv(c.tp), {"-f", scratch() + "/app.xml", "-a", "SPeriodicThroughput"}); if (r.sig || r.code) throw Skip{"no strictly periodic throughput"}; thr = numAfter(r.out, "SPeriodic throughput is"); } if (!(thr > 1e-9)) throw Skip{"no schedule of that shape"};
    ll p = (ll)std::ceil(1 / thr + 0.01) + (c.tp.chance(1, 2) ? c.tp.range(0, 20) : 0); if (std::isinf(thr)) p = c.tp.range(1, 10); int mul = c.tp.chance(1, 4) ? 2 : 1;
    std::vector<std::string> args = {fmt("-pPERIOD=%lld", p)}; if (mul > 1) args.push_back("-pMUL=2"); if (c.tp.chance(1, 4)) args.push_back("-pILP=1"); args.push_back("-a"); args.push_back("AddVBuffers"); std::string what = fmt("AddVBuffers for the period %lld", p);
    Doc got = transformed(c, args, what); std::set<std::string> used;
    for (auto& x : want.t) { auto* y = task(got, x.name); c.require(y && *y == x, "tasks", what + " changes the task " + x.name); }
    c.require(got.t.size() == want.t.size(), "tasks", what + " adds tasks"); c.require(got.c.size() == 2 * want.c.size(), "channels", what + fmt(" gives %zu channels for %zu", got.c.size(), want.c.size()));
    for (auto& x : want.c) {
        auto* y = chan(got, x.name); c.require(y && *y == x, "channels", what + " changes the channel " + x.name); auto* v = chan(got, "vir_" + x.name); c.require(v, "channels", what + " adds no companion to " + x.name);
        c.require(v->src == x.dst && v->dst == x.src && v->p == x.c && v->c == x.p && v->size == x.size, "companion", what + ": the companion of " + x.name + " is not its reverse"); c.require(v->tok >= 0, "companion", what + ": " + fmt("%lld free places in ", v->tok) + x.name);
    }
    Graph b = g; auto id = [&](const std::string& n) { for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].name == n) return (int)i; return -1; };
    for (auto& x : want.c) { auto* v = chan(got, "vir_" + x.name); Chan k; k.name = v->name; k.src = id(v->src); k.dst = id(v->dst); k.prod = v->p; k.cons = v->c; k.tok = v->tok; b.c.push_back(k); }
    b.solve(); Thr t = selfTimed(b, 400000); if (t.k == THR_UNKNOWN) throw Skip{"too long to execute"}; c.simtime += t.simtime; c.states += t.states;
    c.require(t.k == THR_INF || ratio(t) >= 1.0 / (double)p * (1 - 1e-9), "rate", what + ": the bounded application runs at " + thrStr(t) + fmt(" instead of at least %g", 1.0 / (double)p));
}

// one output per task: the copies carry every token the channels carried
SCENARIO(C11, single_output, 2) {
    GenOpt o; o.maxTasks = 6; o.maxPhases = 1; o.maxQ = 1; o.maxRate = 1; o.extraChan = 6; o.zeroRate = false; Graph g = genGraph(c.tp, o); for (auto& e : g.c) e.size = 1; bool any = false; size_t pick = c.tp.draw((uint32_t)g.t.size());
    for (auto& e : g.c) { if (e.prod != std::vector<ll>{1} || e.cons != std::vector<ll>{1}) throw Skip{"rates"}; if (e.src == (int)pick && e.src != e.dst) any = true; } (void)any;
    Doc want = original(c, g); std::string T = want.t[pick].name, what = "SingleOutput of " + T; std::vector<std::string> args = {"-pname=" + T, "-a", "SingleOutput"}; if (c.tp.chance(1, 4)) args.insert(args.begin(), {"-a", "PrintInfos"});
    Doc got = transformed(c, args, what); std::map<std::string, ll> outs; std::multiset<std::pair<std::string, ll>> A, B; std::set<std::string> orig; for (auto& t : want.t) orig.insert(t.name);
    for (auto& t : want.t) { auto* y = task(got, t.name); c.require(y && *y == t, "tasks", what + " changes the task " + t.name); }
    for (auto& e : got.c) { outs[e.src]++; c.require(e.p == std::vector<ll>{1} && e.c == std::vector<ll>{1} && e.pi.empty() && e.ci.empty(), "rates", what + ": rates of " + e.name); } c.require(outs[T] <= 1, "outputs", what + fmt(" leaves %lld outputs", outs[T]));
    for (auto& e : want.c) if (e.src == T) A.insert({e.dst, e.tok}); else { auto* y = chan(got, e.name); c.require(y && *y == e, "channels", what + " changes the channel " + e.name); }
    int guard = 0; std::function<void(const std::string&, ll)> follow = [&](const std::string& s, ll tok) { if (++guard > 1000) c.fail("copies", what + ": the copies form a circuit"); for (auto& e : got.c) if (e.src == s) { if (orig.count(e.dst)) B.insert({e.dst, tok + e.tok}); else follow(e.dst, tok + e.tok); } };
    follow(T, 0); c.require(A == B, "destinations", what + ": the outputs reach other tasks or carry other tokens than before");
    ll extra = 0; for (auto& t : got.t) if (!orig.count(t.name)) { extra++; ll in = 0; for (auto& e : got.c) in += e.dst == t.name; c.require(in == 1, "copies", what + ": a copy has several inputs"); } c.require(extra == std::max<ll>(0, (ll)A.size() - 1), "copies", what + fmt(" adds %lld copies for %zu outputs", extra, A.size()));
}

// the merged task performs the firings of its parts in an order the application allows
SCENARIO(C11, merge, 4) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(2, 3); o.maxPhases = c.tp.chance(1, 3) ? 1 : 3; o.maxTotal = 30; Graph g = genGraph(c.tp, o); int n = (int)g.t.size(); if (n < 2) throw Skip{"one task"};
    ll d = 1 + (ll)c.tp.draw(3); for (auto& t : g.t) for (auto& x : t.dur) { x = d; d += c.tp.range(1, 3); }
    std::vector<int> m; for (int i = 0; i < n; i++) if (c.tp.chance(1, 2)) m.push_back(i); if (m.size() < 2) m = {0, 1};
    Doc want = original(c, g); std::string l; for (int i : m) l += (l.empty() ? "" : ",") + std::to_string(i + 1); std::string what = "Merge of the tasks " + l; c.say(what);
    Doc got = transformed(c, {"-pname=M", "-ptasks=" + l, "-a", "Merge"}, what); std::set<int> in(m.begin(), m.end()); auto* M = task(got, "M"); c.require(M && M->reent, "task", what + ": the merged task is missing or overlaps itself"); c.require(got.t.size() == want.t.size() - m.size() + 1, "task", what + fmt(" leaves %zu tasks", got.t.size()));
    for (int i = 0; i < n; i++) if (!in.count(i)) { auto* y = task(got, want.t[i].name); c.require(y && *y == want.t[i], "task", what + " changes the task " + want.t[i].name); }
    // decode the firings from their durations, which are all different
    std::vector<std::pair<int, int>> seq; size_t I = M->init.size(), P = M->dur.size(); for (size_t k = 0; k < I + P; k++) { long double x = k < I ? M->init[k] : M->dur[k - I]; bool ok = false; for (int i : m) for (size_t f = 0; f < g.t[i].dur.size(); f++) if ((long double)g.t[i].dur[f] == x) { seq.push_back({i, (int)f}); ok = true; } c.require(ok, "firings", what + fmt(": the merged task has a firing of duration %Lg", x)); }
    std::map<int, ll> cnt; std::vector<ll> tok(g.c.size()); for (size_t e = 0; e < g.c.size(); e++) tok[e] = g.c[e].tok; auto snapshot = [&]() { std::vector<ll> s; for (size_t e = 0; e < g.c.size(); e++) if (in.count(g.c[e].src) && in.count(g.c[e].dst)) s.push_back(tok[e]); for (int i : m) s.push_back(cnt[i] % (ll)g.t[i].dur.size()); return s; }; std::vector<ll> before; std::map<int, ll> reps;
    for (size_t k = 0; k < I + 2 * P; k++) {
        if (k == I) before = snapshot(); if (k == I + P) c.require(snapshot() == before, "repeat", what + ": after one round of the merged task its parts are not where they started the round"); auto [i, f] = seq[k < I + P ? k : k - P]; ll want_f = cnt[i] % (ll)g.t[i].dur.size(); c.require(f == want_f, "phase order", what + fmt(": firing %zu of the merged task is phase %d of %s instead of %lld", k, f + 1, g.t[i].name.c_str(), want_f + 1)); cnt[i]++; if (k >= I && k < I + P) reps[i]++;
        for (size_t e = 0; e < g.c.size(); e++) if (in.count(g.c[e].src) && in.count(g.c[e].dst)) { if (g.c[e].dst == i) { tok[e] -= g.c[e].cons[f]; c.require(tok[e] >= 0, "tokens", what + fmt(": firing %zu of the merged task consumes tokens of %s that no part has produced", k, g.c[e].name.c_str())); } }
        for (size_t e = 0; e < g.c.size(); e++) if (in.count(g.c[e].src) && in.count(g.c[e].dst)) if (g.c[e].src == i) tok[e] += g.c[e].prod[f];
    }
    size_t ext = 0; for (auto& e : g.c) {
        bool a = in.count(e.src), b = in.count(e.dst); auto* y = chan(got, e.name); if (a && b) { c.require(!y, "channels", what + " keeps the internal channel " + e.name); continue; } ext++; c.require(y, "channels", what + " loses the channel " + e.name); c.require(y->tok == e.tok, "channels", what + " changes the tokens of " + e.name);
        c.require(y->src == (a ? "M" : g.t[e.src].name) && y->dst == (b ? "M" : g.t[e.dst].name), "channels", what + " moves the channel " + e.name);
        if (!a) c.require(y->p == e.prod && y->pi.empty(), "rates", what + " changes the production of " + e.name); if (!b) c.require(y->c == e.cons && y->ci.empty(), "rates", what + " changes the consumption of " + e.name);
        for (size_t k = 0; k < I + P; k++) { auto [i, f] = seq[k]; if (a) c.require(per(y->pi, y->p, (ll)k) == (i == e.src ? e.prod[f] : 0), "rates", what + fmt(": firing %zu produces %lld on %s", k, per(y->pi, y->p, (ll)k), e.name.c_str())); if (b) c.require(per(y->ci, y->c, (ll)k) == (i == e.dst ? e.cons[f] : 0), "rates", what + fmt(": firing %zu consumes %lld on %s", k, per(y->ci, y->c, (ll)k), e.name.c_str())); }
    }
    c.require(got.c.size() == ext, "channels", what + " adds channels");
    // the application with the merged task keeps running
    std::map<std::string, ll> fired; std::vector<ll> tk; for (auto& e : got.c) tk.push_back(e.tok); std::map<std::string, ll> target; ll f = 1; { int i0 = m[0]; ll a = reps[i0], b = g.q[i0] * (ll)g.t[i0].dur.size(); f = a / std::gcd(a, b); } ll mrounds = f * g.q[m[0]] * (ll)g.t[m[0]].dur.size() / reps[m[0]];
    for (int i = 0; i < n; i++) if (!in.count(i)) target[g.t[i].name] = 3 * f * g.q[i] * (ll)g.t[i].dur.size() + (ll)(g.q[i] * g.t[i].dur.size()) * 2; target["M"] = (ll)I + 3 * mrounds * (ll)P;
    for (bool go = true; go;) { go = false; for (auto& t : got.t) while (fired[t.name] < target[t.name]) { ll k = fired[t.name]; bool ok = true; for (size_t e = 0; e < got.c.size(); e++) if (got.c[e].dst == t.name && tk[e] < per(got.c[e].ci, got.c[e].c, k)) ok = false; if (!ok) break; for (size_t e = 0; e < got.c.size(); e++) { if (got.c[e].dst == t.name) tk[e] -= per(got.c[e].ci, got.c[e].c, k); if (got.c[e].src == t.name) tk[e] += per(got.c[e].pi, got.c[e].p, k); } fired[t.name]++; go = true; } }
    c.require(fired["M"] >= (ll)I + 2 * mrounds * (ll)P, "liveness", what + fmt(": the application stops after %lld firings of the merged task", fired["M"]));
}
