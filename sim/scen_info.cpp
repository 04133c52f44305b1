// What kiter tells about an application: the table of facts and the drawing.
#include "doc.h"
#include <signal.h>

static Txt words(const std::string& s) { Txt r; std::string w; for (char x : s) if (isspace((unsigned char)x)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += x; if (!w.empty()) r.push_back(w); return r; }
static std::string after(const std::string& out, const std::string& k) { size_t i = out.find(k); if (i == out.npos) return "?missing"; size_t e = out.find('\n', i); std::string s = out.substr(i + k.size(), e - i - k.size()); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
static std::string braces(const std::vector<ll>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "}"; }
// smallest positive numbers of rounds that balance every channel; empty when there are none or the application is in pieces
static std::map<std::string, ll> rounds(const Doc& d, bool& consistent, bool& whole) {
    Graph g; std::map<std::string, int> id; for (auto& t : d.t) { id[t.name] = (int)g.t.size(); Task k; k.name = t.name; k.dur.assign(t.dur.size(), 1); g.t.push_back(k); }
    std::vector<int> p(g.t.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int)i; std::function<int(int)> root = [&](int x) { return p[x] == x ? x : p[x] = root(p[x]); };
    for (auto& e : d.c) { Chan k; k.name = e.name; k.src = id[e.src]; k.dst = id[e.dst]; k.prod = e.p; k.cons = e.c; g.c.push_back(k); p[root(k.src)] = root(k.dst); }
    whole = true; for (size_t i = 0; i < p.size(); i++) whole = whole && root((int)i) == root(0); consistent = g.solve(); std::map<std::string, ll> r; if (consistent) for (size_t i = 0; i < g.t.size(); i++) r[g.t[i].name] = g.q[i]; return r;
}

SCENARIO(C06, printed_facts, 6) {
    GenOpt o; o.maxTasks = 6; o.allowAuto = c.tp.chance(1, 3); o.selfloops = c.tp.chance(1, 3); o.strong = c.tp.chance(1, 3); o.zeroDur = c.tp.chance(1, 4); o.live = c.tp.chance(2, 3); Graph g = genGraph(c.tp, o);
    if (c.tp.chance(1, 4)) for (auto& t : g.t) for (auto& x : t.dur) if (c.tp.chance(1, 2)) x = c.tp.range(0, 60000);
    bool broken = !g.c.empty() && c.tp.chance(1, 4); if (broken) { auto& e = g.c[c.tp.draw((uint32_t)g.c.size())]; (c.tp.chance(1, 2) ? e.prod : e.cons)[0] += 1 + (ll)c.tp.draw(3); }
    scratchWrite("app.xml", g.xml()); std::vector<std::string> a = {"-f", scratch() + "/app.xml"}; bool sdf = true, selfs = false; for (auto& t : g.t) sdf = sdf && t.dur.size() == 1; for (auto& e : g.c) selfs = selfs || e.src == e.dst; std::string what;
    bool mesh = !broken && c.tp.chance(1, 4); if (mesh) { a.insert(a.end(), {"-a", "createNoC", "-a", "moduloMapping"}); if (c.tp.chance(2, 3)) a.insert(a.end(), {"-a", c.tp.chance(1, 2) ? "xyRouting" : "randomRouting"}); what = "the placed "; }
    else if (!broken && c.tp.chance(1, 3)) switch (c.tp.draw(4)) {
        case 0: a.insert(a.end(), {"-a", "RemoveReentrancy"}); what = "the reentrant "; break;
        case 1: if (g.t.size() > 1) { a.insert(a.end(), {"-pname=M", "-ptasks=1,2", "-a", "Merge"}); what = "the merged "; } break;
        case 2: a.insert(a.end(), {"-a", c.tp.chance(1, 2) ? "SymbExec" : "KPeriodicThroughput"}); what = "the analysed "; break;
        default: a.insert(a.end(), {"-a", "PrintInfos"}); what = "the described "; }
    what += "application"; size_t pre = a.size(); bool infosFirst = c.tp.chance(1, 2), toFile = c.tp.chance(1, 3); a.insert(a.end(), {"-a", "PrintXML", "-a", infosFirst ? "PrintInfos" : "PrintGraph", "-a", infosFirst ? "PrintGraph" : "PrintInfos"});
    std::string dotf = scratch() + "/app.dot"; if (toFile) { for (size_t i = pre; i < a.size(); i++) if (a[i] == "PrintGraph") { a.insert(a.begin() + i - 1, "-pfilename=" + dotf); break; } }
    c.say("application: " + g.brief()); std::string req; for (size_t i = 2; i < a.size(); i++) req += a[i] + " "; c.say("request: " + req); c.sample = g.brief() + req; if (toFile) scratchWrite("app.dot", "");
    CallResult r = progcall(benignEnv(c.tp), a, 5); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"}; if (what[4] == 'm' || what[4] == 'a') { if (r.sig || r.code) throw Skip{"no answer from the earlier command"}; }
    c.require(!r.sig && !r.code, "refused", req + "gives no answer: " + r.how()); size_t x0 = r.out.find("<?xml"), x1 = r.out.find("</sdf3>"); c.require(x0 != r.out.npos && x1 != r.out.npos, "refused", req + ": no application is printed");
    Doc d = mean(c, r.out.substr(x0, x1 + 7 - x0), what); std::string rest = r.out.substr(x1 + 7), dot, inf; size_t gi = rest.find("digraph G {"), ii = rest.find("App name "); c.require(ii != rest.npos, "facts", req + ": no facts are printed");
    if (toFile) { dot = scratchRead("app.dot"); c.require(!dot.empty(), "drawing", req + ": no drawing is written"); inf = rest; c.require(gi == rest.npos, "drawing", req + ": the drawing is printed, not written"); } else { c.require(gi != rest.npos, "drawing", req + ": no drawing is printed"); dot = gi < ii ? rest.substr(gi, ii - gi) : rest.substr(gi); inf = gi < ii ? rest.substr(ii) : rest.substr(ii, gi - ii); }
    // ---- the summary
    bool ok, whole; auto q = rounds(d, ok, whole); auto say = [&](const std::string& k, const std::string& want) { std::string got = after(inf, k); c.require(got == want, "summary", "PrintInfos of " + what + " says '" + k + got + "' instead of " + want); };
    say("App name       =", d.app); say("Graph name     =", d.graph); say("Graph type     =", d.type); say("Task count     =", std::to_string(d.t.size())); say("Channel count =", std::to_string(d.c.size()));
    bool no = inf.find("This dataflow graph is not consistent!") != inf.npos; c.require(no == !ok, "summary", "PrintInfos of " + what + (no ? " calls it inconsistent" : " does not say that it is inconsistent"));
    if (ok && whole && d.t.size() > 1) { ll sq = 0, sp = 0, sn = 0; for (auto& t : d.t) { sq += q[t.name]; sp += (ll)t.dur.size(); sn += q[t.name] * (ll)t.dur.size(); } say("Sum(qt) =", std::to_string(sq)); say("Sum(phit) =", std::to_string(sp)); say("Sum(Nt=qt*phit) (complexity) =", std::to_string(sn)); }
    // ---- the tables
    std::map<std::string, Txt> T, C; std::map<std::string, std::string> idOf; int part = 0; for (auto& l : splitLines(inf)) {
        if (l == "TASKS") { part = 1; continue; } if (l == "CHANNELS") { part = 2; continue; } if (l == "NO TASKS" || l == "NO CHANNELS") { part = 0; continue; } if (!part) continue; size_t o1 = l.rfind(" ("), o2 = o1 == l.npos ? l.npos : l.find(')', o1); if (o2 == l.npos) continue;
        std::string n = l.substr(0, o1); while (!n.empty() && n[0] == ' ') n.erase(0, 1); Txt w = words(l.substr(o1 + 2, o2 - o1 - 2)); std::string rest = l.substr(o2 + 1); size_t br = rest.find('{'); if (br != rest.npos) rest.insert(br, " "); for (auto& x : words(rest)) w.push_back(x); if (n == "VertexName" || n == "ChannelName") continue; auto& M = part == 1 ? T : C; c.require(!M.count(n), "table", "PrintInfos of " + what + " lists " + n + " twice"); M[n] = w; }
    c.require(T.size() == d.t.size() && C.size() == d.c.size(), "table", "PrintInfos of " + what + fmt(" lists %zu tasks and %zu channels instead of %zu and %zu", T.size(), C.size(), d.t.size(), d.c.size()));
    std::set<std::string> ids; ll S = 0; if (mesh) { ll n = std::max<ll>(2, (ll)std::ceil(std::sqrt((double)d.t.size()))); S = n * n; }
    for (auto& t : d.t) { c.require(T.count(t.name) && T[t.name].size() == 7, "table", "PrintInfos of " + what + " has no complete line for the task " + t.name); auto& w = T[t.name]; ll in = 0, out = 0; long double dur = 0; for (auto& e : d.c) { in += e.dst == t.name; out += e.src == t.name; } for (auto x : t.dur) dur += x;
        auto eq = [&](int k, const std::string& f, const std::string& want) { c.require(w[k] == want, "task line", "PrintInfos of " + what + ": " + f + " of " + t.name + " is " + w[k] + " instead of " + want); };
        c.require(ids.insert(w[0]).second, "table", "PrintInfos of " + what + ": two tasks have the number " + w[0]); idOf[t.name] = w[0]; eq(1, "the number of inputs", std::to_string(in)); eq(2, "the number of outputs", std::to_string(out)); c.require(near(atof(w[3].c_str()), (double)dur, 1e-5), "task line", "PrintInfos of " + what + ": the total duration of " + t.name + " is " + w[3] + fmt(" instead of %Lg", dur));
        if (!ok) eq(4, "the repetition factor", "N/A"); else if (whole && d.t.size() > 1) eq(4, "the repetition factor", std::to_string(q[t.name] * (ll)t.dur.size())); eq(5, "the number of phases", std::to_string(t.dur.size()));
        if (mesh) eq(6, "the core", std::to_string(S + (atoll(w[0].c_str()) - 1) % S)); else eq(6, "the core", "-1"); }
    for (auto& e : d.c) { c.require(C.count(e.name) && C[e.name].size() == 7, "table", "PrintInfos of " + what + " has no complete line for the channel " + e.name); auto& w = C[e.name]; auto eq = [&](int k, const std::string& f, const std::string& want) { c.require(w[k] == want, "channel line", "PrintInfos of " + what + ": " + f + " of " + e.name + " is " + w[k] + " instead of " + want); };
        c.require(ids.insert("c" + w[0]).second, "table", "PrintInfos of " + what + ": two channels have the number " + w[0]); eq(1, "the source", idOf[e.src]); eq(2, "the target", idOf[e.dst]); eq(3, "the production", std::to_string(vsum(e.p))); eq(4, "the consumption", std::to_string(vsum(e.c))); eq(5, "the initial marking", std::to_string(e.tok));
        if (!mesh) eq(6, "the route", "{}"); }
    // ---- the drawing
    std::map<std::string, int> nodes; std::multiset<std::string> got, want; for (auto& l : splitLines(dot)) { long long u, v; if (sscanf(l.c_str(), " t_%lld -> t_%lld [", &u, &v) == 2) { auto f = [&](const std::string& k) { size_t i = l.find(k + "=\""); if (i == l.npos) return std::string("?"); i += k.size() + 2; return l.substr(i, l.find('"', i) - i); }; got.insert(fmt("%lld %lld ", u, v) + f(" label") + " " + f("headlabel") + " " + f("taillabel")); }
        else if (sscanf(l.c_str(), " t_%lld [", &u) == 1) { size_t i = l.find("label = \""); c.require(i != l.npos, "drawing", "PrintGraph of " + what + ": a task without a name"); std::string n = l.substr(i + 9, l.find('"', i + 9) - i - 9); c.require(idOf.count(n) && idOf[n] == std::to_string(u) && !nodes[n]++, "drawing", "PrintGraph of " + what + ": the task " + n + " is drawn wrong"); } }
    c.require(nodes.size() == d.t.size(), "drawing", "PrintGraph of " + what + fmt(" draws %zu tasks instead of %zu", nodes.size(), d.t.size()));
    for (auto& e : d.c) { auto in = [&](const std::vector<ll>& i, const std::vector<ll>& p) { return (i.empty() ? "" : "(" + braces(i) + ");") + braces(p); }; want.insert(idOf[e.src] + " " + idOf[e.dst] + " " + std::to_string(e.tok) + " " + in(e.ci, e.c) + " " + in(e.pi, e.p)); }
    for (auto& x : want) c.require(got.count(x) == want.count(x), "drawing", "PrintGraph of " + what + fmt(" draws %zu channels '%s' (from, to, tokens, consumed, produced) instead of %zu", got.count(x), x.c_str(), want.count(x))); c.require(got.size() == want.size(), "drawing", "PrintGraph of " + what + " draws channels that do not exist");
}
