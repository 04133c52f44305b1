// Packet traces: a firing by firing execution of the application on a network, written as computations, packets and what each waits for.
#include "app.h"
#include "kapi.h"

struct Line { ll src = 0, dst = 0; double dur = 0; std::vector<ll> deps; int task = -1, chan = -1; ll nth = 0, part = 0; };

static ll up(ll a, ll b) { return (a + b - 1) / b; }

SCENARIO(C20, trace, 6) {
    GenOpt o; o.maxTasks = c.tier ? 12 : 8; o.maxPhases = 1; o.maxQ = c.tp.chance(1, 4) ? 8 : 4; o.maxTotal = c.tier ? 120 : 60; o.selfloops = false; o.parallel = false; o.zeroDur = c.tp.chance(1, 4); o.allowAuto = c.tp.chance(1, 3); o.strong = c.tp.chance(1, 2); o.extraChan = (int)c.tp.range(0, 4); o.live = c.tp.chance(3, 4);
    Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"}; size_t n = g.t.size(); if (n > 16) throw Skip{"more tasks than cores"};
    for (size_t a = 0; a < g.c.size(); a++) { if (g.c[a].src == g.c[a].dst) throw Skip{"self-loop"}; for (size_t b = 0; b < a; b++) if (g.c[a].src == g.c[b].src && g.c[a].dst == g.c[b].dst) throw Skip{"parallel channels"}; }
    if (c.tp.chance(1, 3)) for (auto& e : g.c) if (c.tp.chance(1, 2)) e.tok += c.tp.range(0, 6);
    ll rounds = c.tp.chance(1, 2) ? 1 : (ll)c.tp.range(1, 4), ps = 0; std::vector<std::string> a = {"-f", (scratchWrite("app.xml", g.xml()), scratch() + "/app.xml")}; std::string what;
    std::vector<std::string> opt; if (c.tp.chance(3, 4)) { ll mx = 1; for (auto& e : g.c) mx = std::max(mx, e.prod[0]); ps = c.tp.chance(1, 3) ? 1 : (ll)c.tp.range(1, (uint32_t)std::min<ll>(mx + 2, 40)); } 
    ll lines = 0; for (size_t i = 0; i < n; i++) { lines += g.q[i] * rounds; for (auto& e : g.c) if (e.src == (int)i) lines += g.q[i] * rounds * (ps ? up(e.prod[0], ps) : 1); } if (lines > 4000) { ps = 0; }
    if (ps) opt.push_back(fmt("-ppsize=%lld", ps)); if (rounds != 1 || c.tp.chance(1, 3)) opt.push_back(fmt("-piteration=%lld", rounds));
    bool both = c.tp.chance(1, 3); if (both) { a.push_back("-a"); a.push_back("SymbolicExecution"); }
    if (c.tp.chance(1, 2)) { a.insert(a.end(), opt.begin(), opt.end()); a.push_back("-a"); a.push_back("SymbolicExecutionWP"); } else { a.push_back("-a"); a.push_back("SymbolicExecutionWP"); a.insert(a.end(), opt.begin(), opt.end()); }
    for (size_t i = 2; i < a.size(); i++) what += a[i] + " ";
    bool live = untimed(g, &c.tp, rounds).live; c.cnt[live ? "apps_live" : "apps_blocked"]++;
    c.say("application: " + g.brief()); c.say("request: " + what + (live ? "(live)" : "(blocked)")); c.sample = g.brief() + what;
    CallResult r = progcall(benignEnv(c.tp), a); c.absorb(r);
    if (!live) { c.require(!r.sig && r.code, "blocked", what + ": the application is blocked, the trace ends by " + r.how()); CallResult s = progcall(benignEnv(c.tp), {"-f", scratch() + "/app.xml", "-a", "SymbolicExecution"}); c.absorb(s); c.require(!s.sig && s.code, "blocked", "SymbolicExecution of a blocked application ends by " + s.how()); return; }
    c.require(!r.sig && !r.code, "noanswer", what + ": no trace of a live application: " + r.how());
    // ---- read the trace
    std::vector<std::string> ls = splitLines(r.out); size_t at = 0; while (at < ls.size() && ls[at].compare(0, 10, "#NUM_ROWS,")) at++; c.require(at + 2 < ls.size(), "header", what + ": the trace has no header"); c.require(ls[at] == "#NUM_ROWS,NUM_COLS,NUM_BANKS" && ls[at + 1] == "4,4,1" && ls[at + 2].find("#SRC,DEST,DURATION,PACKET_ID,BANK_ID,DEP1,") == 0, "header", what + ": the header is " + ls[at + 1] + " / " + ls[at + 2]);
    std::vector<Line> t;
    for (size_t i = at + 3; i < ls.size(); i++) {
        if (ls[i].empty() || !isdigit((unsigned char)ls[i][0])) continue; std::vector<std::string> w; std::istringstream in(ls[i]); std::string x; while (std::getline(in, x, ',')) w.push_back(x); c.require(w.size() >= 5, "line", what + ": an incomplete line: " + ls[i]);
        Line l; l.src = atoll(w[0].c_str()); l.dst = atoll(w[1].c_str()); l.dur = atof(w[2].c_str()); ll id = atoll(w[3].c_str()); c.require(id == (ll)t.size(), "number", what + fmt(": line %zu carries number %lld", t.size(), id)); c.require(w[4] == "0", "line", what + ": bank " + w[4] + " of one");
        for (size_t k = 5; k < w.size(); k++) { ll d = atoll(w[k].c_str()); c.require(d >= 0 && d < id, "dependency", what + fmt(": line %lld waits for line %lld", id, d)); l.deps.push_back(d); } t.push_back(l);
    }
    // ---- every line is a firing the channels allow, or the next packet of what the last firing produced
    std::vector<ll> tok, fired(n, 0), lastFiring(n, -1); for (auto& e : g.c) tok.push_back(e.tok); int cur = -1; ll curId = -1; std::vector<ll> left(g.c.size(), 0), prev(g.c.size(), -1); std::vector<std::vector<std::vector<ll>>> sent(g.c.size());
    auto finished = [&](ll id) { for (size_t k = 0; k < g.c.size(); k++) if (left[k]) c.fail("packets", what + fmt(": line %lld begins before all packets of the previous firing are sent: %lld of %s are missing", id, left[k], g.c[k].name.c_str())); };
    for (ll id = 0; id < (ll)t.size(); id++) {
        Line& l = t[id];
        if (l.src == l.dst) {
            finished(id); c.require(l.src >= 0 && l.src < (ll)n, "core", what + fmt(": line %lld runs on core %lld", id, l.src)); int v = (int)l.src; l.task = v; l.nth = fired[v];
            c.require(std::fabs(l.dur - (double)g.t[v].dur[0]) <= 1e-5 * std::max<double>(1, (double)g.t[v].dur[0]), "duration", what + fmt(": %s takes %g in line %lld, it takes %lld", g.t[v].name.c_str(), l.dur, id, g.t[v].dur[0]));
            if (lastFiring[v] >= 0) c.require(std::find(l.deps.begin(), l.deps.end(), lastFiring[v]) != l.deps.end(), "order", what + fmt(": firing %lld of %s does not wait for the previous one", fired[v], g.t[v].name.c_str()));
            for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == v) {
                auto& e = g.c[k]; c.require(tok[k] >= e.cons[0], "tokens", what + fmt(": firing %lld of %s finds %lld tokens of %lld on %s", fired[v], g.t[v].name.c_str(), tok[k], e.cons[0], e.name.c_str())); tok[k] -= e.cons[0];
                ll need = (fired[v] + 1) * e.cons[0] - e.tok; if (need <= 0) continue; ll m = up(need, e.prod[0]) - 1, part = ps ? up(need - m * e.prod[0], ps) - 1 : 0; bool ok = false;
                for (ll d : l.deps) if (t[d].chan == (int)k && (t[d].nth > m || (t[d].nth == m && t[d].part >= part))) ok = true;
                c.require(ok, "wait", what + fmt(": firing %lld of %s does not wait for the packet that carries its last token of %s", fired[v], g.t[v].name.c_str(), e.name.c_str())); c.cnt["token_waits"]++;
            }
            for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].src == v) { tok[k] += g.c[k].prod[0]; left[k] = ps ? up(g.c[k].prod[0], ps) : 1; prev[k] = id; sent[k].push_back({}); }
            cur = v; curId = id; lastFiring[v] = id; fired[v]++; c.cnt["firings"]++;
        } else {
            int k = -1; for (size_t e = 0; e < g.c.size(); e++) if (g.c[e].src == l.src && g.c[e].dst == l.dst) k = (int)e; c.require(k >= 0 && l.src == cur, "packets", what + fmt(": line %lld sends a packet from core %lld to core %lld that the last firing did not produce", id, l.src, l.dst));
            c.require(left[k] > 0, "packets", what + fmt(": line %lld is one packet too many on %s", id, g.c[k].name.c_str())); left[k]--; c.require(l.dur == 0, "duration", what + fmt(": the packet of line %lld takes %g", id, l.dur));
            c.require(std::find(l.deps.begin(), l.deps.end(), prev[k]) != l.deps.end(), "order", what + fmt(": the packet of line %lld does not wait for %s", id, prev[k] == curId ? "the firing that produces it" : "the packet before it"));
            l.chan = k; l.nth = (ll)sent[k].size() - 1; l.part = (ll)sent[k].back().size(); sent[k].back().push_back(id); prev[k] = id; c.cnt["packets"]++;
        }
        c.states++;
    }
    finished((ll)t.size());
    for (size_t i = 0; i < n; i++) c.require(fired[i] == g.q[i] * rounds, "count", what + fmt(": %s fires %lld times in %lld iterations of %lld", g.t[i].name.c_str(), fired[i], rounds, g.q[i]));
    // ---- the network delays packets, cores stall; packets between two cores arrive in the order of the trace
    std::vector<double> done(t.size(), 0), begin(t.size(), 0); std::map<std::pair<ll, ll>, double> line; uint32_t heavy = c.tp.draw(3);
    for (ll id = 0; id < (ll)t.size(); id++) {
        Line& l = t[id]; double s = 0; for (ll d : l.deps) s = std::max(s, done[d]); double late = 0;
        if (c.tp.chance(1, heavy ? 4 : 2)) { late = (double)c.tp.range(1, heavy ? 1000 : 20); c.cnt[l.task >= 0 ? "fault_core_stalled" : "fault_packet_delayed"]++; }
        if (l.task >= 0) { begin[id] = s + late; done[id] = begin[id] + l.dur; } else { begin[id] = s; double e = s + late; auto q = line.find({l.src, l.dst}); done[id] = q == line.end() ? s + late : std::max(s + late, q->second); line[{l.src, l.dst}] = done[id]; }
        c.simtime = std::max(c.simtime, (ll)done[id]);
    }
    for (ll id = 0; id < (ll)t.size(); id++) if (t[id].task >= 0) {
        int v = t[id].task; for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == v) { auto& e = g.c[k]; ll need = (t[id].nth + 1) * e.cons[0] - e.tok; for (ll x = 0; need > 0 && x < up(need, e.prod[0]); x++) { ll parts = x + 1 < up(need, e.prod[0]) || !ps ? (ll)sent[k][x].size() : up(need - x * e.prod[0], ps); for (ll j = 0; j < parts; j++) c.require(done[sent[k][x][j]] <= begin[id] + 1e-6, "early", what + fmt(": with packets delayed firing %lld of %s starts at %g, before packet %lld arrives at %g", t[id].nth, g.t[v].name.c_str(), begin[id], sent[k][x][j], done[sent[k][x][j]])); } } }
}
