// Applications placed on a mesh network: cores, routes, and what the network does to the application.
#include "doc.h"
#include <signal.h>

struct Mesh { ll n, S; ll x(ll r) const { return r % n; } ll y(ll r) const { return r / n; } ll edge(ll a, ll b) const { return 2 * S + a * 2 * S + b; }
    bool ends(ll e, ll& a, ll& b) const { e -= 2 * S; if (e < 0) return false; a = e / (2 * S); b = e % (2 * S); if (a >= 2 * S) return false; if (a >= S && b >= S) return false; if (a >= S || b >= S) return a - b == S || b - a == S; return std::abs(x(a) - x(b)) + std::abs(y(a) - y(b)) == 1; } };

SCENARIO(C13, mapped_application, 6) {
    bool mr = c.tp.chance(1, 5); GenOpt o; o.maxTasks = mr ? 9 : 7; if (mr) o.extraChan = (int)c.tp.range(0, 14); o.maxPhases = 1; o.maxQ = 3; o.maxTotal = 20; o.strong = c.tp.chance(1, 2); o.zeroRate = false; o.selfloops = c.tp.chance(1, 4) && !mr; o.parallel = !mr; Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    scratchWrite("app.xml", g.xml()); Doc d = meaning(g.xml()); ll N = (ll)d.t.size(); Mesh m; m.n = std::max<ll>(2, (ll)std::ceil(std::sqrt((double)N))); m.S = m.n * m.n;
    bool rm = mr || c.tp.chance(1, 2), rr = mr || c.tp.chance(1, 2); if (mr) for (size_t x = 0; x < g.c.size(); x++) { if (g.c[x].src == g.c[x].dst) throw Skip{"self-loop"}; for (size_t y = 0; y < x; y++) if (g.c[x].src == g.c[y].src && g.c[x].dst == g.c[y].dst) throw Skip{"parallel channels"}; } std::map<std::string, ll> fixed; std::vector<std::string> a = {"-f", scratch() + "/app.xml", "-a"};
    if (!mr) a.push_back("createNoC"); else { if (c.tp.chance(1, 3)) { m.n += c.tp.range(0, 2); m.S = m.n * m.n; a.back() = fmt("-pMESHSIZE=%lld", m.n); a.push_back("-a"); } a.push_back("BufferlessNoCMapAndRoute"); }
    if (!mr && c.tp.chance(1, 3)) { for (auto& t : d.t) if (c.tp.chance(1, 3)) fixed[t.name] = m.S + c.tp.draw((uint32_t)m.S); }
    for (auto& p : fixed) a.push_back("-p" + p.first + fmt("=%lld", p.second));
    if (!mr) a.insert(a.end(), {"-a", rm ? "randomMapping" : "moduloMapping", "-a", rr ? "randomRouting" : "xyRouting"}); bool draw = c.tp.chance(1, 2), color = draw && c.tp.chance(2, 3), lines = draw && c.tp.chance(1, 2);
    if (color) a.push_back("-pcolor_routes=1"); if (lines) a.push_back("-pconnect_tasks=1"); if (draw) a.insert(a.end(), {"-a", "PrintMapping"});
    a.insert(a.end(), {"-a", "ModelNoCConflictFreeCommunication", "-a", "PrintXML"}); bool thr = c.tp.chance(1, 3); if (thr) a.insert(a.end(), {"-a", "KPeriodicThroughput"});
    std::string what; for (size_t i = 2; i < a.size(); i++) what += a[i] + " "; c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    CallResult r = progcall(benignEnv(c.tp), a, 20); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"};
    c.require(!r.sig && !r.code, "refused", what + "gives no answer: " + r.how()); size_t x0 = r.out.find("<?xml"), x1 = r.out.find("</sdf3>"); c.require(x0 != r.out.npos && x1 != r.out.npos, "refused", what + ": no application is printed");
    std::string xml = r.out.substr(x0, x1 + 7 - x0); Doc z = mean(c, xml, "the application on the network"); z.app = d.app; z.graph = d.graph; z.type = d.type;
    // ---- tasks stay what they are
    std::map<std::string, ll> core; std::map<std::string, const DTask*> zt; for (auto& t : z.t) { c.require(!zt.count(t.name), "tasks", what + ": two tasks are called " + t.name); zt[t.name] = &t; }
    for (auto& t : d.t) { c.require(zt.count(t.name) && *zt[t.name] == t, "tasks", what + ": the task " + t.name + " is changed or missing"); }
    for (auto& t : d.t) if (fixed.count(t.name)) core[t.name] = fixed[t.name]; if (!rm) for (ll i = 0; i < N; i++) if (!core.count(d.t[i].name)) core[d.t[i].name] = m.S + i % m.S;
    auto sits = [&](const std::string& n, ll k) { c.require(k >= m.S && k < 2 * m.S, "mapping", what + ": " + n + fmt(" sits on %lld, which is not a core", k)); if (!core.count(n)) core[n] = k; c.require(core[n] == k, "mapping", what + ": " + n + fmt(" sits on core %lld and on core %lld", core[n], k)); };
    // ---- every channel became a chain of links and routers along its route
    std::map<std::string, std::vector<const DChan*>> out; for (auto& e : z.c) out[e.src].push_back(&e); std::set<const DChan*> used; std::map<ll, ll> load; std::vector<const DChan*> left; std::set<std::string> seen; Graph ref = g; ref.c.clear(); size_t links = 0, routers = 0;
    for (auto& e : d.c) if (e.src == e.dst) { bool ok = false; for (auto& f : z.c) if (f == e && used.insert(&f).second) { ok = true; break; } c.require(ok, "self-loop", what + ": the channel " + e.name + " of one task is changed"); } else left.push_back(&e);
    auto id = [&](const std::string& n) { for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].name == n) return (int)i; return -1; };
    for (auto& e : g.c) if (e.src == e.dst) ref.c.push_back(e);
    for (auto& t : d.t) for (auto* f : out[t.name]) if (!used.count(f)) {
        const DChan* cur = f; std::vector<ll> path; std::string tag; used.insert(f); c.require(f->tok == 0, "tokens", what + ": tokens wait before the network on " + f->name); std::vector<ll> first = f->p; int prev = id(t.name); ll prod = vsum(f->p);
        for (;;) {
            c.require(zt.count(cur->dst), "chain", what + ": unknown task " + cur->dst); if (id(cur->dst) >= 0) break;
            c.require(seen.insert(cur->dst).second, "chain", what + ": two channels go through " + cur->dst); ll eid = -1, n1 = -1, n2 = -1; const DTask& k = *zt[cur->dst];
            bool link = sscanf(k.name.c_str(), "link-%lld_%lld", &eid, &n1) == 2; if (!link) { c.require(sscanf(k.name.c_str(), "router-%lld_%lld_%lld", &eid, &n1, &n2) == 3, "chain", what + ": unexpected task " + k.name); c.require(!path.empty() && path.back() == n1, "chain", what + ": " + k.name + " does not follow its link"); }
            std::string tg = std::to_string(eid); if (tag.empty()) tag = tg; c.require(tag == tg, "chain", what + ": the chain of " + t.name + " mixes channels");
            c.require(k.init.empty() && k.dur.size() == 1 && k.dur[0] == (link ? 1 : 0) && k.reent, "chain", what + ": " + k.name + " is not a single firing of its duration"); if (link) { links++; if (!path.empty()) c.require(n2 == -1, "chain", what); path.push_back(n1); } else routers++;
            c.require(vsum(cur->c) == 1 && cur->c.size() == 1 && cur->ci.empty(), "chain", what + ": " + k.name + " takes more than one token at a time");
            const DChan* nx = nullptr; for (auto* h : out[k.name]) { c.require(!nx, "chain", what + ": two channels leave " + k.name); nx = h; } c.require(nx, "chain", what + ": nothing leaves " + k.name); c.require(nx->p.size() == 1 && nx->p[0] == 1 && nx->pi.empty(), "chain", what + ": " + k.name + " gives more than one token at a time"); c.require(used.insert(nx).second, "chain", what + ": circular chain");
            if (link) { Task lt; lt.name = fmt("l%zu", links); lt.dur = {1}; ref.t.push_back(lt); Chan h; h.name = fmt("c%zu", ref.c.size()); h.src = prev; h.dst = (int)ref.t.size() - 1; h.prod = {prod}; h.cons = {1}; ref.c.push_back(h); prev = h.dst; prod = 1; }
            if (id(nx->dst) < 0) c.require(nx->tok == 0, "tokens", what + ": tokens wait in the network on " + nx->name); cur = nx;
        }
        // which channel is it?
        c.require(!path.empty(), "chain", what + ": a channel from " + t.name + " does not use the network"); bool found = false; for (size_t i = 0; i < left.size() && !found; i++) { auto* e = left[i]; if (e->src == t.name && e->dst == cur->dst && e->p == first && e->c == cur->c && e->tok == cur->tok) { left.erase(left.begin() + i); found = true; } }
        c.require(found, "chain", what + ": the chain from " + t.name + " to " + cur->dst + " is none of the channels, or loses tokens");
        { Chan h; h.name = fmt("c%zu", ref.c.size()); h.src = prev; h.dst = id(cur->dst); h.prod = {1}; h.cons = cur->c; h.tok = cur->tok; ref.c.push_back(h); }
        // its route
        ll at = -1; std::vector<ll> nodes; for (ll e : path) { ll u, v; c.require(m.ends(e, u, v), "route", what + fmt(": link %lld does not exist on a %lldx%lld mesh", e, m.n, m.n)); if (at < 0) nodes.push_back(u); else c.require(u == at, "route", what + fmt(": the route from %s jumps from %lld to %lld", t.name.c_str(), at, u)); nodes.push_back(v); at = v; load[e]++; }
        sits(t.name, nodes.front()); sits(cur->dst, nodes.back()); ll ra = nodes.front() - m.S, rb = nodes.back() - m.S, man = std::abs(m.x(ra) - m.x(rb)) + std::abs(m.y(ra) - m.y(rb));
        c.require((ll)path.size() == man + 2, "route", what + fmt(": the route of %s takes %zu links instead of %lld", t.name.c_str(), path.size(), man + 2));
        for (size_t i = 1; i + 1 < nodes.size(); i++) c.require(nodes[i] < m.S, "route", what + ": a route runs through a core");
        if (!rr) { bool vert = false; for (size_t i = 2; i + 1 < nodes.size(); i++) { bool dy = m.y(nodes[i]) != m.y(nodes[i - 1]); c.require(dy || !vert, "route", what + ": a route turns back to the row"); vert = vert || dy; } }
    }
    c.require(left.empty(), "chain", what + ": channels are lost"); if (mr) { std::set<ll> own; for (auto& x : core) c.require(own.insert(x.second).second, "mapping", what + ": two tasks sit on one core although there are enough cores"); c.cnt["map_and_route"]++; } c.require(used.size() == z.c.size(), "chain", what + ": channels appear from nowhere"); c.require(z.t.size() == d.t.size() + links + routers, "chain", what + ": tasks appear from nowhere");
    if (draw) {   // the picture shows the same cores and routes
        std::map<std::string, int> names; std::string dot = r.out.substr(0, x0); std::map<std::pair<ll, ll>, ll> colors; size_t sprites = 0;
        for (auto& l : splitLines(dot)) {
            ll u, v; if (sscanf(l.c_str(), "%lld->%lld[", &u, &v) == 2) { colors[{u, v}] = 0; continue; }
            if (sscanf(l.c_str(), "%lld -> %lld[", &u, &v) == 2) { size_t k = l.find("color=\""); if (k == l.npos) continue; size_t q = l.find('"', k + 7); std::string w = l.substr(k + 7, q - k - 7); ll n = 1; for (size_t p = 0; (p = w.find("::", p)) != w.npos; p += 2) n++; colors[{u, v}] = n; continue; }
            ll ti; if (sscanf(l.c_str(), "task_%lld[", &ti) == 1) { size_t k = l.find("label=\""), q = l.find('"', k + 7), s = l.find("pos=\""); double px, py; if (k == l.npos || s == l.npos || sscanf(l.c_str() + s + 5, "%lf,%lf", &px, &py) != 2) continue; std::string n = l.substr(k + 7, q - k - 7); sprites++; c.require(core.count(n) || id(n) >= 0, "picture", what + ": unknown task " + n + " in the picture"); names[n]++;
                ll bx = (ll)std::llround(m.n - px), by = (ll)std::llround(m.n - py); sits(n, m.S + bx + by * m.n); }
        }
        c.require((ll)sprites == N && (ll)names.size() == N, "picture", what + fmt(": the picture shows %zu of %lld tasks", names.size(), N));
        ll want = 0; for (ll a1 = 0; a1 < 2 * m.S; a1++) for (ll b1 = 0; b1 < 2 * m.S; b1++) { ll u, v; if (!m.ends(m.edge(a1, b1), u, v)) continue; want++; c.require(colors.count({a1, b1}), "picture", what + fmt(": the link %lld -> %lld is not drawn", a1, b1)); bool sl = false; for (auto& e : d.c) if (e.src == e.dst) sl = true; if (color && !sl) c.require(colors[{a1, b1}] == load[m.edge(a1, b1)], "picture", what + fmt(": %lld channels are drawn on %lld -> %lld, %lld use it", colors[{a1, b1}], a1, b1, load[m.edge(a1, b1)])); }
        c.require((ll)colors.size() == want, "picture", what + fmt(": %zu links drawn, the mesh has %lld", colors.size(), want));
    }
    // ---- the network only delays
    ref.solve(); c.require(!ref.q.empty(), "balance", what + ": the rates of the chains do not balance"); Live lv = untimed(ref, nullptr, 2); c.require(lv.live, "live", what + ": the application blocks on the network");
    Thr t0 = selfTimed(g, 200000), t1 = selfTimed(ref, 200000); if (t0.k == THR_UNKNOWN || t1.k == THR_UNKNOWN || t1.k == THR_INF) { c.cnt["too long to execute"]++; return; } c.simtime += t1.simtime; c.states += t1.states;
    if (t0.k == THR_OK) c.require(ratio(t1) <= ratio(t0) * (1 + 1e-9), "rate", what + ": the network makes the application faster"); c.cnt["executed on the network"]++;
    if (thr) { double v = numAfter(r.out, "KPeriodic Throughput is"); c.require(near(v, ratio(t1)), "rate", what + fmt(": reports %g on the network, the application runs at ", v) + thrStr(t1)); c.cnt["rate on the network"]++; }
}
