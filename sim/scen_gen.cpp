// Drawn applications and mappings: everything the program decides with a random draw.
#include "doc.h"
#include <signal.h>
#include <cstring>

static ll rate(const std::vector<ll>& i, const std::vector<ll>& p, ll k) { return k < (ll)i.size() ? i[k] : p[(k - (ll)i.size()) % (ll)p.size()]; }
static Doc printed(Ctx& c, const std::string& out, const std::string& what) { size_t i = out.find("<?xml"); c.require(i != out.npos, "refused", what + ": no application is printed"); std::string x = out.substr(i); trim(x); return mean(c, x, what); }
// firings of every task per iteration, {} when the rates do not balance (each connected piece on its own)
static std::map<std::string, ll> balance(const Doc& d) {
    std::map<std::string, std::pair<ll, ll>> q; std::map<std::string, ll> r;
    for (auto& t : d.t) if (!q.count(t.name)) {
        std::vector<std::string> piece = {t.name}; q[t.name] = {1, 1};
        for (size_t k = 0; k < piece.size(); k++) for (auto& e : d.c) for (int way = 0; way < 2; way++) {
            const std::string &a = way ? e.dst : e.src, &b = way ? e.src : e.dst; if (a != piece[k]) continue; ll pa = way ? vsum(e.c) : vsum(e.p), pb = way ? vsum(e.p) : vsum(e.c);
            if (pa == 0 && pb == 0) { if (!q.count(b)) { q[b] = q[a]; piece.push_back(b); } continue; } if (pa == 0 || pb == 0) return {};
            ll n = q[a].first * pa, m = q[a].second * pb, g = std::gcd(n, m); n /= g; m /= g; if (!q.count(b)) { q[b] = {n, m}; piece.push_back(b); } else if (q[b] != std::make_pair(n, m)) return {};
        }
        ll l = 1; for (auto& x : piece) l = std::lcm(l, q[x].second); ll g = 0; for (auto& x : piece) g = std::gcd(g, q[x].first * (l / q[x].second)); for (auto& x : piece) r[x] = q[x].first * (l / q[x].second) / g;
    }
    return r;
}
// can every task complete its first phases and n iterations?
static bool runs(const Doc& d, std::map<std::string, ll> q, ll n, std::string& stuck) {
    std::map<std::string, ll> fired, target; std::vector<ll> tk; for (auto& e : d.c) tk.push_back(e.tok); for (auto& t : d.t) target[t.name] = (ll)t.init.size() + n * q[t.name] * (ll)t.dur.size();
    // initial phases of a producer may have to wait for more than n iterations of the others: fire on demand without an upper limit of 4 n
    std::map<std::string, ll> cap; for (auto& p : target) cap[p.first] = 4 * p.second + 200;
    for (bool go = true; go;) { go = false; bool all = true; for (auto& t : d.t) { ll k = fired[t.name]; if (k < target[t.name]) all = false; if (k >= cap[t.name]) continue; bool ok = true; for (size_t e = 0; e < d.c.size(); e++) if (d.c[e].dst == t.name && tk[e] < rate(d.c[e].ci, d.c[e].c, k)) ok = false; if (!ok) continue; for (size_t e = 0; e < d.c.size(); e++) { if (d.c[e].dst == t.name) tk[e] -= rate(d.c[e].ci, d.c[e].c, k); if (d.c[e].src == t.name) tk[e] += rate(d.c[e].pi, d.c[e].p, k); } fired[t.name]++; go = true; } if (all) return true; }
    for (auto& t : d.t) if (fired[t.name] < target[t.name]) { stuck = t.name + fmt(" after %lld firings of %lld", fired[t.name], target[t.name]); return false; } return true;
}

SCENARIO(C14, drawn_application, 6) {
    ll v0 = c.tp.range(1, 6), v1 = v0 + c.tp.range(0, 3), e0 = c.tp.range(0, 7), e1 = e0 + c.tp.range(0, 4), w = c.tp.range(1, 6), du = c.tp.chance(1, 3) ? c.tp.range(1, 1000) : c.tp.range(1, 5), ph = c.tp.chance(1, 2) ? 1 : c.tp.range(1, 4), in = c.tp.chance(1, 4) ? c.tp.range(1, 3) : 0, seed = c.tp.chance(1, 8) ? 0 : c.tp.range(0, 1000000);
    std::vector<std::string> a = {fmt("-pmin_vertices_count=%lld", v0), fmt("-pmax_vertices_count=%lld", v1), fmt("-pmin_edges_count=%lld", e0), fmt("-pmax_edges_count=%lld", e1), fmt("-pmax_weight=%lld", w), fmt("-pmax_duration=%lld", du), fmt("-pmax_phase_quantity=%lld", ph), fmt("-pmax_init_phase_quantity=%lld", in), fmt("-pseed=%lld", seed)};
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[c.tp.draw((uint32_t)i)]); std::string what = "GenerateRandomSDF"; for (auto& x : a) what += " " + x.substr(2); c.say(what); c.sample = what;
    a.insert(a.end(), {"-g", "GenerateRandomSDF", "-a", "PrintXML"}); CallResult r = progcall(benignEnv(c.tp), a, 10), s = progcall(benignEnv(c.tp), a, 10); c.absorb(r); c.absorb(s); if (r.sig == SIGXCPU || s.sig == SIGXCPU || r.sig == SIGKILL || s.sig == SIGKILL) throw Skip{"too expensive"};
    c.require(r.sig == s.sig && r.code == s.code && r.out == s.out, "same draw", what + ": the same request gives two different applications");
    if (r.code == 1 && v0 == 1 && e1 > 0) { c.cnt["one task, no room for channels"]++; return; }
    c.require(!r.sig && !r.code, "refused", what + " ends with " + r.how()); Doc d = printed(c, r.out, what);
    c.require((ll)d.t.size() >= v0 && (ll)d.t.size() <= v1, "tasks", what + fmt(" gives %zu tasks", d.t.size())); c.require((ll)d.c.size() >= e0 && (ll)d.c.size() <= e1, "channels", what + fmt(" gives %zu channels", d.c.size()));
    std::set<std::string> names; for (auto& t : d.t) { c.require(names.insert(t.name).second, "tasks", what + ": two tasks are called " + t.name); c.require(t.reent, "tasks", what + ": " + t.name + " may overlap its own firings"); c.require((ll)t.dur.size() >= 1 && (ll)t.dur.size() <= ph && (ll)t.init.size() <= in, "phases", what + fmt(": %s has %zu+%zu phases", t.name.c_str(), t.init.size(), t.dur.size())); for (auto* v : {&t.init, &t.dur}) for (auto x : *v) c.require(x >= 1 && x <= du && x == floorl(x), "durations", what + fmt(": %s takes %Lg", t.name.c_str(), x)); }
    auto T = [&](const std::string& n) -> DTask& { for (auto& t : d.t) if (t.name == n) return t; c.fail("channels", what + ": unknown task " + n); return d.t[0]; };
    for (auto& e : d.c) { c.require(e.src != e.dst, "channels", what + ": " + e.name + " is a self-loop"); DTask &p = T(e.src), &q = T(e.dst); c.require(e.p.size() == p.dur.size() && e.pi.size() == p.init.size() && e.c.size() == q.dur.size() && e.ci.size() == q.init.size(), "channels", what + ": rates of " + e.name); for (auto* v : {&e.p, &e.c, &e.pi, &e.ci}) { ll sum = 0; for (ll x : *v) { c.require(x >= 0, "rates", what + ": negative rate on " + e.name); sum += x; } c.require(sum <= w, "rates", what + fmt(": %lld tokens on %s", sum, e.name.c_str())); } c.require(vsum(e.p) > 0 && vsum(e.c) > 0, "rates", what + ": no tokens on " + e.name); c.require(e.tok >= 0, "tokens", what + ": tokens of " + e.name); }
    auto q = balance(d); c.require(!q.empty(), "balance", what + ": the rates do not balance"); std::string st; bool ok = runs(d, q, 3, st);
    if (in) { c.cnt[ok ? "start-up phases, live" : "start-up phases, blocked (known finding)"]++; return; }   // known finding: start-up phases are not part of what the drawn tokens are computed for
    c.require(ok, "live", what + ": the application blocks: " + st);
}

// the LTE receiver: four layers of workers, each worker sends to all of the next layer
SCENARIO(C14, lte_application, 1) {
    static const char* names[4] = {"miwf", "cwac", "ifft", "dd"}; static const ll dur[4] = {392504, 230635, 353448, 267559}, pkts[4] = {16, 32, 32, 32}, dflt[4] = {64, 75, 24, 75}; ll n[4]; std::vector<std::string> a; int big = c.tier && c.tp.chance(1, 20) ? (int)c.tp.draw(4) : -1;
    for (int i = 0; i < 4; i++) { n[i] = c.tp.range(1, c.tier ? 9 : 6); if (i == big) n[i] = dflt[i]; else a.push_back(fmt("-p%s=%lld", names[i], n[i])); }
    for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[c.tp.draw((uint32_t)i)]); std::string what = "genLTESDF"; for (auto& x : a) what += " " + x.substr(2); c.say(what); c.sample = what; a.insert(a.end(), {"-g", "genLTESDF", "-a", "PrintXML"}); bool thr = c.tp.chance(1, 2); static const std::vector<std::pair<std::string, std::string>> as = {{"KPeriodicThroughput", "KPeriodic Throughput is"}, {"1PeriodicThroughput", "1Periodic throughput is"}, {"SPeriodicThroughput", "SPeriodic throughput is"}}; auto an = c.tp.pick(as); if (thr) a.insert(a.end(), {"-a", an.first});
    CallResult r = progcall(benignEnv(c.tp), a, 20); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"}; c.require(!r.sig && !r.code, "refused", what + " ends with " + r.how());
    size_t end = r.out.find("</sdf3>"); c.require(end != r.out.npos, "refused", what + ": no application is printed"); std::string tail = r.out.substr(end + 7); Doc d = printed(c, r.out.substr(0, end + 7), what);
    std::map<std::string, int> layer; ll count[4] = {0, 0, 0, 0}; for (auto& t : d.t) { int l = -1; for (int i = 0; i < 4; i++) if (t.name.compare(0, strlen(names[i]) + 1, std::string(names[i]) + "_") == 0) l = i; c.require(l >= 0 && layer.emplace(t.name, l).second, "tasks", what + ": unexpected task " + t.name); count[l]++; c.require(t.init.empty() && t.dur.size() == 1 && t.dur[0] == dur[l] && t.reent, "tasks", what + ": " + t.name + " is not a single firing of its layer's duration"); }
    for (int i = 0; i < 4; i++) c.require(count[i] == n[i], "tasks", what + fmt(": %lld workers of %s", count[i], names[i]));
    std::set<std::pair<std::string, std::string>> seen; std::set<std::string> cn; ll want = 0; for (int i = 0; i < 3; i++) want += n[i] * n[i + 1];
    for (auto& e : d.c) { c.require(layer.count(e.src) && layer.count(e.dst) && layer[e.dst] == layer[e.src] + 1, "channels", what + ": a channel from " + e.src + " to " + e.dst); c.require(seen.insert({e.src, e.dst}).second && cn.insert(e.name).second, "channels", what + ": two channels " + e.name + " from " + e.src + " to " + e.dst); c.require(e.p == std::vector<ll>{pkts[layer[e.src]]} && e.c == e.p && e.pi.empty() && e.ci.empty() && e.tok == 0, "channels", what + ": the channel from " + e.src + " to " + e.dst + " does not move its layer's packets"); }
    c.require((ll)d.c.size() == want, "channels", what + fmt(" gives %zu channels of %lld", d.c.size(), want)); c.cnt["lte_applications"]++;
    if (thr) { bool f = false; double v = numAfter(tail, an.second, &f); c.require(f && near(v, 1.0 / 392504, 2e-5), "rate", what + ": " + an.first + fmt(" announces %.9g, the slowest layer allows %.9g", v, 1.0 / 392504)); }
}
