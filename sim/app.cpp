#include "app.h"

PubSched parseSched(const std::string& s) {
    PubSched r; r.raw = s; std::istringstream i(s); std::string w;
    while (i >> w) {
        if (w == "omega") { std::string x; i >> x; r.omega = strtold(x.c_str(), nullptr); r.ok = true; }
        else if (w == "task") {
            std::string n, p; int a, b; i >> n >> p >> a; TaskSched t; t.p = strtold(p.c_str(), nullptr); std::string x;
            while (a-- > 0) { i >> x; t.init.push_back(strtold(x.c_str(), nullptr)); } i >> b; while (b-- > 0) { i >> x; t.starts.push_back(strtold(x.c_str(), nullptr)); } r.t[n] = t;
        }
    }
    return r;
}
double ratio(const Thr& t) { return t.k == THR_OK ? t.r.val() : t.k == THR_DEADLOCK ? 0 : t.k == THR_INF ? INFINITY : NAN; }
std::string thrStr(const Thr& t) { return t.k == THR_OK ? fmt("%lld/%lld", t.r.n, t.r.d) : t.k == THR_DEADLOCK ? "0 (deadlock)" : t.k == THR_INF ? "unbounded" : "?"; }

std::string executeSchedule(Ctx& c, const Graph& g, const PubSched& s, bool jitter, int iterations, double slack) {
    size_t n = g.t.size();
    struct F { long double st, en; };
    std::vector<std::vector<F>> f(n);
    if (!(s.omega > 0) || std::isinf((double)s.omega) || std::isnan((double)s.omega)) return fmt("graph period %Lg is not a positive finite number", s.omega);
    long double eps = (long double)slack * std::max<long double>(1, s.omega);
    long double maxT = 0;
    for (size_t i = 0; i < n; i++) {
        auto it = s.t.find(g.t[i].name); if (it == s.t.end()) return "task " + g.t[i].name + " is missing from the schedule";
        const TaskSched& ts = it->second; size_t L = ts.starts.size(), ph = g.t[i].dur.size();
        if (!L) return fmt("task %s: no periodic start", g.t[i].name.c_str());
        // rate: L phase firings every p time units must give q*phases firings every omega
        long double want = s.omega * L / ((long double)g.q[i] * ph);
        if (std::fabs((double)(ts.p - want)) > std::max(1e-6, slack) * std::max<double>(1, (double)want)) return fmt("task %s: period %.9Lg does not match the graph period (%.9Lg expected)", g.t[i].name.c_str(), ts.p, want);
        ll tot = (ll)iterations * g.q[i] * (ll)ph;
        for (ll k = 0; k < tot; k++) {
            F x; x.st = (k < (ll)ts.init.size()) ? ts.init[k] : ts.starts[(k - ts.init.size()) % L] + (long double)((k - ts.init.size()) / L) * ts.p;
            if (x.st < -eps || std::isnan((double)x.st) || std::isinf((double)x.st)) return fmt("task %s firing %lld starts at %.9Lg", g.t[i].name.c_str(), k, x.st);
            long double d = g.t[i].dur[k % ph];
            if (k) {
                if (g.t[i].reent1 && x.st < f[i][k - 1].st + (long double)g.t[i].dur[(k - 1) % ph] - eps) return fmt("task %s firing %lld starts at %.9Lg before firing %lld (started %.9Lg, worst case %lld) is over", g.t[i].name.c_str(), k, x.st, k - 1, f[i][k - 1].st, g.t[i].dur[(k - 1) % ph]);
            }
            if (jitter && d > 0) { ll cut = c.tp.draw((uint32_t)d + 1); if (cut) c.cnt["fault_early_finish"]++; d -= cut; }
            x.en = x.st + d; f[i].push_back(x); maxT = std::max(maxT, x.en);
        }
    }
    c.simtime += (ll)maxT;
    for (auto& e : g.c) {
        // tokens available over time on this channel
        std::vector<std::pair<long double, ll>> prod; size_t pp = g.t[e.src].dur.size(), cp = g.t[e.dst].dur.size();
        for (size_t k = 0; k < f[e.src].size(); k++) prod.push_back({f[e.src][k].en, e.prod[k % pp]});
        std::sort(prod.begin(), prod.end());
        std::vector<std::pair<long double, size_t>> cons; for (size_t k = 0; k < f[e.dst].size(); k++) cons.push_back({f[e.dst][k].st, k});
        std::sort(cons.begin(), cons.end());
        ll have = e.tok; size_t j = 0;
        for (auto& x : cons) {
            while (j < prod.size() && prod[j].first <= x.first + eps) have += prod[j++].second;
            have -= e.cons[x.second % cp]; c.states++;
            if (have < 0) return fmt("channel %s (%s -> %s) is short of %lld token(s) when firing %zu of %s starts at %.9Lg", e.name.c_str(), g.t[e.src].name.c_str(), g.t[e.dst].name.c_str(), -have, x.second, g.t[e.dst].name.c_str(), x.first);
        }
    }
    return "";
}

// One strongly connected component with stalls: before `until`, each start may be delayed and each firing may
// finish early; afterwards the platform is nominal.
static Thr disturbedSCC(Ctx& c, const Graph& g, const Stall& st, ll budget) {
    Thr R; size_t n = g.t.size();
    std::vector<ll> tok(g.c.size()), started(n, 0), active(n, 0), holdUntil(n, -1);
    for (size_t k = 0; k < g.c.size(); k++) tok[k] = g.c[k].tok;
    struct Ev { ll time; int kind, task; ll idx; bool operator>(const Ev& o) const { return std::tie(time, kind, task, idx) > std::tie(o.time, o.kind, o.task, o.idx); } };
    std::priority_queue<Ev, std::vector<Ev>, std::greater<Ev>> pq;
    ll now = 0; std::unordered_map<ull, std::pair<ll, ll>> seen;
    while (true) {
        bool prog = true; ll guard = 0;
        while (prog) {
            prog = false;
            while (!pq.empty() && pq.top().time == now) {
                Ev e = pq.top(); pq.pop(); if (e.kind == 1) { prog = true; continue; }
                size_t ph = e.idx % g.t[e.task].dur.size();
                for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].src == e.task) tok[k] += g.c[k].prod[ph];
                active[e.task]--; prog = true; R.steps++;
            }
            for (size_t i = 0; i < n; i++) {
                if (active[i] && g.t[i].reent1) continue;
                if (holdUntil[i] > now) continue;
                size_t ph = started[i] % g.t[i].dur.size(); bool ok = true;
                for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == (int)i && tok[k] < g.c[k].cons[ph]) { ok = false; break; }
                if (!ok) continue;
                ll d = g.t[i].dur[ph];
                if (now < st.until) {
                    if (st.maxDelay && holdUntil[i] < now && c.tp.chance(1, 3)) { ll x = c.tp.range(1, st.maxDelay); holdUntil[i] = now + x; pq.push({now + x, 1, (int)i, 0}); c.cnt["fault_stall"]++; continue; }
                    if (d > 0 && c.tp.chance(1, 3)) { d -= c.tp.range(1, d); c.cnt["fault_early_finish"]++; }
                }
                for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == (int)i) tok[k] -= g.c[k].cons[ph];
                pq.push({now + d, 0, (int)i, started[i]}); active[i]++; started[i]++; prog = true; R.steps++;
                if (++guard > 20000) { R.k = THR_INF; return R; }
            }
            if (R.steps > budget) { R.k = THR_UNKNOWN; return R; }
        }
        if (pq.empty()) { R.k = THR_DEADLOCK; R.simtime = now; return R; }
        if (now >= st.until) {
            Hash h; for (ll x : tok) h.add(x); for (size_t i = 0; i < n; i++) { h.add(started[i] % g.t[i].dur.size()); h.add(active[i]); h.add(std::max<ll>(0, holdUntil[i] - now)); }
            auto cp = pq; while (!cp.empty()) { h.add(cp.top().time - now); h.add(cp.top().kind); h.add(cp.top().task); h.add(cp.top().kind ? 0 : cp.top().idx % g.t[cp.top().task].dur.size()); cp.pop(); }
            auto it = seen.find(h.h);
            if (it != seen.end() && now > it->second.first) {
                R.r.n = started[0] - it->second.second; R.r.d = (now - it->second.first) * g.q[0] * (ll)g.t[0].dur.size(); ll G = std::gcd(R.r.n, R.r.d); if (G) { R.r.n /= G; R.r.d /= G; }
                R.k = R.r.n ? THR_OK : THR_DEADLOCK; R.simtime = now; R.states = seen.size(); return R;
            }
            seen[h.h] = {now, started[0]};
        }
        now = pq.top().time;
    }
}
Thr disturbed(Ctx& c, const Graph& g, const Stall& st, ll budget) {
    auto id = g.scc(); int m = 0; for (int x : id) m = std::max(m, x + 1);
    Thr R; R.k = THR_INF;
    for (int s = 0; s < m; s++) {
        std::vector<int> keep; for (size_t i = 0; i < id.size(); i++) if (id[i] == s) keep.push_back((int)i);
        Graph h = g.sub(keep); Thr x;
        if (keep.size() == 1 && h.c.empty()) { if (!h.t[0].reent1 || vsum(h.t[0].dur) == 0) continue; x.k = THR_OK; x.r.n = 1; x.r.d = vsum(h.t[0].dur) * h.q[0]; }
        else x = disturbedSCC(c, h, st, budget);
        R.steps += x.steps; R.simtime += x.simtime; R.states += x.states;
        if (x.k == THR_UNKNOWN) { R.k = THR_UNKNOWN; return R; }
        if (x.k == THR_DEADLOCK) { R.k = THR_DEADLOCK; return R; }
        if (x.k == THR_INF) continue;
        if (R.k == THR_INF || (__int128)x.r.n * R.r.d < (__int128)R.r.n * x.r.d) { R.k = THR_OK; R.r = x.r; }
    }
    return R;
}

PubSched parsePrinted(const std::string& out, const std::string& periodKey) {
    PubSched r; r.raw = out; bool f; r.omega = numAfter(out, periodKey, &f); r.ok = f;
    auto list = [](const std::string& l, const std::string& key, std::vector<long double>& v) {
        size_t p = l.find(key + "{"); if (p == l.npos) return false; p += key.size() + 1; size_t q = l.find('}', p); if (q == l.npos) return false;
        std::istringstream i(l.substr(p, q - p)); std::string w; while (std::getline(i, w, ',')) if (!w.empty()) v.push_back(strtold(w.c_str(), nullptr)); return true; };
    for (auto& l : splitLines(out)) {
        size_t b = l.find(" | starts:"); if (b == l.npos) continue; size_t p = l.find(") "); if (p == l.npos || p > b) continue;
        TaskSched t; std::string n = l.substr(p + 2, b - p - 2);
        if (!list(l, "| starts:", t.init) || !list(l, "periodic starts:", t.starts)) continue;
        t.p = numAfter(l, "period:"); r.t[n] = t;
    }
    return r;
}
