#include "core.h"

static std::string join(const std::vector<ll>& v) {
    std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s;
}

std::string Graph::xml() const {
    std::ostringstream o;
    o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<sdf3 type=\"csdf\" version=\"1.0\">\n <applicationGraph name=\"" << name << "\">\n  <csdf name=\"" << name << "\" type=\"G\">\n";
    for (size_t i = 0; i < t.size(); i++) {
        o << "   <actor name=\"" << t[i].name << "\" type=\"T\">\n";
        std::string ones; for (size_t k = 0; k < t[i].dur.size(); k++) ones += k ? ",1" : "1";
        if (t[i].reent1) {
            o << "    <port name=\"ri\" type=\"in\" rate=\"" << ones << "\"/>\n";
            o << "    <port name=\"ro\" type=\"out\" rate=\"" << ones << "\"/>\n";
        }
        for (size_t k = 0; k < c.size(); k++) {
            if (c[k].src == (int)i) o << "    <port name=\"o" << k << "\" type=\"out\" rate=\"" << join(c[k].prod) << "\"/>\n";
            if (c[k].dst == (int)i) o << "    <port name=\"i" << k << "\" type=\"in\" rate=\"" << join(c[k].cons) << "\"/>\n";
        }
        o << "   </actor>\n";
    }
    for (size_t k = 0; k < c.size(); k++) {
        o << "   <channel name=\"" << c[k].name << "\" srcActor=\"" << t[c[k].src].name << "\" srcPort=\"o" << k << "\" dstActor=\"" << t[c[k].dst].name << "\" dstPort=\"i" << k << "\" size=\"" << c[k].size << "\"";
        if (c[k].tok) o << " initialTokens=\"" << c[k].tok << "\"";
        o << "/>\n";
    }
    for (size_t i = 0; i < t.size(); i++) if (t[i].reent1)
        o << "   <channel name=\"loop_" << t[i].name << "\" srcActor=\"" << t[i].name << "\" srcPort=\"ro\" dstActor=\"" << t[i].name << "\" dstPort=\"ri\" size=\"1\" initialTokens=\"1\"/>\n";
    o << "  </csdf>\n  <csdfProperties>\n";
    for (size_t i = 0; i < t.size(); i++)
        o << "   <actorProperties actor=\"" << t[i].name << "\"><processor type=\"p\" default=\"true\"><executionTime time=\"" << join(t[i].dur) << "\"/></processor></actorProperties>\n";
    o << "  </csdfProperties>\n </applicationGraph>\n</sdf3>\n";
    return o.str();
}

std::string Graph::brief() const {
    std::ostringstream o;
    for (auto& x : t) o << x.name << "(" << join(x.dur) << (x.reent1 ? "" : " auto") << ") ";
    for (auto& x : c) o << "[" << t[x.src].name << "->" << t[x.dst].name << " " << join(x.prod) << "/" << join(x.cons) << " tok" << x.tok << "] ";
    return o.str();
}

bool Graph::solve() {
    size_t n = t.size();
    std::vector<ll> num(n, 0), den(n, 1);
    std::vector<int> comp(n, -1);
    q.assign(n, 0);
    int nc = 0;
    for (size_t r = 0; r < n; r++) if (comp[r] < 0) {
        std::vector<int> st{(int)r}; comp[r] = nc; num[r] = 1; den[r] = 1;
        while (!st.empty()) {
            int u = st.back(); st.pop_back();
            for (auto& e : c) {
                ll P = vsum(e.prod), C = vsum(e.cons);
                int v = -1; ll a, b; // q_v = q_u * a / b
                if (e.src == u) { v = e.dst; a = P; b = C; }
                else if (e.dst == u) { v = e.src; a = C; b = P; }
                else continue;
                if (P == 0 || C == 0) { q.clear(); return false; }
                ll nn = num[u] * a, dd = den[u] * b, g = std::gcd(nn, dd); nn /= g; dd /= g;
                if (comp[v] < 0) { comp[v] = nc; num[v] = nn; den[v] = dd; st.push_back(v); }
                else if (num[v] != nn || den[v] != dd) { q.clear(); return false; }
                if (e.src == u && e.dst == u && P != C) { q.clear(); return false; }
            }
        }
        ll L = 1; for (size_t i = 0; i < n; i++) if (comp[i] == nc) L = std::lcm(L, den[i]);
        ll G = 0; for (size_t i = 0; i < n; i++) if (comp[i] == nc) { q[i] = num[i] * (L / den[i]); G = std::gcd(G, q[i]); }
        for (size_t i = 0; i < n; i++) if (comp[i] == nc) q[i] /= G;
        nc++;
    }
    return true;
}

std::vector<int> Graph::scc() const {
    size_t n = t.size();
    std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; i++) r[i][i] = 1;
    for (auto& e : c) r[e.src][e.dst] = 1;
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (r[i][k]) for (size_t j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
    std::vector<int> id(n, -1); int m = 0;
    for (size_t i = 0; i < n; i++) if (id[i] < 0) { for (size_t j = 0; j < n; j++) if (r[i][j] && r[j][i]) id[j] = m; m++; }
    return id;
}

Graph Graph::sub(const std::vector<int>& keep) const {
    Graph g; g.name = name; std::vector<int> idx(t.size(), -1);
    for (int k : keep) { idx[k] = (int)g.t.size(); g.t.push_back(t[k]); if (!q.empty()) g.q.push_back(q[k]); }
    for (auto& e : c) if (idx[e.src] >= 0 && idx[e.dst] >= 0) { Chan x = e; x.src = idx[e.src]; x.dst = idx[e.dst]; g.c.push_back(x); }
    return g;
}

Live untimed(const Graph& g, Tape* tp, ll iterations) {
    size_t n = g.t.size();
    Live r; r.fired.assign(n, 0);
    std::vector<ll> tok(g.c.size()), lim(n);
    for (size_t k = 0; k < g.c.size(); k++) tok[k] = g.c[k].tok;
    for (size_t i = 0; i < n; i++) lim[i] = iterations * g.q[i] * (ll)g.t[i].dur.size();
    auto can = [&](size_t i) {
        if (r.fired[i] >= lim[i]) return false;
        size_t ph = r.fired[i] % g.t[i].dur.size();
        for (size_t k = 0; k < g.c.size(); k++) if (g.c[k].dst == (int)i && tok[k] < g.c[k].cons[ph]) return false;
        return true;
    };
    while (true) {
        std::vector<int> en; for (size_t i = 0; i < n; i++) if (can(i)) en.push_back((int)i);
        if (en.empty()) break;
        int i = en[tp ? tp->draw((uint32_t)en.size()) : 0];
        size_t ph = r.fired[i] % g.t[i].dur.size();
        for (size_t k = 0; k < g.c.size(); k++) {
            if (g.c[k].dst == i) tok[k] -= g.c[k].cons[ph];
            if (g.c[k].src == i) tok[k] += g.c[k].prod[ph];
        }
        r.fired[i]++;
    }
    r.live = true; for (size_t i = 0; i < n; i++) if (r.fired[i] < lim[i]) r.live = false;
    return r;
}

// Self-timed execution of one strongly connected component (bounded token counts).
Thr selfTimedSCC(const Graph& g, ll budget) {
    Thr R; size_t n = g.t.size();
    std::vector<ll> tok(g.c.size()), started(n, 0), done(n, 0);
    for (size_t k = 0; k < g.c.size(); k++) tok[k] = g.c[k].tok;
    std::vector<std::vector<int>> in(n), out(n);
    for (size_t k = 0; k < g.c.size(); k++) { in[g.c[k].dst].push_back((int)k); out[g.c[k].src].push_back((int)k); }
    struct Ev { ll time; int task; ll idx; bool operator>(const Ev& o) const { return std::tie(time, task, idx) > std::tie(o.time, o.task, o.idx); } };
    std::priority_queue<Ev, std::vector<Ev>, std::greater<Ev>> pq;
    std::vector<ll> active(n, 0);
    ll now = 0;
    std::unordered_map<ull, std::pair<ll, ll>> seen; // state -> (time, completed full cycles of task 0)
    ll zero = 0;
    while (true) {
        bool prog = true;
        zero = 0;
        while (prog) {
            prog = false;
            // complete everything due now
            while (!pq.empty() && pq.top().time == now) {
                Ev e = pq.top(); pq.pop(); int i = e.task; size_t ph = e.idx % g.t[i].dur.size();
                for (int k : out[i]) tok[k] += g.c[k].prod[ph];
                active[i]--; done[i]++; prog = true; R.steps++; zero++;
            }
            for (size_t i = 0; i < n; i++) {
                while (true) {
                    if (g.t[i].reent1 && active[i]) break;
                    size_t ph = started[i] % g.t[i].dur.size(); bool ok = true;
                    for (int k : in[i]) if (tok[k] < g.c[k].cons[ph]) { ok = false; break; }
                    if (!ok) break;
                    for (int k : in[i]) tok[k] -= g.c[k].cons[ph];
                    pq.push({now + g.t[i].dur[ph], (int)i, started[i]}); active[i]++; started[i]++; prog = true;
                    if (++zero > 20000) { R.k = THR_INF; return R; }
                    if (++R.steps > budget) { R.k = THR_UNKNOWN; return R; }
                }
            }
            if (zero > 20000) { R.k = THR_INF; return R; }
        }
        if (pq.empty()) { R.k = THR_DEADLOCK; R.simtime = now; return R; }
        // state at the end of this instant
        Hash h; for (ll x : tok) h.add(x); for (size_t i = 0; i < n; i++) { h.add(started[i] % g.t[i].dur.size()); h.add(active[i]); }
        auto cp = pq; while (!cp.empty()) { h.add(cp.top().time - now); h.add(cp.top().task); h.add(cp.top().idx % g.t[cp.top().task].dur.size()); cp.pop(); }
        ll cyc = started[0];
        auto it = seen.find(h.h);
        if (it != seen.end() && now > it->second.first) {
            ll dn = cyc - it->second.second, dt = now - it->second.first;
            // dn phase firings of task 0 in dt; an iteration has q0*phases firings
            R.r.n = dn; R.r.d = dt * g.q[0] * (ll)g.t[0].dur.size(); ll G = std::gcd(R.r.n, R.r.d); if (G) { R.r.n /= G; R.r.d /= G; }
            R.k = dn ? THR_OK : THR_DEADLOCK; R.simtime = now; R.states = seen.size(); return R;
        }
        seen[h.h] = {now, cyc};
        now = pq.top().time;
    }
}

Thr selfTimed(const Graph& g, ll budget) {
    auto id = g.scc(); int m = 0; for (int x : id) m = std::max(m, x + 1);
    Thr R; R.k = THR_INF; bool unk = false;
    for (int s = 0; s < m; s++) {
        std::vector<int> keep; for (size_t i = 0; i < id.size(); i++) if (id[i] == s) keep.push_back((int)i);
        Graph h = g.sub(keep);
        if (keep.size() == 1 && h.c.empty()) {
            if (!h.t[0].reent1) continue;               // unconstrained
            ll d = vsum(h.t[0].dur); if (d == 0) continue;
            Thr x; x.k = THR_OK; x.r.n = 1; x.r.d = d * h.q[0];
            if (R.k == THR_INF || (R.k == THR_OK && (__int128)x.r.n * R.r.d < (__int128)R.r.n * x.r.d)) { R.k = THR_OK; R.r = x.r; }
            continue;
        }
        Thr x = selfTimedSCC(h, budget);
        R.steps += x.steps; R.simtime += x.simtime; R.states += x.states;
        if (x.k == THR_UNKNOWN) { unk = true; continue; }
        if (x.k == THR_DEADLOCK) { R.k = THR_DEADLOCK; return R; }
        if (x.k == THR_INF) continue;
        if (R.k == THR_INF || (R.k == THR_OK && (__int128)x.r.n * R.r.d < (__int128)R.r.n * x.r.d)) { R.k = THR_OK; R.r = x.r; }
    }
    if (unk) R.k = THR_UNKNOWN;
    return R;
}

static std::vector<ll> splitsum(Tape& tp, ll total, int phases, bool zeros) {
    std::vector<ll> v(phases, 0);
    if (!zeros && total >= phases) { for (auto& x : v) x = 1; total -= phases; }
    // scatter the rest
    while (total > 0) { ll chunk = tp.range(1, std::min<ll>(total, 3)); v[tp.draw(phases)] += chunk; total -= chunk; }
    return v;
}

Graph genGraph(Tape& tp, const GenOpt& asked) {
    Graph g; GenOpt o = asked;
    if (tp.deep && o.maxTasks >= 5 && tp.chance(1, 3)) { o.maxTasks *= 2; o.extraChan += 3; o.maxTotal += o.maxTotal / 2; if (o.maxPhases > 1) o.maxPhases++; }
    int n = (int)tp.range(1, o.maxTasks);
    if (o.strong && n < 2 && !o.selfloops) n = std::min(2, o.maxTasks);
    std::vector<ll> q(n);
    ll G = 0, tot = 0;
    // shape: cycles through one hub or along a tree make several circuits compete; composite counts make their periods interact
    int shape = tp.chance(1, 4) ? (int)tp.range(1, 2) : 0; bool composite = tp.chance(1, 4);
    static const ll comp[] = {1, 2, 3, 4, 6, 12};
    int sp = tp.chance(1, 5) ? (1 << tp.draw(5)) & o.spice : 0; int odd = (int)tp.draw(n);
    for (int i = 0; i < n; i++) {
        Task t; t.name = std::string("t") + std::to_string(i);
        int ph = 1; if (o.maxPhases > 1 && tp.chance(1, 2)) ph = (int)tp.range(1, o.maxPhases); if (sp == 8 && i == odd && o.maxPhases > 1) ph = (int)tp.range(4, 9);
        for (int k = 0; k < ph; k++) t.dur.push_back(tp.range(o.zeroDur ? 0 : 1, o.maxDur));
        if (vsum(t.dur) == 0) t.dur[0] = 1;
        if (o.allowAuto && ph == 1 && tp.chance(1, 4)) t.reent1 = false;
        q[i] = tp.range(1, o.maxQ);
        if (composite) q[i] = comp[tp.draw(o.maxQ >= 4 ? 6 : 3)];
        if (tot + q[i] * ph > o.maxTotal) q[i] = 1;
        tot += q[i] * ph; G = std::gcd(G, q[i]);
        g.t.push_back(t);
    }
    for (auto& x : q) x /= G;
    auto addc = [&](int a, int b) {
        Chan c; c.src = a; c.dst = b; c.name = std::string("c") + std::to_string(g.c.size());
        ll L = std::gcd(q[a], q[b]);
        ll mult = tp.range(1, o.maxRate);
        ll P = q[b] / L * mult, C = q[a] / L * mult;
        c.prod = splitsum(tp, P, (int)g.t[a].dur.size(), !o.zeroRate ? false : tp.chance(1, 2));
        c.cons = splitsum(tp, C, (int)g.t[b].dur.size(), !o.zeroRate ? false : tp.chance(1, 2));
        if (o.excessTok && tp.chance(1, 3)) c.tok = tp.range(0, P + C);
        c.size = 1;
        g.c.push_back(c);
    };
    if (shape && o.connected && n > 1) {
        for (int i = 1; i < n; i++) { int j = shape == 1 ? 0 : (int)tp.draw(i); addc(j, i); addc(i, j); }
    } else if (o.strong) {
        if (n > 1) for (int i = 0; i < n; i++) addc(i, (i + 1) % n);
    } else if (o.connected) {
        for (int i = 1; i < n; i++) { int j = (int)tp.draw(i); if (tp.chance(1, 4)) addc(i, j); else addc(j, i); }
    }
    int ex = (int)tp.draw(o.extraChan + 1);
    for (int k = 0; k < ex; k++) {
        int a = (int)tp.draw(n), b = (int)tp.draw(n);
        if (a == b && !o.selfloops) { if (n == 1) continue; b = (a + 1) % n; }
        if (!o.parallel) { bool dup = false; for (auto& e : g.c) if (e.src == a && e.dst == b) dup = true; if (dup) continue; }
        addc(a, b);
    }
    if (n == 1 && o.strong && g.c.empty() && o.selfloops) addc(0, 0);
    if (sp == 1) { static const ll f[] = {10, 97, 1000, 86400}; ll k = f[tp.draw(o.spice & 32 ? 4 : 2)]; bool one = tp.chance(1, 2); for (int i = 0; i < n; i++) if (!one || i == odd) for (auto& d : g.t[i].dur) d *= k; }
    if ((sp & 6) && !g.c.empty()) { Chan& c = g.c[tp.draw((uint32_t)g.c.size())]; if (sp == 2) c.tok += tp.range(1, 4 * (vsum(c.prod) + vsum(c.cons))); else { static const ll f[] = {5, 17, 100, 1000}; ll k = f[tp.draw(4)]; for (auto& x : c.prod) x *= k; for (auto& x : c.cons) x *= k; c.tok = c.tok * k + (tp.chance(1, 2) ? tp.draw((uint32_t)k) : 0); } }
    if (sp == 16) {
        std::vector<int> at(n); for (int i = 0; i < n; i++) at[i] = i; for (int i = n - 1; i > 0; i--) std::swap(at[i], at[tp.draw(i + 1)]);
        std::vector<Task> t(n); for (int i = 0; i < n; i++) t[at[i]] = g.t[i]; g.t = t; for (auto& e : g.c) { e.src = at[e.src]; e.dst = at[e.dst]; }
        for (int k = (int)g.c.size() - 1; k > 0; k--) std::swap(g.c[k], g.c[tp.draw(k + 1)]); }
    g.q.clear();
    if (!g.solve()) { fprintf(stderr, "internal: generator produced an inconsistent graph\n"); abort(); }
    // explicit self-loop that would be read as the one-token serialisation loop: keep it unambiguous
    for (auto& e : g.c) if (e.src == e.dst && e.tok == 1) { bool ones = true; for (ll x : e.prod) if (x != 1) ones = false; for (ll x : e.cons) if (x != 1) ones = false; if (ones) e.tok = 2; }
    if (o.live) {
        int guard = 0;
        while (guard++ < 2000) {
            Live l = untimed(g, nullptr);
            if (l.live) break;
            // add tokens on an input channel of a stuck task
            std::vector<int> cand;
            std::vector<ll> tok(g.c.size());
            for (size_t k = 0; k < g.c.size(); k++) {
                tok[k] = g.c[k].tok;
                auto cum = [&](const std::vector<ll>& v, ll nf) { ll s = (nf / (ll)v.size()) * vsum(v); for (ll z = 0; z < nf % (ll)v.size(); z++) s += v[z]; return s; };
                tok[k] += cum(g.c[k].prod, l.fired[g.c[k].src]) - cum(g.c[k].cons, l.fired[g.c[k].dst]);
                size_t ph = l.fired[g.c[k].dst] % g.t[g.c[k].dst].dur.size();
                bool unfinished = l.fired[g.c[k].dst] < g.q[g.c[k].dst] * (ll)g.t[g.c[k].dst].dur.size();
                if (unfinished && tok[k] < g.c[k].cons[ph]) cand.push_back((int)k);
            }
            if (cand.empty()) break;
            int k = cand[tp.draw((uint32_t)cand.size())];
            size_t ph = l.fired[g.c[k].dst] % g.t[g.c[k].dst].dur.size();
            g.c[k].tok += g.c[k].cons[ph] - tok[k];
            if (g.c[k].src == g.c[k].dst && g.c[k].tok == 1) g.c[k].tok = 2;
        }
    }
    return g;
}
