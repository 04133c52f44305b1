// Storage: buffer sizing commands and the storage/throughput exploration.
#include "app.h"
#include "kapi.h"
#include <sys/stat.h>
#include <signal.h>
static std::string put(const Graph& g) { scratchWrite("app.xml", g.xml()); return scratch() + "/app.xml"; }

// the application with finite buffers: space is claimed when a producer starts and released when a consumer ends
static Graph bounded(const Graph& g, const std::vector<ll>& cap) {
    Graph h = g; size_t m = g.c.size(), j = 0;
    for (size_t k = 0; k < m; k++) { if (g.c[k].src == g.c[k].dst) continue; Chan r; r.name = "rev_" + g.c[k].name; r.src = g.c[k].dst; r.dst = g.c[k].src; r.prod = g.c[k].cons; r.cons = g.c[k].prod; r.tok = cap[j++] - g.c[k].tok; h.c.push_back(r); }
    return h;
}
// calls f on every way of sharing out `total` places with at least lo[i] in each; f returns true to stop
static bool splits(const std::vector<ll>& lo, ll total, const std::function<bool(const std::vector<ll>&)>& f) {
    std::vector<ll> v = lo; ll rest = total - std::accumulate(lo.begin(), lo.end(), 0LL); if (rest < 0) return false;
    std::function<bool(size_t, ll)> rec = [&](size_t i, ll left) { if (i + 1 == v.size()) { v[i] = lo[i] + left; return f(v); } for (ll x = 0; x <= left; x++) { v[i] = lo[i] + x; if (rec(i + 1, left - x)) return true; } return false; };
    return rec(0, rest);
}
static ll countSplits(size_t m, ll rest) { if (rest < 0) return 0; ll r = 1; for (size_t i = 1; i < m; i++) { r = r * (rest + (ll)i) / (ll)i; if (r > 1000000) return r; } return r; }

// every way to share the places when a place of channel i takes w[i] (the last channel gets all that is left)
static bool splitsW(const std::vector<ll>& lo, const std::vector<ll>& w, ll total, const std::function<bool(const std::vector<ll>&)>& f, size_t limit = 5000) {
    std::vector<ll> v = lo; ll rest = total; size_t n = 0; for (size_t i = 0; i < lo.size(); i++) rest -= lo[i] * w[i]; if (rest < 0) return false;
    std::function<bool(size_t, ll)> go = [&](size_t i, ll r) { if (i + 1 == lo.size()) { if (++n > limit) throw Skip{"too many distributions"}; v[i] = lo[i] + r / w[i]; return f(v); } for (ll k = 0; k * w[i] <= r; k++) { v[i] = lo[i] + k; if (go(i + 1, r - k * w[i])) return true; } return false; };
    return go(0, rest);
}

SCENARIO(C08, sizing, 6) {
    GenOpt o; o.spice = 31; o.maxTasks = 4; o.extraChan = 1; o.maxPhases = 2; o.maxQ = 3; o.maxRate = 2; o.strong = c.tp.chance(1, 3); o.parallel = false;
    Graph g = genGraph(c.tp, o); if (g.c.empty() || g.c.size() > 4) throw Skip{"too few or too many channels"};
    std::vector<ll> w(g.c.size(), 1); if (c.tp.chance(1, 3)) for (size_t i = 0; i < w.size(); i++) g.c[i].size = w[i] = c.tp.range(1, 4);
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief());
    double one = numAfter(askProgram(c, "1PeriodicThroughput", e, f, {"-a", "1PeriodicThroughput"}), "1Periodic throughput is");
    if (!(one > 1e-9)) throw Skip{"no periodic schedule"};
    ll period = (ll)std::ceil(1 / one - 1e-6) + c.tp.range(0, 7); bool tight = c.tp.chance(1, 8); if (tight) { Thr t = selfTimed(g); if (t.k != THR_OK) throw Skip{"unbounded rate"}; period = (ll)std::floor(1 / t.r.val() - 1e-6); if (period < 1) throw Skip{"period too small"}; }
    static const std::vector<std::vector<std::string>> as = {{"PeriodicSizing"}, {"SPeriodicSizing"}, {"FixedOffsetBufferSizing", "-pOFFSET=BURST"}, {"FixedOffsetBufferSizing", "-pOFFSET=AVERAGE"}, {"FixedOffsetBufferSizing", "-pOFFSET=MINMAX"}, {"FixedOffsetBufferSizing", "-pOFFSET=WIGGERS"}};
    std::vector<std::string> a = as[c.tp.draw(tight ? 2 : 6)]; bool ilp = c.tp.chance(1, 2); std::string name = a[0] + (a.size() > 1 ? a[1].substr(9) : "") + (ilp ? "(ILP)" : "");
    std::vector<std::string> args = {"-f", f, "-a"}; for (auto& x : a) args.push_back(x); args.push_back(fmt("-pPERIOD=%lld", period)); if (ilp) args.push_back("-pILP=1");
    CallResult r = progcall(e, args); c.absorb(r); c.sample = g.brief() + name + fmt(" period %lld", period);
    bool f1 = false, f2 = false; double v1 = numAfter(r.out, "izing size is", &f1), v2 = numAfter(r.out, "odic size is", &f2); bool found = f1 || f2; double N = f1 ? v1 : v2;
    c.say(name + fmt(" period %lld: ", period) + (found ? fmt("size %.9g", N) : "no size, " + r.how()));
    if (r.sig || r.code) found = false;
    if (!found) { c.cnt["sizing_no_solution"]++; if (a[0] == "PeriodicSizing" && !tight && period >= 1 / one + 0.01) c.fail("none:" + name, fmt("no buffer size is found for period %lld although a periodic schedule of period %.6g exists", period, 1 / one)); return; }
    c.require(!tight, "phantom:" + name, fmt("a size is announced for period %lld, which the application cannot reach whatever the buffers", period));
    ll total = (ll)std::llround(N); c.require(std::fabs(N - total) < 1e-6 || !ilp, "frac:" + name, fmt("announced size %.9g", N)); total = (ll)std::ceil(N - 1e-6);
    std::vector<ll> lo; for (auto& x : g.c) lo.push_back(x.tok); ll rest = total; for (size_t i = 0; i < lo.size(); i++) rest -= lo[i] * w[i];
    c.require(rest >= 0, "tokens:" + name, fmt("announced total size %lld cannot even hold the initial tokens", total));
    if (countSplits(g.c.size(), rest) > 3000) throw Skip{"too many distributions"};
    bool ok = splitsW(lo, w, total, [&](const std::vector<ll>& cap) { c.cnt["distributions_executed"]++; Thr t = selfTimed(bounded(g, cap), 60000); c.simtime += t.simtime; return t.k == THR_INF || (t.k == THR_OK && (double)t.r.n * period >= (double)t.r.d * (1 - 1e-9)); });
    c.require(ok, "size:" + name, fmt("with %lld places in total no distribution lets the application run with period %lld", total, period));
    c.cnt["sizing_sustained"]++;
    bool sper = a[0] == "SPeriodicSizing"; if ((a[0] == "PeriodicSizing" || sper) && ilp && rest > 0 && countSplits(g.c.size(), rest - 1) <= 120) {
        // minimality: one place less must not admit a periodic schedule of that period
        std::vector<std::string> xs; splitsW(lo, w, total - 1, [&](const std::vector<ll>& cap) { xs.push_back(bounded(g, cap).xml()); return false; });
        std::string s = askLibrary(c, "bounded schedules", e, [&] { std::string o; for (auto& x : xs) o += kapi::schedule(x, sper ? "SP" : "1P", 1) + "\n"; return o; });
        for (auto& l : splitLines(s)) { double th = numAfter(l, "throughput"); if (l.compare(0, 5, "omega") == 0 && th * period >= 1 - 1e-6) { c.cnt["not_minimal"]++; c.quiet("smaller"); c.fail("min:" + name, fmt("announced minimum %lld, but %lld places are enough for a schedule of that shape and period %lld", total, total - 1, period)); } }
        c.cnt["sizing_minimal_checked"]++;
    }
}


// the explorations that ask for one size per rate
SCENARIO(C08, periodic_exploration, 2) {
    GenOpt o; o.spice = 31; o.maxTasks = 4; o.extraChan = 1; o.maxPhases = 2; o.maxQ = 3; o.maxRate = 2; o.strong = c.tp.chance(1, 3); o.parallel = false;
    Graph g = genGraph(c.tp, o); if (g.c.empty() || g.c.size() > 4) throw Skip{"too few or too many channels"};
    std::vector<ll> w(g.c.size(), 1); if (c.tp.chance(1, 3)) for (size_t i = 0; i < w.size(); i++) g.c[i].size = w[i] = c.tp.range(1, 4);
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief());
    double one = numAfter(askProgram(c, "1PeriodicThroughput", e, f, {"-a", "1PeriodicThroughput"}), "1Periodic throughput is"); if (!(one > 1e-9)) throw Skip{"no periodic schedule"};
    bool sper = c.tp.chance(1, 2), ilp = c.tp.chance(1, 2); std::string name = std::string(sper ? "SPeriodicDSE" : "PeriodicDSE") + (ilp ? "(ILP)" : ""); std::vector<std::string> args = {"-f", f, "-a", sper ? "SPeriodicDSE" : "PeriodicDSE"}; if (ilp) args.push_back("-pILP=1");
    CallResult r = progcall(e, args, 6); c.absorb(r); c.sample = g.brief() + name; if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"exploration too long"}; c.require(!r.sig && !r.code, "noanswer:" + name, name + " gives no answer: " + r.how());
    struct P { double per; ll size; bool line; }; std::vector<P> pts; size_t nl = 0, nt = 0; double best = 0, was = -1;
    for (auto& l : splitLines(r.out)) { char* p; double a = strtod(l.c_str(), &p), b; if (p == l.c_str()) continue; if (*p == ';') { b = strtod(p + 1, &p); if (*p != ';' || !(b > 0) || !(a > 0)) continue; pts.push_back({1 / b, (ll)std::llround(a), true}); nl++; best = std::max(best, b); } else if (*p == '\t') { b = strtod(p + 1, &p); if (*p) continue; c.require(b > was, "order:" + name, name + fmt(": size %g is listed after size %g", b, was)); was = b; bool known = false; for (auto& x : pts) if (x.line && x.size == (ll)b && near(x.per, a, 2e-5)) known = true; c.require(known, "table:" + name, name + fmt(" lists period %g with size %g, which it did not find", a, b)); pts.push_back({a, (ll)std::llround(b), false}); nt++; } }
    c.say(name + fmt(": %zu sizes found, %zu listed, best rate %.6g of %.6g", nl, nt, best, one)); c.cnt["periodic_points"] += (ll)nl;
    if (!sper) c.require(nt > 0 && best >= one * (1 - 3e-4), "max:" + name, name + fmt(" ends at the rate %.6g although a periodic schedule runs at %.6g", best, one));
    c.require(best <= one * (1 + 2e-5), "phantom:" + name, name + fmt(" announces a size for the rate %.6g, more than the best periodic schedule reaches (%.6g)", best, one));
    if (nt == 0) return; ll bestListed = 0; double bestPer = 1e300; for (auto& x : pts) if (!x.line && x.per < bestPer) { bestPer = x.per; bestListed = x.size; } c.require(near(1 / bestPer, best, 3e-5), "table:" + name, name + fmt(" does not list its best rate %.6g (best listed %.6g)", best, 1 / bestPer)); (void)bestListed;
    for (auto& x : pts) for (auto& y : pts) if (ilp && !x.line && !y.line && x.size < y.size) c.require(x.per > y.per, "front:" + name, name + fmt(" lists size %lld for period %g and size %lld for period %g", x.size, x.per, y.size, y.per));
    std::vector<ll> lo; for (auto& x : g.c) lo.push_back(x.tok); ll base = 0; for (size_t i = 0; i < lo.size(); i++) base += lo[i] * w[i];
    for (int k = 0; k < 3; k++) {
        auto& x = c.tp.chance(1, 2) ? pts[pts.size() - 1 - c.tp.draw((uint32_t)nt)] : pts[c.tp.draw((uint32_t)pts.size())]; if (x.per > 1e5) { c.cnt["points_beyond_the_solver"]++; continue; }   // known finding: long_period.xml
        c.say(fmt("size %lld for period %.6g", x.size, x.per)); c.require(x.size >= base, "tokens:" + name, name + fmt(": total size %lld cannot even hold the initial tokens", x.size));
        if (countSplits(g.c.size(), x.size - base) <= 3000) { bool ok = splitsW(lo, w, x.size, [&](const std::vector<ll>& cap) { c.cnt["distributions_executed"]++; Thr t = selfTimed(bounded(g, cap), 60000); c.simtime += t.simtime; return t.k == THR_INF || (t.k == THR_OK && t.r.val() * x.per >= 1 - 3e-5); });
            c.require(ok, "size:" + name, name + fmt(": with %lld places in total no distribution lets the application run with period %g", x.size, x.per)); c.cnt["periodic_points_executed"]++; }
        auto size = [&](double per) -> ll { std::vector<std::string> b = {"-f", f, "-a", sper ? "SPeriodicSizing" : "PeriodicSizing", fmt("-pPERIOD=%.17g", per)}; b.push_back("-pILP=1"); CallResult z = progcall(e, b, 6); c.absorb(z); bool f1 = false, f2 = false; double v1 = numAfter(z.out, "izing size is", &f1), v2 = numAfter(z.out, "odic size is", &f2); return z.sig || z.code || !(f1 || f2) ? -1 : (ll)std::llround(f1 ? v1 : v2); };
        ll s0 = size(x.per * (1 + 2e-5)), s1 = size(x.per * (1 - 2e-5)); if (s0 > 0 && s1 > 0 && s0 == s1) { c.require(ilp ? x.size == s0 : x.size >= s0, "same:" + name, name + fmt(" announces size %lld for period %g, the smallest is %lld", x.size, x.per, s0)); c.cnt["periodic_points_confirmed"]++; }
    }
}

struct Row { double size, thr; std::vector<ll> q; };
static std::vector<Row> rows(const std::string& s) {
    std::vector<Row> v;
    for (auto& l : splitLines(s)) {
        char* p; double a = strtod(l.c_str(), &p); if (p == l.c_str() || *p != ';') continue; double b = strtod(p + 1, &p); if (*p != ';') continue;
        Row r; r.size = a; r.thr = b; size_t q = l.find('"'), z = q == l.npos ? q : l.find('"', q + 1); if (z != l.npos) { std::istringstream i(l.substr(q + 1, z - q - 1)); std::string w; while (std::getline(i, w, ',')) if (w.find_first_not_of(' ') != w.npos) r.q.push_back(atoll(w.c_str())); }
        v.push_back(r);
    }
    return v;
}
// whether the highest rate is reached within the first 300 distributions, smallest first
static bool small(const Graph& g, const Thr& mx) {
    std::vector<ll> lo; for (auto& x : g.c) lo.push_back(std::max<ll>(x.tok, 1)); ll base = std::accumulate(lo.begin(), lo.end(), 0LL); int n = 0;
    for (ll z = base; n <= 300; z++) { if (splits(lo, z, [&](const std::vector<ll>& cap) { if (++n > 300) return false; Thr t = selfTimed(bounded(g, cap), 60000); return t.k == THR_OK && t.r.val() >= mx.r.val() * (1 - 1e-9); })) return true; }
    return false;
}

SCENARIO(C09, dse, 6) {
    GenOpt o; bool sdf = c.tp.chance(1, 2); o.spice = 31; o.maxTasks = 3; o.extraChan = 1; o.maxPhases = sdf ? 1 : 2; o.maxQ = 3; o.maxRate = 2; o.maxDur = 5; o.strong = c.tp.chance(1, 2); o.parallel = c.tp.chance(1, 2);
    Graph g = genGraph(c.tp, o); if (g.c.empty() || g.c.size() > 4) throw Skip{"too few or too many channels"};
    Thr mx = selfTimed(g); if (mx.k != THR_OK) throw Skip{"no finite rate"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief() + " rate " + thrStr(mx)); c.sample = g.brief();
    std::vector<std::string> args = {"-f", f, "-a", "ThroughputBufferingDSE"}; bool corr = c.tp.chance(1, 3); if (corr) args.push_back("-pSYMB_EXEC_CORRECTED=1");
    CallResult r = progcall(e, args, 8); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) { c.require(!small(g, mx), "endless", "the exploration does not end although no more than 300 distributions lie below its last point"); throw Skip{"exploration too long"}; }
    c.require(!r.sig && !r.code, "noanswer:dse", "the exploration gave no answer: " + r.how());
    auto rs = rows(r.out); c.require(!rs.empty(), "empty", "the exploration prints no point"); c.cnt["dse_points"] += (ll)rs.size();
    std::vector<double> best; double mxr = 0, prevSize = -1; std::map<ll, double> bySize; ll mins = (ll)1e18;
    for (auto& p : rs) {
        std::string d; ll sum = 0; for (ll x : p.q) { d += std::to_string(x) + " "; sum += x; }
        c.say(fmt("point size %.9g throughput %.9g capacities ", p.size, p.thr) + d);
        c.require(p.q.size() == g.c.size(), "shape", "a point does not list one capacity per channel: " + d); c.require(std::fabs(sum - p.size) < 1e-6, "sum", fmt("a point of size %.9g lists capacities adding up to %lld", p.size, sum));
        c.require(p.size >= prevSize - 1e-9, "order", fmt("size %.9g is listed after size %.9g", p.size, prevSize)); prevSize = p.size;
        bool fits = true; for (size_t i = 0; i < p.q.size(); i++) if (p.q[i] < g.c[i].tok) fits = false;
        Thr t; if (fits) t = selfTimed(bounded(g, p.q)); else t.k = THR_DEADLOCK; c.simtime += t.simtime; c.states += t.states; if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
        c.require(near(p.thr, ratio(t), 2e-5), "rate", fmt("capacities %sare said to give %.9g but the application then runs at %s", d.c_str(), p.thr, thrStr(t).c_str()));
        mxr = std::max(mxr, p.thr); auto it = bySize.find(sum); if (it == bySize.end() || it->second < p.thr) bySize[sum] = p.thr; mins = std::min(mins, sum);
    }
    c.require(near(mxr, mx.r.val(), 2e-5), "max", fmt("the best point reaches %.9g, the application can reach %s", mxr, thrStr(mx).c_str()));
    if (sdf) {
        // completeness of the front, by executing every distribution up to the largest size
        std::vector<ll> lo; for (auto& x : g.c) lo.push_back(std::max<ll>(x.tok, 1)); ll top = bySize.rbegin()->first, work = 0; for (ll z = std::accumulate(lo.begin(), lo.end(), 0LL); z < top; z++) work += countSplits(g.c.size(), z - std::accumulate(lo.begin(), lo.end(), 0LL));
        if (work <= 1500) { double sofar = 0; c.cnt["dse_front_checked"]++;
            for (ll z = std::accumulate(lo.begin(), lo.end(), 0LL); z <= top; z++) { if (bySize.count(z)) sofar = std::max(sofar, bySize[z]); splits(lo, z, [&](const std::vector<ll>& cap) { Thr t = selfTimed(bounded(g, cap), 60000); c.cnt["distributions_executed"]++; c.simtime += t.simtime; double v = t.k == THR_OK ? t.r.val() : 0; if (v > sofar * (1 + 2e-5) + 1e-9) { std::string d; for (ll x : cap) d += std::to_string(x) + " "; c.fail("front", fmt("capacities %s(total %lld) reach %.9g, but the listed points need more storage for that (best listed at that size %.9g)", d.c_str(), z, v, sofar)); } return false; }); } }
    }
}

// the same exploration with a target, with coarse steps, by symbolic execution, or written to files
SCENARIO(C09, dse_options, 3) {
    GenOpt o; bool sdf = c.tp.chance(1, 2); o.spice = 31; o.maxTasks = 3; o.extraChan = 1; o.maxPhases = sdf ? 1 : 2; o.maxQ = 3; o.maxRate = 2; o.maxDur = 5; o.maxTotal = 20; o.strong = c.tp.chance(1, 2); o.parallel = c.tp.chance(1, 2);
    Graph g = genGraph(c.tp, o); if (g.c.empty() || g.c.size() > 3) throw Skip{"too few or too many channels"}; Thr mx = selfTimed(g); if (mx.k != THR_OK) throw Skip{"no finite rate"};
    EnvPlan e = benignEnv(c.tp); std::string f = put(g); c.say("application: " + g.brief() + " rate " + thrStr(mx)); double top = mx.r.val(), target = top; int how = (int)c.tp.draw(4), coarse = c.tp.chance(1, 4) ? 2 + (int)c.tp.draw(2) : 1; bool log = c.tp.chance(1, 2), thr = c.tp.chance(1, 2), beyond = thr && c.tp.chance(1, 6);
    std::vector<std::string> args = {"-f", f, "-a", "ThroughputBufferingDSE"}; if (how == 1) args.push_back("-pSYMB_EXEC_ORIGINAL=1"); if (how == 2) args.push_back("-pSYMB_EXEC_CORRECTED=1"); if (coarse > 1) args.push_back(fmt("-pCOARSE=%d", coarse));
    if (thr) { target = beyond ? top * (1.01 + c.tp.draw(10) / 10.0) : top * (1 + c.tp.draw(20)) / 20.0 * (1 - 1e-6); args.push_back(fmt("-pTHR=%.12g", target)); }
    if (log) { ::mkdir((scratch() + "/logs").c_str(), 0755); args.push_back("-pLOGDIR=" + scratch() + "/logs/"); }
    std::string req; for (size_t i = 3; i < args.size(); i++) req += (args[i].find("LOGDIR") != args[i].npos ? "-pLOGDIR=" : args[i]) + " "; c.say(req); c.sample = g.brief() + req;
    CallResult r = progcall(e, args, 8); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) { c.require(!small(g, mx), "endless", "the exploration does not end although no more than 300 distributions lie below its last point"); throw Skip{"exploration too long"}; } c.require(!r.sig && !r.code, "noanswer:dse", req + "gave no answer: " + r.how());
    std::string tail = how == 1 ? "_symbexec_original" : how == 2 ? "_symbexec_corrected" : "_kiter"; if (coarse > 1) tail += "_coarse"; std::string text = r.out, pp;
    if (log && !beyond) { text = scratchRead("logs/dse_logs/" + g.name + "_dselog" + tail + ".csv"); pp = scratchRead("logs/pp_logs/" + g.name + "_pp" + tail + ".csv"); c.require(!text.empty() && !pp.empty(), "files", req + "wrote no log or no list of points"); c.require(rows(r.out).empty(), "files", req + "prints points although it writes them"); }
    auto rs = rows(text); if (beyond) { c.require(rs.empty(), "target", req + fmt("explores although the application only reaches %s", thrStr(mx).c_str())); return; } c.require(!rs.empty(), "empty", "the exploration prints no point"); c.cnt["dse_points"] += (ll)rs.size();
    double mxr = 0, prevSize = -1; std::map<ll, double> bySize; std::map<std::vector<ll>, double> seen;
    for (auto& p : rs) {
        std::string d; ll sum = 0; for (ll x : p.q) { d += std::to_string(x) + " "; sum += x; } c.require(p.q.size() == g.c.size() && std::fabs(sum - p.size) < 1e-6, "sum", req + fmt("lists a point of size %.9g with the capacities ", p.size) + d); c.require(p.size >= prevSize - 1e-9, "order", req + fmt("lists size %.9g after size %.9g", p.size, prevSize)); prevSize = p.size;
        c.require(!seen.count(p.q), "twice", req + "explores the capacities " + d + "twice"); seen[p.q] = p.thr; bool fits = true; for (size_t i = 0; i < p.q.size(); i++) if (p.q[i] < g.c[i].tok) fits = false;
        Thr t; if (fits) t = selfTimed(bounded(g, p.q)); else t.k = THR_DEADLOCK; c.simtime += t.simtime; c.states += t.states; if (t.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"};
        c.require(near(p.thr, ratio(t), 2e-5), "rate", req + fmt(": capacities %sare said to give %.9g but the application then runs at %s", d.c_str(), p.thr, thrStr(t).c_str())); mxr = std::max(mxr, p.thr); bySize[sum] = std::max(bySize[sum], p.thr);
    }
    double first = 1e18; for (auto& p : rs) if (p.thr >= target * (1 - 1e-7) + 1e-6 * top || (!thr && near(p.thr, top, 5e-6))) first = std::min(first, p.size); c.require(prevSize <= first + 1e-9, "beyond", req + fmt(": goes on to size %.9g although size %.9g already gives the rate asked for", prevSize, first));
    if (how != 1) c.require(mxr >= target * (1 - 2e-5), "max", req + fmt(": the best point reaches %.9g, %.9g was asked for and the application can reach %s", mxr, target, thrStr(mx).c_str()));
    if (log) {   // the written list is the front of what was explored
        double best = -1; std::vector<Row> want; for (auto& z : bySize) if (z.second > best * (1 + 1e-5) + 1e-12) { best = z.second; want.push_back({(double)z.first, z.second, {}}); } if (!want.empty() && want[0].thr == 0) { want[0].size = 0; }
        auto ps = rows(pp); std::map<ll, double> got; for (auto& p : ps) { ll sum = 0; for (ll x : p.q) sum += x; got[(ll)std::llround(p.size)] = p.thr; if (p.thr > 0) { c.require(seen.count(p.q) && near(seen[p.q], p.thr, 1e-6) && sum == (ll)std::llround(p.size), "front", req + fmt(": a point of the list (size %.9g, %.9g) was not explored", p.size, p.thr)); } else c.require(sum == 0, "front", req + ": the point without throughput has places"); }
        for (auto& w : want) c.require(got.count((ll)w.size) && near(got[(ll)w.size], w.thr, 1e-5), "front", req + fmt(": the best explored point of size %.9g (%.9g) is not in the list", w.size, w.thr)); c.require(got.size() == want.size(), "front", req + fmt(": the list has points of %zu sizes, %zu are on the front", got.size(), want.size()));
    }
    if (sdf && coarse == 1 && how != 1) {
        std::vector<ll> lo; for (auto& x : g.c) lo.push_back(std::max<ll>(x.tok, 1)); ll z0 = std::accumulate(lo.begin(), lo.end(), 0LL), last = bySize.rbegin()->first, work = 0; for (ll z = z0; z < last; z++) work += countSplits(g.c.size(), z - z0);
        if (work <= 1000) { double sofar = 0; c.cnt["dse_front_checked"]++; for (ll z = z0; z < last; z++) { if (bySize.count(z)) sofar = std::max(sofar, bySize[z]); splits(lo, z, [&](const std::vector<ll>& cap) { Thr t = selfTimed(bounded(g, cap), 60000); c.cnt["distributions_executed"]++; c.simtime += t.simtime; double v = t.k == THR_OK ? t.r.val() : 0; if (v > sofar * (1 + 2e-5) + 1e-9) { std::string d; for (ll x : cap) d += std::to_string(x) + " "; c.fail("missed", req + fmt(": the capacities %sreach %.9g, the points up to size %lld only %.9g", d.c_str(), v, z, sofar)); } return false; }); } }
    }
}

// one distribution examined by symbolic execution: its rate, and where more places could help
SCENARIO(C09, one_distribution, 3) {
    GenOpt o; o.maxTasks = 4; o.extraChan = 2; o.maxPhases = c.tp.chance(1, 2) ? 1 : 3; o.maxQ = 3; o.maxRate = 2; o.maxDur = 5; o.strong = c.tp.chance(1, 2); Graph g = genGraph(c.tp, o); if (g.c.empty() || g.c.size() > 5) throw Skip{"too few or too many channels"};
    std::vector<ll> cap; std::string sd; for (auto& x : g.c) { ll p = 0, q = 0; for (ll v : x.prod) p = std::max(p, v); for (ll v : x.cons) q = std::max(q, v); cap.push_back(std::max<ll>(x.tok, c.tp.range((int)std::max(p, q), (int)(p + q + 2)))); sd += (sd.empty() ? "" : ",") + std::to_string(cap.back()); }
    Thr t = selfTimed(bounded(g, cap)); c.simtime += t.simtime; c.states += t.states; if (t.k != THR_OK && t.k != THR_DEADLOCK) throw Skip{"periodic regime not reached within budget"};
    bool corr = c.tp.chance(2, 3); std::vector<std::string> args = {"-f", put(g), "-a", "SymbExecDebug", "-pSD=" + sd}; if (corr) args.push_back("-pSYMB_EXEC_CORRECTED=1"); c.say("application: " + g.brief() + " capacities " + sd + " rate " + thrStr(t)); c.sample = g.brief() + sd;
    CallResult r = progcall(benignEnv(c.tp), args, 20); c.absorb(r); if (r.sig == SIGXCPU || r.sig == SIGKILL) throw Skip{"too expensive"}; c.require(!r.sig && !r.code, "noanswer:debug", "SymbExecDebug gave no answer: " + r.how());
    bool ok = false; double v = numAfter(r.out, "Symbolic Execution Throughput is", &ok); c.require(ok, "noanswer:debug", "SymbExecDebug prints no throughput"); double want = t.k == THR_OK ? t.r.val() : 0; c.require(near(v, want, 1e-6) || (want == 0 && v <= 0), "rate", fmt("with the capacities %s SymbExecDebug announces %.9g but the application runs at %s", sd.c_str(), v, thrStr(t).c_str()));
    std::set<int> dep; for (auto& l : splitLines(r.out)) { int id; if (sscanf(l.c_str(), " Channel %d (name:", &id) == 1) { c.require(id >= 1 && id <= (int)g.c.size(), "dependency", fmt("a dependency in the channel %d", id)); dep.insert(id - 1); } }
    if (!corr) return; std::vector<ll> big = cap; for (size_t i = 0; i < cap.size(); i++) if (!dep.count((int)i)) big[i] += 60; Thr u = selfTimed(bounded(g, big)); if (u.k == THR_UNKNOWN) throw Skip{"periodic regime not reached within budget"}; c.cnt["dependencies_checked"]++;
    c.require((u.k == THR_OK ? u.r.val() : u.k == THR_DEADLOCK ? 0 : 1e300) <= want * (1 + 1e-9) + 1e-12, "dependency", fmt("with the capacities %s more room only in channels without a storage dependency raises the rate from %s to %s", sd.c_str(), thrStr(t).c_str(), thrStr(u).c_str()));
}
