// What an application document says, read without the code under test.
#pragma once
#include "app.h"
#include "xml.h"

typedef std::vector<std::string> Txt;
struct DTask { std::string name, type; std::vector<long double> init, dur; bool reent = false; bool operator==(const DTask& o) const { return name == o.name && type == o.type && init == o.init && dur == o.dur && reent == o.reent; } };
struct DChan { std::string name, src, dst; std::vector<ll> pi, p, ci, c; ll tok = 0, size = 1; bool operator==(const DChan& o) const { return name == o.name && src == o.src && dst == o.dst && pi == o.pi && p == o.p && ci == o.ci && c == o.c && tok == o.tok && size == o.size; } };
struct Doc { std::string app, graph, type; std::vector<DTask> t; std::vector<DChan> c; };

static inline Txt cut(const std::string& s, char d) { Txt r; std::string w; for (char x : s) if (x == d) { r.push_back(w); w.clear(); } else w += x; if (!s.empty()) r.push_back(w); return r; }
template <class T> static std::vector<T> numbers(const std::string& s) {
    std::vector<T> r;
    for (auto& e : cut(s, ',')) { auto x = cut(e, '*'); ll n = x.size() == 2 ? atoll(x[0].c_str()) : 1; if (x.empty()) throw std::string("empty element in list '" + s + "'"); char* end; T v; if (std::is_same<T, ll>::value) v = (T)strtoll(x.back().c_str(), &end, 10); else v = (T)strtold(x.back().c_str(), &end); if (*end || end == x.back().c_str()) throw std::string("not a number: '" + x.back() + "'"); while (n-- > 0) r.push_back(v); }
    return r;
}
template <class T> static void phased(const std::string& s, std::vector<T>& init, std::vector<T>& per) { auto x = cut(s, ';'); if (x.size() > 2) throw std::string("bad list '" + s + "'"); if (x.size() == 2) init = numbers<T>(x[0]); else init.clear(); per = x.empty() ? std::vector<T>() : numbers<T>(x.back()); }

// the meaning of a document
static inline Doc meaning(const std::string& text) {
    XNode root = xmlParse(text); Doc d; if (root.name != "sdf3") throw std::string("root element is '" + root.name + "'");
    const XNode* ag = root.child("applicationGraph"); if (!ag) throw std::string("no applicationGraph"); d.app = ag->at("name");
    const XNode* g = ag->child("csdf"); if (!g) g = ag->child("sdf"); const XNode* pr = ag->child("csdfProperties"); if (!pr) pr = ag->child("sdfProperties"); if (!g || !pr) throw std::string("no graph or no properties");
    d.graph = g->at("name"); d.type = g->at("type"); std::map<std::string, std::string> rate;
    for (auto& n : g->kids) if (n.name == "actor") { DTask t; t.name = n.at("name"); t.type = n.at("type"); d.t.push_back(t); for (auto& p : n.kids) if (p.name == "port") { std::string k = t.name + "\n" + p.at("type") + "\n" + p.at("name"); if (rate.count(k)) throw std::string("port given twice: " + p.at("name")); rate[k] = p.at("rate"); } }
    auto task = [&](const std::string& n) -> DTask& { for (auto& t : d.t) if (t.name == n) return t; throw std::string("unknown task '" + n + "'"); };
    for (auto& n : g->kids) if (n.name == "channel") {
        DChan c; c.name = n.at("name"); c.src = n.at("srcActor"); c.dst = n.at("dstActor"); std::string a = c.src + "\nout\n" + n.at("srcPort"), b = c.dst + "\nin\n" + n.at("dstPort");
        task(c.src); task(c.dst); if (!rate.count(a) || !rate.count(b)) throw std::string("channel " + c.name + " has no port");
        phased(rate[a], c.pi, c.p); phased(rate[b], c.ci, c.c); if (n.has("initialTokens")) c.tok = numbers<ll>(n.at("initialTokens")).at(0); if (n.has("size")) c.size = numbers<ll>(n.at("size")).at(0);
        bool ones = c.src == c.dst && c.tok == 1; for (auto* v : {&c.pi, &c.p, &c.ci, &c.c}) for (ll x : *v) if (x != 1) ones = false;
        if (ones) task(c.src).reent = true; else d.c.push_back(c);
    }
    for (auto& n : pr->kids) if (n.name == "actorProperties") { DTask& t = task(n.at("actor")); for (auto& p : n.kids) if (p.name == "processor") for (auto& e : p.kids) if (e.name == "executionTime") phased(e.at("time"), t.init, t.dur); }
    for (auto& t : d.t) if (t.dur.empty()) throw std::string("task " + t.name + " has no durations");
    return d;
}
static inline std::string differs(const Doc& a, const Doc& b) {
    if (a.app != b.app) return "application name '" + b.app + "' instead of '" + a.app + "'"; if (a.graph != b.graph) return "graph name '" + b.graph + "'"; if (a.type != b.type) return "graph type '" + b.type + "'";
    if (a.t.size() != b.t.size()) return fmt("%zu tasks instead of %zu", b.t.size(), a.t.size()); if (a.c.size() != b.c.size()) return fmt("%zu channels instead of %zu", b.c.size(), a.c.size());
    for (auto& x : a.t) { bool ok = false, seen = false; std::string w; for (auto& y : b.t) if (y.name == x.name) { seen = true; ok = ok || x == y; w = x.dur != y.dur ? "durations" : x.init != y.init ? "initial durations" : x.type != y.type ? "type" : "self-concurrency"; } if (!ok) return "task '" + x.name + "' " + (seen ? "has other " + w : "is missing"); }
    for (auto& x : a.c) { bool ok = false, seen = false; std::string w; for (auto& y : b.c) if (y.name == x.name) { seen = true; ok = ok || x == y; w = x.src != y.src || x.dst != y.dst ? "ends" : x.tok != y.tok ? "initial tokens" : x.size != y.size ? "token size" : x.p != y.p || x.pi != y.pi ? "production rates" : "consumption rates"; } if (!ok) return "channel '" + x.name + "' " + (seen ? "has other " + w : "is missing"); }
    return "";
}

static inline void trim(std::string& s) { while (!s.empty() && s.back() == '\n') s.pop_back(); }
static inline Doc mean(Ctx& c, const std::string& text, const std::string& what) { try { return meaning(text); } catch (std::string& e) { c.fail("unreadable", what + " cannot be read as an application: " + e); } return Doc(); }
