// Documents: what is read, what is printed, and what survives being saved and read again.
#include "app.h"
#include "doc.h"
#include <numeric>
#include <cmath>
#include <signal.h>
#include <unistd.h>

// ---------------------------------------------------------------- generator of documents
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else if (c == '\'') o += "&#39;"; else o += c; } return o; }
static std::string dname(Tape& tp, const char* base, int i, bool odd) { std::string s = base + std::to_string(i); if (!odd || !tp.chance(1, 3)) return s; static const char* v[] = {"%s b", "<%s>", "a&%s", "\"%s\"", "%s_\xc3\xa9", "%s.0", "R%s", "%s;1,2*3", "in_%s", "'%s'"}; return fmt(v[tp.draw(10)], s.c_str()); }
static std::string dnum(Tape& tp) {
    switch (tp.draw(7)) { case 0: case 1: case 2: return std::to_string(tp.range(0, 9)); case 3: return std::to_string(tp.range(0, 2000000)); case 4: return fmt("%lld.%lld", tp.range(0, 99), tp.range(0, 9)); case 5: return fmt("%lld.%06lld", tp.range(0, 5000000), tp.range(0, 999999)); default: return std::to_string(tp.range(1, 4000) * 1000003LL); }
}
template <class F> static Txt listOf(int n, F f) { Txt r; for (int i = 0; i < n; i++) r.push_back(f()); return r; }
static std::string listTxt(Tape& tp, const Txt& v, bool star) { std::string o; for (size_t i = 0; i < v.size();) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; if (!o.empty()) o += ","; if (star && tp.chance(1, 2) && (j - i > 1 || tp.chance(1, 4))) { o += std::to_string(j - i) + "*" + v[i]; i = j; } else { o += v[i]; i++; } } return o; }
static std::string tag(Tape& tp, const std::string& n, std::vector<std::pair<std::string, std::string>> at, bool shuffle) {
    if (shuffle) for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[tp.draw((uint32_t)i)]);
    std::string o = "<" + n; for (auto& a : at) o += (shuffle && tp.chance(1, 6) ? "\n  " : " ") + a.first + "=\"" + esc(a.second) + "\""; return o;
}
static std::string document(Tape& tp) {
    bool odd = tp.chance(1, 2), sh = tp.chance(1, 2), init = tp.chance(1, 3), star = tp.chance(1, 2), big = tp.chance(1, 4); bool sdf = tp.chance(1, 3); std::string G = sdf ? "sdf" : "csdf";
    int n = (int)tp.range(1, 6), m = (int)tp.range(0, 8); std::vector<std::string> name; std::vector<int> ph, ip; for (int i = 0; i < n; i++) { name.push_back(dname(tp, "t", i, odd)); ph.push_back(tp.chance(1, 2) ? (int)tp.range(1, 4) : 1); ip.push_back(init && tp.chance(1, 2) ? (int)tp.range(1, 3) : 0); }
    std::vector<Txt> ports(n); Txt chans;
    auto rates = [&](int t) { auto f = [&]() { return std::to_string(tp.range(0, tp.chance(1, 4) && big ? 1000000 : 4)); }; std::string s; if (ip[t]) s = listTxt(tp, listOf(ip[t], f), star) + ";"; return s + listTxt(tp, listOf(ph[t], f), star); };
    auto ones = [&](int t) { auto f = []() { return std::string("1"); }; std::string s; if (ip[t]) s = listTxt(tp, listOf(ip[t], f), star) + ";"; return s + listTxt(tp, listOf(ph[t], f), star); };
    for (int k = 0; k < m; k++) {
        int a = (int)tp.draw(n), b = (int)tp.draw(n); std::string pa = dname(tp, "o", k, odd), pb = dname(tp, "i", k, odd); bool one = tp.chance(1, 4);
        ports[a].push_back(tag(tp, "port", {{"name", pa}, {"type", "out"}, {"rate", one ? ones(a) : rates(a)}}, sh) + "/>"); ports[b].push_back(tag(tp, "port", {{"name", pb}, {"type", "in"}, {"rate", one ? ones(b) : rates(b)}}, sh) + "/>");
        std::vector<std::pair<std::string, std::string>> at = {{"name", dname(tp, "c", k, odd)}, {"srcActor", name[a]}, {"srcPort", pa}, {"dstActor", name[b]}, {"dstPort", pb}};
        if (tp.chance(2, 3)) at.push_back({"initialTokens", std::to_string(tp.chance(1, 6) && big ? tp.range(0, 2000000000) * 1000 : tp.range(0, 3))}); if (tp.chance(1, 2)) at.push_back({"size", std::to_string(tp.range(1, big ? 100000 : 9))});
        chans.push_back(tag(tp, "channel", at, sh) + "/>");
    }
    for (int i = 0; i < n; i++) if (tp.chance(2, 3)) {
        ports[i].push_back(tag(tp, "port", {{"name", "ro"}, {"type", "out"}, {"rate", ones(i)}}, sh) + "/>"); ports[i].push_back(tag(tp, "port", {{"name", "ri"}, {"type", "in"}, {"rate", ones(i)}}, sh) + "/>");
        chans.push_back(tag(tp, "channel", {{"name", "L" + std::to_string(i)}, {"srcActor", name[i]}, {"srcPort", "ro"}, {"dstActor", name[i]}, {"dstPort", "ri"}, {"initialTokens", "1"}}, sh) + "/>");
    }
    auto mess = [&](Txt& v) { if (sh) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[tp.draw((uint32_t)i)]); };
    auto blank = [&]() { return std::string(sh && tp.chance(1, 5) ? "<!-- note -->\n" : ""); };
    std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + tag(tp, "sdf3", {{"type", G}, {"version", "1.0"}}, sh) + ">\n" + tag(tp, "applicationGraph", {{"name", dname(tp, "app", 0, odd)}}, sh) + ">\n" + blank() + tag(tp, G, {{"name", dname(tp, "g", 1, odd)}, {"type", dname(tp, "G", 2, odd)}}, sh) + ">\n";
    Txt body; for (int i = 0; i < n; i++) { mess(ports[i]); std::string a = tag(tp, "actor", {{"name", name[i]}, {"type", dname(tp, "T", i, odd)}}, sh) + ">"; for (auto& p : ports[i]) a += "\n " + blank() + p; body.push_back(a + "\n</actor>\n"); }
    mess(body); mess(chans); bool mixed = sh && tp.chance(1, 3); if (mixed) { for (auto& x : chans) body.push_back(x + "\n"); mess(body); for (auto& x : body) o += blank() + x; } else { for (auto& x : body) o += x; for (auto& x : chans) o += blank() + x + "\n"; }
    o += "</" + G + ">\n<" + G + "Properties>\n"; Txt pr;
    for (int i = 0; i < n; i++) { std::string s; if (ip[i]) s = listTxt(tp, listOf(ip[i], [&]() { return dnum(tp); }), star) + ";"; s += listTxt(tp, listOf(ph[i], [&]() { return dnum(tp); }), star); pr.push_back(tag(tp, "actorProperties", {{"actor", name[i]}}, sh) + ">" + tag(tp, "processor", {{"type", "proc_0"}, {"default", "true"}}, sh) + ">" + tag(tp, "executionTime", {{"time", s}}, sh) + "/>" + (sh && tp.chance(1, 3) ? "<memory><stateSize max=\"1\"/></memory>" : "") + "</processor></actorProperties>\n"); }
    mess(pr); for (auto& x : pr) o += x; if (sh && tp.chance(1, 3)) o += "<graphProperties><timeConstraints><throughput>0.1</throughput></timeConstraints></graphProperties>\n";
    return o + "</" + G + "Properties>\n</applicationGraph>\n</sdf3>\n";
}

static std::string ask(Ctx& c, const EnvPlan& e, const std::vector<std::string>& a, const std::string& what) {
    CallResult r = progcall(e, a); c.absorb(r); c.require(!r.sig && !r.code, "refused", what + " gives no answer: " + r.how()); return r.out;
}

SCENARIO(C10, print_and_reread, 6) {
    std::string doc = document(c.tp); scratchWrite("doc.xml", doc); std::string f = scratch() + "/doc.xml", f2 = scratch() + "/copy.xml"; ::unlink(f2.c_str());
    Doc want = mean(c, doc, "internal: the drawn document"); c.say("document: " + doc); c.sample = doc; EnvPlan e = benignEnv(c.tp);
    std::string p1 = ask(c, e, {"-f", f, "-a", "PrintXML"}, "PrintXML"); trim(p1); Doc got = mean(c, p1, "what PrintXML prints"); std::string d = differs(want, got);
    c.require(d.empty(), "content", "PrintXML prints another application: " + d);
    ask(c, benignEnv(c.tp), {"-f", f, "-a", "PrintXML", "-pfilename=" + f2}, "PrintXML into a file"); std::string p2 = scratchRead("copy.xml"); trim(p2);
    c.require(p2 == p1, "file", "PrintXML writes another document into a file than on standard output");
    std::string p3 = ask(c, benignEnv(c.tp), {"-f", f2, "-a", "PrintXML"}, "PrintXML of a printed document"); trim(p3);
    c.require(p3 == p1, "fixpoint", "printing the printed document again gives another document: " + differs(want, mean(c, p3, "the second print")));
}

// the program text printed for an application builds that application
static std::string arg(const std::string& l) { size_t a = l.find(','), b = l.rfind(')'); return a == l.npos ? "" : l.substr(a + 1, b - a - 1); }
static std::string braces(const std::string& s) { size_t a = s.find('{'), b = s.rfind('}'); return a == s.npos || b == s.npos ? s : s.substr(a + 1, b - a - 1); }
static std::string quoted(const std::string& s) { size_t a = s.find('"'), b = s.rfind('"'); if (a == s.npos || a == b) throw std::string("no string in " + s); std::string o; for (size_t i = a + 1; i < b; i++) { if (s[i] == '"') throw std::string("string ends early in " + s); if (s[i] == '\\') i++; o += s[i]; } return o; }
SCENARIO(C10, printed_code, 2) {
    std::string doc = document(c.tp); scratchWrite("doc.xml", doc); Doc want = mean(c, doc, "internal: the drawn document"); c.say("document: " + doc); c.sample = doc;
    std::string out = ask(c, benignEnv(c.tp), {"-f", scratch() + "/doc.xml", "-a", "PrintKiter"}, "PrintKiter"); Doc got; got.app = want.app; got.graph = want.graph; got.type = want.type; std::map<ll, int> id; bool ret = false;
    try {
        for (auto& l : splitLines(out)) {
            auto has = [&](const char* k) { return l.find(k) != l.npos; };
            if (has("addVertex(")) { ll i = atoll(l.c_str() + l.find("addVertex(") + 10); if (id.count(i)) throw std::string("vertex number used twice"); id[i] = (int)got.t.size(); got.t.push_back({}); }
            else if (has("setVertexName(")) got.t.back().name = quoted(arg(l));
            else if (has("setReentrancyFactor(")) got.t.back().reent = atoll(arg(l).c_str()) == 1;
            else if (has("setVertexInitDuration(")) got.t.back().init = numbers<long double>(braces(arg(l)));
            else if (has("setVertexDuration(")) got.t.back().dur = numbers<long double>(braces(arg(l)));
            else if (has("addEdge(")) { size_t a = l.find("getVertexById("), b = l.rfind("getVertexById("); DChan x; x.src = got.t.at(id.at(atoll(l.c_str() + a + 14))).name; x.dst = got.t.at(id.at(atoll(l.c_str() + b + 14))).name; got.c.push_back(x); }
            else if (has("setEdgeInInitPhases(")) got.c.back().pi = numbers<ll>(braces(arg(l)));
            else if (has("setEdgeOutInitPhases(")) got.c.back().ci = numbers<ll>(braces(arg(l)));
            else if (has("setEdgeInPhases(")) got.c.back().p = numbers<ll>(braces(arg(l)));
            else if (has("setEdgeOutPhases(")) got.c.back().c = numbers<ll>(braces(arg(l)));
            else if (has("setPreload(")) got.c.back().tok = atoll(arg(l).c_str());
            else if (has("setTokenSize(")) got.c.back().size = atoll(arg(l).c_str());
            else if (has("setEdgeName(")) got.c.back().name = quoted(arg(l));
            else if (has("return ")) ret = true;
        }
    } catch (std::string& m) { c.fail("unreadable", "the text printed by PrintKiter is not a program: " + m); } catch (std::out_of_range&) { c.fail("unreadable", "the text printed by PrintKiter uses an unknown task"); }
    for (auto& t : got.t) for (auto& w : want.t) if (w.name == t.name) t.type = w.type;
    std::string d = differs(want, got); c.require(d.empty(), "code", "the program printed by PrintKiter builds another application: " + d);
    c.require(ret, "code-return", "the function printed by PrintKiter does not return the application it builds");
}

// analyses give the same answer for the printed document
SCENARIO(C10, same_answer_after_print, 3) {
    GenOpt o; o.maxTasks = 6; o.strong = c.tp.chance(1, 2); o.selfloops = c.tp.chance(1, 4); Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    static const std::vector<std::string> al = {"KPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "SPeriodicThroughput", "EG1", "LP1", "SymbExec", "CycleDetection", "PrintInfos"};
    std::string a = c.tp.pick(al), f = scratch() + "/app.xml", f2 = scratch() + "/copy.xml"; scratchWrite("app.xml", g.xml()); ::unlink(f2.c_str()); c.say("application: " + g.brief() + " asked for " + a); c.sample = g.brief() + a;
    ask(c, benignEnv(c.tp), {"-f", f, "-a", "PrintXML", "-pfilename=" + f2}, "PrintXML into a file");
    CallResult x = progcall(benignEnv(c.tp), {"-f", f, "-a", a}), y = progcall(benignEnv(c.tp), {"-f", f2, "-a", a}); c.absorb(x); c.absorb(y);
    if (x.sig == SIGXCPU || y.sig == SIGXCPU || x.sig == SIGKILL || y.sig == SIGKILL) throw Skip{"too expensive"};
    c.require(x.sig == y.sig && x.code == y.code, "outcome", a + " ends with " + x.how() + " for the application and " + y.how() + " for its printed document");
    auto A = splitLines(x.out), B = splitLines(y.out); auto drop = [](std::vector<std::string>& v) { std::vector<std::string> r; for (auto& l : v) if (l.find("Execution Time") == l.npos && l.find("Scheduling Size") == l.npos && l.find("ilename") == l.npos) r.push_back(l); v = r; }; drop(A); drop(B);
    for (size_t i = 0; i < std::max(A.size(), B.size()); i++) { std::string p = i < A.size() ? A[i] : "", q = i < B.size() ? B[i] : ""; c.require(p == q, "answer", a + " answers '" + p + "' for the application and '" + q + "' for its printed document"); }
}

// the document saved after a transformation is the transformed application: read again it is the same, with the same answers
SCENARIO(C10, saved_result, 3) {
    GenOpt o; o.maxTasks = 5; o.strong = c.tp.chance(1, 2); o.maxQ = 3; o.maxRate = 4; o.maxTotal = 16; uint32_t kind = c.tp.draw(6); if (kind == 0 || kind == 1) o.maxPhases = 1; if (kind == 2) { o.maxPhases = 1; o.maxQ = 1; o.maxRate = 1; o.extraChan = 5; } if (kind != 5) o.spice = 18; Graph g = genGraph(c.tp, o); if (g.c.empty()) throw Skip{"graph without channels"};
    std::string f = scratch() + "/app.xml", f2 = scratch() + "/copy.xml", f3 = scratch() + "/again.xml"; scratchWrite("app.xml", g.xml()); ::unlink(f2.c_str()); ::unlink(f3.c_str()); std::vector<std::string> a = {"-f", f}; auto more = [&](std::vector<std::string> v) { a.insert(a.end(), v.begin(), v.end()); }; bool analyse = true;
    switch (kind) {
        case 0: case 1: more({"-a", "createNoC", "-a", c.tp.chance(1, 2) ? "moduloMapping" : "randomMapping", "-a", c.tp.chance(1, 2) ? "xyRouting" : "randomRouting", "-a", kind ? "BufferlessNoCScheduling" : "ModelNoCConflictFreeCommunication"}); analyse = !kind; break;
        case 2: for (auto& e : g.c) if (e.prod != std::vector<ll>{1} || e.cons != std::vector<ll>{1}) throw Skip{"rates"}; more({"-pname=" + c.tp.pick(g.t).name, "-a", "SingleOutput"}); break;
        case 3: more({"-a", "RemoveReentrancy"}); analyse = false; break;
        case 4: a = {fmt("-pmin_vertices_count=%lld", c.tp.range(2, 4)), fmt("-pmax_vertices_count=%lld", c.tp.range(4, 6)), "-pmin_edges_count=4", "-pmax_edges_count=8", fmt("-pseed=%lld", c.tp.range(0, 1000)), fmt("-pmax_periodic_phase_quantity=%lld", c.tp.range(1, 3)), "-g", "GenerateRandomSDF"}; if (c.tp.chance(1, 3)) { a.insert(a.begin(), "-pmax_init_phase_quantity=2"); analyse = false; } break;
        default: { ll per = 0; for (size_t i = 0; i < g.t.size(); i++) per += g.q[i] * std::accumulate(g.t[i].dur.begin(), g.t[i].dur.end(), 0ll); a.push_back(fmt("-pPERIOD=%lld", std::max<ll>(1, per * 2))); more({"-a", "AddVBuffers"}); analyse = false; } break;
    }
    if (analyse && c.tp.chance(1, 2)) more({"-a", "PrintInfos"}); std::string what; for (auto& x : a) if (x != "-f" && x != f) what += x + " "; c.say("application: " + g.brief()); c.say("request: " + what); c.sample = g.brief() + what;
    std::vector<std::string> full = a; full.insert(full.end(), {"-pfilename=" + f2, "-a", "PrintXML"}); if (analyse) full.insert(full.end(), {"-a", "KPeriodicThroughput"});
    CallResult x = progcall(benignEnv(c.tp), full, 10); c.absorb(x); if (x.sig == SIGXCPU || x.sig == SIGKILL) throw Skip{"too expensive"}; if (kind >= 4 && x.code == 1) throw Skip{"refused"}; c.require(!x.sig && !x.code, "refused", what + "gives no answer: " + x.how());
    std::string d2 = scratchRead("copy.xml"); Doc A = mean(c, d2, "the saved result"); std::vector<std::string> b = {"-f", f2, "-pfilename=" + f3, "-a", "PrintXML"}; if (analyse) b.insert(b.end(), {"-a", "KPeriodicThroughput"});
    CallResult y = progcall(benignEnv(c.tp), b, 10); c.absorb(y); if (y.sig == SIGXCPU || y.sig == SIGKILL) throw Skip{"too expensive"}; c.require(!y.sig && !y.code, "reread", what + ": the saved result cannot be read again: " + y.how());
    Doc B = mean(c, scratchRead("again.xml"), "the saved result printed again"); std::string d = differs(A, B); c.require(d.empty(), "saved", what + ": the saved result is another application when read again: " + d); if (!analyse) return;
    double p = numAfter(x.out, "KPeriodic Throughput is"), q = numAfter(y.out, "KPeriodic Throughput is"); c.require((std::isnan(p) && std::isnan(q)) || near(p, q), "answer", what + fmt(": the throughput is %.9g, and %.9g for the saved result", p, q)); c.cnt["saved_answers"]++;
}
