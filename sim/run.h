// One simulated run: scenario registry, outcome, helpers shared by scenarios.
#pragma once
#include "core.h"
#include "env.h"

struct Violation { std::string key, msg; };
struct Skip { std::string why; };

struct Ctx {
    Tape& tp; int tier;
    Hash h;
    std::map<std::string, ll> cnt;
    std::vector<std::string> trace;
    std::string sample;
    ll simtime = 0, states = 0;
    Ctx(Tape& t, int ti) : tp(t), tier(ti) { t.deep = ti != 0; }
    void say(const std::string& s) { trace.push_back(s); h.adds(s); }
    void quiet(const std::string& s) { trace.push_back(s); }
    void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
    void require(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
    void absorb(const CallResult& r) { for (int i = 0; i < K_N; i++) if (r.k[i] && i != K_ALLOC) cnt[std::string("env_") + counterName[i]] += r.k[i]; simtime += 0; }
};
typedef void (*ScenarioFn)(Ctx&);
struct Scenario { const char* prop; const char* name; int weight; ScenarioFn fn; };
std::vector<Scenario>& scenarios();
struct RegScenario { RegScenario(const char* p, const char* n, int w, ScenarioFn f) { scenarios().push_back({p, n, w, f}); } };
#define SCENARIO(prop, name, weight) static void name(Ctx&); static RegScenario reg_##name(#prop, #name, weight, name); static void name(Ctx& c)

static inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static inline std::string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static inline bool near(double a, double b, double rel = 1e-6) { if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= rel * std::max(1e-9, std::max(std::fabs(a), std::fabs(b))) + 1e-12; }
double numAfter(const std::string& s, const std::string& key, bool* found = nullptr);
std::vector<std::string> splitLines(const std::string& s);
// ask the program: returns standard output; throws a violation when it gives no answer
std::string askProgram(Ctx& c, const std::string& what, const EnvPlan& env, const std::string& file, const std::vector<std::string>& algoArgs);
std::string askLibrary(Ctx& c, const std::string& what, const EnvPlan& env, const std::function<std::string()>& fn);
