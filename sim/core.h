// Core of the simulator: the choice tape (every nondeterministic decision of a
// run is drawn from it), the application model, its generator and the
// discrete-event engine that executes it under a seeded schedule.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <queue>
#include <deque>
#include <functional>
#include <numeric>
#include <algorithm>
#include <sstream>
#include <unordered_map>
#include <cmath>

typedef long long ll;
typedef unsigned long long ull;

static inline ull mix64(ull z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- tape ----
struct Tape {
    ull s[4];
    std::vector<uint32_t> rec;       // decisions taken, in order
    std::vector<uint32_t> src;       // decisions to replay
    size_t pos = 0;
    bool replaying = false;
    bool deep = false;               // thorough runs: a third of the applications is about twice as large
    void seed(ull x) { for (int i = 0; i < 4; i++) { x = mix64(x + i); s[i] = x; } }
    ull next() {
        auto rotl = [](ull x, int k) { return (x << k) | (x >> (64 - k)); };
        ull r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    // uniform in [0,n); 0 is always the simplest choice
    uint32_t draw(uint32_t n) {
        uint32_t v;
        if (n <= 1) n = 1;
        if (replaying) { v = pos < src.size() ? src[pos] : 0; pos++; v %= n; }
        else v = (uint32_t)(next() % n);
        rec.push_back(v);
        return v;
    }
    ll range(ll lo, ll hi) { return lo + (ll)draw((uint32_t)(hi - lo + 1)); }
    // true with probability num/den; 0 on the tape means false
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
};

// --------------------------------------------------------------- model ----
struct Task { std::string name; std::vector<ll> dur; bool reent1 = true; };
struct Chan { std::string name; int src = 0, dst = 0; std::vector<ll> prod, cons; ll tok = 0; ll size = 1; };
static inline ll vsum(const std::vector<ll>& v) { ll s = 0; for (ll x : v) s += x; return s; }

struct Graph {
    std::string name = "g";
    std::vector<Task> t;
    std::vector<Chan> c;
    std::vector<ll> q;               // full cycles of each task per iteration (minimal), empty if inconsistent
    std::string xml() const;
    bool solve();                    // computes q; false if inconsistent (or disconnected pieces are fine)
    std::vector<int> scc() const;    // component id of each task
    Graph sub(const std::vector<int>& keep) const;
    ll totalq() const { ll s = 0; for (size_t i = 0; i < t.size(); i++) s += q[i] * (ll)t[i].dur.size(); return s; }
    std::string brief() const;
};

struct GenOpt {
    int maxTasks = 5, maxPhases = 3, maxQ = 4, maxDur = 6, maxRate = 3;
    bool allowAuto = false;          // tasks without the self-loop that serialises their firings
    bool live = true;                // add tokens until live
    bool strong = false;             // strongly connected
    bool zeroDur = false, zeroRate = true;
    int extraChan = 3;
    bool selfloops = false;          // explicit multi-token self-loops
    bool parallel = true;            // parallel channels between two tasks
    ll maxTotal = 60;
    bool connected = true;
    bool excessTok = true;
    int spice = 63;                  // rare extremes: 1 long durations (32: very long), 2 many tokens, 4 large rates, 8 many phases, 16 any order of declaration
};
Graph genGraph(Tape& tp, const GenOpt& o);

// ---------------------------------------------------- discrete-event engine
struct Rat { ll n = 0, d = 1; double val() const { return d ? (double)n / d : INFINITY; } };

enum ThrKind { THR_OK, THR_DEADLOCK, THR_INF, THR_UNKNOWN };
struct Thr { ThrKind k = THR_UNKNOWN; Rat r; ll steps = 0; ll simtime = 0; ull states = 0; };
// Long-run iterations per time unit of the self-timed (as soon as possible) execution of a whole graph
Thr selfTimed(const Graph& g, ll budget = 400000);
Thr selfTimedSCC(const Graph& g, ll budget);

struct Live { bool live; std::vector<ll> fired; };
// can one full iteration complete?  (order chosen by tape when given)
Live untimed(const Graph& g, Tape* tp, ll iterations = 1);

// hash accumulator for traces
struct Hash { ull h = 1469598103934665603ULL; void add(ull x) { h = mix64(h ^ x); } void adds(const std::string& s) { for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL; h = mix64(h); } };
