// Driver: runs seeds, checks determinism, minimises, replays.
#include "run.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <iostream>
#include <fstream>

int kiter_main(int, char**);
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

double numAfter(const std::string& s, const std::string& key, bool* found) {
    size_t p = s.find(key); if (found) *found = p != s.npos; if (p == s.npos) return NAN; return strtod(s.c_str() + p + key.size(), nullptr);
}
std::vector<std::string> splitLines(const std::string& s) { std::vector<std::string> v; std::string l; std::istringstream i(s); while (std::getline(i, l)) v.push_back(l); return v; }
std::string askProgram(Ctx& c, const std::string& what, const EnvPlan& env, const std::string& file, const std::vector<std::string>& aa) {
    std::vector<std::string> a; if (!file.empty()) { a.push_back("-f"); a.push_back(file); } for (auto& x : aa) a.push_back(x);
    CallResult r = progcall(env, a); c.absorb(r);
    if (r.sig || r.code != 0) c.fail("noanswer:" + what, what + " gave no answer: " + r.how());
    return r.out;
}
std::string askLibrary(Ctx& c, const std::string& what, const EnvPlan& env, const std::function<std::string()>& fn) {
    CallResult r = libcall(env, fn); c.absorb(r);
    if (!r.returned) c.fail("noanswer:" + what, what + " gave no answer: " + r.how());
    return r.out;
}

static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Outcome {
    int status = 3;                    // 0 held, 1 violation, 2 not applicable to this draw, 3 harness error
    std::string key, msg, sample, scen;
    ull hash = 0; ll simtime = 0, states = 0;
    std::vector<uint32_t> tape;
    std::vector<std::string> trace;
    std::map<std::string, ll> cnt;
};
static void put(std::string& b, const void* p, size_t n) { b.append((const char*)p, n); }
static void puts_(std::string& b, const std::string& s) { uint32_t n = (uint32_t)s.size(); put(b, &n, 4); b += s; }
static bool get(const std::string& b, size_t& o, void* p, size_t n) { if (o + n > b.size()) return false; memcpy(p, b.data() + o, n); o += n; return true; }
static bool gets_(const std::string& b, size_t& o, std::string& s) { uint32_t n; if (!get(b, o, &n, 4) || o + n > b.size()) return false; s.assign(b, o, n); o += n; return true; }

static const Scenario* pickScenario(const std::string& prop, Tape& tp) {
    std::vector<const Scenario*> v; int W = 0;
    for (auto& s : scenarios()) if (prop == s.prop) { v.push_back(&s); W += s.weight; }
    std::sort(v.begin(), v.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
    if (v.empty()) return nullptr;
    int x = (int)tp.draw(W);
    for (auto* s : v) { if (x < s->weight) return s; x -= s->weight; }
    return v.back();
}

static Outcome oneRun(const std::string& prop, int tier, ull seed, const std::vector<uint32_t>* tape, bool wantTrace) {
    scratch();
    int pp[2]; if (pipe(pp)) { perror("pipe"); exit(3); }
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(3); }
    if (!c) {
        close(pp[0]);
        struct rlimit rl { 100, 101 }; setrlimit(RLIMIT_CPU, &rl);
        Tape tp; tp.seed(seed);
        if (tape) { tp.replaying = true; tp.src = *tape; }
        Ctx ctx(tp, tier); int st = 0; std::string key, msg, name;
        const Scenario* s = pickScenario(prop, tp);
        if (!s) { st = 3; msg = "no scenario for " + prop; }
        else {
            name = s->name;
            try { s->fn(ctx); } catch (Violation& v) { st = 1; key = v.key; msg = v.msg; } catch (Skip& k) { st = 2; msg = k.why; } catch (std::exception& e) { st = 3; msg = std::string("harness exception ") + e.what(); }
        }
        std::string b; ctx.h.add(st); ctx.h.adds(key);
        put(b, &st, 4); puts_(b, key); puts_(b, msg); puts_(b, ctx.sample); puts_(b, name); put(b, &ctx.h.h, 8); put(b, &ctx.simtime, 8); put(b, &ctx.states, 8);
        uint32_t n = (uint32_t)tp.rec.size(); put(b, &n, 4); put(b, tp.rec.data(), 4 * (size_t)n);
        n = wantTrace ? (uint32_t)ctx.trace.size() : 0; put(b, &n, 4); for (uint32_t i = 0; i < n; i++) puts_(b, ctx.trace[i]);
        n = (uint32_t)ctx.cnt.size(); put(b, &n, 4); for (auto& k : ctx.cnt) { puts_(b, k.first); put(b, &k.second, 8); }
        size_t o = 0; while (o < b.size()) { ssize_t w = write(pp[1], b.data() + o, b.size() - o); if (w <= 0) break; o += w; }
        _exit(0);
    }
    close(pp[1]); std::string b; char buf[65536]; ssize_t n; while ((n = read(pp[0], buf, sizeof buf)) > 0) b.append(buf, n); close(pp[0]);
    int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    Outcome r; size_t o = 0; uint32_t m;
    if (!WIFEXITED(st) || WEXITSTATUS(st) || !get(b, o, &r.status, 4)) { r.status = 3; r.msg = fmt("run process died (wait status 0x%x)", st); return r; }
    gets_(b, o, r.key); gets_(b, o, r.msg); gets_(b, o, r.sample); gets_(b, o, r.scen); get(b, o, &r.hash, 8); get(b, o, &r.simtime, 8); get(b, o, &r.states, 8);
    get(b, o, &m, 4); r.tape.resize(m); get(b, o, r.tape.data(), 4 * (size_t)m);
    get(b, o, &m, 4); for (uint32_t i = 0; i < m; i++) { std::string s; gets_(b, o, s); r.trace.push_back(s); }
    get(b, o, &m, 4); for (uint32_t i = 0; i < m; i++) { std::string s; ll v; gets_(b, o, s); get(b, o, &v, 8); r.cnt[s] = v; }
    return r;
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += ch; } return o; }

// shrink the tape while the same violation (same key) still happens
static Outcome minimise(const std::string& prop, int tier, Outcome best, double budget, ll& tried) {
    double end = wall() + budget;
    auto attempt = [&](const std::vector<uint32_t>& t) {
        if (wall() > end) return false; tried++;
        Outcome r = oneRun(prop, tier, 0, &t, true);
        if (r.status == 1 && r.key == best.key && r.scen == best.scen) {
            while (!r.tape.empty() && r.tape.back() == 0) r.tape.pop_back();
            if (r.tape.size() < best.tape.size() || (r.tape.size() == best.tape.size() && r.tape < best.tape)) { best = r; return true; }
        }
        return false;
    };
    while (!best.tape.empty() && best.tape.back() == 0) best.tape.pop_back();
    bool prog = true;
    while (prog && wall() < end) {
        prog = false;
        for (size_t len = best.tape.size() / 2; len >= 1 && wall() < end; len /= 2) {
            for (size_t i = 1; i + len <= best.tape.size() && wall() < end;) {
                auto t = best.tape; t.erase(t.begin() + i, t.begin() + i + len); if (attempt(t)) { prog = true; continue; }
                bool nz = false; t = best.tape; for (size_t k = i; k < i + len; k++) { if (t[k]) nz = true; t[k] = 0; } if (nz && attempt(t)) { prog = true; }
                i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 1; i < best.tape.size() && wall() < end; i++) {
            while (i < best.tape.size() && best.tape[i] && wall() < end) {
                auto t = best.tape; t[i] /= 2; if (attempt(t)) { prog = true; continue; }
                t = best.tape; t[i]--; if (attempt(t)) { prog = true; continue; } break;
            }
        }
    }
    return best;
}

static void writeReplay(const std::string& path, const std::string& prop, int tier, ull seed, const Outcome& o, ll tried, size_t origLen) {
    std::ofstream f(path);
    f << "ksim-replay 1\nproperty " << prop << "\ntier " << tier << "\nseed " << seed << "\nscenario " << o.scen << "\nkey " << o.key << "\nhash " << fmt("%016llx", o.hash) << "\noriginal_decisions " << origLen << "\nshrink_attempts " << tried << "\ntape " << o.tape.size();
    for (auto x : o.tape) f << " " << x;
    f << "\nviolation " << jesc(o.msg) << "\n--- trace of the minimised run ---\n";
    for (auto& t : o.trace) f << t << "\n";
}

static int cmdWorker(int argc, char** argv) {
    // worker PROP TIER SEED START STEP COUNT WALL_S DETEVERY
    std::string prop = argv[2]; int tier = atoi(argv[3]); ull seed = strtoull(argv[4], nullptr, 10); ll start = atoll(argv[5]), step = atoll(argv[6]), count = atoll(argv[7]); double end = wall() + atof(argv[8]); ll det = atoll(argv[9]);
    std::map<std::string, ll> cnt, scen, skips; ll runs = 0, held = 0, skipped = 0, simtime = 0, states = 0, rep = 0; std::vector<std::string> samples; double slow = 0;
    for (ll k = 0; k < count && wall() < end; k++) {
        ll idx = start + k * step; ull rs = mix64(mix64(seed * 1000003ULL + idx) ^ mix64(std::hash<std::string>()(prop)));
        double t0 = wall(); Outcome o = oneRun(prop, tier, rs, nullptr, false); slow = std::max(slow, wall() - t0); if (getenv("KSIM_SLOW") && wall() - t0 > 5) fprintf(stderr, "SLOW %.1f %llu %s\n", wall() - t0, (unsigned long long)rs, o.sample.c_str());
        runs++; simtime += o.simtime; states += o.states; scen[o.scen]++;
        for (auto& p : o.cnt) cnt[p.first] += p.second;
        if (o.status == 3) { printf("{\"type\":\"error\",\"seed\":%llu,\"msg\":\"%s\"}\n", rs, jesc(o.msg).c_str()); fflush(stdout); scratchClean(); return 3; }
        if (o.status == 1) { printf("{\"type\":\"violation\",\"index\":%lld,\"seed\":%llu,\"key\":\"%s\",\"scenario\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\"}\n", idx, rs, jesc(o.key).c_str(), o.scen.c_str(), jesc(o.msg).c_str(), o.hash); fflush(stdout); }
        if (o.status == 2) { skipped++; skips[o.msg]++; } else if (o.status == 0) held++;
        if (det && k % det == 0) { Outcome p = oneRun(prop, tier, rs, nullptr, false); rep++; if (p.hash != o.hash || p.status != o.status) { printf("{\"type\":\"nondeterminism\",\"seed\":%llu,\"a\":\"%016llx\",\"b\":\"%016llx\"}\n", rs, o.hash, p.hash); fflush(stdout); } }
        printf("h %016llx\n", o.status == 2 ? 0ULL : o.hash);
        if (samples.size() < 4 && !o.sample.empty() && o.status == 0) samples.push_back(fmt("seed %llu ", rs) + o.scen + ": " + o.sample);
        if (o.status == 1) break;
    }
    printf("{\"type\":\"summary\",\"runs\":%lld,\"held\":%lld,\"skipped\":%lld,\"simtime\":%lld,\"states\":%lld,\"repeated\":%lld,\"slowest_s\":%.3f", runs, held, skipped, simtime, states, rep, slow);
    auto dump = [&](const char* n, std::map<std::string, ll>& m) { printf(",\"%s\":{", n); bool f = true; for (auto& p : m) { printf("%s\"%s\":%lld", f ? "" : ",", jesc(p.first).c_str(), p.second); f = false; } printf("}"); };
    dump("counters", cnt); dump("scenarios", scen); dump("skips", skips);
    printf(",\"samples\":["); for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); printf("]}\n");
    fflush(stdout); scratchClean(); return 0;
}

static int cmdOne(int argc, char** argv) { // one PROP TIER RUNSEED
    Outcome o = oneRun(argv[2], atoi(argv[3]), strtoull(argv[4], nullptr, 10), nullptr, true);
    printf("status %d scenario %s key %s hash %016llx simtime %lld decisions %zu\n%s\n", o.status, o.scen.c_str(), o.key.c_str(), o.hash, o.simtime, o.tape.size(), o.msg.c_str());
    if (argc > 5) for (auto& t : o.trace) printf("%s\n", t.c_str());
    scratchClean(); return o.status;
}
static int cmdMin(int argc, char** argv) { // minimise PROP TIER RUNSEED OUT BUDGET
    std::string prop = argv[2]; int tier = atoi(argv[3]); ull seed = strtoull(argv[4], nullptr, 10);
    Outcome a = oneRun(prop, tier, seed, nullptr, true), b = oneRun(prop, tier, seed, nullptr, true);
    if (a.status != 1 || b.status != 1 || a.hash != b.hash) { printf("not reproducible: %d/%d %016llx %016llx\n", a.status, b.status, a.hash, b.hash); scratchClean(); return 3; }
    size_t len = a.tape.size(); ll tried = 0; Outcome m = minimise(prop, tier, a, atof(argv[6]), tried);
    Outcome v = oneRun(prop, tier, 0, &m.tape, true);
    if (v.status != 1 || v.key != m.key) { m = a; v = a; }
    writeReplay(argv[5], prop, tier, seed, v, tried, len);
    printf("minimised %zu -> %zu decisions in %lld runs: %s\n", len, v.tape.size(), tried, v.msg.c_str()); scratchClean(); return 0;
}
static int cmdReplay(int argc, char** argv) { // replay FILE
    std::ifstream f(argv[2]); std::string l, prop, key, hash; int tier = 0; std::vector<uint32_t> tape;
    while (std::getline(f, l)) { std::istringstream i(l); std::string w; i >> w; if (w == "property") i >> prop; else if (w == "tier") i >> tier; else if (w == "key") { std::getline(i, key); if (!key.empty() && key[0] == ' ') key.erase(0, 1); } else if (w == "hash") i >> hash; else if (w == "tape") { size_t n; i >> n; uint32_t x; while (n-- && i >> x) tape.push_back(x); } else if (w == "---") break; }
    Outcome o = oneRun(prop, tier, 0, &tape, true);
    for (auto& t : o.trace) printf("%s\n", t.c_str());
    std::string hh = fmt("%016llx", o.hash);
    printf("status %d key %s\nhash %s recorded %s\n%s\n", o.status, o.key.c_str(), hh.c_str(), hash.c_str(), o.msg.c_str());
    scratchClean();
    if (o.status == 1 && o.key == key && hh == hash) { printf("REPRODUCED property=%s\n", prop.c_str()); return 1; }
    return o.status == 0 ? 0 : 3;
}
int main(int argc, char** argv) {
    if (argc > 1 && !getenv("KSIM_NOASLR") && (personality(0xffffffff) & ADDR_NO_RANDOMIZE) == 0 && personality(ADDR_NO_RANDOMIZE) != -1) { setenv("KSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    signal(SIGPIPE, SIG_IGN);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "worker" && argc > 9) return cmdWorker(argc, argv);
    if (cmd == "one" && argc > 4) return cmdOne(argc, argv);
    if (cmd == "minimise" && argc > 6) return cmdMin(argc, argv);
    if (cmd == "replay" && argc > 2) return cmdReplay(argc, argv);
    if (cmd == "kiter") { return kiter_main(argc - 1, argv + 1); }
    if (cmd == "props") { std::set<std::string> s; for (auto& x : scenarios()) s.insert(std::string(x.prop) + " " + x.name); for (auto& x : s) printf("%s\n", x.c_str()); return 0; }
    fprintf(stderr, "usage: ksim worker|one|minimise|replay|kiter|props ...\n"); return 3;
}
