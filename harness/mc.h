// Bounded exhaustive exploration driver used by every harness in /verif.
//
// A harness registers families.  A family is a finite, explicitly indexed set of executions (input cases,
// operation histories, schedules, crash points); the driver visits every index exactly once, spreading the
// indices over worker processes.  A case that aborts, crashes or does not end is reported like any other
// violation, after it was replayed alone in a fresh process.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
#include <array>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace mc {

struct Fail { std::string msg; };

enum { NCNT = 8 };
enum Cnt { STATES, TRANSITIONS, TRACES, NONTRIVIAL, SKIPPED, C5, C6, C7 };

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> done[256];
    std::atomic<uint64_t> busy_ms[256];
    std::atomic<int> stopped[256];
    std::atomic<uint64_t> cnt[256][NCNT];
    std::atomic<uint64_t> sigs[1 << 16];  // small open-addressed set of outcome signatures
    std::atomic<uint64_t> nsigs;
    struct Slot { std::atomic<int64_t> cur; std::atomic<int64_t> since_ms; } slot[256];
};
inline Shared *&sh() { static Shared *s = nullptr; return s; }

inline int &curfam() { static int f = 0; return f; }
inline void add(Cnt c, uint64_t n = 1) { sh()->cnt[curfam()][c].fetch_add(n, std::memory_order_relaxed); }
inline uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ? h : 1; }
// records a distinct observed outcome
inline void outcome(const std::string &s) {
    uint64_t h = fnv(s);
    for (unsigned k = 0; k < 64; ++k) {
        auto &slot = sh()->sigs[(h + k) & 0xffff];
        uint64_t v = slot.load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) { uint64_t z = 0; if (slot.compare_exchange_strong(z, h)) { sh()->nsigs++; return; } if (z == h) return; }
    }
}
inline void state(uint64_t n = 1) { add(STATES, n); }
inline void trans(uint64_t n = 1) { add(TRANSITIONS, n); }
inline void trace(uint64_t n = 1) { add(TRACES, n); }
inline void nontrivial(uint64_t n = 1) { add(NONTRIVIAL, n); }
inline void skipped(uint64_t n = 1) { add(SKIPPED, n); }

inline void fail(const std::string &m) { throw Fail{m}; }
#define MC_FAIL(x) do { std::ostringstream _o; _o << x; mc::fail(_o.str()); } while (0)
#define MC_CHECK(c, x) do { if (!(c)) MC_FAIL(x); } while (0)

struct Family {
    std::string name, bound;
    uint64_t n;
    std::function<std::string(uint64_t)> key;   // stable description of a case
    std::function<void(uint64_t)> run;          // throws Fail
    double timeout = 60;
    // cases that end the process in a way the property requires (e.g. refused input) run in their own child
};

struct Registry { std::vector<Family> f; };
inline Registry &reg() { static Registry r; return r; }
inline bool &thorough() { static bool t = false; return t; }
inline void family(const std::string &name, const std::string &bound, uint64_t n, std::function<std::string(uint64_t)> key, std::function<void(uint64_t)> run, double timeout = 60) {
    Family f; f.name = name; f.bound = bound; f.n = n; f.key = key; f.run = run; f.timeout = timeout; reg().f.push_back(f);
}
void setup();  // provided by the harness: registers the families

// ---- helpers for running a piece of code in a child process ----
struct ChildResult { int status; bool timed_out; std::string out, err; bool exited0() const { return !timed_out && WIFEXITED(status) && WEXITSTATUS(status) == 0; } };
inline std::string slurp_fd(int fd, size_t max = 1 << 20) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t r; while (s.size() < max && (r = read(fd, b, sizeof b)) > 0) s.append(b, r); return s; }
inline int tmpfd() { char t[] = "/tmp/mcXXXXXX"; int fd = mkstemp(t); if (fd >= 0) unlink(t); return fd; }
// a check has 900 s: in the quick tier a case counts as hung after at most 150 s, and its replay after at most 400 s
inline bool fail_fast() { static bool b = getenv("MC_FAILFAST") != nullptr; return b; }  // stop at the first violation (used while developing)
inline double hang_s(const Family &f) { if (fail_fast()) return std::min(f.timeout, 120.0); return thorough() ? f.timeout : std::min(f.timeout, 150.0); }
inline double replay_s(const Family &f) { return thorough() ? 4 * f.timeout : std::min(4 * f.timeout, 400.0); }
inline int64_t now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline ChildResult in_child(const std::function<void(int)> &f, double timeout) {
    int o = tmpfd(), e = tmpfd();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        dup2(e, 1); dup2(e, 2);
        try { f(o); } catch (Fail &x) { (void)!write(o, "FAIL ", 5); (void)!write(o, x.msg.data(), x.msg.size()); fflush(nullptr); _exit(3); }
        fflush(nullptr);
        _exit(0);
    }
    ChildResult r; r.timed_out = false; r.status = 0;
    int64_t t0 = now_ms();
    int64_t nap = 50;
    for (;;) {
        pid_t w = waitpid(pid, &r.status, WNOHANG);
        if (w == pid) break;
        if (now_ms() - t0 > timeout * 1000) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &r.status, 0); r.timed_out = true; break; }
        usleep(nap); if (nap < 5000) nap *= 2;
    }
    r.out = slurp_fd(o); r.err = slurp_fd(e); close(o); close(e);
    return r;
}

inline std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}

struct Violation { std::string family, key, msg; uint64_t idx; };

inline std::string tail(const std::string &s, size_t n = 600) { return s.size() > n ? s.substr(s.size() - n) : s; }

// runs one case alone, in a fresh process; returns "" when it holds
inline std::string run_alone(const Family &f, uint64_t idx, double timeout) {
    ChildResult r = in_child([&](int) { f.run(idx); }, timeout);
    if (r.exited0()) return "";
    if (r.timed_out) return "TIMEOUT";
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 3 && r.out.compare(0, 5, "FAIL ") == 0) return r.out.substr(5);
    std::ostringstream o;
    if (WIFSIGNALED(r.status)) { if (WTERMSIG(r.status) == SIGKILL) return "KILLED"; o << "ended by signal " << WTERMSIG(r.status); }
    else o << "exited with " << WEXITSTATUS(r.status);
    o << ": " << tail(r.err);
    return o.str();
}

inline int main_(int argc, char **argv) {
    std::string out; int workers = 8; std::string only; int64_t one = -1; size_t maxviol = 12; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough() = true;
        else if (a == "--out") out = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--family") only = argv[++i];
        else if (a == "--case") one = atoll(argv[++i]);
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (workers > 250) workers = 250;
    sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setup();
    if (list) { for (auto &f : reg().f) printf("%s: %llu cases; %s\n", f.name.c_str(), (unsigned long long)f.n, f.bound.c_str()); return 0; }
    if (one >= 0) {
        for (auto &f : reg().f) if (f.name == only) {
            printf("case %s:%lld  %s\n", f.name.c_str(), (long long)one, f.key(one).c_str());
            std::string m = run_alone(f, one, replay_s(f));
            printf("%s\n", m.empty() ? "holds" : m.c_str());
            return m.empty() ? 0 : 1;
        }
        fprintf(stderr, "no such family\n"); return 2;
    }
    std::vector<Violation> viol; std::string famjson; bool capped = false; std::vector<std::string> samples; uint64_t total = 0;
    std::vector<std::string> errors;
    // one queue over all families, the ones with the longest cases first; every worker takes the next case
    std::vector<int> order; std::vector<uint64_t> start;
    for (size_t k = 0; k < reg().f.size(); ++k) if (only.empty() || reg().f[k].name == only) order.push_back(k);
    if (order.size() > 256) { fprintf(stderr, "too many families\n"); return 2; }
    std::stable_sort(order.begin(), order.end(), [](int a, int b) { return reg().f[a].timeout > reg().f[b].timeout; });
    for (int k : order) { start.push_back(total); total += reg().f[k].n; }
    auto locate = [&](uint64_t g) { return (size_t)(std::upper_bound(start.begin(), start.end(), g) - start.begin()) - 1; };
    int nw = (int)std::min<uint64_t>(workers, total);
    std::vector<pid_t> pid(nw); std::vector<int> efd(nw), vfd(nw); std::vector<size_t> nviol(order.size(), 0);
    bool stopall = false;
    auto spawn = [&](int w) {
        sh()->slot[w].cur = -1; sh()->slot[w].since_ms = now_ms();
        efd[w] = tmpfd(); vfd[w] = tmpfd();
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            dup2(efd[w], 2); dup2(efd[w], 1);
            for (;;) {
                uint64_t g = sh()->next++;
                if (g >= total) break;
                size_t k = locate(g); const Family &f = reg().f[order[k]]; uint64_t i = g - start[k];
                if (sh()->stopped[k]) continue;
                curfam() = (int)k;
                int64_t t = now_ms();
                sh()->slot[w].since_ms = t; sh()->slot[w].cur = (int64_t)g;
                try { f.run(i); } catch (Fail &x) {
                    // "index\tlength\n" + message
                    std::ostringstream o; o << g << "\t" << x.msg.size() << "\n" << x.msg; std::string s = o.str();
                    (void)!write(vfd[w], s.data(), s.size());
                }
                sh()->done[k]++; sh()->busy_ms[k] += now_ms() - t;
                sh()->slot[w].cur = -1;
                if (lseek(efd[w], 0, SEEK_CUR) > (1 << 20)) { (void)!ftruncate(efd[w], 0); lseek(efd[w], 0, SEEK_SET); }
            }
            fflush(nullptr);
            _exit(0);
        }
        pid[w] = p;
    };
    auto report = [&](uint64_t g, const std::string &msg) {
        size_t k = locate(g); const Family &f = reg().f[order[k]]; uint64_t i = g - start[k];
        if (nviol[k] >= maxviol) { capped = true; sh()->stopped[k] = 1; return; }
        if (msg == "TIMEOUT" && viol.size()) { capped = true; sh()->stopped[k] = 1; return; }  // one verdict is enough, do not spend minutes on each hang
        std::string again = fail_fast() ? msg : run_alone(f, i, replay_s(f));
        if (again == "KILLED") again = run_alone(f, i, replay_s(f));
        if (again == "KILLED") { errors.push_back("case " + f.name + ":" + std::to_string(i) + " was killed (out of memory?)"); return; }
        if (msg == "TIMEOUT" && again.empty()) return;  // slow machine, not a hang
        Violation v; v.family = f.name; v.idx = i; v.key = f.key(i);
        if (again.empty()) v.msg = msg + " [not reproduced when run alone: depends on earlier cases in the same process]";
        else v.msg = again == "TIMEOUT" ? "does not terminate within " + std::to_string((int)replay_s(f)) + " s when run alone" : again;
        viol.push_back(v); ++nviol[k];
        if (viol.size() >= 4 * maxviol || fail_fast()) { capped = true; stopall = true; sh()->next = total; }
    };
    int64_t tstart = now_ms();
    for (int w = 0; w < nw; ++w) spawn(w);
    int alive = nw;
    std::vector<bool> up(nw, true);
    while (alive > 0) {
        usleep(2000);
        if (viol.size() && !thorough() && now_ms() - tstart > 240000 && !stopall) { capped = stopall = true; sh()->next = total; }
        if (stopall) { for (int w = 0; w < nw; ++w) if (up[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); up[w] = false; --alive; } break; }
        for (int w = 0; w < nw; ++w) {
            if (!up[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            int64_t cur = sh()->slot[w].cur;
            bool ended = r == pid[w], hung = false;
            if (!ended && cur >= 0 && now_ms() - sh()->slot[w].since_ms > hang_s(reg().f[order[locate(cur)]]) * 1000) {
                kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); ended = hung = true;
            }
            if (!ended) continue;
            std::string v = slurp_fd(vfd[w]), e = slurp_fd(efd[w]); close(vfd[w]); close(efd[w]);
            size_t p = 0;
            while (p < v.size()) {
                size_t t = v.find('\t', p), n = v.find('\n', p); if (t == std::string::npos || n == std::string::npos) break;
                uint64_t g = strtoull(v.c_str() + p, nullptr, 10); size_t l = strtoull(v.c_str() + t + 1, nullptr, 10);
                if (!stopall) report(g, v.substr(n + 1, l));
                p = n + 1 + l;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !hung) { up[w] = false; --alive; continue; }
            cur = sh()->slot[w].cur;
            if (cur < 0) errors.push_back("a worker ended between cases: " + tail(e));
            else if (!stopall) {
                std::ostringstream o;
                if (hung) o << "TIMEOUT"; else { if (WIFSIGNALED(st)) o << "ended by signal " << WTERMSIG(st); else o << "exited with " << WEXITSTATUS(st); o << ": " << tail(e); }
                report((uint64_t)cur, o.str()); sh()->done[locate(cur)]++;
            }
            if (errors.size() > 20) { stopall = true; sh()->next = total; }
            if (stopall) { up[w] = false; --alive; }
            else spawn(w);
        }
    }
    uint64_t tc[NCNT] = {0};
    for (size_t k = 0; k < order.size(); ++k) {
        const Family &f = reg().f[order[k]];
        auto &c = sh()->cnt[k]; for (int t = 0; t < NCNT; ++t) tc[t] += c[t];
        std::ostringstream o;
        o << (famjson.empty() ? "" : ",") << "{\"name\":\"" << jesc(f.name) << "\",\"bound\":\"" << jesc(f.bound) << "\",\"cases\":" << f.n << ",\"completed\":" << sh()->done[k].load()
          << ",\"states\":" << c[STATES] << ",\"transitions\":" << c[TRANSITIONS] << ",\"traces\":" << c[TRACES] << ",\"nontrivial\":" << c[NONTRIVIAL] << ",\"skipped\":" << c[SKIPPED]
          << ",\"exhaustive\":" << (sh()->done[k] < f.n ? "false" : "true") << ",\"wall_s\":" << sh()->busy_ms[k] / 1000.0 / std::max(1, nw) << "}";
        famjson += o.str();
        for (uint64_t i : {(uint64_t)0, f.n / 2, f.n ? f.n - 1 : 0}) if (i < f.n && samples.size() < 60) samples.push_back(f.name + ": " + f.key(i));
        fprintf(stderr, "  %-28s %10llu cases %8.1f s of work%s\n", f.name.c_str(), (unsigned long long)f.n, sh()->busy_ms[k] / 1000.0, nviol[k] ? "  VIOLATED" : "");
    }
    (void)tstart;
    std::ostringstream o;
    o << "{\"families\":[" << famjson << "],\"cases\":" << total << ",\"states\":" << tc[STATES] << ",\"transitions\":" << tc[TRANSITIONS] << ",\"traces\":" << tc[TRACES]
      << ",\"nontrivial\":" << tc[NONTRIVIAL] << ",\"skipped\":" << tc[SKIPPED] << ",\"outcomes\":" << sh()->nsigs << ",\"violations\":[";
    for (size_t i = 0; i < viol.size(); ++i) o << (i ? "," : "") << "{\"family\":\"" << jesc(viol[i].family) << "\",\"idx\":" << viol[i].idx << ",\"key\":\"" << jesc(viol[i].key) << "\",\"msg\":\"" << jesc(viol[i].msg) << "\"}";
    o << "],\"errors\":[";
    for (size_t i = 0; i < errors.size(); ++i) o << (i ? "," : "") << "\"" << jesc(errors[i]) << "\"";
    o << "],\"capped\":" << (capped ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    o << "]}\n";
    FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!fo) { perror(out.c_str()); return 2; }
    fputs(o.str().c_str(), fo); if (fo != stdout) fclose(fo);
    return errors.empty() ? (viol.empty() ? 0 : 1) : 2;
}
}  // namespace mc
#define MC_MAIN int main(int argc, char **argv) { return mc::main_(argc, argv); }
#endif
