// C22: a call depends on its arguments alone and changes nothing but its results.  Every call in every environment: moduli
// installed by the caller, previous contents of output variables, contents of fresh and freed memory, verbosity.
#include "calls.h"
// what the call gives in a process that has done nothing else, in the plain environment
static string alone(const Call &c) {
    int fd = mc::tmpfd(); fflush(nullptr); pid_t pid = fork();
    if (!pid) { alarm(120); string a; try { a = in_env(c, Env{0, 0, 0, 0, 0, 1}); } catch (mc::Fail &f) { a = "fails: " + f.msg; } size_t k = 0; while (k < a.size()) { ssize_t w = write(fd, a.data() + k, a.size() - k); if (w <= 0) _exit(1); k += w; } _exit(0); }
    int st; waitpid(pid, &st, 0); string r = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? mc::slurp_fd(fd, 1 << 27) : "the call ends the process"; close(fd); return r;
}
static string differ(const string &a, const string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t j = i > 60 ? i - 60 : 0; return "... " + a.substr(j, 160) + " instead of ... " + b.substr(j, 160); }
void mc::setup() {
    auto env_family = [&](const string &nm, const string &bound, vector<Call> cs, double timeout) {
        struct Job { size_t c; Env e; }; auto C = make_shared<vector<Call>>(cs); auto J = make_shared<vector<Job>>();
        for (auto &c : *C) c.want = alone(c);
        for (size_t i = 0; i < C->size(); ++i) for (int a = 0; a < ((*C)[i].p ? 1 : 4); ++a) for (int b = 0; b < ((*C)[i].p ? 1 : 4); ++b) for (int d = 0; d < ((*C)[i].outputs ? 4 : 1); ++d) for (int f = 0; f < (heap::controlled ? 4 : 1); ++f) for (int v = 0; v < ((*C)[i].talks ? 2 : 1); ++v) J->push_back({i, Env{a, b, d, f, v, 1}});
        mc::family(nm, bound, J->size(), [=](uint64_t i) { return (*C)[(*J)[i].c].name + " with " + show((*J)[i].e); },
            [=](uint64_t i) { const Call &c = (*C)[(*J)[i].c]; string a = in_env(c, (*J)[i].e); mc::state(); mc::trans(); MC_CHECK(a == c.want, c.name << " with " << show((*J)[i].e) << " gives " << differ(a, c.want)); mc::trace(); mc::nontrivial(); mc::outcome(a); }, timeout);
    };
    env_family("entry-points", "every overload of zeta_function on a list of inputs x every pair of the caller's moduli, previous contents of the outputs, contents of memory, verbosity", entry_points(), 120);
    env_family("helpers", "every library function without object x every pair of the caller's moduli (where it needs none itself), previous contents of the outputs, contents of memory", helpers(), 60);
    env_family("objects", "construction and every kind of query of an object x previous contents of the outputs, contents of memory, verbosity", lives(), 240);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
