// C23: objects can be copied, assigned and destroyed in any order, several live side by side, and nothing leaks: every
// sequence of lifecycle operations up to a depth, and every call repeated until its memory is stationary.
#include "calls.h"
#include "saved.h"
// the four classes under one roof; each holder owns one library object by value
struct Any { virtual ~Any() {} virtual Any *copy() const = 0; virtual void assign(const Any &) = 0; virtual Obj view() = 0; };
template <class T> struct Holder : Any {
    T x; Holder() {} explicit Holder(const T &y) : x(y) {} Holder(const Cfg &c, const FZZp &f) : x(c.e.p, c.e.prec, f, false) {}
    Any *copy() const { return new Holder(x); } void assign(const Any &o) { x = static_cast<const Holder &>(o).x; }
    Obj view() { return look(x); }
    // the queries of obj.h go through shared pointers; these do not own
    static Obj look(de_Rham_local &d) { Obj o; o.J = shared_ptr<de_Rham_local>(&d, [](void *) {}); return o; }
    static Obj look(de_Rham_non_degenerate_local &d) { Obj o; o.N = shared_ptr<de_Rham_non_degenerate_local>(&d, [](void *) {}); o.J = o.N; return o; }
    static Obj look(hypersurface &h) { Obj o; o.H = shared_ptr<hypersurface>(&h, [](void *) {}); o.J = h.dR; return o; }
    static Obj look(hypersurface_non_degenerate &h) { Obj o; o.HN = shared_ptr<hypersurface_non_degenerate>(&h, [](void *) {}); o.H = o.HN; o.N = h.dR_ND; o.J = o.N; return o; }
};
static Any *build(const Cfg &c) { FZZp f = over(lifted(c.e)); if (c.hyp) return c.nd ? (Any *)new Holder<hypersurface_non_degenerate>(c, f) : new Holder<hypersurface>(c, f); return c.nd ? (Any *)new Holder<de_Rham_non_degenerate_local>(c, f) : new Holder<de_Rham_local>(c, f); }
static Any *empty(const Cfg &c) { if (c.hyp) return c.nd ? (Any *)new Holder<hypersurface_non_degenerate> : new Holder<hypersurface>; return c.nd ? (Any *)new Holder<de_Rham_non_degenerate_local> : new Holder<de_Rham_local>; }
struct Setup { Cfg c[2]; vector<Op> q[2]; vector<string> want[2]; };
typedef shared_ptr<Setup> SP;
static string ask(const Setup &s, int which, Op &o, Any &a) { Mod m(s.c[which].e.p, s.c[which].e.prec); Obj v = a.view(); return o.run(v); }
// the world: up to three holders, each with the equation it was built from (-1: default constructed, -2: no holder)
struct World { unique_ptr<Any> h[3]; int is[3] = {-2, -2, -2}; };
struct Act { int kind, i, j; }; // 0 build equation j in i, 1 copy i to j, 2 assign i to j, 3 destroy i, 4 ask query j of i, 5 default construct i
static vector<Act> enabled(const Setup &s, const World &w, int slots) {
    vector<Act> r; int fresh = -1; for (int i = 0; i < slots && fresh < 0; ++i) if (w.is[i] == -2) fresh = i;
    for (int i = 0; i < slots; ++i) {
        if (i == fresh) { for (int e = 0; e < 2; ++e) r.push_back({0, i, e}); r.push_back({5, i, 0}); }   // the free slots are alike
        if (w.is[i] == -2) continue;
        r.push_back({3, i, 0}); if (w.is[i] < 0) continue;
        for (size_t k = 0; k < s.q[w.is[i]].size(); ++k) r.push_back({4, i, (int)k});
        if (fresh >= 0) r.push_back({1, i, fresh});
        for (int j = 0; j < slots; ++j) if (w.is[j] != -2) r.push_back({2, i, j});                        // onto itself too
    }
    return r;
}
static string show(const Setup &s, const Act &a) { string i = string(1, 'a' + a.i), j = string(1, 'a' + a.j); switch (a.kind) { case 0: return "build " + i + " from equation " + to_string(a.j); case 1: return "copy " + i + " to " + j; case 2: return j + " = " + i; case 3: return "destroy " + i; case 4: return "query " + to_string(a.j) + " of " + i; default: return "default construct " + i; } }
static string show(const Setup &s, const vector<Act> &h) { string r; for (auto &a : h) r += (r.empty() ? "" : ", ") + show(s, a); return r; }
static void perform(const Setup &s, World &w, const Act &a, const vector<Act> &h) {
    switch (a.kind) {
        case 0: { Mod m(s.c[a.j].e.p, s.c[a.j].e.prec); w.h[a.i].reset(build(s.c[a.j])); w.is[a.i] = a.j; break; }
        case 1: w.h[a.j].reset(w.h[a.i]->copy()); w.is[a.j] = w.is[a.i]; break;
        case 2: w.h[a.j]->assign(*w.h[a.i]); w.is[a.j] = w.is[a.i]; break;
        case 3: w.h[a.i].reset(); w.is[a.i] = -2; break;
        case 4: { Op o = s.q[w.is[a.i]][a.j]; string r = ask(s, w.is[a.i], o, *w.h[a.i]); MC_CHECK(r == s.want[w.is[a.i]][a.j], "after [" << show(s, h) << "] " << o.name << " of " << char('a' + a.i) << " gives " << r.substr(0, 300) << ", a fresh object gives " << s.want[w.is[a.i]][a.j].substr(0, 300)); break; }
        case 5: w.h[a.i].reset(empty(s.c[0])); w.is[a.i] = -1; break;
    }
    mc::trans();
}
// every holder that is still there answers every query
static void finish(const Setup &s, World &w, const vector<Act> &h) {
    for (int i = 0; i < 3; ++i) if (w.is[i] >= 0) for (size_t k = 0; k < s.q[w.is[i]].size(); ++k) perform(s, w, Act{4, i, (int)k}, h);
}
static void replay(const Setup &s, World &w, const vector<Act> &h) { vector<Act> p; for (auto &a : h) { perform(s, w, a, p); p.push_back(a); } }
static void explore(const Setup &s, vector<Act> &h, int depth, int slots) {
    { World w; replay(s, w, h); finish(s, w, h); string x; for (int i = 0; i < 3; ++i) x += to_string(w.is[i]); mc::state(); if (!depth) { mc::trace(); mc::nontrivial(); return; } }
    World w; for (auto &a : h) { // only the bookkeeping
        if (a.kind == 0) w.is[a.i] = a.j; if (a.kind == 1 || a.kind == 2) w.is[a.j] = w.is[a.i]; if (a.kind == 3) w.is[a.i] = -2; if (a.kind == 5) w.is[a.i] = -1; }
    for (auto &a : enabled(s, w, slots)) { if (a.kind == 4 && h.size() && h.back().kind == 4) continue; // queries in a row are C07's
        h.push_back(a); explore(s, h, depth - 1, slots); h.pop_back(); }
}
// big integers that FLINT has ready for reuse in this thread: one that is never cleared is missing here
extern "C" { extern __thread ulong mpz_free_num; }
static int open_files() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// repeats a call until its memory is stationary; every repetition taking more is a leak
static void stationary(const string &what, const function<void()> &f, int warm = 3, int rounds = 5) {
    long grow = 0, taken = 0; vector<long> b, z; int f0 = 0; for (int k = 0; k < warm + rounds; ++k) { f(); if (k == warm - 1) { f0 = open_files(); } if (k >= warm - 1) { b.push_back(heap::blocks.load()); z.push_back((long)mpz_free_num); } mc::trans(); }
    for (size_t k = 1; k < b.size(); ++k) grow += b[k] > b[k - 1], taken += z[k] < z[k - 1];
    MC_CHECK(grow < rounds, what << " takes more memory each time it is repeated: blocks in use " << b.front() << " after " << warm << " calls, " << b.back() << " after " << warm + rounds);
    MC_CHECK(taken < rounds, what << " takes more multiprecision integers each time it is repeated: " << z.front() << " ready for reuse after " << warm << " calls, " << z.back() << " after " << warm + rounds);
    int f1 = open_files(); MC_CHECK(f1 == f0, what << " leaves files open: " << f0 << " after " << warm << " calls, " << f1 << " after " << warm + rounds);
}
void mc::setup() {
    bool th = mc::thorough(), leaks = heap::controlled;
    Form bin = fermat(2, 3); bin[{2, 1}] = 1; Form quad = fermat(2, 2); quad[{1, 1}] = 1; quad[{0, 2}] = 2; Form cub = fermat(3, 3); cub[{1, 1, 1}] = 1; Form bin2 = fermat(2, 3); bin2[{1, 2}] = 2;
    vector<SP> S; auto pair_ = [&](const Eq &a, const Eq &b) {
        for (int nd = 0; nd < 2; ++nd) for (int hyp = 0; hyp < 2; ++hyp) {
            SP s(new Setup); bool ok = true; const Eq *E[2] = {&a, &b};
            for (int k = 0; k < 2; ++k) { const Eq &e = *E[k]; ok = ok && (nd ? is_nd(e.f, e.n, e.d, e.p) : is_smooth(e.f, e.n, e.d, e.p)); if (!ok) break; s->c[k] = Cfg{e, (bool)nd, (bool)hyp, true}; vector<Op> all = alphabet(s->c[k]); vector<string> pick = hyp ? vector<string>{nd ? "frob_ND " : "frob_J ", "frob_matrix_J"} : vector<string>{nd ? "monomial_to_basis_ND" : "get_reduction_matrix_J ", nd ? "get_reduction_matrix_ND_ZZ" : "monomial_to_basis_J"}; for (auto &p : pick) for (auto &o : all) if (!o.name.compare(0, p.size(), p)) { s->q[k].push_back(o); break; } }
            if (ok) S.push_back(s);
        } };
    pair_({1, 3, 5, 3, 1, bin}, {1, 2, 3, 5, 0, quad}); pair_({1, 3, 5, 3, 1, bin}, {1, 3, 5, 3, 0, bin2}); pair_({1, 3, 5, 2, 1, bin}, {1, 3, 5, 31, 1, bin}); if (th) pair_({2, 3, 5, 2, 1, cub}, {1, 3, 5, 3, 1, bin});
    for (auto &s : S) for (int k = 0; k < 2; ++k) for (auto &o : s->q[k]) {
        int fd = mc::tmpfd(); fflush(nullptr); pid_t pid = fork(); if (!pid) { alarm(60); Mod m(s->c[k].e.p, s->c[k].e.prec); Obj x(s->c[k]); string a = o.run(x); if (write(fd, a.data(), a.size()) != (ssize_t)a.size()) _exit(1); _exit(0); }
        int st; waitpid(pid, &st, 0); s->want[k].push_back(WIFEXITED(st) && WEXITSTATUS(st) == 0 ? mc::slurp_fd(fd, 1 << 26) : "the query ends the process on a fresh object"); close(fd);
    }
    for (auto &s : S) {
        int slots = 3, depth = th ? 6 : leaks ? 5 : 4; if (s->c[0].e.n == 2) depth = 4;
        // a case is a pair of first operations
        auto F = make_shared<vector<vector<Act>>>(); { World w; for (auto &a : enabled(*s, w, slots)) { World v; v.is[a.i] = a.kind == 0 ? a.j : -1; for (auto &b : enabled(*s, v, slots)) F->push_back({a, b}); } }
        mc::family("lives-" + to_string(&s - &S[0]), "every sequence of " + to_string(depth) + " operations (build one of two equations, default construct, copy, assign, destroy, query) on three variables of one class: " + show(s->c[0]) + " and " + show(s->c[1]), F->size(), [=](uint64_t i) { return "starting with " + show(*s, (*F)[i]); },
            [=](uint64_t i) { vector<Act> h = (*F)[i]; explore(*s, h, depth - 2, slots); mc::outcome(show(*s, h) + ::show(s->c[0])); }, 300);
    }
    // copies do not share what they promise to own: queries on a copy of a reduction object leave the original's contents alone
    for (auto &s : S) if (!s->c[0].hyp) {
        vector<Op> A = alphabet(s->c[0]); auto P = make_shared<vector<Op>>(A);
        mc::family("copies-" + to_string(&s - &S[0]), "every query on a copy, then every query on the original, and the other way round: " + show(s->c[0]), A.size(), [=](uint64_t i) { return (*P)[i].name + " on one of them"; },
            [=](uint64_t i) { Mod m(s->c[0].e.p, s->c[0].e.prec); for (int who = 0; who < 2; ++who) for (size_t k = 0; k < P->size(); ++k) {
                unique_ptr<Any> a(build(s->c[0])); unique_ptr<Any> b(a->copy()); Obj va = a->view(), vb = b->view(); string before = contents(who ? vb : va); (*P)[i].run(who ? va : vb); mc::trans();
                MC_CHECK(contents(who ? vb : va) == before, (*P)[i].name << " on " << (who ? "the original" : "a copy") << " changes the other one"); string r = (*P)[k].run(who ? vb : va); a.reset(); Obj o2(s->c[0]); MC_CHECK(r == (*P)[k].run(o2), (*P)[k].name << " gives another answer after " << (*P)[i].name << " on a copy"); mc::state(); mc::trace(); mc::nontrivial(); } }, 120);
    }
    if (!leaks) return;
    for (int which = 0; which < 3; ++which) {
        vector<Call> cs = which == 0 ? entry_points() : which == 1 ? helpers() : lives(); auto C = make_shared<vector<Call>>(cs);
        mc::family(which == 0 ? "repeat-entry-points" : which == 1 ? "repeat-helpers" : "repeat-objects", "every listed call repeated until its memory and open files are stationary, with fresh and with used output variables, with one thread and with two", cs.size() * 4, [=](uint64_t i) { return (*C)[i / 4].name + (i % 2 ? ", used output variables" : "") + (i / 2 % 2 ? ", two threads" : ""); },
            [=](uint64_t i) { const Call &c = (*C)[i / 4]; int thr = 1 + i / 2 % 2; if (thr > 1 && which == 1) return; Env e{1, 1, (int)(i % 2), 0, 0, thr}; stationary(c.name + (thr > 1 ? " with two threads" : ""), [&] { in_env(c, e); }, 3, thr > 1 ? 9 : 5); mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(c.name); }, 240);
    }
    { // saving, loading and failing to save
        auto K = make_shared<vector<Cfg>>(); for (auto &e : vector<Eq>{{1, 3, 5, 3, 1, bin}, {1, 2, 3, 5, 0, quad}, {2, 3, 5, 2, 1, cub}}) for (int nd = 0; nd < 2; ++nd) for (int hyp = 0; hyp < 2; ++hyp) if (!nd || is_nd(e.f, e.n, e.d, e.p)) K->push_back(Cfg{e, (bool)nd, (bool)hyp, true});
        const char *names[] = {"f", "a-file-with-a-long-name", "no/such/directory", "blocked"};
        mc::family("repeat-saves", "saving and loading, and saves that fail, repeated until memory and open files are stationary", K->size() * 4, [=](uint64_t i) { return show((*K)[i / 4]) + " to " + names[i % 4]; },
            [=](uint64_t i) { const Cfg &c = (*K)[i / 4]; Mod m(c.e.p, c.e.prec); Dir d; if (i % 4 == 3 && mkdir("blocked", 0700)) exit(3); bool good = i % 4 < 2; Sink sink; Obj o(c); stationary("saving " + show(c) + " to " + names[i % 4], [&] { bool ok = save(c, o, names[i % 4]); MC_CHECK(ok == good, "save reports " << ok); if (good) { Obj l = load(c, names[i % 4]); MC_CHECK(core(l) == core(o), "another object is loaded"); } }); mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(show(c)); }, 60);
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
