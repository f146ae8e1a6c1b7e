// The calls whose results must not depend on threads, shared by the two harnesses of C10
#ifndef VERIF_THREADS_H
#define VERIF_THREADS_H
#include "obj.h"
#ifdef _OPENMP
#include <omp.h>
#endif
struct Out { std::string value; std::shared_ptr<Obj> obj; };
struct Task {
    std::string name; int cost;   // 0: tiny, 1: small, 2: large
    std::function<std::shared_ptr<void>()> prepare;                 // anything to keep alive during the executions (moduli, a template object)
    std::function<Out(const std::shared_ptr<void> &)> run;          // one execution
    std::vector<Op> follow;                                         // queries that must still be answered like by a fresh object
    std::shared_ptr<Cfg> cfg;
};
struct Prep { std::unique_ptr<Mod> mod; Obj base; };
typedef std::vector<std::vector<int>> Terms;
inline std::vector<Task> object_tasks(const Cfg &c, int cost, const Terms &terms, bool pre) {
    std::vector<Task> r; std::vector<Op> ops;
    if (!c.hyp) {
        for (auto &o : alphabet(c)) if (o.name.compare(0, 10, "get_solve_") && o.name.compare(0, 13, "get_inclusion") && o.name.compare(0, 12, "get_ND_poly_")) ops.push_back(o);
    } else {
        for (auto &t : terms) {
            NTL::Vec<int64_t> N; N.SetLength(c.e.n); for (int i = 0; i < c.e.n; ++i) N[i] = t[i];
            ops.push_back(Op{"frob_matrix_J " + str(N), [=](Obj &o) { return str(o.H->frob_matrix_J(N)); }});
            if (c.nd) ops.push_back(Op{"frob_matrix_ND " + str(N), [=](Obj &o) { return str(o.HN->frob_matrix_ND(N)); }});
        }
        if (c.nd) for (int last = 0; last < 2; ++last) ops.push_back(Op{last ? "frob_ND of the last column, 2 terms" : "frob_ND of the first column, 2 terms", [=](Obj &o) { return str(o.HN->frob_ND(last ? o.J->coKernels_J_basis.length() - 1 : 0, 2)); }});
    }
    for (size_t k = 0; k < ops.size(); ++k) for (int p = 0; p <= (pre ? (int)ops.size() : 0); ++p) {
        if (p && p - 1 == (int)k) continue;
        Task t; t.cost = cost; t.cfg = std::make_shared<Cfg>(c); t.follow = {ops[k], ops[(k + 1) % ops.size()]};
        Op op = ops[k]; std::string pn = p ? ops[p - 1].name : ""; std::function<std::string(Obj &)> pf; if (p) pf = ops[p - 1].run;
        t.name = op.name + " on a " + show(c) + (p ? " after " + pn : "");
        Cfg cc = c;
        t.prepare = [cc, pf] { auto q = std::make_shared<Prep>(); q->mod.reset(new Mod(cc.e.p, cc.e.prec)); q->base = Obj(cc); if (pf) pf(q->base); return std::shared_ptr<void>(q); };
        t.run = [op](const std::shared_ptr<void> &v) { Out o; o.obj = std::make_shared<Obj>(((Prep *)v.get())->base.clone()); o.value = op.run(*o.obj); return o; };
        r.push_back(t);
    }
    return r;
}
// threads is what zeta_function is told
inline int &zeta_threads() { static int t = 1; return t; }
inline Task zeta_task(const Form &f, long p, int cost, bool better, int abs = 0, bool inc = true) {
    Task t; t.cost = cost; t.name = "zeta_function(" + show(f) + ", p=" + std::to_string(p) + (better ? "" : ", given model") + (abs ? ", mod p^" + std::to_string(abs) : "") + (inc ? "" : " only") + ")";
    t.prepare = [] { NTL::zz_pPush warm(7); return std::shared_ptr<void>(); };
    t.run = [=](const std::shared_ptr<void> &) { Out o; NTL::ZZX z; NTL::Mat<NTL::ZZ> F; NTL::SetSeed(NTL::to_ZZ(1)); zeta_function(z, F, toZZ(f), p, false, zeta_threads(), abs, inc, better); o.value = str(z) + str(F); return o; };
    return t;
}
// forms: nondegenerate diagonal ones with one more monomial, and for n = 2 a cubic without diagonal terms (general method only)
inline std::vector<Task> tasks() {
    bool th = mc::thorough(); std::vector<Task> r; auto put = [&](const std::vector<Task> &v) { r.insert(r.end(), v.begin(), v.end()); };
    Terms t1 = {{1}, {3}}, t2 = th ? Terms{{1, 1}, {3, 1}, {1, 3}, {0, 2}, {2, 0}} : Terms{{3, 1}, {0, 2}};
    Form q2 = fermat(2, 2); q2[{1, 1}] = 1; Form q3 = fermat(2, 3); q3[{2, 1}] = 1; Form q4 = diagonal(2, 4, {1, 2}); q4[{3, 1}] = 1;
    for (int big = 0; big < 2; ++big) for (int save = 0; save < 2; ++save) {
        int P = big ? 30 : 4;
        for (int hyp = 0; hyp < 2; ++hyp) for (int nd = 0; nd < 2; ++nd) {
            put(object_tasks(Cfg{Eq{1, 2, 5, P, 1, q2}, (bool)nd, (bool)hyp, (bool)save}, 0, t1, !save));
            put(object_tasks(Cfg{Eq{1, 3, 5, P, 0, q3}, (bool)nd, (bool)hyp, (bool)save}, 0, t1, th && !save));
            if (!save && !big) put(object_tasks(Cfg{Eq{1, 4, 7, P, 0, q4}, (bool)nd, (bool)hyp, false}, 1, t1, false));
        }
    }
    Form c3 = fermat(3, 3); c3[{1, 1, 1}] = 3; c3[{2, 1, 0}] = 1; Form g; g[{3, 0, 0}] = 1; g[{1, 0, 2}] = 1; g[{0, 0, 3}] = 1; g[{0, 2, 1}] = -1; Form c4 = fermat(3, 4); for (auto &f : diagplus(2, 4, {1})) if (f.size() > 3 && is_nd(f, 2, 4, 3) && is_nd(f, 2, 4, 5)) c4 = f;
    for (int big = 0; big < 2; ++big) for (int save = 0; save < 2; ++save) {
        int P = big ? 30 : 6; if (save && !th) continue;
        for (int hyp = 0; hyp < 2; ++hyp) { put(object_tasks(Cfg{Eq{2, 3, 5, P, 1, c3}, true, (bool)hyp, (bool)save}, 1, t2, false)); if (!big || th) put(object_tasks(Cfg{Eq{2, 3, 7, P, 0, g}, false, (bool)hyp, (bool)save}, 1, t2, false)); }
    }
    put(object_tasks(Cfg{Eq{2, 4, 3, 6, 0, c4}, true, true, true}, 2, {{2, 1}}, false));
    if (th) put(object_tasks(Cfg{Eq{2, 4, 3, 6, 0, c4}, true, true, false}, 2, {{2, 1}, {1, 2}}, false));
    r.push_back(zeta_task(c3, 5, 1, true)); r.push_back(zeta_task(g, 7, 1, true)); r.push_back(zeta_task(g, 7, 1, false)); r.push_back(zeta_task(g, 7, 1, false, 3, true)); r.push_back(zeta_task(c3, 11, 1, true, 2, false));
    if (th) { r.push_back(zeta_task(c4, 3, 2, true)); r.push_back(zeta_task(c4, 5, 2, true)); r.push_back(zeta_task(c3, 1048583, 2, true, 5, true)); }
    return r;
}
inline std::string first_difference(const std::string &a, const std::string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; size_t s = k > 40 ? k - 40 : 0; return "..." + a.substr(s, 120) + "... instead of ..." + b.substr(s, 120) + "..."; }
#endif
