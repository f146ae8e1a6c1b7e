// C07: results do not depend on what was computed before.  Every query sequence up to a depth, closure of the reachable
// object states under sub-alphabets, and interleavings of two objects, against answers of fresh objects in fresh processes.
#include "obj.h"
using namespace NTL; using namespace std;
struct Setup { Cfg c; vector<Op> ops; vector<string> want; };
typedef shared_ptr<Setup> SP;
// the answer of every query on a fresh object in a process that has done nothing else
static void references(const vector<SP> &S) {
    struct Job { pid_t pid; int fd; size_t s, o; }; vector<Job> run; vector<pair<size_t, size_t>> todo;
    for (size_t s = 0; s < S.size(); ++s) { S[s]->want.resize(S[s]->ops.size()); for (size_t o = 0; o < S[s]->ops.size(); ++o) todo.push_back({s, o}); }
    auto reap = [&](Job &j) { int st; waitpid(j.pid, &st, 0); S[j.s]->want[j.o] = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? mc::slurp_fd(j.fd, 1 << 26) : "the query ends the process on a fresh object"; close(j.fd); };
    for (auto &t : todo) {
        if (run.size() >= 16) { reap(run.front()); run.erase(run.begin()); }
        Job j; j.s = t.first; j.o = t.second; j.fd = mc::tmpfd(); fflush(nullptr); j.pid = fork();
        if (!j.pid) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); alarm(60); const Cfg &c = S[j.s]->c; Mod mod(c.e.p, c.e.prec); Obj o(c); string a = S[j.s]->ops[j.o].run(o); size_t k = 0; while (k < a.size()) { ssize_t w = write(j.fd, a.data() + k, a.size() - k); if (w <= 0) _exit(1); k += w; } _exit(0); }
        run.push_back(j);
    }
    for (auto &j : run) reap(j);
}
static string tailnames(const Setup &s, const vector<int> &h) { string r; for (int o : h) r += (r.empty() ? "" : ", ") + s.ops[o].name; return r; }
static void ask(const Setup &s, Obj &o, int op, const vector<int> &h) {
    string a = s.ops[op].run(o); mc::trans();
    MC_CHECK(a == s.want[op], s.ops[op].name << " after [" << tailnames(s, h) << "] gives " << a.substr(0, 300) << ", a fresh object gives " << s.want[op].substr(0, 300));
}
// every sequence of depth more queries
static void sequences(const Setup &s, Obj &o, vector<int> &h, int depth) {
    mc::state(); if (!depth) { mc::trace(); mc::nontrivial(); return; }
    for (size_t k = 0; k < s.ops.size(); ++k) { Obj c = o.clone(); ask(s, c, k, h); h.push_back(k); sequences(s, c, h, depth - 1); h.pop_back(); }
}
// all object states reachable with the given queries, however many are made
static void closure(const Setup &s, const vector<int> &alpha, size_t maxstates) {
    Mod mod(s.c.e.p, s.c.e.prec); std::set<uint64_t> seen; vector<pair<Obj, vector<int>>> todo; Obj o(s.c); seen.insert(mc::fnv(contents(o))); todo.push_back({o, {}}); mc::state();
    while (todo.size()) {
        pair<Obj, vector<int>> t = todo.back(); todo.pop_back();
        for (int k : alpha) { Obj c = t.first.clone(); ask(s, c, k, t.second); string x = contents(c); if (seen.insert(mc::fnv(x)).second) { mc::state(); mc::outcome(x); vector<int> h = t.second; h.push_back(k); todo.push_back({c, h}); if (seen.size() > maxstates) { mc::skipped(); return; } } }
    }
    mc::trace(); mc::nontrivial();
}
// two objects over different moduli or equations used in turns
static void interleave(const Setup &a, const Setup &b, const vector<int> &oa, const vector<int> &ob, int first, int depth, bool lateb) {
    const Setup *S[2] = {&a, &b}; const vector<int> *O[2] = {&oa, &ob}; int na = oa.size(), nb = ob.size();
    long tot = 1; for (int i = 1; i < depth; ++i) tot *= na + nb;
    for (long w = 0; w < tot; ++w) {
        unique_ptr<Obj> o[2]; auto make = [&](int i) { if (!o[i]) { Mod m(S[i]->c.e.p, S[i]->c.e.prec); o[i].reset(new Obj(S[i]->c)); } };
        if (!lateb) { make(0); make(1); }
        long x = w; vector<int> h[2]; int pick = first;
        for (int k = 0; k < depth; ++k) {
            if (k) { pick = x % (na + nb); x /= na + nb; } int who = pick >= na; int op = (*O[who])[who ? pick - na : pick];
            make(who); Mod m(S[who]->c.e.p, S[who]->c.e.prec); string r = S[who]->ops[op].run(*o[who]); mc::trans();
            MC_CHECK(r == S[who]->want[op], S[who]->ops[op].name << " on " << show(S[who]->c) << " after [" << tailnames(*S[who], h[who]) << "] and, on the other object, [" << tailnames(*S[1 - who], h[1 - who]) << "] gives " << r.substr(0, 300) << ", a fresh object gives " << S[who]->want[op].substr(0, 300));
            h[who].push_back(op);
        }
        mc::state(); mc::trace(); mc::nontrivial();
    }
}
// calls of the library's functions, which have no object to remember anything in
struct Call { string name; function<string()> run; string want; };
static vector<Call> calls() {
    vector<Call> r; auto add = [&](const string &n, function<string()> f) { r.push_back({n, f, ""}); };
    struct Z { Form f; long p; bool better; int abs; bool inc; }; Form e = fermat(3, 3); e[{1, 1, 1}] = 3; Form g; g[{3, 0, 0}] = 1; g[{1, 0, 2}] = 1; g[{0, 0, 3}] = 1; g[{0, 2, 1}] = -1; Form c = fermat(3, 4);
    for (const Z &z : vector<Z>{{e, 5, true, 0, true}, {e, 7, true, 0, true}, {g, 7, true, 0, true}, {g, 7, false, 0, true}, {g, 11, false, 0, true}, {g, 7, false, 3, true}, {g, 7, false, 2, false}, {e, 11, false, 4, true}, {c, 5, true, 0, true}})
        add("zeta_function(" + show(z.f) + ", p=" + to_string(z.p) + (z.better ? "" : ", given model") + ", mod p^" + to_string(z.abs) + (z.inc ? "" : " only") + ")", [=] { ZZX q; Mat<ZZ> F; SetSeed(to_ZZ(1)); zeta_function(q, F, toZZ(z.f), z.p, false, 1, z.abs, z.inc, z.better); return ::str(q) + (z.better && z.f == g ? string() : ::str(F)); }); // the search for a better model draws from a generator that NTL itself advances when first used
    for (int q : {5, 7}) add("isND p=" + to_string(q), [=] { Mod m(q, 2); return string(isND(tozz_p(q == 5 ? fermat(3, 3) : diagonal(3, 4, {1, 2, 3}))) ? "yes" : "no"); });
    for (int q : {5, 7}) add("find_change_of_variables p=" + to_string(q), [=] { Mod m(q, 2); SetSeed(to_ZZ(3)); Form h; h[{3, 0, 0}] = 1; h[{1, 0, 2}] = 1; h[{0, 0, 3}] = 1; h[{0, 2, 1}] = -1; return ::str(find_change_of_variables(tozz_p(h), 50)); });
    for (int q : {5, 7}) add("factorial_p_adic p=" + to_string(q), [=] { Mod m(q, 4); string r; for (int k = 0; k < 60; k += 7) { ZZ_p x; int64_t v = factorial_p_adic(x, k, q); r += ::str(x) + " " + to_string(v) + ";"; v = factorial_p_adic(x, k, q, 6); r += ::str(x) + " " + to_string(v) + ";"; } return r; });
    add("binomial", [] { string r; for (int k = 0; k < 30; k += 3) r += to_string(binomial(30, k)) + " " + ::str(binomial_ZZ(90, 3 * k)) + ";"; return r; });
    for (int q : {2, 4}) add("tuple_list_generator n=" + to_string(q), [=] { Vec<Vec<int64_t>> t; tuple_list_generator(t, 5, q); return ::str(t); });
    for (int q : {5, 7}) add("default_args p=" + to_string(q), [=] { int64_t prec; Vec<int64_t> N, cp; default_args(prec, N, cp, q, q == 5 ? 3 : 2, q == 5 ? 4 : 3); return to_string(prec) + ::str(N) + ::str(cp); });
    add("charpoly", [] { Mat<ZZ> M; M.SetDims(3, 3); for (int i = 0; i < 9; ++i) M[i / 3][i % 3] = i * i - 3; return ::str(charpoly(M)); });
    for (int q : {2, 3}) add("random_SL_matrix n=" + to_string(q), [=] { Mod m(7, 2); SetSeed(to_ZZ(9)); return ::str(random_SL_matrix(q)); });
    return r;
}
// the k-th cubic curve over F_p with terms beside the diagonal that is nondegenerate
static Form ndform(int64_t p, int k) {
    for (int64_t a = 1; a < p; ++a) for (int64_t b = k > 1; b < p; ++b) for (int64_t c = 0; c < p; ++c) { Form g = fermat(3, 3); g[{1, 1, 1}] = a; if (b) g[{2, 1, 0}] = b; if (c) g[{0, 1, 2}] = c; if (is_nd(g, 2, 3, p) && !--k) return g; }
    if (p == 2) return Form(); fprintf(stderr, "no nondegenerate cubic over F_%ld\n", (long)p); exit(3);
}
void mc::setup() {
    bool th = mc::thorough(); vector<SP> all; vector<SP> &all_ = all;
    auto make = [&](const Cfg &c) { SP s(new Setup); s->c = c; s->ops = alphabet(c); all.push_back(s); return s; };
    Form cub = fermat(3, 3); cub[{1, 1, 1}] = 1; Form cub2 = ndform(5, 2), cub7 = ndform(7, 1), cub72 = ndform(7, 2); Form miss; miss[{2, 1, 0}] = 1; miss[{0, 2, 1}] = 1; miss[{1, 0, 2}] = 1; miss[{1, 1, 1}] = 1; Form bin = fermat(2, 3); bin[{2, 1}] = 1; Form quad = fermat(2, 2); quad[{1, 1}] = 1; quad[{0, 2}] = 2; Form quar = fermat(3, 4); quar[{2, 1, 1}] = 1;
    Form bq = fermat(2, 4); bq[{1, 3}] = 1;
    vector<SP> seq, clo;
    vector<Eq> es = {{2, 3, 5, 2, 1, cub}, {1, 3, 5, 2, 1, bin}, {1, 2, 3, 3, 0, quad}, {1, 4, 3, 20, 1, bq}}; if (th) { es.push_back({2, 3, 7, 24, 2, cub72}); { Form g = ndform(2, 1); if (g.size()) es.push_back({2, 3, 2, 3, 1, g}); } es.push_back({2, 4, 3, 2, 0, quar}); }
    for (auto &e : es) for (int save = 0; save < 2; ++save) for (int nd = 0; nd < 2; ++nd) for (int hyp = 0; hyp < 2; ++hyp) {
        if (nd && !is_nd(e.f, e.n, e.d, e.p)) continue; if (!is_smooth(e.f, e.n, e.d, e.p)) continue;
        SP s = make(Cfg{e, (bool)nd, (bool)hyp, (bool)save}); seq.push_back(s); clo.push_back(s);
    }
    { Eq e{2, 3, 5, 2, 0, miss}; if (is_smooth(e.f, 2, 3, 5)) for (int save = 0; save < 2; ++save) for (int hyp = 0; hyp < 2; ++hyp) { SP s = make(Cfg{e, false, (bool)hyp, (bool)save}); seq.push_back(s); clo.push_back(s); } }
    // surfaces: three pole orders, with the queries that need no reduction matrix
    vector<SP> surf; { Eq e{3, 4, 7, 2, 1, Form()}; for (int64_t a = 1; a < 7 && e.f.empty(); ++a) { Form g = diagonal(4, 4, {1, 2, 1, 3}); g[{1, 1, 1, 1}] = a; if (is_nd(g, 3, 4, 7)) e.f = g; } if (e.f.size()) for (int nd = 0; nd < 2; ++nd) { if (nd && !is_nd(e.f, 3, 4, 7)) continue; SP s(new Setup); s->c = Cfg{e, (bool)nd, false, true};
        for (auto &o : alphabet(s->c)) { bool cheap = true; for (const char *no : {"get_reduction", "reduce_vector", "compute_everything", "get_ND_poly"}) cheap = cheap && o.name.compare(0, strlen(no), no); if (cheap && !th) cheap = o.name.find("monomial_to_basis_J") || o.name.find("[1 1 1 1]") != string::npos; if (cheap) s->ops.push_back(o); }
        Cfg gen = s->c; gen.nd = false; if (nd) for (auto &o : alphabet(gen)) if (!o.name.compare(0, 28, "get_final_reduction_matrix_J") && o.name.back() != '3') s->ops.push_back(o); if (nd && !th) s->ops.erase(std::remove_if(s->ops.begin(), s->ops.end(), [](const Op &o) { return !o.name.find("get_solve") || !o.name.find("get_inclusion_matrix_J") || !o.name.find("monomial_to_basis_J"); }), s->ops.end()); surf.push_back(s); all_.push_back(s); } }
    // pairs for interleavings: same p other equation, same equation other precision, other p, other method
    vector<pair<SP, SP>> prs; auto cf = [&](Eq e, bool nd, bool hyp, bool save) { return make(Cfg{e, nd, hyp, save}); };
    cub = ndform(5, 1);
    Eq A{2, 3, 5, 2, 1, cub}, B{2, 3, 5, 2, 1, cub2}, C{2, 3, 5, 4, 1, cub}, D{2, 3, 7, 2, 1, cub7}, E{1, 3, 5, 2, 1, bin};
    for (bool nd : {false, true}) for (bool hyp : {false, true}) { prs.push_back({cf(A, nd, hyp, true), cf(B, nd, hyp, true)}); prs.push_back({cf(A, nd, hyp, false), cf(C, nd, hyp, false)}); if (th || hyp) prs.push_back({cf(A, nd, hyp, false), cf(D, nd, hyp, true)}); if (th || !hyp) prs.push_back({cf(A, nd, hyp, true), cf(E, nd, hyp, true)}); }
    prs.push_back({cf(A, false, true, true), cf(A, true, true, true)});
    references(all);
    {
        auto C = make_shared<vector<Call>>(calls());
        for (auto &c : *C) { int fd = mc::tmpfd(); fflush(nullptr); pid_t pid = fork(); if (!pid) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); alarm(60); string a = c.run(); if (write(fd, a.data(), a.size()) != (ssize_t)a.size()) _exit(1); _exit(0); } int st; waitpid(pid, &st, 0); c.want = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? mc::slurp_fd(fd, 1 << 26) : "the call ends the process"; close(fd); }
        int k = C->size(), depth = 3, k3 = th ? k : 8;
        mc::family("calls", "every sequence of " + to_string(depth) + " of " + to_string(k) + " calls of the library's functions in one process" + (th ? "" : ", the last of them one of 8"), k * k, [=](uint64_t i) { return (*C)[i / k].name + ", " + (*C)[i % k].name + ", then anything"; },
            [=](uint64_t i) { long tot = 1; for (int x = 2; x < depth; ++x) tot *= k3; for (long w = 0; w < tot; ++w) { string h; long x = w; for (int s = 0; s < depth; ++s) { int pick = s == 0 ? i / k : s == 1 ? i % k : (x % k3) * (k - 1) / (k3 - 1); if (s > 1) x /= k3; string a = (*C)[pick].run(); mc::trans(); MC_CHECK(a == (*C)[pick].want, (*C)[pick].name << " after [" << h << "] gives " << a.substr(0, 300) << ", in a fresh process " << (*C)[pick].want.substr(0, 300)); h += (*C)[pick].name + "; "; } mc::state(); mc::trace(); mc::nontrivial(); } }, 120);
    }
    for (auto &s : seq) {
        // depth by cost: tiny objects go deeper
        int A_ = s->ops.size(); int depth = s->c.e.n == 1 ? 3 : s->c.hyp ? 3 : 2; if (th) ++depth; bool two = s->c.e.d == 4 && s->c.e.n == 2; if (two) depth = 2;
        mc::family("sequences-" + to_string(&s - &seq[0]), "every sequence of " + to_string(depth) + " queries from " + to_string(A_) + " on a " + show(s->c), A_, [=](uint64_t i) { return show(s->c) + ", starting with " + s->ops[i].name; },
            [=](uint64_t i) { Mod mod(s->c.e.p, s->c.e.prec); Obj o(s->c); vector<int> h; ask(*s, o, i, h); h.push_back(i); mc::outcome(contents(o)); sequences(*s, o, h, depth - 1); }, 120);
    }
    for (auto &s : surf) {
        int A_ = s->ops.size(), depth = th ? 4 : 3;
        mc::family("surface-" + to_string(&s - &surf[0]), "every sequence of " + to_string(depth) + " queries from " + to_string(A_) + " on a " + show(s->c), A_, [=](uint64_t i) { return show(s->c) + ", starting with " + s->ops[i].name; },
            [=](uint64_t i) { Mod mod(s->c.e.p, s->c.e.prec); Obj o(s->c); vector<int> h; ask(*s, o, i, h); h.push_back(i); mc::outcome(contents(o)); sequences(*s, o, h, depth - 1); }, 240);
    }
    for (auto &s : clo) {
        if (s->c.e.n == 2 && s->c.e.d == 4) continue;
        // windows of the alphabet: neighbours share caches, and every far pair is covered by the stride
        int A_ = s->ops.size(), w = s->c.e.n == 1 ? (th ? 10 : 7) : (th ? 8 : 6); auto W = make_shared<vector<vector<int>>>();
        for (int i = 0; i < A_; ++i) for (int stride : {1, 3}) { std::set<int> q; for (int k = 0; k < w; ++k) q.insert((i + k * stride) % A_); W->push_back(vector<int>(q.begin(), q.end())); }
        mc::family("closure-" + to_string(&s - &clo[0]), "all object states reachable by any number of queries from sub-alphabets of " + to_string(w) + " queries on a " + show(s->c), W->size(), [=](uint64_t i) { string r = show(s->c) + ", queries"; for (int k : (*W)[i]) r += " [" + s->ops[k].name + "]"; return r; },
            [=](uint64_t i) { closure(*s, (*W)[i], 20000); }, 120);
    }
    for (auto &pr : prs) {
        auto sel = [&](const SP &s) { vector<int> r; int k = s->ops.size(), want = 4; for (int i = 0; i < want; ++i) r.push_back(i * (k - 1) / (want - 1)); return r; }; vector<int> oa = sel(pr.first), ob = sel(pr.second); int depth = th ? 4 : 3; SP a = pr.first, b = pr.second;
        mc::family("interleaved-" + to_string(&pr - &prs[0]), "every sequence of " + to_string(depth) + " queries alternating freely between " + show(a->c) + " and " + show(b->c), (oa.size() + ob.size()) * 2, [=](uint64_t i) { return "first query " + to_string(i / 2) + (i % 2 ? ", objects built when first used" : ""); }, [=](uint64_t i) { interleave(*a, *b, oa, ob, i / 2, depth, i % 2); }, 120);
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
