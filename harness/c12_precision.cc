// C12: requested precisions and the built-in precision table deliver what they promise
#include "frob.h"
#include "zeta_oracle.h"
using namespace NTL; using namespace std;
struct Out { ZZX z; Mat<ZZ> F; };
struct Rq { int a; bool inc, better; };
typedef map<Mono, ZZ> BForm;
static string show(const Rq &r) { return "request a=" + to_string(r.a) + (r.inc ? ", raising the precision" : ", not raising the precision") + (r.better ? ", searching for a model" : ""); }
// the first modulus installed in a process advances NTL's generator, which the search for a model draws from
static void reseed() { static bool warm = false; if (!warm) { zz_pPush push(7); warm = true; } SetSeed(to_ZZ(1)); }
static Out ask(const BForm &f, long p, const Rq &r, int overload = 0) {
    Out o; reseed(); FZZ m; vector<vector<int64_t>> ms; vector<ZZ> cz; vector<int64_t> cl; ostringstream k, v;
    for (auto &t : f) { m[vec(t.first)] = t.second; ms.push_back(vector<int64_t>(t.first.begin(), t.first.end())); cz.push_back(t.second); cl.push_back(to_long(t.second)); k << vec(t.first); v << " " << t.second; }
    if (overload == 0) zeta_function(o.z, o.F, m, p, false, 1, r.a, r.inc, r.better);
    if (overload == 1) zeta_function(o.z, o.F, ms, cz, p, false, 1, r.a, r.inc, r.better);
    if (overload == 2) zeta_function(o.z, o.F, ms, cl, p, false, 1, r.a, r.inc, r.better);
    if (overload == 3) { string s = to_string(p) + "\n[" + k.str() + "]\n[" + v.str() + "]\n"; zeta_function(o.z, o.F, s.c_str(), false, 1, r.a, r.inc, r.better); }
    return o;
}
static void table(int n, int d, long p, int64_t &prec, Vec<int64_t> &N, Vec<int64_t> &cp) { default_args(prec, N, cp, p, n, d); }
// the documented domain: p >= 2 n + the largest relative precision
static bool in_domain(int n, int d, long p, const Rq &r) {
    if (r.a <= 0) return true; int64_t prec; Vec<int64_t> N, cp; table(n, d, p, prec, N, cp); long mx = 0;
    for (int i = 0; i < n; ++i) { long q = r.a - (n - 1) + i; mx = max(mx, r.inc ? max<long>(N[i] + i + 1 - n, q) : max(0L, q)); }
    return p >= 2 * n + mx;
}
static bool same(const Mat<ZZ> &A, const Mat<ZZ> &B, const ZZ &q) { if (A.NumRows() != B.NumRows() || A.NumCols() != B.NumCols()) return false; for (long i = 0; i < A.NumRows(); ++i) for (long j = 0; j < A.NumCols(); ++j) if ((A[i][j] - B[i][j]) % q != 0) return false; return true; }
// the same matrix from the classes, with more terms and digits than the request can need
static Mat<ZZ> generous(const BForm &f, int n, int d, long p, int a, bool nd) {
    int R = a + 3, N = R + n, prec = 0;
    for (int i = 0; i < n; ++i) prec = max<int>(prec, R + enough(n, p, i + 1, N) + n);
    Mod mod(p, prec); FZZp g; for (auto &t : f) { ZZ_p c = ::to_ZZ_p(t.second); if (!IsZero(c)) g[vec(t.first)] = c; }
    Vec<int64_t> Nv; Nv.SetLength(n); for (int i = 0; i < n; ++i) Nv[i] = N;
    Mat<ZZ_p> F; if (nd) { hypersurface_non_degenerate H(p, prec, g, false); F = H.frob_matrix_ND(Nv); } else { hypersurface H(p, prec, g, false); F = H.frob_matrix_J(Nv); }
    return conv<Mat<ZZ>>(F);
}
static BForm with_lift(const Form &f, long p, int lift) {
    BForm r; size_t i = 0; for (auto &t : f) { ZZ c(t.second); if (lift == 1) c += ZZ(p) * (long)(1 + 5 * i + 3 * i * i); if (lift == 2) c -= ZZ(p) * (long)(1 + i) * p; r[t.first] = c; ++i; }
    if (lift == 1) for (auto &m : monos(f.begin()->first.size(), [&] { int s = 0; for (int x : f.begin()->first) s += x; return s; }())) if (!r.count(m) && (m[0] + 2 * m[1]) % 3 == 1) r[m] = p * (1 + m[0]);
    return r;
}
struct PC { int n, d; long p; Form f; int lift; int maxa; bool ref; };
static string show(const PC &c) { return "p=" + to_string(c.p) + " lift " + to_string(c.lift) + " f=" + show(c.f) + " requests up to " + to_string(c.maxa); }
static void judge(const PC &c, const BForm &f, const Rq &r, const Out &o, const ZZX &exact, const vector<pair<string, const Mat<ZZ> *>> &refs) {
    ZZ q = power_ZZ(c.p, max(1, r.a));
    for (auto &x : refs) if (r.a > 0) { MC_CHECK(same(o.F, *x.second, q), show(r) << ": the Frobenius matrix " << o.F << " differs modulo p^" << r.a << " from " << x.first << ", " << *x.second); mc::trans(); }
    if (r.a <= 0 || r.inc) MC_CHECK(o.z == exact, show(r) << ": polynomial " << o.z << ", not " << exact);
    else if (o.z != exact) for (long i = 0; i <= max(deg(o.z), deg(exact)); ++i) MC_CHECK((coeff(o.z, i) - coeff(exact, i)) % q == 0, show(r) << ": polynomial " << o.z << " is not " << exact << " modulo p^" << r.a);
    mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(str(o.z) + str(o.F));
}
static void requests(const PC &c) {
    BForm f = with_lift(c.f, c.p, c.lift); bool nd = is_nd(c.f, c.n, c.d, c.p);
    ZZX exact = ask(f, c.p, Rq{0, true, true}).z; if (c.n == 2) check_zeta(exact, c.n, c.d, c.p, counts_of(c.f, c.n, c.d, c.p, c.d == 3 ? 1 : 2), "no request");
    Mat<ZZ> G, G2; if (c.ref) { G = generous(f, c.n, c.d, c.p, c.maxa, false); if (nd) G2 = generous(f, c.n, c.d, c.p, c.maxa, true); }
    for (int better = 0; better < 2; ++better) {
        if (!better && c.n > 2 && nd) continue;
        for (int inc = 0; inc < 2; ++inc) {
            int top = 0; for (int a = c.maxa; a > 0 && !top; --a) if (in_domain(c.n, c.d, c.p, Rq{a, (bool)inc, (bool)better})) top = a;
            if (!top) { mc::skipped(); continue; }
            Rq hi{top, (bool)inc, (bool)better}; Out h = ask(f, c.p, hi); vector<pair<string, const Mat<ZZ> *>> refs;
            if (c.ref && (nd || !better)) { refs.push_back({"the matrix of the general method with more terms and digits", &G}); if (nd) refs.push_back({"the matrix of the nondegenerate method with more terms and digits", &G2}); }
            judge(c, f, hi, h, exact, refs); refs.push_back({"the matrix of the request a=" + to_string(top), &h.F});
            for (int a = -1; a < top; ++a) {
                Rq r{a, (bool)inc, (bool)better}; if (!in_domain(c.n, c.d, c.p, r) || (a <= 0 && c.n > 2)) continue;
                Out o = ask(f, c.p, r); judge(c, f, r, o, exact, refs);
                if (c.n == 2) { int ov = 1 + (a + inc + 2 * better + 3) % 3; Out x = ask(f, c.p, r, ov); MC_CHECK(x.z == o.z && x.F == o.F, show(r) << ": another way of giving the input (" << ov << ") answers " << x.z << " / " << x.F << " instead of " << o.z << " / " << o.F); mc::trans(); }
            }
        }
    }
}
// outside the documented domain: refused, or answered correctly
static void outside(const PC &c, const Rq &r) {
    if (in_domain(c.n, c.d, c.p, r)) { mc::skipped(); return; }
    BForm f = with_lift(c.f, c.p, c.lift);
    mc::ChildResult x = mc::in_child([&](int) { ZZX exact = ask(f, c.p, Rq{0, true, r.better}).z; Out o = ask(f, c.p, r); Mat<ZZ> G = generous(f, c.n, c.d, c.p, r.a, false); vector<pair<string, const Mat<ZZ> *>> refs; if (!r.better) refs.push_back({"the matrix with more terms and digits", &G}); judge(c, f, r, o, exact, refs); }, 100);
    MC_CHECK(!x.timed_out, show(r) << ": does not end"); MC_CHECK(x.out.compare(0, 5, "FAIL ") != 0, x.out.substr(5));
    MC_CHECK(x.exited0() || (WIFSIGNALED(x.status) && WTERMSIG(x.status) == SIGABRT), show(r) << ": neither an answer nor a refusal: " << mc::tail(x.err)); mc::state(); mc::trace(); mc::nontrivial();
}
// the built-in table suffices: lengths, and Newton's identities determine every coefficient from the stated digits
static void row(int n, int d, long p) {
    int64_t prec = -1; Vec<int64_t> N, cp; table(n, d, p, prec, N, cp); long b = prim_dim(n, d), w = n - 1;
    MC_CHECK(N.length() == n, "N has " << N.length() << " entries"); MC_CHECK(cp.length() == b + 1, "the precision vector has " << cp.length() << " entries, the polynomial " << b + 1);
    MC_CHECK(prec >= 1, "precision " << prec); for (int i = 0; i < n; ++i) MC_CHECK(N[i] >= 0, "N = " << N);
    for (long k = 1; k <= b / 2; ++k) { long e = cp[b - k]; MC_CHECK(e >= 0 && sqr(ZZ(k)) * power_ZZ(p, 2 * e) > 4 * b * b * power_ZZ(p, w * k), "coefficient T^" << b - k << " is used modulo p^" << e << ", which leaves more than one possibility"); mc::trans(); }
    for (long k = 1; k < b; ++k) MC_CHECK(cp[k] <= cp[k - 1], "the precisions increase at " << k);
    // what the terms promise for the columns of each pole order: N_i terms make column i correct modulo p^(N_i + i + 1 - n), zero modulo p^(n - 1 - i) in any case
    long r = -1; for (int i = 0; i < n; ++i) { long q = max<long>(N[i] + i + 1 - n, 0); if (i == n - 1) r = q; } MC_CHECK(r >= 1, "no term for the columns of the last pole order");
    mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(str(N) + str(cp) + str(prec));
}
// the digits the table promises for the characteristic polynomial are really there in the matrix it leads to
static void promised(const PC &c) {
    BForm f = with_lift(c.f, c.p, c.lift); int64_t prec; Vec<int64_t> N, cp; table(c.n, c.d, c.p, prec, N, cp); long b = prim_dim(c.n, c.d);
    bool nd = is_nd(c.f, c.n, c.d, c.p);
    for (int better = 0; better < (nd ? 1 : 2); ++better) {
        Out o = ask(f, c.p, Rq{0, true, (bool)better}); if (c.n == 2) check_zeta(o.z, c.n, c.d, c.p, counts_of(c.f, c.n, c.d, c.p, c.d == 3 ? 1 : 2), "default precision");
        Vec<ZZ> k = charpoly(o.F); MC_CHECK(k.length() == b + 1, "the matrix has size " << k.length() - 1);
        for (long i = 1; i <= b / 2; ++i) { ZZ q = power_ZZ(c.p, cp[b - i]); MC_CHECK((k[b - i] - coeff(o.z, b - i)) % q == 0, "coefficient T^" << b - i << " of the characteristic polynomial of the returned matrix is " << k[b - i] << ", not " << coeff(o.z, b - i) << " modulo p^" << cp[b - i]); mc::trans(); }
        mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(str(o.z));
    }
}
// many terms: the two columns of a plane cubic, by every variant, give a matrix of determinant p and the right trace
static void manyterms(long p, int N, int how, bool mixed) {
    Form f = fermat(3, 3); if (mixed) f[{1, 1, 1}] = 1; long count = counts_of(f, 2, 3, p, 1)[1]; int prec = enough(2, p, 2, N) + 2 + N;
    Mod mod(p, prec); hypersurface_non_degenerate H(p, prec, over(lifted(Eq{2, 3, p, prec, 0, f})), false);
    auto col = [&](long i) { switch (how) { case 0: return H.frob_ND_flint(i, N); case 1: return H.frob_ND_ZZ(i, N, 0); case 2: return H.frob_ND_ZZ_p(i, N, 0); case 3: return H.frob_J_ZZ(i, N, 0); case 4: return H.frob_J_ZZ_p(i, N, 0); case 5: return H.frob_J_ZZ(i, N, 1); case 6: return H.frob_J_ZZ_p(i, N, 1); default: return H.frob_J(i, N); } };
    Vec<ZZ_p> x = col(0), y = col(1); int good = N - 3; while (power_ZZ(2, N - 2 - good) < 3 * N) --good;
    ZZ q = power_ZZ(p, max(1, good)), det = rep(x[0] * y[1] - x[1] * y[0]), tr = rep(x[0] + y[1]);
    MC_CHECK((det - p) % q == 0, N << " terms: the determinant " << det << " is not p modulo p^" << good); MC_CHECK((tr - (p + 1 - count)) % q == 0, N << " terms: the trace " << tr << " is not " << p + 1 - count << " modulo p^" << good);
    mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(str(x) + str(y));
}
static void add(const string &nm, const string &bound, const vector<PC> &L, function<void(const PC &)> run, double t) { auto E = make_shared<vector<PC>>(L); if (L.size()) mc::family(nm, bound, L.size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { run((*E)[i]); }, t); }
void mc::setup() {
    bool th = mc::thorough();
    vector<Form> cub = box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1}}, {{0, 0, 3}, {1, 2}}, {{1, 1, 1}, {0, 1}}, {{2, 1, 0}, {0, 1}}}); vector<Form> mis = box(2, 3, {{{2, 1, 0}, {1}}, {{0, 2, 1}, {1}}, {{1, 0, 2}, {1}}, {{1, 1, 1}, {0, 1, 2}}}); Form wei; wei[{0, 2, 1}] = 1; wei[{3, 0, 0}] = -1; wei[{1, 0, 2}] = -2; wei[{0, 0, 3}] = -3; mis.push_back(wei);
    vector<Form> allc = cub; for (auto &f : mis) allc.push_back(f);
    auto smooth = [](const vector<Form> &fs, int n, int d, long p) { vector<Form> r; for (auto &f : fs) if (is_smooth(f, n, d, p)) r.push_back(f); return r; };
    { vector<PC> L; for (long p : th ? vector<long>{5, 7, 11, 13, 17, 19, 23, 29, 101} : vector<long>{7, 11, 13, 17, 23}) { auto fs = smooth(th ? allforms(2, 3, {1}, {0, 1}) : allc, 2, 3, p); int k = 0; for (auto &f : fs) { int m = min<long>(p - 4, th ? (p < 20 && k % 5 == 0 ? 20 : 8) : (k % 8 == 0 ? 8 : 4)); L.push_back(PC{2, 3, p, f, k % 3, m, p < 30}); ++k; } }
      add("requests-cubics", "plane cubics of the listed shapes, every request up to the bound, both modes, with and without model search", L, requests, 300); }
    { vector<PC> L; Form kl{{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}}; vector<Form> q = th ? diagplus(2, 4, {1, 2}) : box(2, 4, {{{4, 0, 0}, {1}}, {{0, 4, 0}, {1}}, {{0, 0, 4}, {1, 3}}, {{2, 1, 1}, {0, 1}}}); q.push_back(kl); Form mixed{{{4, 0, 0}, 1}, {{0, 3, 1}, 1}, {{0, 0, 4}, 1}, {{0, 1, 3}, 1}}; q.push_back(mixed);
      for (long p : th ? vector<long>{5, 7, 11, 13, 17, 23} : vector<long>{5, 7, 11, 17}) { int k = 0; for (auto &f : smooth(q, 2, 4, p)) { L.push_back(PC{2, 4, p, f, k % 3, (int)min<long>(p - 4, th ? 6 : 3), th ? p < 14 : p < 8}); ++k; } }
      add("requests-quartics", "plane quartics, every request up to the bound", L, requests, 600); }
    { vector<PC> L; for (long p : {7L, 11L}) { Form f = fermat(3, 5); L.push_back(PC{2, 5, p, f, 1, th ? (int)min<long>(p - 4, 6) : 2, th}); if (!th) break; f[{2, 2, 1}] = 1; if (is_smooth(f, 2, 5, p)) L.push_back(PC{2, 5, p, f, 0, 4, true}); }
      add("requests-quintics", "plane quintics, every request up to the bound", L, requests, 900); }
    { vector<PC> L; Form f = fermat(4, 4); L.push_back(PC{3, 4, 7, f, 0, 1, false}); L.push_back(PC{3, 4, 11, f, 2, 2, false}); if (th) { L.push_back(PC{3, 4, 13, f, 1, 4, false}); Form g = f; g[{1, 1, 1, 1}] = 1; if (is_smooth(g, 3, 4, 11)) L.push_back(PC{3, 4, 11, g, 2, 5, false}); if (is_smooth(g, 3, 4, 23)) L.push_back(PC{3, 4, 23, g, 0, 3, false}); }
      add("requests-surfaces", "quartic surfaces, every request up to the bound", L, requests, 1800); }
    { auto E = make_shared<vector<pair<PC, Rq>>>(); vector<Form> q = {fermat(3, 4), Form{{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}}}; vector<Form> c3 = {fermat(3, 3), wei};
      for (int b = 0; b < 2; ++b) for (int inc = 0; inc < 2; ++inc) for (int a = 1; a <= (th ? 7 : 4); ++a) { for (long p : {5L, 7L}) for (auto &f : smooth(c3, 2, 3, p)) E->push_back({PC{2, 3, p, f, 0, a, true}, Rq{a, (bool)inc, (bool)b}}); for (long p : {3L, 5L, 7L}) for (auto &f : smooth(q, 2, 4, p)) E->push_back({PC{2, 4, p, f, 0, a, true}, Rq{a, (bool)inc, (bool)b}}); }
      mc::family("requests-outside", "requests for primes smaller than documented: refused, or answered correctly", E->size(), [=](uint64_t i) { return show((*E)[i].first) + " " + show((*E)[i].second); }, [=](uint64_t i) { outside((*E)[i].first, (*E)[i].second); }, 120); }
    { auto P = make_shared<vector<long>>(); for (long p = 3; p <= (th ? 20000 : 2000); ++p) { bool pr = true; for (long q = 2; q * q <= p; ++q) if (p % q == 0) pr = false; if (pr) P->push_back(p); } for (long p : {65537L, 1000003L, 2147483647L, 2147483659L, 1000000000039L}) P->push_back(p);
      struct ND { int n, d; }; for (auto &x : vector<ND>{{2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}, {2, 8}, {2, 9}, {3, 4}, {3, 5}, {3, 6}}) { int n = x.n, d = x.d;
        mc::family("table-" + to_string(n) + "-" + to_string(d), "every odd prime up to " + to_string(th ? 20000 : 2000) + " not dividing d, and five large ones", P->size(), [=](uint64_t i) { return "p=" + to_string((*P)[i]); }, [=](uint64_t i) { if (d % (*P)[i] == 0) { mc::skipped(); return; } row(n, d, (*P)[i]); }); } }
    { vector<PC> L; for (long p : th ? vector<long>{5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 101} : vector<long>{5, 7, 11, 13, 17, 19, 23, 29, 43}) { int k = 0; for (auto &f : smooth(allforms(2, 3, {1}, {0, 1}), 2, 3, p)) L.push_back(PC{2, 3, p, f, k++ % 3, 0, false}); }
      add("promised-cubics", "every smooth plane cubic with diagonal coefficients 1 and the others 0 or 1", L, promised, 120); }
    { vector<PC> L; auto q = diagplus(2, 4, th ? vector<long>{1, -1, 2} : vector<long>{1}); q.push_back(Form{{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}}); for (long p : th ? vector<long>{3, 5, 7, 11, 13, 17, 19, 23, 29} : vector<long>{3, 5, 7, 11, 13, 17, 19}) { int k = 0; for (auto &f : smooth(q, 2, 4, p)) L.push_back(PC{2, 4, p, f, k++ % 3, 0, false}); }
      add("promised-quartics", "diagonal plane quartics with one more monomial, and a cyclic one", L, promised, 200); }
    { struct MT { long p; int N, how; bool mixed; }; auto E = make_shared<vector<MT>>(); for (int N : th ? vector<int>{66, 68, 69, 70, 75, 61, 62, 63, 90, 50, 40, 34, 20, 12, 5} : vector<int>{70, 34, 12}) for (long p : th ? vector<long>{2, 5, 7} : vector<long>{2}) for (int how = 0; how < 8; ++how) for (int m = 0; m < (th ? 2 : 1); ++m) if (th || N < 40 || how < 5) { Form f = fermat(3, 3); if (m) f[{1, 1, 1}] = 1; if (is_nd(f, 2, 3, p)) E->push_back({p, N, how, m == 1}); }
      mc::family("many-terms", "plane cubics with up to 70 (90 thorough) terms per column, by every variant: determinant and trace", E->size(), [=](uint64_t i) { auto &x = (*E)[i]; static const char *w[] = {"frob_ND_flint", "frob_ND_ZZ", "frob_ND_ZZ_p", "frob_J_ZZ", "frob_J_ZZ_p", "frob_J_ZZ loop 1", "frob_J_ZZ_p loop 1", "frob_J"}; return "p=" + to_string(x.p) + " terms " + to_string(x.N) + " " + w[x.how] + (x.mixed ? " with xyz" : ""); }, [=](uint64_t i) { auto &x = (*E)[i]; manyterms(x.p, x.N, x.how, x.mixed); }, 900); }
    { vector<PC> L; for (long p : th ? vector<long>{3, 7, 11, 13} : vector<long>{3, 7}) { Form f = fermat(3, 5); L.push_back(PC{2, 5, p, f, p > 3, 0, false}); f[{2, 2, 1}] = 1; if (is_smooth(f, 2, 5, p)) L.push_back(PC{2, 5, p, f, 0, 0, false}); } for (long p : {5L, 7L, 11L}) L.push_back(PC{2, 6, p, fermat(3, 6), th ? 1 : 0, 0, false}); for (long p : {3L, 5L, 7L, 11L, 17L}) if (th || p >= 17) L.push_back(PC{2, 7, p, fermat(3, 7), 0, 0, false});
      if (th) for (long p : {3L, 5L, 7L, 13L, 17L}) L.push_back(PC{2, 8, p, fermat(3, 8), 0, 0, false}); if (th) for (long p : {5L, 7L, 11L, 17L}) L.push_back(PC{2, 9, p, fermat(3, 9), 0, 0, false});
      for (long p : th ? vector<long>{3, 5, 7, 11, 23, 43} : vector<long>{5}) L.push_back(PC{3, 4, p, fermat(4, 4), th ? 1 : 0, 0, false});
      add("promised-higher", "curves of degree 5 to 9 and quartic surfaces, one or two equations per row of the table", L, promised, 1800); }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
