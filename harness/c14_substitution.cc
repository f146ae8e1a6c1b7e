// C14: changing variables, scaling and relifting leave the zeta function alone; the search for a better model
#define CHOICE_MAIN
#include "choice.h"
#include "eqs.h"
#include "zeta_oracle.h"
using namespace NTL; using namespace std;
typedef vector<vector<long>> LM;
typedef map<Mono, ZZ> BForm;
static string show(const LM &M) { ostringstream o; o << "["; for (auto &r : M) { o << "["; for (size_t j = 0; j < r.size(); ++j) o << (j ? " " : "") << r[j]; o << "]"; } o << "]"; return o.str(); }
// x_i -> sum_j M[i][j] x_j by expanding every product of linear forms, modulo q
static BForm subst(const BForm &f, const vector<vector<ZZ>> &M, const ZZ &q) {
    BForm r; size_t nv = M.size();
    for (auto &t : f) {
        BForm h; h[Mono(nv, 0)] = t.second;
        for (size_t i = 0; i < nv; ++i) for (int k = 0; k < t.first[i]; ++k) { BForm g; for (auto &m : h) for (size_t j = 0; j < nv; ++j) { if (IsZero(M[i][j])) continue; Mono e = m.first; ++e[j]; g[e] += m.second * M[i][j]; } h = g; }
        for (auto &m : h) r[m.first] += m.second;
    }
    BForm s; for (auto &m : r) { ZZ c = m.second % q; if (!IsZero(c)) s[m.first] = c; } return s;
}
static vector<vector<ZZ>> big(const LM &M) { vector<vector<ZZ>> r; for (auto &x : M) { r.push_back({}); for (long c : x) r.back().push_back(ZZ(c)); } return r; }
static BForm big(const Form &f) { BForm r; for (auto &t : f) r[t.first] = ZZ(t.second); return r; }
static Form small(const BForm &f) { Form r; for (auto &t : f) r[t.first] = to_long(t.second); return r; }
static Form subst(const Form &f, const LM &M, long p) { return small(subst(big(f), big(M), ZZ(p))); }
static LM prod(const LM &A, const LM &B, long p) { size_t n = A.size(); LM C(n, vector<long>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) C[i][j] = (C[i][j] + (__int128)A[i][k] * B[k][j]) % p; return C; }
static Mat<zz_p> tomat(const LM &M) { Mat<zz_p> R; R.SetDims(M.size(), M.size()); for (size_t i = 0; i < M.size(); ++i) for (size_t j = 0; j < M.size(); ++j) R[i][j] = ::to_zz_p(M[i][j]); return R; }
static LM frommat(const Mat<zz_p> &M) { LM r(M.NumRows(), vector<long>(M.NumCols())); for (long i = 0; i < M.NumRows(); ++i) for (long j = 0; j < M.NumCols(); ++j) r[i][j] = rep(M[i][j]); return r; }
template <class F> static Form clean(const F &f) { Form r; for (auto &t : f) if (!IsZero(t.second)) r[mono(t.first)] = rep(t.second); return r; }
static LM entry(uint64_t w, int nv, long p) { LM M(nv, vector<long>(nv)); for (auto &r : M) for (long &x : r) { x = w % p; w /= p; } return M; }
static uint64_t ipow(uint64_t a, int e) { uint64_t r = 1; while (e--) r *= a; return r; }
static bool invertible(const LM &M, long p) { return ref::rank(M, p) == (long)M.size(); }

// ---- substitution: every matrix, every form, and every second matrix ----
struct SC { int nv, d; long p; vector<Form> fs; bool pairs; uint64_t step; };
static void substitution(const SC &c, uint64_t w) {
    zz_pPush push(c.p); LM A = entry(w, c.nv, c.p); Mat<zz_p> a = tomat(A); uint64_t N = ipow(c.p, c.nv * c.nv);
    for (auto &f : c.fs) {
        Fzzp x = tozz_p(f), y = change_of_variables<zz_p>(x, a); Form want = subst(f, A, c.p), got = clean(y);
        MC_CHECK(got == want, show(A) << " turns " << show(f) << " into " << show(got) << ", not " << show(want)); MC_CHECK(x == tozz_p(f) && a == tomat(A), "arguments modified");
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
        if (&f == &c.fs[w % c.fs.size()]) { mc::outcome(show(want)); if (c.pairs) for (uint64_t v = w % c.step; v < N; v += c.step) { LM B = entry(v, c.nv, c.p); Form g = clean(change_of_variables<zz_p>(y, tomat(B))); Form h = clean(change_of_variables<zz_p>(x, tomat(prod(A, B, c.p)))); MC_CHECK(g == h, show(A) << " followed by " << show(B) << " turns " << show(f) << " into " << show(g) << ", their product into " << show(h)); mc::trans(); mc::trace(); mc::nontrivial(); } }
    }
}
// higher degrees, larger primes: f and matrices from a pattern
static void larger(int nv, int d, long p, const LM &A, const LM &B) {
    zz_pPush push(p); vector<Form> fs; Form dense; int k = 0; auto ms = monos(nv, d);
    for (auto &m : ms) { long c = imod((long)(1 + 3 * k + 5 * k * k) * 1000003 + k, p); ++k; if (c) dense[m] = c; if (k % max<size_t>(1, ms.size() / 12) == 0) fs.push_back(Form{{m, imod(-k, p) ? imod(-k, p) : 1}}); } fs.push_back(dense);
    for (auto &f : fs) {
        Fzzp x = tozz_p(f), y = change_of_variables<zz_p>(x, tomat(A)); Form want = subst(f, A, p), got = clean(y);
        MC_CHECK(got == want, show(A) << " turns " << show(f) << " into " << show(got) << ", not " << show(want));
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); mc::outcome(show(want));
        Form g = clean(change_of_variables<zz_p>(y, tomat(B))), h = clean(change_of_variables<zz_p>(x, tomat(prod(A, B, p)))); MC_CHECK(g == h, show(A) << " followed by " << show(B) << " differs from their product on " << show(f)); mc::trans();
    }
}
static void padic(long p, int prec, int nv, int d, const Form &f, int kind, uint64_t w) {
    ZZ q = power_ZZ(p, prec); ZZ_pPush push(q); vector<vector<ZZ>> M(nv, vector<ZZ>(nv)), B = M; Mat<ZZ_p> m, b; m.SetDims(nv, nv); b.SetDims(nv, nv);
    static const long S[3] = {0, 1, -1};
    for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) { ZZ c(S[w % 3]); w /= 3; if (kind) c += p * power_ZZ(10, 3 * i + j) * (kind == 2 && (i + j) % 2 ? -1 : 1); M[i][j] = c; m[i][j] = conv<ZZ_p>(c); B[i][j] = ZZ(i == j ? 1 : 0) + p * (i + 2 * j); b[i][j] = conv<ZZ_p>(B[i][j]); }
    BForm F = big(f); int k = 0; for (auto &t : F) t.second += p * power_ZZ(7, k++ % 5); FZZp x = over(F), y = change_of_variables<ZZ_p>(x, m), z = change_of_variables<ZZ_p>(y, b), z2 = change_of_variables<ZZ_p>(x, m * b);
    BForm want = subst(F, M, q), got, g1, g2; for (auto &t : y) if (!IsZero(t.second)) got[mono(t.first)] = rep(t.second); for (auto &t : z) if (!IsZero(t.second)) g1[mono(t.first)] = rep(t.second); for (auto &t : z2) if (!IsZero(t.second)) g2[mono(t.first)] = rep(t.second);
    MC_CHECK(got == want, "modulo p^" << prec << ": " << m << " turns " << show(f) << " into something else than the substituted form"); MC_CHECK(g1 == g2, "modulo p^" << prec << ": two substitutions differ from the product of the matrices"); mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(str(m) + show(f));
}
// ---- invariance of the zeta function ----
static ZZX zeta(const BForm &f, long p, bool better) { ZZX z; Mat<ZZ> F; FZZ g; for (auto &t : f) g[vec(t.first)] = t.second; choice::tape().lcg = 12345; zeta_function(z, F, g, p, false, 1, 0, true, better); return z; }
struct GC { int n, d; long p; Form f; string gname; vector<LM> g; };
static string show(const GC &c) { return "p=" + to_string(c.p) + " f=" + show(c.f) + " " + c.gname; }
static vector<LM> all(int nv, long p, bool scal) { vector<LM> r; uint64_t N = ipow(p, nv * nv); for (uint64_t w = 0; w < N; ++w) { LM M = entry(w, nv, p); if (scal) { long x = 0; for (auto &row : M) for (long v : row) if (!x) x = v; if (x != 1) continue; } if (invertible(M, p)) r.push_back(M); } return r; }
static vector<LM> borel(int nv, long p, bool lower, bool diag) {
    vector<LM> r; uint64_t U = ipow(p, nv * (nv - 1) / 2), D = diag ? ipow(p - 1, nv - 1) : 1;
    for (uint64_t w = 0; w < U * D; ++w) { uint64_t u = w % U, e = w / U; LM M(nv, vector<long>(nv, 0)); for (int i = 0; i < nv; ++i) { M[i][i] = 1; if (i && diag) { M[i][i] = 1 + e % (p - 1); e /= p - 1; } for (int j = i + 1; j < nv; ++j) { (lower ? M[j][i] : M[i][j]) = u % p; u /= p; } } r.push_back(M); }
    return r;
}
static vector<LM> monomial(int nv, long p, const vector<long> &units) {
    vector<LM> r; vector<int> s(nv); for (int i = 0; i < nv; ++i) s[i] = i;
    do { uint64_t D = ipow(units.size(), nv - 1); for (uint64_t w = 0; w < D; ++w) { uint64_t e = w; LM M(nv, vector<long>(nv, 0)); for (int i = 0; i < nv; ++i) { M[i][s[i]] = 1; if (i) { M[i][s[i]] = imod(units[e % units.size()], p); e /= units.size(); } } r.push_back(M); } } while (next_permutation(s.begin(), s.end()));
    return r;
}
static vector<LM> transvections(int nv, long p, const vector<long> &cs) { vector<LM> r; for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) if (i != j) for (long c : cs) if (c % p) { LM M(nv, vector<long>(nv, 0)); for (int k = 0; k < nv; ++k) M[k][k] = 1; M[i][j] = imod(c, p); r.push_back(M); } return r; }
static vector<long> range(long a, long b) { vector<long> r; for (long i = a; i <= b; ++i) r.push_back(i); return r; }
static const uint64_t BLOCK = 16;
static void orbit(const GC &c, uint64_t from) {
    BForm b = big(c.f); ZZX base = zeta(b, c.p, true); if (from == 0) check_zeta(base, c.n, c.d, c.p, counts_of(c.f, c.n, c.d, c.p, c.n > 2 || c.d == 3 ? 1 : 2), "before substituting");
    for (uint64_t i = from; i < min<uint64_t>(from + BLOCK, c.g.size()); ++i) {
        Form g = subst(c.f, c.g[i], c.p); { zz_pPush push(c.p); Form l = clean(change_of_variables<zz_p>(tozz_p(c.f), tomat(c.g[i]))); MC_CHECK(l == g, show(c.g[i]) << " turns the equation into " << show(l) << ", not " << show(g)); }
        bool better = i % 2 == 0 || c.d > 3; ZZX z = zeta(big(g), c.p, better);
        MC_CHECK(z == base, show(c.g[i]) << " turns the equation into " << show(g) << " and the polynomial " << base << " into " << z << (better ? "" : " (without searching for a model)"));
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); mc::outcome(show(g));
    }
}
// every unit, every set of coefficients moved by multiples of p
struct LC { int n, d; long p; Form f; bool scale; uint64_t from, to; };
static string show(const LC &c) { return "p=" + to_string(c.p) + " f=" + show(c.f) + (c.scale ? " scaled, from " : " relifted, from ") + to_string(c.from); }
static void relift(const LC &c) {
    ZZX base = zeta(big(c.f), c.p, true); vector<Mono> ms = monos(c.n + 1, c.d); static const char *big1 = "123456789012345678901234567";
    for (uint64_t w = c.from; w < c.to; ++w) {
        BForm g; 
        if (c.scale) { ZZ u(long(1 + w % (c.p - 1))); if (w / (c.p - 1) == 1) u -= c.p; if (w / (c.p - 1) == 2) u += c.p * conv<ZZ>(big1); for (auto &t : c.f) g[t.first] = u * t.second; }
        else { g = big(c.f); for (size_t i = 0; i < ms.size(); ++i) if (w >> i & 1) g[ms[i]] += i % 4 == 3 ? c.p * conv<ZZ>(big1) : ZZ(c.p * (long)(i % 2 ? -1 - (long)i : 1 + (long)i)); }
        ZZX z = zeta(g, c.p, w % 2 == 0); if (z != base) { ostringstream o; for (auto &t : g) o << " " << t.second << "*x^" << vec(t.first); MC_FAIL("the polynomial changes from " << base << " to " << z << " for" << o.str()); }
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
    }
    mc::outcome(str(base) + to_string(c.from));
}
// ---- the search for a model ----
static void judge(const Form &f, int nv, int d, long p, const Mat<zz_p> &M, bool &found) {
    MC_CHECK(M.NumRows() == nv && M.NumCols() == nv, "the matrix is " << M.NumRows() << " by " << M.NumCols());
    LM L = frommat(M); found = !IsZero(M); if (!found) return;
    MC_CHECK(invertible(L, p), "proposes the singular matrix " << show(L)); Form g = subst(f, L, p);
    MC_CHECK(ref::nondegenerate(g, nv, d, p), "proposes " << show(L) << ", which leads to the degenerate form " << show(g));
}
static void search(const Form &f, int nv, int d, long p, int N, size_t draws) {
    Mod mod(p, 1); bool nd = ref::nondegenerate(f, nv, d, p); uint64_t yes = 0, no = 0; bool exists = nd;
    for (uint64_t w = 0; w < ipow(p, nv * nv) && !exists; ++w) { LM M = entry(w, nv, p); if (invertible(M, p) && ref::nondegenerate(subst(f, M, p), nv, d, p)) exists = true; }
    auto r = choice::explore({}, draws, [&] { Fzzp x = tozz_p(f); Mat<zz_p> M = find_change_of_variables(x, N); auto save = choice::tape(); choice::tape().on = false; bool found; judge(f, nv, d, p, M, found); found ? ++yes : ++no; mc::outcome(show(f) + show(frommat(M))); choice::tape() = save; mc::trans(); });
    if (nd) MC_CHECK(yes && !no, "a nondegenerate form is answered with the zero matrix");
    if (N <= 0 && !nd) MC_CHECK(!yes, "a model appears without an attempt");
    if (!exists) MC_CHECK(!yes, "a model is found although there is none");
    if (exists && N > 0) MC_CHECK(yes, "no sequence of draws finds one of the existing models");
    mc::state(); mc::trace(r.first); mc::nontrivial(r.first); mc::skipped(r.second);
}
// the whole computation for every first proposal, and when every proposal fails
static void proposals(const Form &f, int n, int d, long p, const LM &M, bool forever) {
    ZZX base = zeta(big(f), p, false); vector<long> draws; for (auto &r : M) for (long x : r) draws.push_back(x); draws.push_back(0);
    vector<long> pick; uint64_t reps = forever ? 100 * p + 100 : 1; for (uint64_t k = 0; k < reps; ++k) for (long x : draws) pick.push_back(x);
    choice::tape().lcg = 12345; choice::script() = pick; choice::scripted() = 0; ZZX z; Mat<ZZ> F; FZZ g = toZZ(f); zeta_function(z, F, g, p, false, 1, 0, true, true); choice::script().clear();
    MC_CHECK(z == base, "with the first proposal " << show(M) << (forever ? " repeated" : "") << " the polynomial is " << z << ", without a search it is " << base); mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); mc::outcome(str(F));
}
void mc::setup() {
    bool th = mc::thorough();
    auto sub = [&](int nv, int d, long p, const vector<Form> &fs, bool pairs, uint64_t step) { if (fs.empty()) return; auto C = make_shared<SC>(SC{nv, d, p, fs, pairs, step}); uint64_t N = ipow(p, nv * nv);
        mc::family("subst-" + to_string(nv) + "-" + to_string(d) + "-p" + to_string(p), "every matrix over F_" + to_string(p) + " in " + to_string(nv) + " variables, " + to_string(fs.size()) + " forms of degree " + to_string(d) + (pairs ? (step == 1 ? ", every second matrix" : ", every " + to_string(step) + "th second matrix") : ""), N, [=](uint64_t i) { return show(entry(i, nv, p)); }, [=](uint64_t i) { substitution(*C, i); }); };
    auto nz = [](vector<Form> v) { v.erase(remove_if(v.begin(), v.end(), [](const Form &f) { return f.empty(); }), v.end()); return v; };
    sub(1, 3, 7, nz(allforms(0, 3, upto(7), {})), true, 1); sub(2, 1, 3, nz(allforms(1, 1, upto(3), {})), true, 1); for (int d : {2, 3, 4}) { sub(2, d, 2, nz(allforms(1, d, upto(2), upto(2))), true, 1); sub(2, d, 3, nz(allforms(1, d, upto(3), upto(3))), true, 1); } sub(2, 3, 5, nz(allforms(1, 3, {0, 1, 3}, {0, 1, 2})), true, 1);
    sub(3, 2, 2, nz(allforms(2, 2, {0, 1}, {0, 1})), true, 1); sub(3, 3, 2, nz(allforms(2, 3, {0, 1}, {0, 1})), true, th ? 1 : 3); { vector<Form> r; for (auto &f : nz(allforms(2, 2, {0, 1, 2}, {0, 1, 2}))) if (th || r.size() < 24) r.push_back(f); sub(3, 2, 3, r, true, th ? 17 : 331); }
    sub(4, 2, 2, {fermat(4, 2), Form{{{1, 1, 0, 0}, 1}, {{0, 0, 1, 1}, 1}, {{0, 2, 0, 0}, 1}}}, true, th ? 997 : 9973);
    { struct L { int nv, d; long p; }; auto E = make_shared<vector<L>>(); for (long p : th ? vector<long>{2, 3, 7, 101, 65537, 2147483629, 1152921504606846883L} : vector<long>{2, 7, 1152921504606846883L}) { for (int d : {5, 6, 7, 8, 9, 12, 17, 20}) E->push_back({2, d, p}); for (int d : {4, 5, 6, 7, 9}) E->push_back({3, d, p}); for (int d : {3, 4, 5}) E->push_back({4, d, p}); for (int d : {2, 3}) E->push_back({5, d, p}); E->push_back({6, 2, p}); }
      mc::family("subst-larger", "degrees up to 20, up to 6 variables, primes up to 2^60: matrices with entries from 0, 1, -1 and a large one in patterns", E->size() * 27, [=](uint64_t i) { auto &x = (*E)[i / 27]; return to_string(x.nv) + " variables, degree " + to_string(x.d) + ", p=" + to_string(x.p) + ", pattern " + to_string(i % 27); },
        [=](uint64_t i) { auto &x = (*E)[i / 27]; int w = i % 27; LM A(x.nv, vector<long>(x.nv)), B = A; long vals[4] = {0, 1, x.p - 1, x.p / 3 + 2}; for (int r = 0; r < x.nv; ++r) for (int c = 0; c < x.nv; ++c) { A[r][c] = imod(vals[w < 9 ? (r == c ? 1 + w % 3 : (r + 1 == c || (c == 0 && r + 1 == x.nv)) ? w / 3 + 1 : 0) : w < 18 ? (r + c * w + (r * c) / 2 + w / 4) % 4 : ((r * 7 + c * 3 + w) % (x.nv > 3 ? 5 : 3) == 0 ? 1 + (r + c + w) % 3 : 0)], x.p); B[r][c] = imod(r == c ? 1 : (r * 5 + c + w) % 3 == 0 ? vals[2] : 0, x.p); } larger(x.nv, x.d, x.p, A, B); }, 120); }
    { struct P { long p; int prec, nv, d; Form f; int kind; }; auto E = make_shared<vector<P>>(); for (long p : {2L, 5L, 10007L}) for (int prec : p > 100 ? vector<int>{1, 4, 6} : vector<int>{1, 5, 27, 63}) for (int k = 0; k < 3; ++k) { E->push_back({p, prec, 2, 3, Form{{{3, 0}, 1}, {{1, 2}, 2}, {{0, 3}, -1}}, k}); E->push_back({p, prec, 3, 3, Form{{{3, 0, 0}, 1}, {{0, 2, 1}, 3}, {{1, 1, 1}, -1}}, k}); }
      mc::family("subst-padic", "matrices with entries 0, 1, -1 modulo p and digits above, modulo p^N", E->size() * 81, [=](uint64_t i) { const P &x = (*E)[i / 81]; return "p=" + to_string(x.p) + " N=" + to_string(x.prec) + " f=" + show(x.f) + " lift " + to_string(x.kind) + " number " + to_string(i % 81); }, [=](uint64_t i) { const P &x = (*E)[i / 81]; if (x.nv == 2) padic(x.p, x.prec, 2, x.d, x.f, x.kind, i % 81); else for (uint64_t w = i % 81; w < 19683; w += th ? 81 : 81 * 9) padic(x.p, x.prec, 3, x.d, x.f, x.kind, w); }); }
    // orbits
    Form hes = fermat(3, 3); hes[{1, 1, 1}] = 1; Form wei{{{0, 2, 1}, 1}, {{3, 0, 0}, -1}, {{1, 0, 2}, -1}, {{0, 0, 3}, -2}}; Form cyc{{{2, 1, 0}, 1}, {{0, 2, 1}, 1}, {{1, 0, 2}, 1}, {{1, 1, 1}, 2}}; Form f4 = fermat(3, 4), kl{{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}}, f4b = f4; f4b[{2, 1, 1}] = 1; Form mix{{{4, 0, 0}, 1}, {{0, 3, 1}, 1}, {{0, 0, 4}, 1}, {{0, 1, 3}, 1}};
    auto orb = [&](const string &name, int n, int d, long p, const vector<Form> &fs, const string &gname, const vector<LM> &g, double t) { for (size_t k = 0; k < fs.size(); ++k) { if (d % p == 0 || !is_smooth(fs[k], n, d, p)) continue; auto C = make_shared<GC>(GC{n, d, p, fs[k], gname, g}); mc::family("orbit-" + name + "-p" + to_string(p) + "-" + to_string(k), gname + " (" + to_string(g.size()) + " matrices) on " + show(fs[k]), (g.size() + BLOCK - 1) / BLOCK, [=](uint64_t i) { return show(*C) + " from " + to_string(i * BLOCK); }, [=](uint64_t i) { orbit(*C, i * BLOCK); }, t); } };
    vector<Form> C3 = {hes, wei, cyc};
    orb("monomial", 2, 3, 5, C3, "all monomial matrices up to scalars", monomial(3, 5, range(1, 4)), 100); orb("upper", 2, 3, 5, {wei}, "all upper triangular matrices up to scalars", borel(3, 5, false, true), 100); orb("unipotent", 2, 3, 5, {hes, cyc}, "all upper unipotent matrices", borel(3, 5, false, false), 100); orb("lower", 2, 3, 5, C3, "all lower unipotent matrices", borel(3, 5, true, false), 100);
    orb("unipotent", 2, 3, 7, th ? C3 : vector<Form>{wei}, "all upper unipotent matrices", borel(3, 7, false, false), 100); for (long p : {7L, 11L, 13L, 17L, 23L, 43L}) { orb("generators", 2, 3, p, C3, "all transvections", transvections(3, p, p < 20 ? range(1, p - 1) : vector<long>{1, 2, -1}), 100); orb("permutations", 2, 3, p, C3, "permutations with signs and factors", monomial(3, p, {1, -1, 2}), 100); }
    vector<Form> C4 = {f4, kl, f4b, mix}; orb("quartic-monomial", 2, 4, 3, C4, "all monomial matrices up to scalars", monomial(3, 3, {1, 2}), 200); orb("quartic-upper", 2, 4, 3, C4, th ? "all upper triangular matrices up to scalars" : "all upper unipotent matrices", borel(3, 3, false, th), 300);
    for (long p : th ? vector<long>{5, 7, 11, 17} : vector<long>{5, 17}) { orb("quartic-generators", 2, 4, p, th ? C4 : vector<Form>{kl, f4b}, "transvections", transvections(3, p, {1, -2}), 300); orb("quartic-permutations", 2, 4, p, th ? C4 : vector<Form>{kl, mix}, "permutations with factors", monomial(3, p, {1, 2}), 300); }
    if (th) { orb("all", 2, 3, 5, C3, "all invertible matrices up to scalars", all(3, 5, true), 200); orb("quartic-all", 2, 4, 3, {kl, f4b}, "all invertible matrices up to scalars", all(3, 3, true), 600); orb("upper", 2, 3, 7, {wei, cyc}, "all upper triangular matrices up to scalars", borel(3, 7, false, true), 200); Form q5 = fermat(3, 5); q5[{2, 2, 1}] = 1; orb("quintic", 2, 5, 7, {q5}, "transvections", transvections(3, 7, {1, 3}), 900); orb("quintic", 2, 5, 3, {q5}, "permutations", monomial(3, 3, {1}), 900); Form k3 = fermat(4, 4); k3[{1, 1, 2, 0}] = 1; orb("surface", 3, 4, 7, {k3}, "permutations", monomial(4, 7, {1}), 3600); }
    // scaling and lifts
    { auto E = make_shared<vector<LC>>(); for (long p : {5L, 7L, 13L, 17L, 31L}) for (auto &f : C3) if (is_smooth(f, 2, 3, p)) { uint64_t n = 3 * (p - 1); for (uint64_t w = 0; w < n; w += 16) E->push_back(LC{2, 3, p, f, true, w, min(w + 16, n)}); if (p == 5 || p == 17 || th) for (uint64_t w = 0; w < 1024; w += 32) E->push_back(LC{2, 3, p, f, false, w, w + 32}); }
      for (long p : th ? vector<long>{3, 5, 7, 11, 17} : vector<long>{3, 7, 17}) for (auto &f : {f4, kl, mix}) if (is_smooth(f, 2, 4, p)) { uint64_t n = 3 * (p - 1); for (uint64_t w = 0; w < n; w += 4) E->push_back(LC{2, 4, p, f, true, w, min(w + 4, n)}); if (th && p == 3) for (uint64_t w = 0; w < 32768; w += 32) E->push_back(LC{2, 4, p, f, false, w, w + 32}); else for (uint64_t w = 1; w < 32768; w *= 2) E->push_back(LC{2, 4, p, f, false, w, w + 1}); }
      mc::family("scaling-and-lifts", "every unit (three representatives) and every set of coefficients moved by multiples of p (quartics: every single one)", E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { relift((*E)[i]); }, 200); }
    // search
    { struct S { int nv, d; long p; Form f; int N; size_t draws; }; auto E = make_shared<vector<S>>(); auto put = [&](int nv, int d, long p, const vector<Form> &fs, int N, size_t draws) { for (auto &f : fs) if (d % p && ref::smooth(f, nv, d, p)) E->push_back({nv, d, p, f, N, draws}); };
      put(2, 3, 2, allforms(1, 3, upto(2), upto(2)), 0, 4); put(2, 2, 3, allforms(1, 2, upto(3), upto(3)), 0, 4); put(2, 3, 2, allforms(1, 3, upto(2), upto(2)), 1, 14); put(2, 3, 2, allforms(1, 3, upto(2), upto(2)), 2, 15); put(2, 3, 2, allforms(1, 3, upto(2), upto(2)), 3, 15); put(2, 2, 3, allforms(1, 2, upto(3), upto(3)), 1, 9); put(2, 2, 3, allforms(1, 2, upto(3), upto(3)), 2, 10); put(2, 4, 3, allforms(1, 4, {0, 1}, {0, 1}), 2, 10); put(2, 2, 5, allforms(1, 2, {0, 1}, {0, 1, 2}), 1, 5); put(2, 3, 5, allforms(1, 3, {0, 1}, {0, 1}), 1, 5);
      put(3, 3, 2, {wei, cyc, Form{{{2, 1, 0}, 1}, {{0, 2, 1}, 1}, {{1, 0, 2}, 1}}, Form{{{0, 2, 1}, 1}, {{0, 1, 2}, 1}, {{3, 0, 0}, 1}}, hes, fermat(3, 3)}, 1, th ? 18 : 10); put(3, 2, 3, {Form{{{1, 1, 0}, 1}, {{0, 0, 2}, 1}}, fermat(3, 2)}, 1, th ? 11 : 10);
      for (auto &s : vector<pair<int, long>>{{2, 3}, {3, 5}, {4, 3}}) put(2, s.first, s.second, allforms(1, s.first, {0, 1}, {0, 1}), -1, 4);
      mc::family("search", "every sequence of random draws up to a length, on smooth forms of small degree", E->size(), [=](uint64_t i) { const S &s = (*E)[i]; return "p=" + to_string(s.p) + " " + show(s.f) + " attempts " + to_string(s.N) + " draws " + to_string(s.draws); }, [=](uint64_t i) { const S &s = (*E)[i]; search(s.f, s.nv, s.d, s.p, s.N, s.draws); }, 300); }
    { struct Q { int n, d; long p; Form f; LM M; bool forever; }; auto E = make_shared<vector<Q>>(); LM id{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
      for (long p : {5L, 7L, 17L}) for (auto &f : {wei, cyc}) if (is_smooth(f, 2, 3, p) && !is_nd(f, 2, 3, p)) { E->push_back({2, 3, p, f, id, true}); for (auto &M : p == 5 || th ? borel(3, p, false, false) : transvections(3, p, {1, 2, -1})) E->push_back({2, 3, p, f, M, false}); for (auto &M : monomial(3, p, p == 5 || th ? range(1, p - 1) : vector<long>{1, -1})) E->push_back({2, 3, p, f, M, false}); LM z{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, s{{1, 1, 1}, {2, 2, 2}, {0, 1, 0}}; E->push_back({2, 3, p, f, z, false}); E->push_back({2, 3, p, f, s, false}); }
      for (long p : {3L, 5L}) for (auto &f : {kl, mix}) if (is_smooth(f, 2, 4, p) && !is_nd(f, 2, 4, p)) { E->push_back({2, 4, p, f, id, true}); for (auto &M : transvections(3, p, {1, -1})) E->push_back({2, 4, p, f, M, false}); }
      mc::family("proposals", "the zeta function for every first proposal of the search in the listed groups, and when all proposals fail", E->size(), [=](uint64_t i) { const Q &s = (*E)[i]; return "p=" + to_string(s.p) + " " + show(s.f) + " first proposal " + show(s.M) + (s.forever ? " for ever" : ""); }, [=](uint64_t i) { const Q &s = (*E)[i]; proposals(s.f, s.n, s.d, s.p, s.M, s.forever); }, 300); }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
