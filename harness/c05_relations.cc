// C05: coordinates of monomial forms respect the relations of the de Rham complex
#include "eqs.h"
using namespace NTL; using namespace std;
static string show(const Mono &m) { ostringstream o; o << "("; for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << m[i]; o << ")"; return o.str(); }

template <class D> struct Coord {  // class of (m-1)! x^w Omega / f^m, w of degree m d - (n+1)
    D &dr; int n; bool nd; map<Mono, Vec<ZZ_p>> memo;
    Coord(D &d, int n_, bool nd_) : dr(d), n(n_), nd(nd_) {}
    Vec<ZZ_p> call(de_Rham_non_degenerate_local &x, const Vec<int64_t> &u) { return nd ? x.monomial_to_basis_ND(u) : x.monomial_to_basis_J(u); }
    Vec<ZZ_p> call(de_Rham_local &x, const Vec<int64_t> &u) { return x.monomial_to_basis_J(u); }
    const Vec<ZZ_p> &operator()(const Mono &w) {
        auto it = memo.find(w); if (it != memo.end()) return it->second;
        Vec<int64_t> u = vec(w); for (int i = 0; i <= n; ++i) u[i]++;
        return memo[w] = call(dr, u);
    }
};
template <class D> static void relations(const Eq &e, D &dr, bool nd, int M, const char *what) {
    int n = e.n, d = e.d, nv = n + 1; auto F = lifted(e);
    Coord<D> C(dr, n, nd);
    long NB = dr.coKernels_J_basis.length();
    long pw = 1; for (int i = 0; i < nv; ++i) pw *= d - 1; long want = (pw + (nv % 2 ? -(d - 1) : (d - 1))) / d;
    MC_CHECK(NB == want, what << ": the basis has " << NB << " elements, the cohomology has dimension " << want);
    ZZ fact(1);
    for (int m = 1; m <= M; ++m) {
        if (m > 1) fact *= m - 1;  // (m-1)!
        // basis elements
        for (long b = 0; b < NB; ++b) { Mono w = mono(dr.coKernels_J_basis[b]); int deg = 0; for (int x : w) deg += x; if (deg + nv != m * d) continue;
            Vec<ZZ_p> c = C(w); for (long i = 0; i < NB; ++i) MC_CHECK(c[i] == (i == b ? conv<ZZ_p>(fact) : ZZ_p(0)), what << ": the basis element x^" << show(w) << " has coordinates " << c); mc::state(); mc::trans(); }
        // multiplication by f
        if (m < M) for (auto &w : monos(nv, m * d - nv)) {
            Vec<ZZ_p> s; s.SetLength(NB); for (auto &t : F) { Mono u = w; for (int i = 0; i < nv; ++i) u[i] += t.first[i]; s += conv<ZZ_p>(t.second) * C(u); }
            Vec<ZZ_p> r = conv<ZZ_p>(m) * C(w); MC_CHECK(s == r, what << ": multiplying numerator and denominator of x^" << show(w) << " / f^" << m << " by f changes the class"); mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
        }
        // exact forms d( h / f^m ): m! h df/dxi / f^(m+1) = (m-1)! dh/dxi / f^m
        if (m < M && m * d - n >= 0) for (auto &h : monos(nv, m * d - n)) for (int i = 0; i < nv; ++i) {
            Vec<ZZ_p> s, r; s.SetLength(NB); r.SetLength(NB);
            for (auto &t : F) if (t.first[i]) { Mono u = h; for (int j = 0; j < nv; ++j) u[j] += t.first[j]; u[i]--; s += conv<ZZ_p>(t.second * t.first[i]) * C(u); }
            if (h[i]) { Mono u = h; u[i]--; r = conv<ZZ_p>(h[i]) * C(u); }
            MC_CHECK(s == r, what << ": the exact form d(x^" << show(h) << " / f^" << m << ") along " << i << " does not vanish"); mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
        }
        // the precomputed table of the lowest pole orders
        if (m <= n) { Mat<ZZ_p> T = *dr.get_final_reduction_matrix_J(m); auto ws = monos(nv, m * d - nv); MC_CHECK(T.NumCols() == (long)ws.size() && T.NumRows() == NB, what << ": final reduction table of pole order " << m << " has the wrong shape");
            for (auto &w : ws) { long c = dr.tuple_dict[m * d - nv][vec(w)]; for (long i = 0; i < NB; ++i) MC_CHECK(T[i][c] == C(w)[i], what << ": final reduction of x^" << show(w) << " / f^" << m << " differs from its coordinates"); mc::state(); } }
    }
    mc::outcome(str(C.memo.rbegin()->second));
}
static void run(const Eq &e, int M, bool nd) {
    Mod mod(e.p, e.prec);
    if (!nd) { de_Rham_local D(e.p, e.prec, over(lifted(e)), false); relations(e, D, false, M, "J"); return; }
    de_Rham_non_degenerate_local D(e.p, e.prec, over(lifted(e)), false), D2(e.p, e.prec, over(lifted(e)), false);
    relations(e, D, true, M, "ND"); relations(e, D, false, M, "J of the ND object");
    // the two methods agree monomial by monomial, also when asked in another order
    int nv = e.n + 1;
    for (int m = M; m >= 1; --m) for (auto &w : monos(nv, m * e.d - nv)) { Vec<int64_t> u = vec(w); for (int i = 0; i < nv; ++i) u[i]++; Vec<ZZ_p> a = D2.monomial_to_basis_ND(u), b = D2.monomial_to_basis_J(u); MC_CHECK(a == b, "the methods disagree on x^" << show(w) << " / f^" << m << ": " << a << " and " << b); mc::trans(); }
}
static void fam(const string &name, const string &bound, int n, int d, vector<long> ps, vector<int> precs, vector<int> lifts, vector<Form> fs, int M, bool J, double timeout = 200) {
    auto E = make_shared<vector<Eq>>(); auto N = make_shared<vector<Eq>>();
    for (long p : ps) for (auto &f : fs) if (is_smooth(f, n, d, p)) { bool nd = is_nd(f, n, d, p); for (int N_ : precs) for (int l : lifts) { if (l && N_ == 1) continue; Eq e{n, d, p, N_, l, f}; if (nd) N->push_back(e); else if (J) E->push_back(e); } }
    if (E->size()) mc::family(name + "-J", bound + "; every monomial up to pole order " + to_string(M), E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { run((*E)[i], M, false); }, timeout);
    if (N->size()) mc::family(name + "-ND", bound + "; every monomial up to pole order " + to_string(M) + ", both methods", N->size(), [=](uint64_t i) { return show((*N)[i]); }, [=](uint64_t i) { run((*N)[i], M, true); }, timeout);
}
void mc::setup() {
    bool th = mc::thorough();
    fam("points", "every smooth binary quadric and cubic with small coefficients", 1, 2, {3, 5}, {1, 3}, {0, 1}, allforms(1, 2, upto(3), upto(5)), 11, true);
    fam("cubic-points", "every smooth binary cubic with coefficients 0..2 (diagonal 0..3)", 1, 3, {2, 5, 7}, {2, 30}, {0, 2}, allforms(1, 3, upto(4), upto(3)), 7, true);
    fam("quintic-points", "diagonal binary quintics with one more monomial", 1, 5, {2, 3, 7}, {2, 9}, {0, 1}, diagplus(1, 5, {1, 2}), 5, true);
    fam("cubics", "every smooth plane cubic with diagonal coefficients 1 and other coefficients 0 or 1", 2, 3, {5}, {2}, {1}, allforms(2, 3, {1}, {0, 1}), th ? 8 : 6, true);
    fam("cubics-precision", "diagonal cubics with one more monomial, several precisions and lifts", 2, 3, {2, 5, 7}, {1, 3, 30}, {0, 1, 2}, diagplus(2, 3, {1, 2}), th ? 8 : 6, true);
    fam("cubics-missing", "plane cubics without diagonal terms", 2, 3, {5, 7}, {2}, {0, 1}, allforms(2, 3, {0}, {0, 1}), 4, true);
    fam("quartics", "diagonal quartics with one more monomial", 2, 4, {3, 5}, {1, 3}, {0, 1}, diagplus(2, 4, {1}), th ? 7 : 5, true);
    fam("quintics", "diagonal quintics with one more monomial", 2, 5, {2, 3}, {2}, {1}, diagplus(2, 5, th ? vector<long>{1, 2} : vector<long>{1}), 3, true);
    fam("points-deep", "binary quadrics and cubics, deep poles", 1, 2, {3, 7, 101}, {1, 4}, {1}, box(1, 2, {{{2, 0}, {1}}, {{0, 2}, {1, 2}}, {{1, 1}, {0, 1}}}), th ? 120 : 60, true);
    fam("cubic-points-deep", "binary cubics, deep poles", 1, 3, {2, 5, 101}, {6}, {1}, box(1, 3, {{{3, 0}, {1}}, {{0, 3}, {2}}, {{1, 2}, {0, 1}}, {{2, 1}, {0, 1}}}), th ? 60 : 30, true);
    fam("binary-forms", "a few binary forms of degree 7, 9 and 12", 1, 7, {2, 5, 11}, {3}, {1}, box(1, 7, {{{7, 0}, {1}}, {{0, 7}, {2}}, {{3, 4}, {0, 1}}, {{6, 1}, {0, 1}}}), 4, true);
    fam("binary-forms-9", "a few binary forms of degree 9", 1, 9, {2, 5, 11}, {3}, {1}, box(1, 9, {{{9, 0}, {1}}, {{0, 9}, {2}}, {{3, 6}, {0, 1}}, {{8, 1}, {0, 1}}}), 4, true);
    fam("binary-forms-12", "a few binary forms of degree 12", 1, 12, {5, 11}, {3}, {1}, box(1, 12, {{{12, 0}, {1}}, {{0, 12}, {2}}, {{3, 9}, {0, 1}}, {{11, 1}, {0, 1}}}), 3, true);
    fam("cubics-deep", "a plane cubic, deep poles", 2, 3, {5}, {3}, {1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1}}, {{0, 0, 3}, {2}}, {{2, 1, 0}, {1}}, {{1, 1, 1}, {0, 1}}}), th ? 16 : 11, true);
    fam("large-primes", "binary and plane cubics over primes up to 2^60", 1, 3, {65537, 2147483659L, 4294967291L, 1152921504606846883L}, {1, 3}, {1}, box(1, 3, {{{3, 0}, {1}}, {{0, 3}, {2}}, {{1, 2}, {0, 1}}, {{2, 1}, {0, 1}}}), 6, true);
    fam("large-primes-cubics", "plane cubics over primes up to 2^60", 2, 3, {65537, 2147483659L, 4294967291L, 1152921504606846883L}, {1, 3}, {1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1}}, {{0, 0, 3}, {2}}, {{2, 1, 0}, {1}}, {{1, 1, 1}, {0, 1}}}), 4, true);
    fam("sextics", "a plane sextic", 2, 6, {5}, {2}, {1}, box(2, 6, {{{6, 0, 0}, {1}}, {{0, 6, 0}, {1}}, {{0, 0, 6}, {2}}, {{2, 3, 1}, {1}}}), 3, true);
    { vector<Form> k3 = diagplus(3, 4, {1}); vector<Form> sel; for (size_t i = 0; i < k3.size(); i += th ? 3 : 12) sel.push_back(k3[i]);
      fam("surfaces", "quartic surfaces", 3, 4, {3}, {2}, {1}, sel, th ? 4 : 3, true, 900); }
    { vector<Form> q5; { Form f = fermat(4, 5); q5.push_back(f); f[{1, 1, 1, 2}] = 1; q5.push_back(f); f = fermat(4, 5); f[{4, 1, 0, 0}] = 1; f[{0, 2, 2, 1}] = 1; q5.push_back(f); } if (!th) q5 = {q5[1]};
      auto E = make_shared<vector<Eq>>(); for (long p : th ? vector<long>{2, 3, 11} : vector<long>{2}) for (auto &f : q5) if (is_smooth(f, 3, 5, p)) E->push_back(Eq{3, 5, p, 2, 1, f}); int M = th ? 4 : 3;
      mc::family("quintic-surfaces-J", "quintic surfaces; every monomial up to pole order " + to_string(M), E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { run((*E)[i], M, false); }, 1800); }
    auto Jonly = [](const string &name, const string &bound, int n, int d, const vector<long> &ps, const vector<Form> &fs, int M) { auto E = make_shared<vector<Eq>>(); for (long p : ps) for (auto &f : fs) if (is_smooth(f, n, d, p)) E->push_back(Eq{n, d, p, 2, 1, f});
        if (E->size()) mc::family(name + "-J", bound + "; every monomial up to pole order " + to_string(M), E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { run((*E)[i], M, false); }, 1800); };
    Form s6 = fermat(4, 6); s6[{1, 2, 2, 1}] = 1; Jonly("sextic-surfaces", "sextic surfaces", 3, 6, th ? vector<long>{5, 7, 11} : vector<long>{5}, th ? vector<Form>{fermat(4, 6), s6} : vector<Form>{fermat(4, 6)}, th ? 5 : 3);
    Form t5 = fermat(5, 5); t5[{4, 1, 0, 0, 0}] = 1; t5[{0, 0, 2, 2, 1}] = 1; if (th) Jonly("quintic-threefolds", "quintic threefolds", 4, 5, {2}, {t5}, 3);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
