// C21: Frobenius columns are divisible by the power of p their Hodge level demands
#include "frob.h"
using namespace NTL; using namespace std;
static long vfact(long k, long p) { long v = 0; while (k) { k /= p; v += k; } return v; }
static long rank_mod(const Mat<ZZ> &M, long p) { zz_pPush push(p); Mat<zz_p> m = NTL::conv<Mat<zz_p>>(M); return gauss(m); }
// digits of a column that are determined: the working precision less what the division by the factorial loses
static long digits(const FCase &c, int m, int N) { long v = vfact(c.e.p * (m + N - 1) - 1, c.e.p), l = v - (c.e.n - 1); return c.e.prec - max(0L, l); }
static void matrix(const FCase &c, const Mat<ZZ_p> &F, const hypersurface &H, const Vec<int64_t> &N, const char *what) {
    long nb = H.dR->coKernels_J_basis.length(), top = 0, p = c.e.p; int n = c.e.n;
    MC_CHECK(F.NumRows() == nb && F.NumCols() == nb, what << ": matrix has the wrong shape");
    bool all1 = true;
    for (long i = 0; i < nb; ++i) {
        int m = pole(H, i); if (m == n) ++top; mc::state(); mc::trans();
        if (!N[m - 1]) { for (long j = 0; j < nb; ++j) MC_CHECK(IsZero(F[j][i]), what << ": column " << i << " has no terms but entry " << j << " is " << F[j][i]); continue; }
        long dg = digits(c, m, N[m - 1]), need = n - m; if (dg < 1) { all1 = false; continue; }
        ZZ q = power_ZZ(p, min(dg, need));
        for (long j = 0; j < nb; ++j) MC_CHECK(IsZero(rep(F[j][i]) % q), what << ": entry " << j << " of column " << i << " (pole order " << m << ") is " << F[j][i] << ", not divisible by " << q);
        if (need && dg >= need) mc::nontrivial();
    }
    if (all1) { Mat<ZZ> Z = NTL::conv<Mat<ZZ>>(F); long r = rank_mod(Z, p); MC_CHECK(r <= top, what << ": rank mod p is " << r << ", only " << top << " basis elements of maximal pole order"); mc::nontrivial(); mc::outcome(to_string(r) + str(Z)); }
    mc::trace();
}
static void run(const FCase &c, bool vary) {
    Mod mod(c.e.p, c.e.prec); map<Vec<int64_t>, ZZ_p, vi64less> f = over(lifted(c.e)); int n = c.e.n;
    vector<Vec<int64_t>> Ns; long base = vary ? 3 : 1, tot = 1; if (vary) for (int i = 0; i < n; ++i) tot *= base;
    for (long w = 0; w < tot; ++w) { Vec<int64_t> N; N.SetLength(n); long x = w; for (int i = 0; i < n; ++i) { N[i] = vary ? x % base : c.N; x /= base; } Ns.push_back(N); }
    for (auto &N : Ns) {
        { hypersurface H(c.e.p, c.e.prec, f, false); matrix(c, H.frob_matrix_J(N), H, N, "general method"); }
        if (c.nd) { hypersurface_non_degenerate H(c.e.p, c.e.prec, f, false); matrix(c, H.frob_matrix_ND(N), H, N, "nondegenerate method"); }
    }
}
static void runnd(const FCase &c, const vector<Vec<int64_t>> &Ns) {
    Mod mod(c.e.p, c.e.prec); map<Vec<int64_t>, ZZ_p, vi64less> f = over(lifted(c.e));
    hypersurface_non_degenerate H(c.e.p, c.e.prec, f, false); for (auto &N : Ns) matrix(c, H.frob_matrix_ND(N), H, N, "nondegenerate method");
}
static Vec<int64_t> V(vector<long> v) { Vec<int64_t> r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
void mc::setup() {
    bool th = mc::thorough();
    fam("surfaces", "quartic surfaces, nondegenerate method, several vectors of term counts", 3, 4, th ? vector<long>{3, 5, 7} : vector<long>{5}, th ? vector<int>{0} : vector<int>{5}, {0}, th ? diagplus(3, 4, {1}) : box(3, 4, {{{4, 0, 0, 0}, {1}}, {{0, 4, 0, 0}, {1}}, {{0, 0, 4, 0}, {2}}, {{0, 0, 0, 4}, {1}}, {{1, 1, 1, 1}, {0, 1}}}), {1}, true,
        [=](const FCase &c) { runnd(c, th ? vector<Vec<int64_t>>{V({1, 1, 1}), V({0, 1, 1}), V({0, 0, 2}), V({0, 0, 0}), V({2, 1, 0})} : vector<Vec<int64_t>>{V({1, 1, 0}), V({0, 0, 0})}); }, 900);
    fam("quintics-small-primes", "diagonal plane quintics with one more monomial", 2, 5, th ? vector<long>{2, 3, 7, 11, 13} : vector<long>{2, 3, 7}, {0}, {1}, th ? diagplus(2, 5, {1, 2}) : box(2, 5, {{{5, 0, 0}, {1}}, {{0, 5, 0}, {1}}, {{0, 0, 5}, {1}}, {{1, 3, 1}, {0, 1}}, {{0, 2, 3}, {0, 1}}}), {1, 2}, false, [](const FCase &c) { run(c, false); }, 300);
    fam("term-vectors", "plane cubics, every vector of term counts 0..2", 2, 3, {2, 5, 7, 11}, {4, 7}, {0, 1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1}}, {{1, 1, 1}, {0, 1}}, {{2, 1, 0}, {0, 1}}}), {1}, false, [](const FCase &c) { run(c, true); }, 300);
    fam("term-vectors-quartics", "plane quartics, every vector of term counts 0..2", 2, 4, th ? vector<long>{3, 5, 7} : vector<long>{3}, {6}, {1}, box(2, 4, {{{4, 0, 0}, {1}}, {{0, 4, 0}, {1}}, {{0, 0, 4}, {1}}, {{2, 1, 1}, {0, 1}}}), {1}, false, [](const FCase &c) { run(c, true); }, 600);
    frob_families([](const FCase &c) { run(c, false); }, false);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
