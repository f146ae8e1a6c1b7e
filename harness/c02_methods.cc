// C02: the general and the nondegenerate method compute the same Frobenius matrix
#include "frob.h"
using namespace NTL; using namespace std;
static void cmp(const Vec<ZZ_p> &a, const Vec<ZZ_p> &b, long c, const char *x, const char *y) { MC_CHECK(a == b, "column " << c << ": " << x << " gives " << a << ", " << y << " gives " << b); mc::trans(); mc::trace(); mc::nontrivial(); }
static Mat<ZZ_p> columns(const vector<Vec<ZZ_p>> &c) { Mat<ZZ_p> F; long n = c.size(); F.SetDims(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (c[i].length()) F[j][i] = c[i][j]; return F; }
static void cols(const FCase &c, const vector<long> &which) {
    Mod mod(c.e.p, c.e.prec);
    map<Vec<int64_t>, ZZ_p, vi64less> f = over(lifted(c.e));
    hypersurface A(c.e.p, c.e.prec, f, false); hypersurface_non_degenerate B(c.e.p, c.e.prec, f, false);
    MC_CHECK(A.dR->coKernels_J_basis == B.dR->coKernels_J_basis, "the two methods use different bases");
    long nb = A.dR->coKernels_J_basis.length(); vector<Vec<ZZ_p>> ca(nb);
    for (long i = 0; i < nb; ++i) {
        if (which.size() && find(which.begin(), which.end(), i) == which.end()) continue;
        mc::state(); ca[i] = A.frob_J(i, c.N); Vec<ZZ_p> b = B.frob_ND(i, c.N);
        cmp(ca[i], b, i, "general method", "nondegenerate method"); mc::outcome(str(b));
        if (which.size()) { cmp(ca[i], B.frob_J(i, c.N), i, "general method", "general method on the nondegenerate object"); continue; }
    }
    if (which.size()) return;
    Vec<int64_t> N; N.SetLength(c.e.n); for (long i = 0; i < c.e.n; ++i) N[i] = c.N;
    Mat<ZZ_p> want = columns(ca), a = A.frob_matrix_J(N), b = B.frob_matrix_ND(N), d = B.frob_matrix_J(N);
    MC_CHECK(a == want, "frob_matrix_J gives " << a << ", its columns are " << want); MC_CHECK(b == want, "frob_matrix_ND gives " << b << ", the columns of the general method are " << want);
    MC_CHECK(d == want, "frob_matrix_J of the nondegenerate object gives " << d << ", the columns of the general method are " << want); mc::trans(3);
}
// matrices with a different number of terms for every pole order, zero included
static void vectors(const FCase &c, const vector<int> &vals) {
    int maxN = vals.back(), nv = vals.size();
    Mod mod(c.e.p, c.e.prec);
    map<Vec<int64_t>, ZZ_p, vi64less> f = over(lifted(c.e));
    hypersurface A(c.e.p, c.e.prec, f, false); hypersurface_non_degenerate B(c.e.p, c.e.prec, f, false);
    long nb = A.dR->coKernels_J_basis.length(); int n = c.e.n;
    vector<vector<Vec<ZZ_p>>> memo(maxN + 1, vector<Vec<ZZ_p>>(nb));
    for (int k : vals) if (k) for (long i = 0; i < nb; ++i) { hypersurface H(c.e.p, c.e.prec, f, false); memo[k][i] = H.frob_J(i, k); }
    long tot = 1; for (int i = 0; i < n; ++i) tot *= nv;
    for (long w = 0; w < tot; ++w) {
        mc::state(); Vec<int64_t> N; N.SetLength(n); long x = w; for (int i = 0; i < n; ++i) { N[i] = vals[x % nv]; x /= nv; }
        vector<Vec<ZZ_p>> col(nb); for (long i = 0; i < nb; ++i) { int m = pole(A, i); if (N[m - 1]) col[i] = memo[N[m - 1]][i]; }
        Mat<ZZ_p> want = columns(col), a = A.frob_matrix_J(N), b = B.frob_matrix_ND(N);
        MC_CHECK(a == want, "N = " << N << ": frob_matrix_J gives " << a << ", its columns are " << want); MC_CHECK(b == want, "N = " << N << ": frob_matrix_ND gives " << b << ", expected " << want);
        mc::trans(2); mc::trace(2); mc::nontrivial(2); mc::outcome(str(a));
    }
}
void mc::setup() {
    bool th = mc::thorough();
    { vector<Form> fs; fs.push_back(fermat(4, 4)); if (th) for (auto &f : diagplus(3, 4, {1, 2})) fs.push_back(f);
      fam("surfaces", "diagonal quartic surfaces (with one more monomial), columns of each pole order", 3, 4, th ? vector<long>{3, 5, 7} : vector<long>{3}, th ? vector<int>{0} : vector<int>{4}, th ? vector<int>{0, 1} : vector<int>{1}, fs, {1}, true, [=](const FCase &c) { cols(c, th ? vector<long>{0, 1, 2, 10, 20} : vector<long>{0, 9, 20}); }, 900); }
    { vector<Form> q5; { Form f = fermat(4, 5); q5.push_back(f); f[{1, 1, 1, 2}] = 1; q5.push_back(f); f = fermat(4, 5); f[{4, 1, 0, 0}] = 1; f[{0, 2, 2, 1}] = 1; q5.push_back(f); } if (!th) q5 = {q5[1]};
      fam("quintic-surfaces", "quintic surfaces, columns of each pole order", 3, 5, th ? vector<long>{2, 3} : vector<long>{2}, th ? vector<int>{0} : vector<int>{4}, {1}, q5, {1}, true, [=](const FCase &c) { cols(c, th ? vector<long>{0, 1, 3, 4, 20, 47, 48, 51} : vector<long>{0, 51}); }, 900); }
    fam("quintics-small-primes", "diagonal plane quintics with one more monomial", 2, 5, th ? vector<long>{2, 3, 7, 11, 13} : vector<long>{2, 3}, {0}, {1}, th ? diagplus(2, 5, {1, 2}) : box(2, 5, {{{5, 0, 0}, {1}}, {{0, 5, 0}, {1}}, {{0, 0, 5}, {1}}, {{1, 3, 1}, {0, 1}}, {{0, 2, 3}, {0, 1}}}), {1, 2}, true, [](const FCase &c) { cols(c, {}); }, 300);
    int mx = th ? 4 : 2; vector<int> upto; for (int i = 0; i <= mx; ++i) upto.push_back(i); vector<int> far = th ? vector<int>{0, 1, 3, 5, 6, 9, 12} : vector<int>{0, 1, 4, 7};
    fam("term-vectors", "plane cubics, every vector of term counts up to " + to_string(mx) + ", zeros included", 2, 3, {2, 5, 7}, {5}, {1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1}}, {{1, 1, 1}, {0, 1}}}), {1}, true, [=](const FCase &c) { vectors(c, upto); }, 300);
    fam("term-vectors-far", "plane cubics, every vector of term counts from a list up to " + to_string(far.back()), 2, 3, {2, 5, 7, 11}, {40}, {1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1}}, {{1, 1, 1}, {0, 1}}}), {1}, true, [=](const FCase &c) { vectors(c, far); }, 300);
    fam("term-vectors-points", "binary cubics and quartics, every number of terms up to " + to_string(4 * far.back()), 1, 3, {2, 5, 7, 11}, {60}, {1}, box(1, 3, {{{3, 0}, {1}}, {{0, 3}, {1, 2}}, {{1, 2}, {0, 1}}}), {1}, true, [=](const FCase &c) { vector<int> v; for (int i = 0; i <= 4 * far.back(); ++i) v.push_back(i); vectors(c, v); }, 300);
    fam("term-vectors-quartics", "plane quartics, every vector of term counts up to " + to_string(mx), 2, 4, th ? vector<long>{3, 5} : vector<long>{3}, {6}, {1}, box(2, 4, {{{4, 0, 0}, {1}}, {{0, 4, 0}, {1}}, {{0, 0, 4}, {1}}, {{2, 1, 1}, {0, 1}}}), {1}, true, [=](const FCase &c) { vectors(c, upto); }, 600);
    frob_families([](const FCase &c) { cols(c, {}); }, true);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
