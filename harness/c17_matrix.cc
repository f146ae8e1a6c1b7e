// C17: matrix helpers against the textbook definitions, all shapes and all small entries; every draw of the
// random unimodular matrix generator
#include "cr.h"
#define CHOICE_MAIN
#include "choice.h"
#include <flint/fmpz_vec.h>
using namespace NTL; using namespace std;

static vector<ZZ> V = {ZZ(0), ZZ(1), ZZ(-1), ZZ(2), power2_ZZ(31) - 1, -power2_ZZ(31), power2_ZZ(32) + 1, power2_ZZ(62) - 1, -power2_ZZ(62), power2_ZZ(63) - 1, power2_ZZ(63), -power2_ZZ(64) + 1, power2_ZZ(64), power_ZZ(10, 30) + 7, -power_ZZ(3, 90), ZZ(-3)};
static ZZ entry(int o, int t) { return V[(o * 5 + t * 7 + (o / 16) * t * t) % V.size()]; }
static Mat<ZZ> matrix(int r, int c, int o) { Mat<ZZ> A; A.SetDims(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A[i][j] = entry(o, i * c + j); return A; }
static Mat<ZZ> prod(const Mat<ZZ> &A, const Mat<ZZ> &B) { Mat<ZZ> C; C.SetDims(A.NumRows(), B.NumCols()); for (int i = 0; i < A.NumRows(); ++i) for (int j = 0; j < B.NumCols(); ++j) for (int k = 0; k < A.NumCols(); ++k) C[i][j] += A[i][k] * B[k][j]; return C; }
static Mat<ZZ> tr(const Mat<ZZ> &A) { Mat<ZZ> C; C.SetDims(A.NumCols(), A.NumRows()); for (int i = 0; i < A.NumRows(); ++i) for (int j = 0; j < A.NumCols(); ++j) C[j][i] = A[i][j]; return C; }
struct MP {  // exactly sized mpz arrays, so that ASan sees every access outside
    mpz_t *a; int n;
    MP(const Mat<ZZ> &A) : n(A.NumRows() * A.NumCols()) { init(); for (int i = 0; i < A.NumRows(); ++i) for (int j = 0; j < A.NumCols(); ++j) mpz_set_str(a[i * A.NumCols() + j], str(A[i][j]).c_str(), 10); }
    MP(int n_) : n(n_) { init(); }
    void init() { a = (mpz_t *)malloc(max(1, n) * sizeof(mpz_t)); for (int i = 0; i < n; ++i) mpz_init_set_si(a[i], 555); }
    ~MP() { for (int i = 0; i < n; ++i) mpz_clear(a[i]); free(a); }
    ZZ get(int i) const { char *s = mpz_get_str(nullptr, 10, a[i]); ZZ z = conv<ZZ>(s); void (*fr)(void *, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(s, strlen(s) + 1); return z; }
    bool is(const Mat<ZZ> &A) const { for (int i = 0; i < A.NumRows(); ++i) for (int j = 0; j < A.NumCols(); ++j) if (get(i * A.NumCols() + j) != A[i][j]) return false; return true; }
};
static ZZ zfm(const fmpz_t f) { char *s = fmpz_get_str(nullptr, 10, f); ZZ z = conv<ZZ>(s); flint_free(s); return z; }
template <class T> static Mat<T> red(const Mat<ZZ> &A) { Mat<T> R; R.SetDims(A.NumRows(), A.NumCols()); for (int i = 0; i < A.NumRows(); ++i) for (int j = 0; j < A.NumCols(); ++j) R[i][j] = conv<T>(A[i][j]); return R; }

// characteristic polynomial from the definition, by expanding det(T - M) over all permutations
static vector<ZZ> cp_def(const Mat<ZZ> &M) {
    int n = M.NumRows(); vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; vector<ZZ> r(n + 1);
    do {
        int inv = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) inv += p[j] > p[i];
        vector<ZZ> q(1, ZZ(inv & 1 ? -1 : 1));
        for (int i = 0; i < n; ++i) { vector<ZZ> s(q.size() + (p[i] == i)); for (size_t k = 0; k < q.size(); ++k) { s[k] -= q[k] * M[i][p[i]]; if (p[i] == i) s[k + 1] += q[k]; } q = s; }
        for (size_t k = 0; k < q.size(); ++k) r[k] += q[k];
    } while (next_permutation(p.begin(), p.end()));
    return r;
}
// the same from the traces of the powers (Faddeev and LeVerrier)
static vector<ZZ> cp_traces(const Mat<ZZ> &M) {
    int n = M.NumRows(); vector<ZZ> c(n + 1); c[n] = 1; Mat<ZZ> B; B.SetDims(n, n);
    for (int k = 1; k <= n; ++k) { Mat<ZZ> A = B; for (int i = 0; i < n; ++i) A[i][i] += c[n - k + 1]; B = prod(M, A); ZZ t; for (int i = 0; i < n; ++i) t += B[i][i]; c[n - k] = -t / k; }
    return c;
}
static ZZ det_def(const Mat<ZZ> &M) { vector<ZZ> c = cp_def(M); return M.NumRows() % 2 ? -c[0] : c[0]; }
static void check_charpoly(const Mat<ZZ> &M) {
    const Mat<ZZ> M0 = M; Vec<ZZ> c = charpoly(M); int n = M.NumRows(); vector<ZZ> e = cp_traces(M0); if (n <= 6) MC_CHECK(e == cp_def(M0), "the two oracles differ");
    MC_CHECK(M == M0, "input modified"); MC_CHECK(c.length() == n + 1, "charpoly has length " << c.length());
    for (int i = 0; i <= n; ++i) MC_CHECK(c[i] == e[i], "charpoly coefficient " << i << " is " << c[i] << ", not " << e[i]);
    ZZ t; for (int i = 0; i < n; ++i) t += M0[i][i]; MC_CHECK(trace(M) == t, "trace is " << trace(M));
    mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(str(c));
}

void mc::setup() {
    bool th = mc::thorough();
    static vector<array<int, 4>> S; int M = th ? 6 : 4;
    for (int r = 1; r <= M; ++r) for (int k = 1; k <= M; ++k) for (int c = 1; c <= M; ++c) for (int o = 0; o < (th ? 64 : 32); ++o) S.push_back({r, k, c, o});
    for (int r : {1, 2, 7, 8, 9, 17, 22}) for (int k : {1, 2, 7, 8, 9, 17, 22}) for (int c : {1, 2, 7, 8, 9, 17, 22}) if (r > M || k > M || c > M) S.push_back({r, k, c, (r + 3 * k + 5 * c) % 32});
    auto key = [](uint64_t i) { ostringstream o; o << S[i][0] << "x" << S[i][1] << " times " << S[i][1] << "x" << S[i][2] << " entries " << S[i][3]; return o.str(); };
    mc::family("products", "every shape up to " + to_string(M) + " and every shape with dimensions from 1, 2, 7, 8, 9, 17, 22, entries of either sign and up to 143 bits", S.size(), key, [](uint64_t idx) {
        int r = S[idx][0], k = S[idx][1], c = S[idx][2], o = S[idx][3];
        Mat<ZZ> A = matrix(r, k, o), B = matrix(k, c, o + 3), P = prod(A, B), Bt = tr(B); const ZZ s = entry(o, 11);
        MP a(A), b(B), bt(Bt);
        { MP x(r * c); mul(x.a, a.a, r, k, b.a, k, c); MC_CHECK(x.is(P), "mpz product"); }
        // B given transposed: rows of the argument are columns of the factor
        { MP x(r * c); mul_transpose(x.a, a.a, r, k, bt.a, k, c); MC_CHECK(x.is(P), "mpz product with a transposed factor"); }
        { MP x(r * k); MP sc(1); mpz_set_str(sc.a[0], str(s).c_str(), 10); mul(x.a, sc.a[0], a.a, r, k); for (int i = 0; i < r * k; ++i) MC_CHECK(x.get(i) == s * A[i / k][i % k], "mpz scaling"); MC_CHECK(sc.get(0) == s, "scalar modified");
          MP y(A); mul(y.a, sc.a[0], y.a, r, k); for (int i = 0; i < r * k; ++i) MC_CHECK(y.get(i) == s * A[i / k][i % k], "mpz scaling in place");
          MP z(k); MP row(r * k); mul(z.a, sc.a[0], a.a, (int64_t)k); for (int i = 0; i < k; ++i) MC_CHECK(z.get(i) == s * A[0][i], "mpz vector scaling"); }
        { Mat<ZZ> v = matrix(k, 1, o + 5); MP vv(v), x(r); mul(x.a, a.a, r, k, vv.a, k); MC_CHECK(x.is(prod(A, v)), "mpz matrix times vector"); MC_CHECK(vv.is(v), "vector modified");
          MP d(1); mul(d.a[0], a.a, k, vv.a, k); ZZ e; for (int i = 0; i < k; ++i) e += A[0][i] * v[i][0]; MC_CHECK(d.get(0) == e, "mpz inner product");
          MP sm(k); mul(sm.a, a.a, k, vv.a, k); for (int i = 0; i < k; ++i) MC_CHECK(sm.get(i) == A[0][i] + v[i][0], "mpz sum of vectors"); }
        MC_CHECK(a.is(A) && b.is(B) && bt.is(Bt), "operands modified");
        // flint integers
        fmpz_mat_t F; fmpz_mat_init(F, r, k); ::conv(F, A); fmpz *v = _fmpz_vec_init(k), *w = _fmpz_vec_init(r); for (int i = 0; i < k; ++i) { ::conv(v + i, B[i][0]); } for (int i = 0; i < r; ++i) fmpz_set_si(w + i, 99);
        mul(w, F, v); for (int i = 0; i < r; ++i) MC_CHECK(zfm(w + i) == P[i][0], "fmpz matrix times vector");
        fmpz_t d; fmpz_init_set_ui(d, 5); mul(d, fmpz_mat_entry(F, 0, 0), v, k); MC_CHECK(zfm(d) == P[0][0], "fmpz inner product"); fmpz_clear(d);
        for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) MC_CHECK(zfm(fmpz_mat_entry(F, i, j)) == A[i][j], "fmpz matrix modified");
        for (int i = 0; i < k; ++i) MC_CHECK(zfm(v + i) == B[i][0], "fmpz vector modified");
        fmpz_mat_clear(F); _fmpz_vec_clear(v, k); _fmpz_vec_clear(w, r);
        // templates: integers, machine words, multiprecision residues
        { Mat<ZZ> R; mul_transpose(R, A, Bt); MC_CHECK(R == P, "mul_transpose over ZZ"); Mat<ZZ> T; transpose_mul_transpose(T, A, Bt); MC_CHECK(T == tr(P), "transpose_mul_transpose over ZZ"); }
        for (long p : {2l, 3l, 101l, 1000003l}) { zz_pPush push(p); Mat<zz_p> x = red<zz_p>(A), y = red<zz_p>(Bt), R, T; const Mat<zz_p> x0 = x, y0 = y; mul_transpose(R, x, y); MC_CHECK(R == red<zz_p>(P), "mul_transpose mod " << p); transpose_mul_transpose(T, x, y); MC_CHECK(T == red<zz_p>(tr(P)), "transpose_mul_transpose mod " << p); MC_CHECK(x == x0 && y == y0, "operands modified"); }
        for (ZZ q : {ZZ(3), power_ZZ(3, 39), power_ZZ(7, 60)}) { ZZ_pPush push(q); Mat<ZZ_p> x = red<ZZ_p>(A), y = red<ZZ_p>(Bt), R, T; const Mat<ZZ_p> x0 = x, y0 = y; R.SetDims(1, 1); mul_transpose(R, x, y); MC_CHECK(R == red<ZZ_p>(P), "mul_transpose mod " << q); transpose_mul_transpose(T, x, y); MC_CHECK(T == red<ZZ_p>(tr(P)), "transpose_mul_transpose mod " << q); MC_CHECK(x == x0 && y == y0, "operands modified"); }
        // nmod
        for (ulong m : {2ul, 101ul, (1ul << 62) + 1, (1ul << 63) + 29, ~0ul - 58}) {
            nmod_t mod; nmod_init(&mod, m); ZZ q = conv<ZZ>(m); nmod_mat_t N, N2, D; nmod_mat_init(N, r, k, m); nmod_mat_init(N2, r, k, m); nmod_mat_init(D, r, k, m); vector<ulong> u(k), o2(r, 7);
            Mat<ZZ> A2 = matrix(r, k, o + 9);
            for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { nmod_mat_entry(N, i, j) = conv<ulong>(ZZ(A[i][j] % q)); nmod_mat_entry(N2, i, j) = conv<ulong>(ZZ(A2[i][j] % q)); }
            for (int i = 0; i < k; ++i) u[i] = conv<ulong>(ZZ(B[i][0] % q));
            mul(o2.data(), N, u.data(), nmod_vec_dot_params_compat(k, mod));
            for (int i = 0; i < r; ++i) MC_CHECK(conv<ZZ>(o2[i]) == P[i][0] % q, "nmod matrix times vector mod " << m << " row " << i << " is " << o2[i]);
            nmod_mat_sub(D, N, N2); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) MC_CHECK(conv<ZZ>(nmod_mat_entry(D, i, j)) == (A[i][j] - A2[i][j]) % q, "nmod difference mod " << m);
            for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) MC_CHECK(conv<ZZ>(nmod_mat_entry(N, i, j)) == A[i][j] % q, "operand modified");
            nmod_mat_sub(N, N, N2); MC_CHECK(nmod_mat_equal(N, D), "nmod difference in place");
            nmod_mat_clear(N); nmod_mat_clear(N2); nmod_mat_clear(D);
        }
        mc::state(); mc::trans(20); mc::trace(); mc::nontrivial(); mc::outcome(str(P));
    });
    for (auto t : vector<array<int, 3>>{{1, -6, 6}, {2, -3, 3}, {3, -1, 1}, {3, 0, 1}, {4, 0, 1}}) {
        int n = t[0], lo = t[1], hi = t[2]; uint64_t N = 1; for (int i = 0; i < n * n; ++i) N *= hi - lo + 1;
        mc::family("charpoly-" + to_string(n) + "-" + to_string(hi - lo + 1), "every " + to_string(n) + "x" + to_string(n) + " matrix with entries " + to_string(lo) + ".." + to_string(hi), N, [](uint64_t i) { return "matrix " + to_string(i); }, [=](uint64_t c) {
            Mat<ZZ> A; A.SetDims(n, n); for (int i = 0; i < n * n; ++i) { A[i / n][i % n] = lo + (long)(c % (hi - lo + 1)); c /= hi - lo + 1; } check_charpoly(A);
        });
    }
    mc::family("charpoly-large", "sizes 1..6, entries up to 143 bits", 6 * 64, [](uint64_t i) { return "size " + to_string(i % 6 + 1) + " entries " + to_string(i / 6); }, [](uint64_t i) { check_charpoly(matrix(i % 6 + 1, i % 6 + 1, i / 6)); });
    mc::family("charpoly-larger", "sizes 7..22, entries up to 143 bits, full, triangular and companion matrices", 16 * 6, [](uint64_t i) { return "size " + to_string(i % 16 + 7) + " kind " + to_string(i / 16); }, [](uint64_t i) {
        int n = i % 16 + 7, kind = i / 16; Mat<ZZ> M = matrix(n, n, kind); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) { if (kind == 2 && c < r) M[r][c] = 0; if (kind == 3 && c != n - 1) M[r][c] = r == c + 1; if (kind >= 4) M[r][c] = (r * r + 3 * c * kind + r * c) % 7 - 3; } check_charpoly(M); });
    // the random generator: every draw is a choice
    for (auto t : vector<array<int, 3>>{{1, 2, 4}, {1, 7, 4}, {2, 2, 13}, {2, 3, 9}, {2, 5, 5}, {3, 2, 10}}) {
        int n = t[0], p = t[1], limit = t[2]; int pre = n == 1 ? 1 : 2; uint64_t N = 1; for (int i = 0; i < pre; ++i) N *= p;
        mc::family("random-SL" + to_string(n) + "-mod" + to_string(p), "every sequence of at most " + to_string(limit) + " draws", N, [=](uint64_t i) { ostringstream o; o << "first draws"; for (int k = 0; k < pre; ++k) { o << " " << i % p; i /= p; } return o.str(); }, [=](uint64_t c) {
            vector<long> prefix; for (int k = 0; k < pre; ++k) { prefix.push_back(c % p); c /= p; }
            zz_pPush push(p);
            auto r = choice::explore(prefix, limit, [&] {
                Mat<zz_p> A = random_SL_matrix(n);
                MC_CHECK(A.NumRows() == n && A.NumCols() == n, "shape"); Mat<ZZ> Z; Z.SetDims(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Z[i][j] = rep(A[i][j]);
                MC_CHECK(det_def(Z) % p == 1 % p, "determinant of " << A << " is " << det_def(Z) % p); mc::outcome(str(A)); mc::nontrivial();
            });
            mc::trace(r.first); mc::state(r.first + r.second); mc::trans((r.first + r.second) * limit); mc::skipped(r.second);
        });
    }
}
MC_MAIN
