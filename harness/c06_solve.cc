// C06: the linear solver.  Oracle: direct multiplication by (T + J), and ranks computed with plain integers.
#include "cr.h"
#include "ref.h"
using namespace NTL; using namespace std;

typedef vector<vector<long>> IM;
static IM decode(uint64_t code, int m, int n, long p) { IM T(m, vector<long>(n)); for (auto &r : T) for (auto &e : r) { e = code % p; code /= p; } return T; }
static string show(const IM &T) { ostringstream o; o << "["; for (auto &r : T) { o << "["; for (size_t j = 0; j < r.size(); ++j) o << (j ? " " : "") << r[j]; o << "]"; } o << "]"; return o.str(); }

static void checkB(const Vec<int64_t> &B, const IM &T, int m, int n, long p, const char *what) {
    long rk = ref::rank(T, p);
    MC_CHECK(B.length() == m - rk, what << ": " << B.length() << " complement indices, cokernel has dimension " << m - rk);
    for (long i = 0; i < B.length(); ++i) { MC_CHECK(B[i] >= 0 && B[i] < m, what << ": index " << B[i] << " out of range"); MC_CHECK(!i || B[i] > B[i - 1], what << ": indices not increasing: " << B); }
    IM X = T; for (auto &r : X) r.resize(n + B.length(), 0);
    for (long i = 0; i < B.length(); ++i) X[B[i]][n + i] = 1;
    MC_CHECK(m == 0 || ref::rank(X, p) == m, what << ": the coordinate vectors " << B << " do not descend to a basis of the cokernel of " << show(T));
}
template <class E> static void checkU(const Vec<int64_t> &B, const Mat<E> &U, const vector<vector<ZZ>> &T, int m, int n, const ZZ &q, const char *what) {
    MC_CHECK(U.NumRows() == n + B.length() && U.NumCols() == m, what << ": U is " << U.NumRows() << "x" << U.NumCols() << ", not " << n + B.length() << "x" << m);
    for (int i = 0; i < m; ++i) for (int k = 0; k < m; ++k) {
        ZZ s; for (int j = 0; j < n; ++j) s += T[i][j] * ZZ(conv<ZZ>(rep(U[j][k])));
        for (long b = 0; b < B.length(); ++b) if (B[b] == i) s += conv<ZZ>(rep(U[n + b][k]));
        s %= q;
        MC_CHECK(s == (i == k ? ZZ(1) % q : ZZ(0)), what << ": entry (" << i << "," << k << ") of (T + J) U is " << s);
    }
}
static vector<vector<ZZ>> toz(const IM &T) { vector<vector<ZZ>> R(T.size()); for (size_t i = 0; i < T.size(); ++i) for (long e : T[i]) R[i].push_back(ZZ(e)); return R; }

static void modp(const IM &T, int m, int n, long p) {
    zz_pPush push(p); auto TZ = toz(T);
    Mat<zz_p> A; A.SetDims(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] = T[i][j];
    Mat<zz_p> A0 = A;
    for (int how = 0; how < 5; ++how) {
        static const char *name[] = {"NTL", "flint", "generic/flint", "generic/NTL", "generic/flint over used outputs"};
        Vec<int64_t> B; Mat<zz_p> U;
        if (how == 4) { B.SetLength(7); for (int i = 0; i < 7; ++i) B[i] = 99; U.SetDims(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) U[i][j] = 1; }
        if (how == 0) solve_system_zz_p_NTL(B, U, A);
        else if (how == 1) { nmod_mat_t t, u; nmod_mat_init(t, m, n, p); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) nmod_mat_entry(t, i, j) = T[i][j];
            solve_system_zz_p_flint(B, u, t);
            U.SetDims(nmod_mat_nrows(u), nmod_mat_ncols(u)); for (long i = 0; i < (long)nmod_mat_nrows(u); ++i) for (long j = 0; j < (long)nmod_mat_ncols(u); ++j) { MC_CHECK(nmod_mat_entry(u, i, j) < (ulong)p, "unreduced entry"); U[i][j] = (long)nmod_mat_entry(u, i, j); }
            for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) MC_CHECK((long)nmod_mat_entry(t, i, j) == T[i][j], "input modified");
            nmod_mat_clear(t); nmod_mat_clear(u); }
        else solve_system_zz_p(B, U, A, how != 3);
        MC_CHECK(A == A0, name[how] << ": input modified");
        checkB(B, T, m, n, p, name[how]); checkU(B, U, TZ, m, n, ZZ(p), name[how]);
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
        if (how == 0) mc::outcome(str(p) + str(U));
    }
}
// T0 mod p; lifts with free cokernel of the same rank: pivot columns lifted by pert, the others set to combinations of the lifted pivots
static void padic(const IM &T0, int m, int n, long p, int prec, int pert, bool used) {
    ZZ q = power_ZZ(p, prec); zz_pPush pu(p); ZZ_pPush pz(q);
    // pivot columns (leftmost) and coordinates of the others over them
    vector<int> piv; { IM S; for (int i = 0; i < m; ++i) S.push_back({}); long rk = 0; for (int j = 0; j < n; ++j) { IM S2 = S; for (int i = 0; i < m; ++i) S2[i].push_back(T0[i][j]); long r2 = m ? ref::rank(S2, p) : 0; if (r2 > rk) { S = S2; rk = r2; piv.push_back(j); } } }
    vector<vector<ZZ>> T(m, vector<ZZ>(n));
    auto noise = [&](int i, int j) -> ZZ { if (pert == 0) return ZZ(0); ZZ x = power_ZZ(3 + pert, (i * 7 + j * 3 + 11)) + i * 5 + j; if (pert == 2) x = -ZZ(1) - ((i + 2 * j) % 3); return x; };
    for (int j : piv) for (int i = 0; i < m; ++i) { T[i][j] = (T0[i][j] + p * noise(i, j)) % q; if (sign(T[i][j]) < 0) T[i][j] += q; }
    for (int j = 0; j < n; ++j) if (find(piv.begin(), piv.end(), j) == piv.end()) {
        // coordinates by trying them all
        uint64_t N = 1; for (size_t t = 0; t < piv.size(); ++t) N *= p;
        bool ok = false;
        for (uint64_t c = 0; c < N && !ok; ++c) { uint64_t w = c; vector<long> x; for (size_t t = 0; t < piv.size(); ++t) { x.push_back(w % p); w /= p; }
            ok = true; for (int i = 0; i < m && ok; ++i) { long s = 0; for (size_t t = 0; t < piv.size(); ++t) s += x[t] * T0[i][piv[t]]; ok = (s - T0[i][j]) % p == 0; }
            if (ok) for (int i = 0; i < m; ++i) { ZZ s; for (size_t t = 0; t < piv.size(); ++t) s += (ZZ(x[t]) + p * noise(t + 3, j)) * T[i][piv[t]]; s %= q; if (sign(s) < 0) s += q; T[i][j] = s; } }
        MC_CHECK(ok, "harness: no coordinates");
    }
    Mat<ZZ_p> A; A.SetDims(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] = conv<ZZ_p>(T[i][j]);
    Mat<ZZ_p> A0 = A; Vec<int64_t> Bs[4];
    for (int how = 0; how < 4; ++how) {
        static const char *name[] = {"p-adic NTL", "p-adic flint", "p-adic generic/flint", "p-adic generic/NTL"};
        if (used && how < 2) continue;
        Vec<int64_t> B; Mat<ZZ_p> U;
        if (used) { B.SetLength(1); B[0] = 77; U.SetDims(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) U[i][j] = 1; }
        if (how == 0) solve_system_padic_NTL(B, U, A, prec); else if (how == 1) solve_system_padic_flint(B, U, A, prec); else solve_system_padic(B, U, A, prec, how == 2);
        MC_CHECK(A == A0, name[how] << ": input modified");
        checkB(B, T0, m, n, p, name[how]);
        checkU(B, U, T, m, n, q, name[how]);
        mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
        if (how == 1) mc::outcome(str(q) + str(U));
    }
}
// T = B C with B injective and C surjective modulo p: every set of rows and several sets of columns as pivots, larger shapes
static void factored(int m, int n, uint64_t rows, int cols, int kind, long p, int prec) {
    vector<int> S; for (int i = 0; i < m; ++i) if (rows >> i & 1) S.push_back(i); int r = S.size(); if (r > n) { mc::skipped(); return; }
    ZZ q = power_ZZ(p, prec); zz_pPush pu(p); ZZ_pPush pz(q); auto noise = [&](int i, int j) -> ZZ { return kind == 0 ? ZZ(0) : kind == 1 ? ZZ((i * 5 + j * 3 + i * j) % 4) : (power_ZZ(3, 7 * i + j + 1) + i * j) % q; };
    vector<vector<ZZ>> B(m, vector<ZZ>(r)), C(r, vector<ZZ>(n)), T(m, vector<ZZ>(n));
    for (int i = 0; i < m; ++i) for (int k = 0; k < r; ++k) { bool pivot = rows >> i & 1; B[i][k] = pivot ? (S[k] == i ? ZZ(1) + p * noise(i, k) : p * noise(k, i)) : noise(i, k); }
    for (int k = 0; k < r; ++k) { int c = cols == 0 ? k : cols == 1 ? n - 1 - k : (n - r) / 2 + (k + 1) % r; for (int j = 0; j < n; ++j) { bool pivot = cols == 0 ? j < r : cols == 1 ? j >= n - r : j >= (n - r) / 2 && j < (n - r) / 2 + r; C[k][j] = j == c ? ZZ(1) + p * noise(k, j + 1) : pivot ? p * noise(j, k) : noise(k + 2, j); } }
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { for (int k = 0; k < r; ++k) T[i][j] += B[i][k] * C[k][j]; T[i][j] %= q; }
    IM T0(m, vector<long>(n)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) T0[i][j] = to_long(T[i][j] % p); MC_CHECK(!m || !n || ref::rank(T0, p) == r, "harness: rank");
    modp(T0, m, n, p);
    Mat<ZZ_p> A; A.SetDims(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] = conv<ZZ_p>(T[i][j]); Mat<ZZ_p> A0 = A;
    for (int how = 0; how < 2; ++how) { Vec<int64_t> Bs; Mat<ZZ_p> U; solve_system_padic(Bs, U, A, prec, how); MC_CHECK(A == A0, "input modified"); checkB(Bs, T0, m, n, p, how ? "p-adic flint" : "p-adic NTL"); checkU(Bs, U, T, m, n, q, how ? "p-adic flint" : "p-adic NTL"); mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); }
}
void mc::setup() {
    bool th = mc::thorough();
    struct S { int m, n; long p; };
    vector<S> sh = {{1, 0, 3}, {3, 0, 5}, {1, 1, 7}, {2, 1, 7}, {1, 2, 7}, {2, 2, 2}, {2, 2, 3}, {2, 2, 5}, {2, 2, 7}, {3, 1, 5}, {1, 3, 5}, {2, 3, 2}, {3, 2, 2}, {2, 3, 3}, {3, 2, 3}, {2, 3, 5}, {3, 2, 5}, {3, 3, 2}, {3, 3, 3}, {2, 4, 2}, {4, 2, 2}, {2, 4, 3}, {4, 2, 3}, {4, 1, 3}, {1, 4, 3}, {3, 4, 2}, {4, 3, 2}, {5, 2, 2}, {2, 5, 2}};
    if (th) for (S s : vector<S>{{4, 4, 2}, {2, 3, 7}, {3, 2, 7}, {5, 3, 2}, {3, 5, 2}, {6, 2, 2}, {2, 6, 2}, {2, 5, 3}, {5, 2, 3}, {2, 2, 31}}) sh.push_back(s);
    for (S s : sh) {
        uint64_t N = 1; for (int i = 0; i < s.m * s.n; ++i) N *= s.p;
        uint64_t chunk = N > 4096 ? 64 : 1; if (N % chunk && chunk > 1) chunk = 1;
        mc::family("modp-" + to_string(s.m) + "x" + to_string(s.n) + "-F" + to_string(s.p), "every " + to_string(s.m) + "x" + to_string(s.n) + " matrix over F_" + to_string(s.p) + ", both back ends", N,
                   [=](uint64_t i) { return show(decode(i, s.m, s.n, s.p)); }, [=](uint64_t i) { modp(decode(i, s.m, s.n, s.p), s.m, s.n, s.p); });
    }
    // lifts; the cases include every rank
    vector<S> ps = {{1, 0, 3}, {3, 0, 3}, {1, 1, 3}, {2, 1, 3}, {1, 2, 3}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {2, 3, 3}, {3, 2, 3}, {3, 3, 2}};
    if (th) for (S s : vector<S>{{2, 2, 5}, {3, 3, 3}, {3, 4, 2}, {4, 3, 2}, {2, 4, 3}, {4, 2, 3}}) ps.push_back(s);
    for (S s : ps) {
        uint64_t N = 1; for (int i = 0; i < s.m * s.n; ++i) N *= s.p;
        mc::family("padic-" + to_string(s.m) + "x" + to_string(s.n) + "-Z" + to_string(s.p), "every " + to_string(s.m) + "x" + to_string(s.n) + " matrix over F_" + to_string(s.p) + " with three lifts whose cokernel is free, precisions 1..5, 17 and those around 2^63, 2^64 and 2^128", N,
                   [=](uint64_t i) { return show(decode(i, s.m, s.n, s.p)); }, [=](uint64_t i) {
            IM T = decode(i, s.m, s.n, s.p);
            vector<int> P = {1, 2, 3, 4, 5, 17};
            for (int b : {60, 62, 63, 64, 128}) { ZZ q(1); int e = 0; while (q < power2_ZZ(b)) { q *= s.p; ++e; } P.push_back(e - 1); P.push_back(e); P.push_back(e + 1); }
            for (int e : P) for (int pert = 0; pert < 3; ++pert) if (pert || e <= 5) { padic(T, s.m, s.n, s.p, e, pert, false); if (e <= 2) padic(T, s.m, s.n, s.p, e, pert, true); }
        });
    }
    // primes for which a prime power meets the machine word exactly
    static const vector<array<long, 2>> BP = {{4294967291L, 2}, {4294967311L, 2}, {3037000493L, 2}, {3037000507L, 2}, {2097143, 3}, {2642239, 3}, {2642257, 3}, {65521, 4}, {65537, 4}, {1073741789L, 2}, {1073741789L, 3}, {1152921504606846883L, 1}, {1152921504606846883L, 2}};
    mc::family("padic-large-primes", "the support patterns of 2x2 matrices over primes whose powers straddle 2^62, 2^63 and 2^64", BP.size() * 16, [](uint64_t i) { return "p=" + to_string(BP[i / 16][0]) + "^" + to_string(BP[i / 16][1]) + " support " + to_string(i % 16); }, [](uint64_t i) {
        long p = BP[i / 16][0]; int e = BP[i / 16][1]; IM T(2, vector<long>(2));
        if (p >= NTL_SP_BOUND) { mc::skipped(); return; }
        for (int t = 0; t < 4; ++t) if (i >> t & 1) T[t / 2][t % 2] = p - 1 - 3 * t;
        modp(T, 2, 2, p);
        if (ref::rank(T, p) == 2 || (T[0][1] == 0 && T[1][1] == 0)) for (int k = 1; k <= e + 1; ++k) for (int pert = 0; pert < 3; ++pert) if (p < 100000000 || ref::rank(T, p) == 2 || true) {
            // a zero column needs no coordinate search: padic() tries the coordinates only for non-pivot columns
            ZZ q = power_ZZ(p, k); zz_pPush pu(p); ZZ_pPush pz(q); Mat<ZZ_p> A; A.SetDims(2, 2); vector<vector<ZZ>> TZ(2, vector<ZZ>(2));
            for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { TZ[a][b] = T[a][b]; if (ref::rank(T, p) == 2 || T[0][b] || T[1][b]) TZ[a][b] += ZZ(p) * (pert == 0 ? ZZ(0) : pert == 1 ? power_ZZ(7, 20 + a + b) : q - 1 - a); TZ[a][b] %= q; A[a][b] = conv<ZZ_p>(TZ[a][b]); }
            for (int how = 0; how < 2; ++how) { Vec<int64_t> B; Mat<ZZ_p> U; solve_system_padic(B, U, A, k, how); checkB(B, T, 2, 2, p, how ? "flint" : "NTL"); checkU(B, U, TZ, 2, 2, q, how ? "flint" : "NTL"); mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); }
        }
    });
    {   // larger shapes: every set of pivot rows of six rows, and a few sets of up to 36 rows
        struct L { int m, n; uint64_t rows; int cols, kind; long p; int prec; }; static vector<L> ls;
        for (uint64_t r = 0; r < 64; ++r) for (int n : {2, 5, 6, 9}) for (int cols = 0; cols < 3; ++cols) for (int kind = 0; kind < 3; ++kind) for (long p : {3L, 101L}) { if (n < __builtin_popcountll(r)) continue; if (!th && (r + n + cols + kind + p) % 3) continue; ls.push_back({6, n, r, cols, kind, p, p == 3 ? 7 : 10}); }
        for (int m : {11, 20, 36}) for (int n : {10, 20, 45}) for (uint64_t pat : {0x555555555555ULL, 0xfULL, ~0xfULL, ~0ULL, 0x3c3c3c3c3ULL}) for (long p : {5L, 4294967291L, 1073741789L}) for (int prec : {1, 2, 6}) { uint64_t r = pat & ((1ULL << m) - 1); if (__builtin_popcountll(r) > n || (!th && m * n > 500 && prec == 6)) continue; ls.push_back({m, n, r, (m + n + prec) % 3, 2, p, prec}); }
        mc::family("larger", "every set of pivot rows of 6 rows with 2 to 9 columns, three positions of the pivot columns, and shapes up to 36x45, both back ends", ls.size(), [](uint64_t i) { const L &x = ls[i]; ostringstream o; o << x.m << "x" << x.n << " pivot rows " << x.rows << " columns " << x.cols << " kind " << x.kind << " p=" << x.p << "^" << x.prec; return o.str(); }, [](uint64_t i) { const L &x = ls[i]; if (x.p >= NTL_SP_BOUND) { mc::skipped(); return; } factored(x.m, x.n, x.rows, x.cols, x.kind, x.p, x.prec); }, 120);
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
