// C19: multiplying a vector by M(k-1), ..., M(0) for a matrix polynomial M; oracle: step by step over the integers
#include "cr.h"
#include <flint/fmpz_vec.h>
using namespace NTL; using namespace std;

struct Case { int n, d; };
// the product computed one step at a time with NTL integers
static vector<ZZ> slow(const vector<Mat<ZZ>> &M, int64_t k, const vector<ZZ> &G, const ZZ &q) {
    vector<ZZ> v = G; int d = G.size();
    for (int64_t x = k - 1; x >= 0; --x) {
        vector<ZZ> w(d);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { ZZ c, xp(1); for (size_t t = 0; t < M.size(); ++t) { c += M[t][i][j] * xp; xp *= x; } w[i] += c * v[j]; }
        for (auto &e : w) e %= q;
        v = w;
    }
    return v;
}
static void check(int n, const vector<Mat<ZZ>> &M, int64_t k, const vector<ZZ> &G, const ZZ &q) {
    int d = G.size();
    de_Rham_non_degenerate_local D; D.n = n;
    fmpz_mat_struct *P = (fmpz_mat_struct *)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2));
    for (int t = 0; t < n + 2; ++t) { fmpz_mat_init(P + t, d, d); ::conv(P + t, M[t]); }
    fmpz *g = _fmpz_vec_init(d), *r = _fmpz_vec_init(d); for (int i = 0; i < d; ++i) { ::conv(g + i, G[i]); fmpz_set_si(r + i, -9); }
    fmpz_t m; fmpz_init(m); ::conv(m, q);
    vector<ZZ> e = slow(M, k, G, q);
    D.reduce_vector_ND_poly_flint(r, P, k, g, m);
    ZZ z;
    for (int i = 0; i < d; ++i) { ::conv(z, r + i); MC_CHECK(z == e[i], "k=" << k << " modulus " << q << ": coordinate " << i << " is " << z << ", not " << e[i]); ::conv(z, g + i); MC_CHECK(z == G[i], "the input vector was modified"); }
    D.reduce_vector_ND_poly_flint(g, P, k, g, m);  // in place
    for (int i = 0; i < d; ++i) { ::conv(z, g + i); MC_CHECK(z == e[i], "in place, k=" << k << " modulus " << q << ": coordinate " << i << " is " << z << ", not " << e[i]); }
    for (int t = 0; t < n + 2; ++t) { Mat<ZZ> B; ::conv(B, P + t); MC_CHECK(B == M[t], "the polynomial was modified"); fmpz_mat_clear(P + t); }
    flint_free(P); _fmpz_vec_clear(g, d); _fmpz_vec_clear(r, d); fmpz_clear(m);
    mc::state(k + 1); mc::trans(2 * k); mc::trace(); mc::nontrivial();
    ostringstream o; for (auto &x : e) o << x << " "; mc::outcome(o.str());
}
static vector<Mat<ZZ>> zero(int n, int d) { vector<Mat<ZZ>> M(n + 2); for (auto &m : M) m.SetDims(d, d); return M; }
// the positions an entry may occupy: everywhere, except that the top coefficient only has a first row (the code's contract)
static vector<array<int, 3>> slots(int n, int d) { vector<array<int, 3>> s; for (int t = 0; t < n + 2; ++t) for (int i = 0; i < (t == n + 1 ? 1 : d); ++i) for (int j = 0; j < d; ++j) s.push_back({t, i, j}); return s; }
static ZZ val(int s, int salt, const ZZ &q) { ZZ v = power_ZZ(7, 5 + s * 3 + salt) + s * s + 1; v %= q; if (IsZero(v)) v = 1; return v; }

void mc::setup() {
    bool th = mc::thorough();
    static vector<ZZ> Q = {ZZ(2), ZZ(3), ZZ(5), ZZ(7), ZZ(17), ZZ(101), power_ZZ(5, 13), power2_ZZ(32) - 5, power2_ZZ(62) + 135, power2_ZZ(63) - 25, power2_ZZ(63) + 29, power2_ZZ(64) - 59, power2_ZZ(64) + 13, power_ZZ(3, 60)};
    // every support
    static vector<Case> C; C = {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {1, 2}, {2, 2}};
    if (th) C.push_back({3, 2});
    for (auto c : C) {
        int n = c.n, d = c.d; auto S = make_shared<vector<array<int, 3>>>(slots(n, d));
        mc::family("support-n" + to_string(n) + "-size" + to_string(d), "every support of " + to_string(n + 2) + " coefficient matrices of size " + to_string(d) + ", " + to_string(Q.size()) + " moduli from 2 to beyond 2^64, 0.." + to_string(n + 8) + " steps", 1ull << S->size(),
                   [](uint64_t i) { ostringstream o; o << "support mask 0x" << hex << i; return o.str(); }, [=](uint64_t mask) {
            for (auto &q : Q) {
                // for the big families one sweep over the steps per modulus class is enough
                if (S->size() > 12 && (q == 2 || q == 17 || q == power2_ZZ(32) - 5 || q == power2_ZZ(62) + 135)) continue;
                vector<Mat<ZZ>> M = zero(n, d); vector<ZZ> G(d);
                for (size_t s = 0; s < S->size(); ++s) if (mask >> s & 1) M[(*S)[s][0]][(*S)[s][1]][(*S)[s][2]] = val(s, 0, q);
                for (int i = 0; i < d; ++i) G[i] = val(i, 40, q);
                for (int k = 0; k <= n + 8; ++k) if (S->size() <= 12 || k >= n) check(n, M, k, G, q);
            }
        });
    }
    // every value over tiny fields
    for (auto t : vector<array<int, 3>>{{1, 1, 5}, {2, 1, 5}, {3, 1, 3}, {1, 2, 2}, {1, 2, 3}}) {
        int n = t[0], d = t[1], p = t[2]; auto S = make_shared<vector<array<int, 3>>>(slots(n, d));
        uint64_t N = 1; for (size_t s = 0; s < S->size(); ++s) N *= p;
        mc::family("values-n" + to_string(n) + "-size" + to_string(d) + "-mod" + to_string(p), "every matrix polynomial over Z/" + to_string(p) + ", every unit vector and the all-ones vector", N,
                   [](uint64_t i) { return "polynomial " + to_string(i); }, [=](uint64_t code) {
            vector<Mat<ZZ>> M = zero(n, d); uint64_t c = code; for (auto &s : *S) { M[s[0]][s[1]][s[2]] = (long)(c % p); c /= p; }
            for (int g = 0; g <= d; ++g) { vector<ZZ> G(d); for (int i = 0; i < d; ++i) G[i] = (g == d || g == i) ? 1 : 0; for (int k : {0, 1, n + 1, n + 2, n + 3, 2 * p + 3}) check(n, M, k, G, ZZ(p)); }
        });
    }
    // block shaped supports of larger matrices (all pairs of a top row range and a right column range per coefficient)
    for (auto t : vector<array<int, 2>>{{2, 3}, {3, 4}, {2, 9}}) {
        int n = t[0], d = t[1]; int per = d <= 4 ? d + 1 : 4;  // rows kept: 0..d
        uint64_t N = 1; for (int i = 0; i < n + 2; ++i) N *= per;
        mc::family("blocks-n" + to_string(n) + "-size" + to_string(d), "every choice of a top-right block per coefficient", N, [](uint64_t i) { return "blocks " + to_string(i); }, [=](uint64_t code) {
            for (auto &q : Q) if (q == 3 || q == 101 || q == power2_ZZ(63) + 29 || q == power_ZZ(3, 60)) {
                vector<Mat<ZZ>> M = zero(n, d); uint64_t c = code; int s = 0;
                for (int t = 0; t < n + 2; ++t) { int b = c % per; if (d > 4) b = b * d / 3; c /= per; for (int i = 0; i < (t == n + 1 ? min(1, b) : b); ++i) for (int j = d - b; j < d; ++j) M[t][i][j] = val(s++ % 50, t, q); }
                vector<ZZ> G(d); for (int i = 0; i < d; ++i) G[i] = val(i, 3, q);
                for (int k : {n + 1, n + 2, n + 5, 19}) check(n, M, k, G, q);
            }
        });
    }
    // larger sizes
    {
        static vector<array<int, 3>> L; for (int n : {1, 2, 3, 4}) for (int d : th ? vector<int>{5, 6, 7, 8, 10, 11, 12, 13, 16, 17, 19, 20, 21, 24, 31, 32, 33, 35, 40, 52, 64, 65} : vector<int>{5, 8, 10, 12, 16, 17, 21, 33, 35}) for (int shape = 0; shape < 3; ++shape) L.push_back({n, d, shape});
        mc::family("larger-sizes", "sizes 5 to 35 (65 thorough), n=1..4, dense, upper triangular and banded coefficients, every modulus, 0 to n+3, 9 and 17 steps", L.size() * Q.size(), [](uint64_t i) { auto &l = L[i / Q.size()]; return "n=" + to_string(l[0]) + " size " + to_string(l[1]) + " shape " + to_string(l[2]) + " modulus " + str(Q[i % Q.size()]); }, [](uint64_t i) {
            const ZZ &q = Q[i % Q.size()]; auto &l = L[i / Q.size()]; int n = l[0], d = l[1], shape = l[2]; auto S = slots(n, d); vector<Mat<ZZ>> M = zero(n, d); vector<ZZ> G(d);
            for (size_t s = 0; s < S.size(); ++s) { auto &e = S[s]; if (shape == 0 || (shape == 1 && e[1] <= e[2]) || (shape == 2 && abs(e[1] - e[2]) <= 1 + e[0])) M[e[0]][e[1]][e[2]] = val(s % 97, n + e[0], q); }
            for (int j = 0; j < d; ++j) G[j] = val(j, 9, q);
            for (int k = 0; k <= n + 3; ++k) if (d <= 12 || k >= n) check(n, M, k, G, q);
            if (d <= 21) for (int k : {9, 17}) check(n, M, k, G, q);
        });
    }
    // many steps
    {
        static vector<int64_t> K; for (int64_t k = 1; k <= (th ? 400 : 120); ++k) K.push_back(k); for (int64_t k : {1000, 4096, 10007}) K.push_back(k);
        mc::family("steps", "1..120 steps (400 thorough) and up to 10007, every modulus, dense coefficients", K.size() * Q.size(), [](uint64_t i) { return "k=" + to_string(K[i / Q.size()]) + " modulus " + str(Q[i % Q.size()]); }, [](uint64_t i) {
            const ZZ &q = Q[i % Q.size()]; for (int n : {1, 2, 3}) for (int d : {1, 3}) { auto S = slots(n, d); vector<Mat<ZZ>> M = zero(n, d); vector<ZZ> G(d); for (size_t s = 0; s < S.size(); ++s) M[S[s][0]][S[s][1]][S[s][2]] = val(s, n, q); for (int j = 0; j < d; ++j) G[j] = val(j, 9, q); check(n, M, K[i / Q.size()], G, q); }
        });
    }
}
MC_MAIN
