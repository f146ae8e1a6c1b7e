// C15: conversions between number types, every value around every word boundary, every matrix shape up to a bound
#include "cr.h"
#include <flint/fmpz_vec.h>
using namespace NTL; using namespace std;

static vector<ZZ> V;
static void values(int K) {
    std::set<string> seen; auto put = [&](const ZZ &z) { if (seen.insert(str(z)).second) V.push_back(z); };
    for (int k = 0; k <= K; ++k) for (int j = -2; j <= 2; ++j) { put(power2_ZZ(k) + j); put(-power2_ZZ(k) + j); }
    for (int b = 1; b <= K / 8; ++b) { ZZ z; for (int i = 0; i < b; ++i) z = z * 256 + (i * 37 + 1) % 256; put(z); put(-z); put(z * 256); put(-z * 65536); }
    for (int k : {1000, 1023, 1024, 2047, 2048, 4096, 8191, 8192, 16384, 32767, 32768, 65536, 100003}) for (int j = -1; j <= 1; ++j) { put(power2_ZZ(k) + j); put(-power2_ZZ(k) + j); }
}
// an independent reading of an mpz / fmpz through decimal text
static string dec(const mpz_t a) { char *s = mpz_get_str(nullptr, 10, a); string r = s; void (*fr)(void *, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(s, strlen(s) + 1); return r; }
static string decf(const fmpz_t a) { char *s = fmpz_get_str(nullptr, 10, a); string r = s; flint_free(s); return r; }

void mc::setup() {
    bool th = mc::thorough();
    values(th ? 520 : 260);
    mc::family("scalars", "0, +-2^k+{-2..2} and multi-byte patterns up to " + string(th ? "520" : "260") + " bits, and around selected powers of two up to 2^100003, every previous content of the target", V.size(), [](uint64_t i) { return str(V[i]); }, [](uint64_t i) {
        const ZZ z = V[i]; string s = str(z);
        vector<ZZ> prev = {ZZ(0), ZZ(-5), power2_ZZ(200) + 7, -power2_ZZ(64)};
        for (auto &q : prev) {
            mpz_t a; mpz_init_set_str(a, str(q).c_str(), 10); ::conv(a, z); MC_CHECK(dec(a) == s, "mpz gets " << dec(a)); MC_CHECK(z == V[i], "input modified");
            ZZ b = q; ::conv(b, a); MC_CHECK(b == z, "back from mpz: " << b); MC_CHECK(dec(a) == s, "mpz input modified"); mpz_clear(a);
            fmpz_t f; fmpz_init(f); fmpz_set_str(f, (char *)str(q).c_str(), 10); ::conv(f, z); MC_CHECK(decf(f) == s, "fmpz gets " << decf(f));
            ZZ c = q; ::conv(c, f); MC_CHECK(c == z, "back from fmpz: " << c); MC_CHECK(decf(f) == s, "fmpz input modified");
            MC_CHECK(fmpz_sgn(f) == sign(z) && fmpz_equal_si(f, 0) == IsZero(z), "fmpz not canonical");
            fmpz_t g; fmpz_init(g); fmpz_set_str(g, (char *)s.c_str(), 10); MC_CHECK(fmpz_equal(f, g), "fmpz compares unequal to the same value"); fmpz_clear(g); fmpz_clear(f);
            mc::state(); mc::trans(4);
        }
        mc::trace(); mc::nontrivial(); mc::outcome(s);
    });
    static vector<array<int, 3>> S; int M = th ? 6 : 4;
    for (int r = 0; r <= M; ++r) for (int c = 0; c <= M; ++c) for (int o = 0; o < (th ? 40 : 16); ++o) S.push_back({r, c, o});
    for (int r : {0, 1, 2, 7, 8, 9, 16, 17, 22, 33}) for (int c : {0, 1, 2, 7, 8, 9, 16, 17, 22, 33}) if (r > M || c > M) for (int o = 0; o < 3; ++o) S.push_back({r, c, o * 11 + r});
    auto key = [](uint64_t i) { return to_string(S[i][0]) + "x" + to_string(S[i][1]) + " entries from offset " + to_string(S[i][2]); };
    auto entry = [](int o, int i, int j, int c) { return V[(o * 131 + (i * c + j) * 17) % V.size()]; };
    mc::family("matrices", "all shapes up to " + to_string(M) + "x" + to_string(M) + " and with dimensions from 0, 1, 2, 7, 8, 9, 16, 17, 22, 33, distinct entries of either sign and any size", S.size(), key, [entry](uint64_t k) {
        int r = S[k][0], c = S[k][1], o = S[k][2];
        Mat<ZZ> B; B.SetDims(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) B[i][j] = entry(o, i, j, c);
        const Mat<ZZ> B0 = B;
        mpz_t *A = (mpz_t *)malloc(max(1, r * c) * sizeof(mpz_t)); for (int i = 0; i < r * c; ++i) mpz_init_set_si(A[i], 77);
        ::conv(A, B);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(dec(A[i * c + j]) == str(B0[i][j]), "mpz entry " << i << "," << j << " is " << dec(A[i * c + j]));
        for (int pr : {0, 1}) { Mat<ZZ> D; if (pr) { D.SetDims(c + 1, r + 2); } ::conv(D, A, r, c); MC_CHECK(D.NumRows() == r && D.NumCols() == c && D == B0, "matrix back from mpz"); }
        for (int i = 0; i < r * c; ++i) mpz_clear(A[i]); free(A);
        fmpz_mat_t F; fmpz_mat_init(F, r, c); ::conv(F, B);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(decf(fmpz_mat_entry(F, i, j)) == str(B0[i][j]), "fmpz entry " << i << "," << j);
        Mat<ZZ> D; ::conv(D, F); MC_CHECK(D.NumRows() == r && D.NumCols() == c && D == B0, "matrix back from fmpz");
        // modular targets: the representative in [0, modulus)
        for (ZZ q : {ZZ(3), ZZ(101), power_ZZ(3, 40), power_ZZ(5, 30)}) {
            ZZ_pPush push(q); Mat<ZZ_p> E; ::conv(E, F); MC_CHECK(E.NumRows() == r && E.NumCols() == c, "shape");
            for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { ZZ e = B0[i][j] % q; MC_CHECK(rep(E[i][j]) == e && rep(E[i][j]) >= 0 && rep(E[i][j]) < q, "residue mod " << q << " of " << B0[i][j] << " is " << E[i][j]); }
            fmpz_mat_t G; fmpz_mat_init(G, r, c); ::conv(G, E); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(decf(fmpz_mat_entry(G, i, j)) == str(rep(E[i][j])), "fmpz of a residue");
            fmpz_mat_clear(G);
            for (ulong m : {2ul, 3ul, 27ul, 1000003ul, (1ul << 62) + 1, (1ul << 63) + 3, ~0ul}) {
                nmod_mat_t H; nmod_mat_init(H, r, c, m); ::conv(H, E);
                for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { ZZ e = rep(E[i][j]) % conv<ZZ>(m); MC_CHECK(conv<ZZ>(nmod_mat_entry(H, i, j)) == e, "nmod entry mod " << m << " is " << nmod_mat_entry(H, i, j)); }
                { ZZ_pPush p2(conv<ZZ>(m)); Mat<ZZ_p> K; ::conv(K, H); MC_CHECK(K.NumRows() == r && K.NumCols() == c, "shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(rep(K[i][j]) == conv<ZZ>(nmod_mat_entry(H, i, j)), "ZZ_p from nmod"); }
                { Mat<ZZ> K; ::conv(K, H); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(K[i][j] == conv<ZZ>(nmod_mat_entry(H, i, j)), "ZZ from nmod"); }
                if (m < 10000000) { zz_pPush p3(m); Mat<zz_p> K; ::conv(K, H); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(rep(K[i][j]) == (long)nmod_mat_entry(H, i, j), "zz_p from nmod");
                    nmod_mat_t L; nmod_mat_init(L, r, c, m); ::conv(L, K); MC_CHECK(nmod_mat_equal(L, H), "nmod from zz_p"); nmod_mat_clear(L);
                    fmpz_mat_t P; fmpz_mat_init(P, r, c); ::conv(P, K); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(decf(fmpz_mat_entry(P, i, j)) == to_string(rep(K[i][j])), "fmpz from zz_p"); fmpz_mat_clear(P); }
                nmod_mat_clear(H); mc::trans(5);
            }
        }
        fmpz_mat_clear(F); mc::state(); mc::trace(); mc::outcome(str(B0)); if (r && c) mc::nontrivial();
    });
    static const int LEN[18] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 64, 100};
    mc::family("vectors", "lengths 0..12 and 16, 17, 33, 64, 100, every offset into the alphabet", 18 * (th ? 200 : 60), [](uint64_t i) { return "length " + to_string(LEN[i % 18]) + " offset " + to_string(i / 18); }, [](uint64_t k) {
        int n = LEN[k % 18], o = k / 18; Vec<ZZ> v; v.SetLength(n); for (int i = 0; i < n; ++i) v[i] = V[(o * 29 + i * 53) % V.size()];
        fmpz *a = _fmpz_vec_init(n); ::conv(a, v); for (int i = 0; i < n; ++i) MC_CHECK(decf(a + i) == str(v[i]), "fmpz entry " << i);
        for (int pr : {0, 20}) { Vec<ZZ> b; b.SetLength(pr); ::conv(b, a, n); MC_CHECK(b.length() == n && b == v, "vector back"); }
        for (ZZ q : {ZZ(7), power_ZZ(3, 45)}) { ZZ_pPush push(q); Vec<ZZ_p> w; ::conv(w, a, n); MC_CHECK(w.length() == n, "length"); for (int i = 0; i < n; ++i) MC_CHECK(rep(w[i]) == v[i] % q, "residue " << i);
            fmpz *c = _fmpz_vec_init(n); ::conv(c, w); for (int i = 0; i < n; ++i) MC_CHECK(decf(c + i) == str(rep(w[i])), "fmpz of residue"); _fmpz_vec_clear(c, n); }
        _fmpz_vec_clear(a, n); mc::state(); mc::trans(4); mc::trace(); if (n) mc::nontrivial(); mc::outcome(str(v));
    });
}
MC_MAIN
