// Decides whether a degree-b polynomial is the characteristic polynomial of Frobenius, from point counts.
#ifndef VERIF_ZETA_ORACLE_H
#define VERIF_ZETA_ORACLE_H
#include "cr.h"
#include "fq.h"
#include "ref.h"
inline long prim_dim(int n, int d) {  // ((d-1)^(n+1) + (-1)^(n+1) (d-1)) / d
    long a = 1; for (int i = 0; i <= n; ++i) a *= d - 1;
    return (a + (n % 2 ? 1 : -1) * (d - 1)) / d;
}
// power sums of the roots of the monic polynomial cp
inline std::vector<NTL::ZZ> power_sums(const NTL::ZZX &cp, int K) {
    long b = deg(cp); std::vector<NTL::ZZ> s(K + 1);
    for (int k = 1; k <= K; ++k) {
        NTL::ZZ t; t = 0;
        for (int i = 1; i < k; ++i) if (i <= b) t += coeff(cp, b - i) * s[k - i];
        if (k <= b) t += k * coeff(cp, b - k);
        s[k] = -t;
    }
    return s;
}
// counts[k] = #X(F_{p^k}), k = 1..K (counts[0] unused); throws mc::Fail
inline void check_zeta(const NTL::ZZX &cp, int n, int d, long p, const std::vector<long> &counts, const std::string &what) {
    using namespace NTL;
    long b = prim_dim(n, d), w = n - 1;
    MC_CHECK(deg(cp) == b && IsOne(LeadCoeff(cp)), what << ": not monic of degree " << b << ": " << cp);
    MC_CHECK((b * w) % 2 == 0, "odd weight and degree");
    ZZ top = power_ZZ(p, b * w / 2); ZZ c0 = coeff(cp, 0);
    MC_CHECK(c0 == top || (w % 2 == 0 && c0 == -top), what << ": constant term is not +-p^" << b * w / 2 << ": " << cp);
    ZZ sg = c0 / top;
    for (long i = 0; 2 * i <= b; ++i) MC_CHECK(coeff(cp, i) * 1 == sg * coeff(cp, b - i) * power_ZZ(p, w * (b - 2 * i) / 2), what << ": functional equation fails at T^" << i << ": " << cp);
    int K = counts.size() - 1;
    std::vector<ZZ> s = power_sums(cp, K);
    for (int k = 1; k <= K; ++k) {
        ZZ q = power_ZZ(p, k), base; base = 0; for (int i = 0; i < n; ++i) base = base * q + 1;
        ZZ pts = w % 2 ? base - s[k] : base + s[k];
        MC_CHECK(pts == counts[k], what << ": predicts " << pts << " points over F_" << p << "^" << k << ", there are " << counts[k] << "; polynomial " << cp);
    }
}
inline std::vector<long> counts_of(const Form &f, int n, int d, long p, int K) { std::vector<long> c(K + 1); for (int k = 1; k <= K; ++k) c[k] = count_points(field(p, k), f, n + 1, d); return c; }
inline std::vector<long> counts_diag(const std::vector<long> &co, int d, long p, int K) { std::vector<long> c(K + 1); for (int k = 1; k <= K; ++k) c[k] = count_diagonal(field(p, k), co, d); return c; }
#endif
