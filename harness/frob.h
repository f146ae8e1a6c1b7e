// Families of Frobenius computations shared by the harnesses of C02, C03 and C21
#ifndef VERIF_FROB_H
#define VERIF_FROB_H
#include "eqs.h"
struct FCase { Eq e; int N; bool nd; };
inline std::string show(const FCase &c) { return show(c.e) + " terms=" + std::to_string(c.N) + (c.nd ? " (both methods)" : " (general method)"); }
// the exponents around the machine word for a prime
inline std::vector<int> word_precisions(long p) { NTL::ZZ q(1); int e = 0; while (q * p < NTL::power2_ZZ(62)) { q *= p; ++e; } std::vector<int> r; for (int k = e; ; ++k) { r.push_back(k); if (NTL::power_ZZ(p, k) > NTL::power2_ZZ(64)) break; } return r; }
// precision at which the division by the factorial leaves at least one digit
inline int enough(int n, long p, int m, int N) { long v = 0, k = p * (m + N - 1) - 1; while (k) { k /= p; v += k; } return (int)std::max(1L, v - (n - 1) + 1); }
inline void fam(const std::string &name, const std::string &bound, int n, int d, const std::vector<long> &ps, const std::vector<int> &precs, const std::vector<int> &lifts, const std::vector<Form> &fs, const std::vector<int> &Ns, bool ndonly, std::function<void(const FCase &)> run, double timeout = 120) {
    auto E = std::make_shared<std::vector<FCase>>();
    for (long p : ps) if (d % p) for (auto &f : fs) if (is_smooth(f, n, d, p)) {
        bool nd = is_nd(f, n, d, p); if (ndonly && !nd) continue;
        for (int N : Ns) for (int l : lifts) {
            std::vector<int> P;
            for (int q : precs) { if (q > 0) P.push_back(q); if (q == 0) P.push_back(enough(n, p, n, N) + n); if (q < 0) for (int w : word_precisions(p)) P.push_back(w); }
            for (int q : P) { if (l && q == 1) continue; E->push_back(FCase{Eq{n, d, p, q, l, f}, N, nd}); }
        }
    }
    if (E->size()) mc::family(name, bound, E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { run((*E)[i]); }, timeout);
}
inline int pole(const hypersurface &H, long i) { long s = H.n + 1; for (long j = 0; j <= H.n; ++j) s += H.dR->coKernels_J_basis[i][j]; return (int)(s / H.d); }
// precs: positive = that precision, 0 = just enough for the division by factorials, -1 = all those around the machine word
inline void frob_families(std::function<void(const FCase &)> run, bool ndonly, double w = 1) {
    bool th = mc::thorough();
    fam("points", "every smooth binary quadric with coefficients 0..2, one to three terms", 1, 2, {3, 5, 7}, {1, 4, -1}, {0, 1}, allforms(1, 2, {0, 1, 2}, {0, 1, 2}), {1, 2, 3}, ndonly, run);
    fam("cubic-points", "every smooth binary cubic with coefficients 0..1 (diagonal 0..2)", 1, 3, {2, 5, 7, 19}, {3, 0, -1}, {0, 2}, allforms(1, 3, {0, 1, 2}, {0, 1}), {1, 2}, ndonly, run);
    fam("points-larger-primes", "binary quadrics at primes up to 2^15 + 3 (2^16 + 1 thorough)", 1, 2, th ? std::vector<long>{101, 257, 1009, 32749, 32771, 65521, 65537} : std::vector<long>{101, 1009, 32771}, {2, -1}, th ? std::vector<int>{0, 1} : std::vector<int>{1}, box(1, 2, {{{2, 0}, {1}}, {{0, 2}, {3}}, {{1, 1}, {0, 1}}}), th ? std::vector<int>{1, 2} : std::vector<int>{2}, ndonly, run, 900);
    fam("cubic-points-larger-primes", "binary cubics at primes up to 4099 (65537 thorough)", 1, 3, th ? std::vector<long>{101, 257, 1009, 32749, 65537} : std::vector<long>{101, 4099}, {2, -1}, {1}, box(1, 3, {{{3, 0}, {1}}, {{0, 3}, {2}}, {{1, 2}, {0, 1}}, {{2, 1}, {0, 1}}}), {1, 2}, ndonly, run);
    for (int d : {4, 5, 6, 7, 9}) fam("binary-forms-degree-" + std::to_string(d), "a few binary forms of higher degree", 1, d, th ? std::vector<long>{2, 3, 5, 7, 11, 13, 31} : std::vector<long>{2, 3, 5, 7, 13}, {0, -1}, {1}, [&] { std::vector<Form> r; for (int m = 0; m < 4; ++m) { Form f; f[{d, 0}] = 1; f[{0, d}] = 2; if (m & 1) f[{d - 1, 1}] = 1; if (m & 2) f[{d / 2, d - d / 2}] += 1; r.push_back(f); } return r; }(), {1, 2}, ndonly, run);
    fam("cubics-primes-of-three-digits", "a few plane cubics at p = 101 and 257 (1009 thorough)", 2, 3, th ? std::vector<long>{101, 257, 1009} : std::vector<long>{101, 257}, {2, 7, 8}, {1}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1}}, {{0, 0, 3}, {2}}, {{1, 1, 1}, {0, 1}}}), {1, 2}, ndonly, run);
    fam("cubics", "every smooth plane cubic with diagonal coefficients 1 and others 0 or 1", 2, 3, {5}, {0}, {1}, allforms(2, 3, {1}, {0, 1}), {1, 2}, ndonly, run);
    fam("cubics-word", "diagonal plane cubics with one more monomial, precisions around the machine word", 2, 3, th ? std::vector<long>{2, 5, 7, 19} : std::vector<long>{2, 5}, {1, 2, -1}, {0, 1, 2}, th ? diagplus(2, 3, {1, 2}) : box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1}}, {{1, 1, 1}, {0, 1}}, {{2, 1, 0}, {0, 1}}}), th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, ndonly, run);
    fam("cubics-missing", "plane cubics without diagonal terms", 2, 3, {5}, {0}, {1}, allforms(2, 3, {0}, {0, 1}), {1}, ndonly, run);
    fam("cubics-larger-primes", "a few plane cubics at larger primes", 2, 3, th ? std::vector<long>{11, 13, 17, 19, 23, 37, 61} : std::vector<long>{11, 17, 19}, {0, -1}, {0}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1}}, {{0, 0, 3}, {2}}, {{1, 1, 1}, {0, 1}}}), {1, 2}, ndonly, run);
    fam("quartics", "diagonal plane quartics with one more monomial", 2, 4, th ? std::vector<long>{3, 5, 7, 11} : std::vector<long>{3, 5}, {0, -1}, {0, 1}, th ? diagplus(2, 4, {1, 2}) : box(2, 4, {{{4, 0, 0}, {1}}, {{0, 4, 0}, {1}}, {{0, 0, 4}, {1}}, {{2, 1, 1}, {0, 1}}}), {1, 2}, ndonly, run, 300);
    if (th) fam("quintics", "diagonal plane quintics with one more monomial", 2, 5, {3, 7}, {0, -1}, {1}, diagplus(2, 5, {1}), {1, 2}, ndonly, run, 300);
}
#endif
