// Families of equations used by the harnesses that work on reduction and hypersurface objects.
#ifndef VERIF_EQS_H
#define VERIF_EQS_H
#include "cr.h"
#include "ref.h"
#include "fq.h"
struct Eq { int n, d; long p; int prec; int lift; Form f; };  // lift 0: coefficients in [0,p); 1: plus multiples of p; 2: minus multiples of p
inline std::string show(const Eq &e) { return "p=" + std::to_string(e.p) + " N=" + std::to_string(e.prec) + " lift=" + std::to_string(e.lift) + " f=" + show(e.f); }
inline bool is_smooth(const Form &f, int n, int d, long p) { return ref::smooth(f, n + 1, d, p); }
inline bool is_nd(const Form &f, int n, int d, long p) { return ref::nondegenerate(f, n + 1, d, p); }
// the equation over Z that is reduced modulo p^N; Z-valued so that every object and every oracle starts from the same numbers
inline std::map<Mono, NTL::ZZ> lifted(const Eq &e) {
    std::map<Mono, NTL::ZZ> r; std::vector<Mono> ms = monos(e.n + 1, e.d); NTL::ZZ q = NTL::power_ZZ(e.p, e.prec);
    for (size_t i = 0; i < ms.size(); ++i) {
        auto it = e.f.find(ms[i]); NTL::ZZ c(it == e.f.end() ? 0 : imod(it->second, e.p));
        if (e.lift == 1) c += NTL::ZZ(e.p) * (long)(1 + 5 * i + 3 * i * i);
        if (e.lift == 2 && i % 2 == 0) c -= NTL::ZZ(e.p) * (long)(1 + i);
        c %= q; if (NTL::sign(c) < 0) c += q;
        if (!IsZero(c)) r[ms[i]] = c;
    }
    return r;
}
inline FZZp over(const std::map<Mono, NTL::ZZ> &f) { FZZp r; for (auto &t : f) r[vec(t.first)] = NTL::conv<NTL::ZZ_p>(t.second); return r; }
// all forms whose coefficients on the listed monomials run over the listed values, the others being 0
inline std::vector<Form> box(int n, int d, const std::vector<std::pair<Mono, std::vector<long>>> &slots) {
    std::vector<Form> r; uint64_t N = 1; for (auto &s : slots) N *= s.second.size();
    for (uint64_t c = 0; c < N; ++c) { uint64_t w = c; Form f; for (auto &s : slots) { long v = s.second[w % s.second.size()]; w /= s.second.size(); if (v) f[s.first] += v; } r.push_back(f); }
    return r;
}
inline std::vector<long> upto(long p) { std::vector<long> r; for (long i = 0; i < p; ++i) r.push_back(i); return r; }
// every form of degree d in n + 1 variables with coefficients from vals, the coefficient of x0^d .. xn^d from diag
inline std::vector<Form> allforms(int n, int d, const std::vector<long> &diag, const std::vector<long> &vals) {
    std::vector<std::pair<Mono, std::vector<long>>> s;
    for (auto &m : monos(n + 1, d)) { bool dg = false; for (int e : m) if (e == d) dg = true; s.push_back({m, dg ? diag : vals}); }
    return box(n, d, s);
}
// diagonal plus one other monomial
inline std::vector<Form> diagplus(int n, int d, const std::vector<long> &vals) {
    std::vector<Form> r; r.push_back(fermat(n + 1, d));
    for (auto &m : monos(n + 1, d)) { bool dg = false; for (int e : m) if (e == d) dg = true; if (dg) continue; for (long v : vals) { Form f = fermat(n + 1, d); f[m] = v; r.push_back(f); } }
    return r;
}
#endif
