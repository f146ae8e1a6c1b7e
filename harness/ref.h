// Independent reference computations over F_p (plain integers, no library code)
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <map>
#include <vector>
#include <cstdint>
namespace ref {
typedef std::vector<int> Mono;
typedef std::map<Mono, long> Form;
inline long md(long a, long p) { a %= p; return a < 0 ? a + p : a; }
inline long inv(long a, long p) { long r = 1, e = p - 2; a = md(a, p); while (e) { if (e & 1) r = (__int128)r * a % p; a = (__int128)a * a % p; e >>= 1; } return r; }
inline long rank(std::vector<std::vector<long>> M, long p) {
    long r = 0; if (M.empty()) return 0; size_t nc = M[0].size();
    for (size_t c = 0; c < nc && r < (long)M.size(); ++c) {
        size_t piv = r; while (piv < M.size() && M[piv][c] == 0) ++piv;
        if (piv == M.size()) continue;
        std::swap(M[piv], M[r]); long iv = inv(M[r][c], p);
        for (size_t j = c; j < nc; ++j) M[r][j] = (__int128)M[r][j] * iv % p;
        for (size_t i = r + 1; i < M.size(); ++i) if (M[i][c]) { long w = p - M[i][c]; for (size_t j = c; j < nc; ++j) if (M[r][j]) M[i][j] = (M[i][j] + (__int128)w * M[r][j]) % p; }
        ++r;
    }
    return r;
}
inline void monos_rec(std::vector<Mono> &r, Mono &m, int i, int left) { int nv = m.size(); if (i == nv - 1) { m[i] = left; r.push_back(m); return; } for (int k = left; k >= 0; --k) { m[i] = k; monos_rec(r, m, i + 1, left - k); } }
inline std::vector<Mono> monos(int nv, int d) { std::vector<Mono> r; if (d < 0) return r; Mono m(nv, 0); monos_rec(r, m, 0, d); return r; }
inline Form deriv(const Form &f, int i, long p, bool timesx) { Form g; for (auto &t : f) { long c = md(t.second * t.first[i], p); if (!c) continue; Mono m = t.first; if (!timesx) --m[i]; g[m] = c; } return g; }
// the ideal generated by gens (all of degree dg) contains every form of degree l
inline bool fills(const std::vector<Form> &gens, int nv, int dg, int l, long p) {
    std::vector<Mono> ms = monos(nv, l), qs = monos(nv, l - dg); std::map<Mono, int> idx; for (size_t i = 0; i < ms.size(); ++i) idx[ms[i]] = i;
    std::vector<std::vector<long>> M;
    for (auto &g : gens) for (auto &q : qs) { std::vector<long> row(ms.size(), 0); for (auto &t : g) { Mono m = t.first; for (int i = 0; i < nv; ++i) m[i] += q[i]; row[idx[m]] = md(t.second, p); } M.push_back(row); }
    return rank(M, p) == (long)ms.size();
}
// no common zero of the partial derivatives over an algebraic closure (p does not divide d, so this is smoothness)
inline bool smooth(const Form &f, int nv, int d, long p) { std::vector<Form> g; for (int i = 0; i < nv; ++i) g.push_back(deriv(f, i, p, false)); return fills(g, nv, d - 1, (d - 2) * nv + 1, p); }
// no common zero of the x_i df/dx_i: the intersection with every coordinate plane is smooth
inline bool nondegenerate(const Form &f, int nv, int d, long p) { std::vector<Form> g; for (int i = 0; i < nv; ++i) g.push_back(deriv(f, i, p, true)); return fills(g, nv, d, (d - 1) * nv + 1, p); }
}
#endif
