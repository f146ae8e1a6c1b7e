// Independent oracle: arithmetic in F_{p^k} by discrete logarithms, and brute-force point counts.
#ifndef VERIF_FQ_H
#define VERIF_FQ_H
#include <cstdint>
#include <map>
#include <memory>
#include <vector>
#include <cassert>
#include <stdexcept>

struct Fq {
    long p; int k; long q;
    std::vector<int32_t> zech;   // zech[t] = log(1 + g^t), -1 for zero
    std::vector<int32_t> plog;   // log of the prime field elements (as multiples of 1)
    // elements: log in [0, q-2], or -1 for zero
    long m() const { return q - 1; }
    int32_t mul(int32_t a, int32_t b) const { if (a < 0 || b < 0) return -1; long s = (long)a + b; return s >= q - 1 ? s - (q - 1) : s; }
    int32_t add(int32_t a, int32_t b) const {
        if (a < 0) return b;
        if (b < 0) return a;
        long t = b - a; if (t < 0) t += q - 1;
        int32_t z = zech[t];
        if (z < 0) return -1;
        long s = (long)a + z; return s >= q - 1 ? s - (q - 1) : s;
    }
    int32_t pw(int32_t a, long e) const { if (e == 0) return 0; if (a < 0) return -1; return (int32_t)(((__int128)a * e) % (q - 1)); }
    int32_t fromint(long c) const { c %= p; if (c < 0) c += p; return plog[c]; }
    Fq(long p_, int k_) : p(p_), k(k_) {
        q = 1; for (int i = 0; i < k; ++i) q *= p;
        // find a primitive monic polynomial of degree k by trying them all: x must have order q - 1
        std::vector<long> c(k, 0);
        std::vector<int32_t> lg(q, -1), ex(q, 0);
        auto tryit = [&](const std::vector<long> &f, bool primeonly, long g) -> bool {
            // multiply by x modulo x^k - sum f[i] x^i (k = 1: multiply by g)
            std::vector<long> cur(k, 0); cur[0] = 1;
            std::fill(lg.begin(), lg.end(), -1);
            for (long e = 0; e < q - 1; ++e) {
                long code = 0; for (int i = k - 1; i >= 0; --i) code = code * p + cur[i];
                if (code == 0 || lg[code] >= 0) return false;
                lg[code] = e; ex[e] = code;
                if (k == 1) cur[0] = cur[0] * g % p;
                else { long top = cur[k - 1]; for (int i = k - 1; i > 0; --i) cur[i] = (cur[i - 1] + top * f[i]) % p; cur[0] = top * f[0] % p; }
            }
            return true;
        };
        bool ok = false;
        if (k == 1) { for (long g = 1; g < p && !ok; ++g) ok = tryit(c, true, g); }
        else for (long code = 1; code < q && !ok; ++code) { long t = code; for (int i = 0; i < k; ++i) { c[i] = t % p; t /= p; } if (c[0] == 0) continue; ok = tryit(c, false, 0); }
        if (!ok) throw std::runtime_error("no primitive polynomial");
        zech.assign(q - 1, -1);
        for (long e = 0; e < q - 1; ++e) { long code = ex[e]; long d0 = code % p; long nc = code - d0 + (d0 + 1) % p; zech[e] = nc ? lg[nc] : -1; }
        plog.assign(p, -1);
        for (long v = 1; v < p; ++v) plog[v] = lg[v];
    }
};
inline const Fq &field(long p, int k) {
    static std::map<std::pair<long, int>, std::unique_ptr<Fq>> cache;
    auto &r = cache[{p, k}];
    if (!r) r.reset(new Fq(p, k));
    return *r;
}

// number of points over F_q of the projective hypersurface {f = 0} in P^n (nv = n + 1 variables)
// first nonzero coordinate (from the right) is 1.
inline long count_points(const Fq &F, const std::map<std::vector<int>, long> &f, int nv, int d) {
    struct T { std::vector<int> e; int32_t c; };
    std::vector<T> ts;
    for (auto &t : f) { int32_t c = F.fromint(t.second); if (c >= 0) ts.push_back({t.first, c}); }
    // powers
    long q = F.q;
    long total = 0;
    for (int lead = nv - 1; lead >= 0; --lead) {
        // coordinates lead+1.. are 0, coordinate lead is 1, coordinates 0..lead-1 are free
        std::vector<T> g;
        for (auto &t : ts) { bool z = false; for (int i = lead + 1; i < nv; ++i) if (t.e[i]) z = true; if (!z) g.push_back(t); }
        int fr = lead;
        if (fr == 0) { int32_t s = -1; for (auto &t : g) s = F.add(s, t.c); if (s < 0) ++total; continue; }
        // iterate the first fr - 1 free coordinates, build a univariate polynomial in the last one
        std::vector<int32_t> x(fr, -1);
        long outer = 1; for (int i = 0; i < fr - 1; ++i) outer *= q;
        std::vector<int32_t> u(d + 1);
        for (long o = 0; o < outer; ++o) {
            long w = o; int weight = 1;
            for (int i = 0; i < fr - 1; ++i) { x[i] = (int32_t)(w % q) - 1; w /= q; }
            if (fr - 1 >= 1 && F.k > 1) {
                // x[0] up to the action of Frobenius when it is the only outer coordinate
                if (fr - 1 == 1) {
                    int32_t a = x[0], b = a; int len = 0; bool least = true;
                    do { b = F.pw(b, F.p); ++len; if (b < a) least = false; } while (b != a && least);
                    if (!least) continue;
                    weight = len;
                }
            }
            std::fill(u.begin(), u.end(), -1);
            for (auto &t : g) { int32_t c = t.c; for (int i = 0; i < fr - 1 && c >= 0; ++i) if (t.e[i]) c = F.mul(c, F.pw(x[i], t.e[i])); u[t.e[fr - 1]] = F.add(u[t.e[fr - 1]], c); }
            int top = d; while (top >= 0 && u[top] < 0) --top;
            if (top < 0) { total += weight * q; continue; }
            long roots = u[0] < 0;
            for (int32_t y = 0; y < q - 1; ++y) { int32_t s = u[top]; for (int j = top - 1; j >= 0; --j) { s = F.mul(s, y); s = F.add(s, u[j]); } roots += s < 0; }
            total += weight * roots;
        }
    }
    return total;
}

// diagonal hypersurface sum c_i x_i^d = 0 over F_q, by counting on cosets of d-th powers: O(q e nv)
inline long count_diagonal(const Fq &F, const std::vector<long> &c, int d) {
    long q = F.q, m = q - 1; long e = 1; { long a = d, b = m; while (b) { long t = a % b; a = b; b = t; } e = a; }
    if (m == 0) throw std::runtime_error("q");
    // cyclotomic numbers: for a class r (log mod e) and a class s: number of y in class s with  g^r + y in class t / zero
    int nv = c.size();
    // N[cls] = number of tuples with partial sum equal to a *given* element of the class (0 = zero element, 1 + r = class r)
    std::vector<__int128> N(e + 1, 0); N[0] = 1;
    // A[r][s] list: for target z = g^r: number of y in class s such that z - y is in class t: T[r][s][t]
    std::vector<long> T((size_t)(e + 1) * (e + 1) * (e + 1), 0);
    auto cls = [&](int32_t x) { return x < 0 ? 0 : 1 + (int)(x % e); };
    int32_t minus1 = F.fromint(F.p - 1);
    for (int r = 0; r <= e; ++r) {
        int32_t z = r == 0 ? -1 : r - 1;
        for (int32_t y = -1; y < m; ++y) { int32_t w = F.add(z, y < 0 ? -1 : F.mul(y, minus1)); T[((size_t)r * (e + 1) + cls(y)) * (e + 1) + cls(w)]++; }
    }
    for (int i = 0; i < nv; ++i) {
        int32_t lc = F.fromint(c[i]); if (lc < 0) throw std::runtime_error("zero coefficient");
        std::vector<__int128> M(e + 1, 0);
        for (int r = 0; r <= e; ++r) for (int t = 0; t <= e; ++t) {
            // terms: x = 0 contributes y = 0; x != 0: y in class (lc mod e), each y hit e times
            M[r] += N[t] * T[((size_t)r * (e + 1) + 0) * (e + 1) + t];
            M[r] += N[t] * (__int128)e * T[((size_t)r * (e + 1) + 1 + lc % e) * (e + 1) + t];
        }
        N = M;
    }
    return (long)((N[0] - 1) / (q - 1));
}
#endif
