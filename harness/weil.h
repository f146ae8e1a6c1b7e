// integer polynomials all of whose roots have absolute value p^(w/2), built from explicit small factors
#ifndef VERIF_WEIL_H
#define VERIF_WEIL_H
#include <NTL/ZZ.h>
#include <vector>
#include <string>
typedef std::vector<NTL::ZZ> Poly;  // low to high
inline Poly pmul(const Poly &a, const Poly &b) { Poly c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
inline std::string pstr(const Poly &a) { std::ostringstream o; o << "["; for (size_t i = 0; i < a.size(); ++i) o << (i ? " " : "") << a[i]; o << "]"; return o.str(); }
// T^2 + aT + p^w with a^2 <= 4 p^w
inline std::vector<Poly> quadratics(long p, int w) { std::vector<Poly> r; NTL::ZZ q = NTL::power_ZZ(p, w); for (NTL::ZZ a = -NTL::SqrRoot(4 * q); a * a <= 4 * q; ++a) r.push_back({q, a, NTL::ZZ(1)}); return r; }
// T^4 + aT^3 + bT^2 + a q T + q^2, q = p^w, all roots of absolute value sqrt(q)
inline std::vector<Poly> quartics(long p, int w) {
    using NTL::ZZ; std::vector<Poly> r; ZZ q = NTL::power_ZZ(p, w);
    for (ZZ a = -NTL::SqrRoot(16 * q); a * a <= 16 * q; ++a) for (ZZ b = -2 * q; b <= 6 * q; ++b) {
        // x = T + q/T satisfies x^2 + a x + (b - 2q), real roots in [-2 sqrt q, 2 sqrt q]
        if (4 * (b - 2 * q) > a * a) continue;
        ZZ lhs = b + 2 * q; if (lhs < 0 || lhs * lhs < 4 * a * a * q) continue;  // value at +-2 sqrt q is >= 0
        r.push_back({q * q, a * q, b, a, ZZ(1)});
    }
    return r;
}
inline Poly cyclotomic(int m) {  // by exact division of T^m - 1
    Poly f(m + 1); f[0] = -1; f[m] = 1;
    for (int d = 1; d < m; ++d) if (m % d == 0) { Poly g = cyclotomic(d), q(f.size() - g.size() + 1); for (int i = (int)f.size() - 1; i >= (int)g.size() - 1; --i) { NTL::ZZ c = f[i]; q[i - g.size() + 1] = c; for (size_t j = 0; j < g.size(); ++j) f[i - g.size() + 1 + j] -= c * g[j]; } f = q; }
    return f;
}
inline Poly scaled(const Poly &f, long p) { Poly g = f; int n = f.size() - 1; for (int i = 0; i <= n; ++i) g[i] *= NTL::power_ZZ(p, n - i); return g; }  // roots multiplied by p
#endif
