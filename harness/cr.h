// helpers shared by the harnesses: building forms, printing them, moduli
#ifndef VERIF_CR_H
#define VERIF_CR_H
#include "mc.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
#include "matrix.h"
#include "solve_system.h"
#include "tools.h"
#include "vec_int64.h"
#include "wrapper.h"
#include <NTL/ZZX.h>

typedef std::vector<int> Mono;
typedef std::map<Mono, long> Form;  // integer coefficients, independent of the library's own types
typedef std::map<NTL::Vec<int64_t>, NTL::ZZ, vi64less> FZZ;
typedef std::map<NTL::Vec<int64_t>, NTL::zz_p, vi64less> Fzzp;
typedef std::map<NTL::Vec<int64_t>, NTL::ZZ_p, vi64less> FZZp;

inline NTL::Vec<int64_t> vec(const Mono &m) { NTL::Vec<int64_t> v; v.SetLength(m.size()); for (size_t i = 0; i < m.size(); ++i) v[i] = m[i]; return v; }
inline Mono mono(const NTL::Vec<int64_t> &v) { Mono m(v.length()); for (long i = 0; i < v.length(); ++i) m[i] = (int)v[i]; return m; }

// all exponent vectors of nv variables and degree d, x0^d first
inline void monos_rec(std::vector<Mono> &r, Mono &m, int i, int left) {
    int nv = m.size();
    if (i == nv - 1) { m[i] = left; r.push_back(m); return; }
    for (int k = left; k >= 0; --k) { m[i] = k; monos_rec(r, m, i + 1, left - k); }
}
inline std::vector<Mono> monos(int nv, int d) { std::vector<Mono> r; Mono m(nv, 0); monos_rec(r, m, 0, d); return r; }

inline Form diagonal(int nv, int d, const std::vector<long> &c) { Form f; for (int i = 0; i < nv; ++i) { Mono m(nv, 0); m[i] = d; f[m] = c[i]; } return f; }
inline Form fermat(int nv, int d) { return diagonal(nv, d, std::vector<long>(nv, 1)); }

inline std::string show(const Form &f) {
    std::ostringstream o; bool first = true;
    for (auto it = f.rbegin(); it != f.rend(); ++it) { if (!it->second) continue; o << (first ? "" : "+") << it->second << "*x^("; first = false; for (size_t i = 0; i < it->first.size(); ++i) o << (i ? "," : "") << it->first[i]; o << ")"; }
    return o.str();
}
inline FZZ toZZ(const Form &f) { FZZ r; for (auto &t : f) if (t.second) r[vec(t.first)] = NTL::ZZ(t.second); return r; }
inline Fzzp tozz_p(const Form &f) { Fzzp r; for (auto &t : f) { NTL::zz_p c; c = t.second; if (!IsZero(c)) r[vec(t.first)] = c; } return r; }
inline FZZp toZZ_p(const Form &f) { FZZp r; for (auto &t : f) if (t.second) { NTL::ZZ_p c; c = t.second; r[vec(t.first)] = c; } return r; }
template <class T> std::string str(const T &x) { std::ostringstream o; o << x; return o.str(); }

struct Mod {  // installs F_p and Z/p^N as the current moduli
    NTL::zz_pPush a; NTL::ZZ_pPush b;
    Mod(long p, long N) : a(p), b(NTL::power_ZZ(p, N)) {}
};
inline long imod(long a, long p) { a %= p; return a < 0 ? a + p : a; }
inline NTL::ZZ zmod(const NTL::ZZ &a, const NTL::ZZ &m) { NTL::ZZ r = a % m; return r; }
#endif
