// C18: geometric Picard number = 1 + number of eigenvalues p * (root of unity)
#include "cr.h"
#include "weil.h"
#include <NTL/ZZXFactoring.h>
using namespace NTL; using namespace std;
static int phi(int m) { int r = 0; for (int i = 1; i <= m; ++i) { int a = i, b = m; while (b) { int t = a % b; a = b; b = t; } r += a == 1; } return r; }
static bool irreducible(const Poly &f) { ZZX g; for (size_t i = 0; i < f.size(); ++i) SetCoeff(g, i, f[i]); ZZ c; vec_pair_ZZX_long fa; factor(c, fa, g); return fa.length() == 1 && fa[0].b == 1; }
// irreducible Weil polynomials of weight 2 without eigenvalues of the form p * root of unity
static vector<Poly> transc(long p, bool th) {
    vector<Poly> r;
    for (auto &q : quadratics(p, 2)) if (q[1] % p != 0 && irreducible(q)) r.push_back(q);
    int k = 0;
    if (p <= 7) for (auto &q : quartics(p, 2)) if ((q[3] % p != 0 || q[2] % (p * p) != 0) && (th ? k++ % 7 == 0 : k++ % 61 == 0) && irreducible(q)) r.push_back(q);
    return r;
}
static void check(const Poly &P, long p, int cyc) {
    Vec<ZZ> c; c.SetLength(P.size()); for (size_t i = 0; i < P.size(); ++i) c[i] = P[i]; const Vec<ZZ> c0 = c;
    int64_t g = geometric_picard(c, p, 2);
    MC_CHECK(g == cyc + 1, "p=" << p << " " << pstr(P) << ": " << g << ", not " << cyc + 1); MC_CHECK(c == c0, "argument modified");
    mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); mc::outcome(pstr(P));
}
void mc::setup() {
    bool th = mc::thorough();
    static vector<pair<Poly, int>> cyc;  // products of cyclotomic polynomials (unscaled) and their degrees
    int D = th ? 10 : 8; vector<pair<Poly, int>> base;
    for (int m = 1; m <= 60; ++m) if (phi(m) <= D) base.push_back({cyclotomic(m), phi(m)});
    std::function<void(size_t, Poly, int)> rec = [&](size_t i, Poly f, int d) { if (i == base.size()) { cyc.push_back({f, d}); return; } for (;;) { rec(i + 1, f, d); d += base[i].second; if (d > D) break; f = pmul(f, base[i].first); } };
    rec(0, Poly{ZZ(1)}, 0);
    for (long p : {2, 3, 5, 7, 23}) {
        if (!th && p == 2) {}
        auto T = make_shared<vector<Poly>>(transc(p, th)); auto tp = make_shared<vector<Poly>>(); tp->push_back({ZZ(1)});
        size_t cap = th ? 40 : 8; for (size_t i = 0; i < T->size() && tp->size() < cap; i += max<size_t>(1, T->size() / (cap / 2))) { tp->push_back((*T)[i]); tp->push_back(pmul((*T)[i], (*T)[i])); tp->push_back(pmul((*T)[i], (*T)[(i + 1) % T->size()])); }
        mc::family("products-p" + to_string(p), "every product of cyclotomic polynomials of total degree <= " + to_string(D) + " times products and squares of irreducible transcendental factors", cyc.size() * tp->size(), [=](uint64_t i) { return "p=" + to_string(p) + " cyclotomic part " + pstr(cyc[i / tp->size()].first) + " other part " + pstr((*tp)[i % tp->size()]); }, [=](uint64_t i) {
            auto &c = cyc[i / tp->size()]; Poly f = pmul(scaled(c.first, p), (*tp)[i % tp->size()]); if (f.size() == 1) { mc::skipped(); return; } check(f, p, c.second); });
    }
    for (long p : {3, 5, 7, 11, 23, 101}) {
        static const int E = 22; auto ms = make_shared<vector<int>>(); for (int m = 1; m <= 120; ++m) if (phi(m) <= E) ms->push_back(m);
        auto T = make_shared<vector<Poly>>(transc(p, false));
        mc::family("K3-p" + to_string(p), "cyclotomic orders with degree <= 22, alone, with T-p, squared, and completed to degree 21 by transcendental factors or T-p", ms->size(), [=](uint64_t i) { return "p=" + to_string(p) + " order " + to_string((*ms)[i]); }, [=](uint64_t i) {
            int m = (*ms)[i], d = phi(m); Poly c = scaled(cyclotomic(m), p), l = {ZZ(-p), ZZ(1)}, l2 = {ZZ(p), ZZ(1)};
            check(c, p, d); check(pmul(c, l), p, d + 1); check(pmul(c, pmul(l2, l2)), p, d + 2); if (d <= 11) check(pmul(c, c), p, 2 * d);
            for (size_t t = 0; t < T->size(); t += T->size() / 4 + 1) { Poly f = c; int k = d; while (f.size() - 1 + (*T)[t].size() - 1 <= 21) f = pmul(f, (*T)[t]); while (f.size() - 1 < 21) { f = pmul(f, k % 2 ? l : l2); ++k; } check(f, p, k); }
        });
        // every rank from 2 to 22 of a K3 surface with (T-p)^a (T+p)^b
        mc::family("ranks-p" + to_string(p), "(T-p)^a (T+p)^b times a power of one transcendental factor, total degree 21", 22 * 22, [=](uint64_t i) { return "p=" + to_string(p) + " a=" + to_string(i / 22) + " b=" + to_string(i % 22); }, [=](uint64_t i) {
            int a = i / 22, b = i % 22; if (a + b > 21 || (21 - a - b) % 2 || a + b == 0) { mc::skipped(); return; }
            Poly f = {ZZ(1)}; for (int k = 0; k < a; ++k) f = pmul(f, {ZZ(-p), ZZ(1)}); for (int k = 0; k < b; ++k) f = pmul(f, {ZZ(p), ZZ(1)});
            for (size_t t = 0; t < 3 && t < T->size(); ++t) { if ((*T)[t].size() != 3) continue; Poly g = f; while (g.size() - 1 < 21) g = pmul(g, (*T)[t]); check(g, p, a + b); }
        });
    }
}
MC_MAIN
