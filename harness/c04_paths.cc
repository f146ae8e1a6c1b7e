// C04: path independence of the reductions.  States are exponents u, transitions are the allowed directions; the map
// from each state to cohomology is computed through every transition and must be the same, which covers all paths.
#include "eqs.h"
using namespace NTL; using namespace std;

static vector<Mono> directions(const Mono &u, int d, bool nd) {
    // J: supp(v) = supp(u), v <= u.  ND: v <= u - 1
    int nv = u.size(); vector<Mono> r;
    for (auto &v : monos(nv, d)) { bool ok = true; for (int i = 0; i < nv && ok; ++i) ok = nd ? v[i] <= u[i] - 1 : (v[i] <= u[i] && (u[i] == 0 || v[i] > 0)); if (ok) r.push_back(v); }
    return r;
}
static Mono minus_(const Mono &a, const Mono &b) { Mono r = a; for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
static string show(const Mono &m) { ostringstream o; o << "("; for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << m[i]; o << ")"; return o.str(); }
static Vec<ZZ_p> red(const Vec<ZZ> &v) { Vec<ZZ_p> r; r.SetLength(v.length()); for (long i = 0; i < v.length(); ++i) r[i] = conv<ZZ_p>(v[i]); return r; }
static Vec<ZZ> unr(const Vec<ZZ_p> &v) { Vec<ZZ> r; r.SetLength(v.length()); for (long i = 0; i < v.length(); ++i) r[i] = rep(v[i]); return r; }

static void runJ(const Eq &e, int K, bool vectors) {
    Mod mod(e.p, e.prec); int n = e.n, d = e.d, nv = n + 1;
    de_Rham_local D(e.p, e.prec, over(lifted(e)), false, true);
    const Vec<Vec<int64_t>> &Gs = D.tuple_list[d * n - n]; long NG = Gs.length(), NB = D.coKernels_J_basis.length();
    map<Mono, Mat<ZZ_p>> R;
    auto valid = [&](const Mono &u, long g) { for (int i = 0; i < nv; ++i) if (u[i] + Gs[g][i] <= 0) return false; return true; };
    for (int k = 0; k <= K; ++k) for (auto &u : monos(nv, n + d * k)) {
        Mat<ZZ_p> ru; mc::state();
        if (k == 0) { Mat<ZZ_p> inc = *D.get_inclusion_matrix_J(vec(u)); mul(ru, *D.get_final_reduction_matrix_J(n), inc); }
        else {
            bool have = false; Mono first;
            for (auto &v : directions(u, d, false)) {
                Mono t = minus_(u, v);
                Mat<ZZ_p> M = D.get_reduction_matrix_J(vec(t), vec(v)), c;
                Mat<ZZ> MZ = D.get_reduction_matrix_J_ZZ(vec(t), vec(v));
                for (long i = 0; i < NG; ++i) for (long j = 0; j < NG; ++j) MC_CHECK(conv<ZZ_p>(MZ[i][j]) == M[i][j], "integer and modular reduction matrices differ from " << show(u) << " along " << show(v));
                // columns of admissible forms stay admissible
                for (long g = 0; g < NG; ++g) if (valid(u, g)) for (long h = 0; h < NG; ++h) MC_CHECK(IsZero(M[h][g]) || valid(t, h), "the reduction of x^" << Gs[g] << " from " << show(u) << " along " << show(v) << " leaves the space at " << show(t));
                mul(c, R[t], M); mc::trans();
                if (!have) { ru = c; have = true; first = v; }
                else for (long g = 0; g < NG; ++g) if (valid(u, g)) for (long i = 0; i < NB; ++i) MC_CHECK(c[i][g] == ru[i][g], "x^" << Gs[g] << " at " << show(u) << " reduces to different classes along " << show(first) << " and " << show(v) << " (coordinate " << i << ")");
                // vector forms and several steps at once
                int steps = 1; while (true) { bool ok = true; for (int i = 0; i < nv; ++i) if (u[i] - (steps + 1) * v[i] < 0) ok = false; if (!ok || steps >= k) break; ++steps; }
                for (int s = 1; s <= steps && vectors; ++s) {
                    if (s > 1 && k > 4 && s != steps) continue;
                    Mono t2 = u; for (int i = 0; i < nv; ++i) t2[i] -= s * v[i];
                    Vec<ZZ_p> G; G.SetLength(NG); for (long g = 0; g < NG; ++g) if (valid(u, g)) G[g] = conv<ZZ_p>(power_ZZ(7, g % 23) + g);
                    Vec<ZZ_p> a, b, x, y;
                    Vec<ZZ_p> rp; D.reduce_vector_J_poly(rp, vec(t2), vec(v), s, G); x = R[t2] * rp;
                    Vec<ZZ> rz; D.reduce_vector_J_poly_ZZ(rz, vec(t2), vec(v), s, unr(G)); y = R[t2] * red(rz);
                    a = c * G;
                    MC_CHECK(x == a, s << " steps at once (modular) from " << show(u) << " along " << show(v) << " give another class");
                    MC_CHECK(y == a, s << " steps at once (integers) from " << show(u) << " along " << show(v) << " give another class");
                    MC_CHECK(red(rz) == rp, "integer and modular reduction of " << s << " steps differ from " << show(u) << " along " << show(v));
                    if (s == 1) { Vec<ZZ_p> r1 = D.reduce_vector_J(vec(t2), vec(v), G); Vec<ZZ> r2; D.reduce_vector_J_ZZ(r2, vec(t2), vec(v), unr(G)); b = M * G; MC_CHECK(r1 == b && red(r2) == b, "a vector and a matrix step differ from " << show(u) << " along " << show(v)); }
                    mc::trans(4);
                }
            }
            MC_CHECK(have, "harness: no direction at " << show(u));
        }
        R[u] = ru;
        // the walk the library itself takes
        for (long g = 0; g < NG; ++g) if (valid(u, g) && (vectors || g % 7 == 0)) {
            Vec<int64_t> m = vec(u); for (int i = 0; i < nv; ++i) m[i] += Gs[g][i];
            Vec<ZZ_p> b = D.monomial_to_basis_J(m);
            for (long i = 0; i < NB; ++i) MC_CHECK(b[i] == ru[i][g], "monomial_to_basis_J" << m << " differs from the reduction through " << show(u));
            mc::trans();
        }
        mc::trace(); mc::nontrivial();
    }
    mc::outcome(str(D.f.size()) + str(R.rbegin()->second));
}
static void runND(const Eq &e, int K) {
    Mod mod(e.p, e.prec); int n = e.n, d = e.d, nv = n + 1;
    de_Rham_non_degenerate_local D(e.p, e.prec, over(lifted(e)), false, true);
    long NW = D.coKernels_ND_basis.length(), NB = D.coKernels_J_basis.length();
    map<Mono, Mat<ZZ_p>> R;
    fmpz_t q; fmpz_init(q); ::conv(q, ZZ_p::modulus());
    for (int k = 1; k <= K; ++k) for (auto &u : monos(nv, d * k)) {
        bool pos = true; for (int x : u) pos = pos && x > 0; if (!pos) continue;
        Mat<ZZ_p> ru; mc::state();
        if (k == 1) ru = *D.get_coKernels_ND_to_basis(vec(u));
        else {
            bool have = false; Mono first;
            for (auto &v : directions(u, d, true)) {
                Mono t = minus_(u, v);
                Mat<ZZ_p> M = D.get_reduction_matrix_ND(vec(t), vec(v)), c;
                Mat<ZZ> MZ = D.get_reduction_matrix_ND_ZZ(vec(t), vec(v));
                for (long i = 0; i < NW; ++i) for (long j = 0; j < NW; ++j) MC_CHECK(conv<ZZ_p>(MZ[i][j]) == M[i][j], "integer and modular reduction matrices differ from " << show(u) << " along " << show(v));
                mul(c, R[t], M); mc::trans();
                if (!have) { ru = c; have = true; first = v; }
                else MC_CHECK(c == ru, "the reductions from " << show(u) << " along " << show(first) << " and " << show(v) << " give different classes");
                int steps = 1; while (true) { bool ok = true; for (int i = 0; i < nv; ++i) if (u[i] - (steps + 1) * v[i] < 1) ok = false; if (!ok) break; ++steps; }
                for (int s = 1; s <= steps; ++s) {
                    Mono t2 = u; for (int i = 0; i < nv; ++i) t2[i] -= s * v[i];
                    Vec<ZZ_p> G, a, b, rp, x; G.SetLength(NW); for (long g = 0; g < NW; ++g) G[g] = conv<ZZ_p>(power_ZZ(7, g % 23) + g + s);
                    a = c * G;
                    D.reduce_vector_ND_poly(rp, vec(t2), vec(v), s, G); x = R[t2] * rp;
                    MC_CHECK(x == a, s << " steps at once (modular) from " << show(u) << " along " << show(v) << " give another class");
                    Vec<ZZ> rz; D.reduce_vector_ND_poly_ZZ(rz, vec(t2), vec(v), s, unr(G)); MC_CHECK(red(rz) == rp, "integer and modular reduction of " << s << " steps differ from " << show(u) << " along " << show(v));
                    fmpz_mat_struct *P = (fmpz_mat_struct *)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2)); for (int i = 0; i < n + 2; ++i) fmpz_mat_init(P + i, NW, NW);
                    D.get_ND_poly_flint(P, vec(t2), vec(v));
                    fmpz *g = (fmpz *)flint_calloc(NW, sizeof(fmpz)); for (long i = 0; i < NW; ++i) ::conv(g + i, rep(G[i]));
                    D.reduce_vector_ND_poly_flint(g, P, s, g, q);
                    for (long i = 0; i < NW; ++i) { ZZ z; ::conv(z, g + i); MC_CHECK(z == rep(rp[i]), "flint and modular reduction of " << s << " steps differ from " << show(u) << " along " << show(v)); fmpz_clear(g + i); }
                    flint_free(g); for (int i = 0; i < n + 2; ++i) fmpz_mat_clear(P + i); flint_free(P);
                    if (s == 1) { Vec<ZZ_p> r1; D.reduce_vector_ND(r1, vec(t2), vec(v), G); Vec<ZZ> r2; D.reduce_vector_ND_ZZ(r2, vec(t2), vec(v), unr(G)); b = M * G; MC_CHECK(r1 == b && red(r2) == b, "a vector and a matrix step differ from " << show(u) << " along " << show(v)); }
                    mc::trans(5);
                }
            }
            MC_CHECK(have, "harness: no direction at " << show(u));
        }
        R[u] = ru;
        // every column is the class of a monomial, through the library's own walk and through the other method
        for (long g = 0; g < NW; ++g) {
            Vec<int64_t> m = vec(u); for (int i = 0; i < nv; ++i) m[i] += D.coKernels_ND_basis[g][i];
            Vec<ZZ_p> b = D.monomial_to_basis_ND(m);
            for (long i = 0; i < NB; ++i) MC_CHECK(b[i] == ru[i][g], "monomial_to_basis_ND" << m << " differs from the reduction through " << show(u));
            mc::trans();
        }
        mc::trace(); mc::nontrivial();
    }
    fmpz_clear(q);
    mc::outcome("nd" + str(R.rbegin()->second));
}
// Far exponents: a step depends on the exponent modulo p^N alone, and k steps at once are the k single steps.
static Vec<int64_t> far(const Mono &base, int64_t scale) { Vec<int64_t> r; r.SetLength(base.size()); for (size_t i = 0; i < base.size(); ++i) r[i] = base[i] + (base[i] ? scale * (int64_t)(i + 1) : 0); return r; }
static void runFar(const Eq &e, bool nd) {
    Mod mod(e.p, e.prec); int n = e.n, d = e.d, nv = n + 1; ZZ Q = ZZ_p::modulus();
    shared_ptr<de_Rham_local> J; shared_ptr<de_Rham_non_degenerate_local> D;
    if (nd) J = D = make_shared<de_Rham_non_degenerate_local>(e.p, e.prec, over(lifted(e)), false, true); else J = make_shared<de_Rham_local>(e.p, e.prec, over(lifted(e)), false, true);
    long W = nd ? D->coKernels_ND_basis.length() : J->tuple_list[d * n - n].length();
    vector<int64_t> scales = {0, 7, 97, 1 << 15, (int64_t)1 << 31, ((int64_t)1 << 31) + 7, (int64_t)1 << 33, ((int64_t)1 << 53) + 1, (int64_t)1 << 58};
    // the exponent modulo d p^N: ND exponents must have a sum divisible by d
    auto reduced = [&](const Vec<int64_t> &u) { Vec<int64_t> r = u; for (long i = 0; i < r.length(); ++i) { r[i] = to_long(ZZ(u[i]) % (Q * d)); if (u[i] && !r[i]) r[i] = to_long(Q * d); } return r; };
    fmpz_t q; fmpz_init(q); ::conv(q, Q);
    for (auto &x : scales) x -= x % d;
    for (auto &base : monos(nv, nd ? d : n)) for (auto &v : monos(nv, d)) for (int64_t sc : scales) {
        bool ok = true; for (int i = 0; i < nv; ++i) { if (!nd && base[i] && !v[i]) ok = false; if (nd && !base[i]) ok = false; } if (!ok) continue;
        Vec<int64_t> u = far(base, sc), V = vec(v); mc::state();
        Mat<ZZ_p> A = nd ? D->get_reduction_matrix_ND(u, V) : J->get_reduction_matrix_J(u, V), B = nd ? D->get_reduction_matrix_ND(reduced(u), V) : J->get_reduction_matrix_J(reduced(u), V);
        MC_CHECK(A == B, "the reduction matrix at " << u << " along " << V << " differs from the one at the congruent exponent " << reduced(u));
        Mat<ZZ> AZ = nd ? D->get_reduction_matrix_ND_ZZ(u, V) : J->get_reduction_matrix_J_ZZ(u, V);
        for (long i = 0; i < W; ++i) for (long j = 0; j < W; ++j) MC_CHECK(conv<ZZ_p>(AZ[i][j]) == A[i][j], "integer and modular reduction matrices differ at " << u << " along " << V);
        Vec<ZZ_p> G; G.SetLength(W); for (long g = 0; g < W; ++g) G[g] = conv<ZZ_p>(power_ZZ(7, g % 23) + g);
        std::set<int> ks = {1, 2, n + 1, n + 2, n + 3, 19}; if (sc == scales[2] || (sc == scales[5] && W < 30)) ks.insert(101);
        Vec<ZZ_p> acc; 
        for (int k : ks) {
            // M(u) M(u + v) ... M(u + (k-1) v) G
            Vec<ZZ_p> x = G; for (int s = k - 1; s >= 0; --s) { Vec<int64_t> us = u; for (int i = 0; i < nv; ++i) us[i] += s * V[i]; Vec<ZZ_p> y; mul(y, nd ? D->get_reduction_matrix_ND(reduced(us), V) : J->get_reduction_matrix_J(reduced(us), V), x); x = y; }
            Vec<ZZ_p> a; Vec<ZZ> b;
            if (nd) { D->reduce_vector_ND_poly(a, u, V, k, G); D->reduce_vector_ND_poly_ZZ(b, u, V, k, unr(G)); } else { J->reduce_vector_J_poly(a, u, V, k, G); J->reduce_vector_J_poly_ZZ(b, u, V, k, unr(G)); }
            MC_CHECK(a == x, k << " steps at once to " << u << " along " << V << " differ from " << k << " single steps");
            MC_CHECK(red(b) == x, k << " steps at once over the integers to " << u << " along " << V << " differ from " << k << " single steps");
            if (nd) {
                fmpz_mat_struct *P = (fmpz_mat_struct *)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2)); for (int i = 0; i < n + 2; ++i) fmpz_mat_init(P + i, W, W);
                D->get_ND_poly_flint(P, u, V);
                fmpz *g = (fmpz *)flint_calloc(W, sizeof(fmpz)); for (long i = 0; i < W; ++i) ::conv(g + i, rep(G[i]));
                D->reduce_vector_ND_poly_flint(g, P, k, g, q);
                for (long i = 0; i < W; ++i) { ZZ z; ::conv(z, g + i); MC_CHECK(z == rep(x[i]), "flint: " << k << " steps at once to " << u << " along " << V << " differ from " << k << " single steps"); fmpz_clear(g + i); }
                flint_free(g); for (int i = 0; i < n + 2; ++i) fmpz_mat_clear(P + i); flint_free(P);
            }
            mc::trans(k); mc::trace(); acc = x;
        }
        mc::nontrivial(); mc::outcome(str(acc));
    }
    fmpz_clear(q);
}
static void fam(const string &name, const string &bound, int n, int d, vector<long> ps, vector<int> precs, vector<int> lifts, vector<Form> fs, int KJ, int KND, bool vectors = true, double timeout = 300) {
    auto E = make_shared<vector<Eq>>(); auto N = make_shared<vector<Eq>>();
    for (long p : ps) for (auto &f : fs) if (is_smooth(f, n, d, p)) { bool nd = is_nd(f, n, d, p); for (int N_ : precs) for (int l : lifts) { if (l && N_ == 1) continue; Eq e{n, d, p, N_, l, f}; if (KJ) E->push_back(e); if (KND && nd) N->push_back(e); } }
    if (E->size()) mc::family(name + "-J", bound + "; every exponent up to pole order n+" + to_string(KJ) + " and every direction", E->size(), [=](uint64_t i) { return show((*E)[i]); }, [=](uint64_t i) { runJ((*E)[i], KJ, vectors); }, timeout);
    if (N->size()) mc::family(name + "-ND", bound + "; every exponent up to pole order " + to_string(KND) + " and every direction", N->size(), [=](uint64_t i) { return show((*N)[i]); }, [=](uint64_t i) { runND((*N)[i], KND); }, timeout);
}
void mc::setup() {
    bool th = mc::thorough();
    fam("points", "every smooth binary quadric and cubic over F_3, F_5", 1, 2, {3, 5}, {1, 3}, {0, 1}, allforms(1, 2, upto(3), upto(5)), 9, 9);
    fam("cubic-points", "every smooth binary cubic with coefficients 0..2 (diagonal 0..3)", 1, 3, {2, 5, 7}, {2, 30}, {0, 2}, allforms(1, 3, upto(4), upto(3)), 6, 6);
    fam("cubics", "every smooth plane cubic with diagonal coefficients 1 and other coefficients 0 or 1", 2, 3, {5}, {2}, {1}, allforms(2, 3, {1}, {0, 1}), th ? 5 : 3, th ? 5 : 4);
    fam("cubics-precision", "diagonal cubics with one more monomial, several precisions and lifts", 2, 3, {2, 5, 7}, th ? vector<int>{1, 3, 7, 30} : vector<int>{1, 30}, {0, 1, 2}, diagplus(2, 3, th ? vector<long>{1, 2} : vector<long>{2}), 3, 4);
    fam("cubics-missing", "plane cubics without some diagonal terms", 2, 3, {5, 7}, {2}, {0}, allforms(2, 3, {0}, {0, 1}), 3, 0);
    fam("quartics", "diagonal quartics with one more monomial", 2, 4, {3, 5}, th ? vector<int>{2, 40} : vector<int>{2}, {0, 1}, diagplus(2, 4, {1}), 2, 3);
    if (th) {
        fam("quintics", "diagonal quintics with one more monomial", 2, 5, {3, 7}, {2}, {0, 1}, diagplus(2, 5, {1}), 2, 3);
        fam("quartics-deep", "diagonal quartics with one more monomial, deeper", 2, 4, {3}, {3}, {1}, diagplus(2, 4, {1, 2}), 4, 4);
    }
    for (int w = 0; w < (th ? 6 : 5); ++w) {
        static const int ND[6][2] = {{1, 2}, {1, 3}, {1, 5}, {2, 3}, {2, 4}, {2, 5}}; int n = ND[w][0], d = ND[w][1]; auto E = make_shared<vector<pair<Eq, bool>>>();
        vector<Form> fs; { Form f = fermat(n + 1, d); fs.push_back(f); Mono m(n + 1, 0); m[0] = d - 1; m[1] = 1; f[m] = 1; fs.push_back(f); }
        for (long p : th ? vector<long>{2, 3, 5, 7, 101, 65537} : w > 3 ? vector<long>{101} : w == 3 ? vector<long>{2, 101} : vector<long>{2, 3, 7, 101}) for (int N : {1, 3, 40}) for (auto &f : fs) if (d % p && is_smooth(f, n, d, p)) for (int nd = 0; nd < 2; ++nd) { if (nd && !is_nd(f, n, d, p)) continue; if (w > 3 && !th && (N == 1 || f.size() == (size_t)n + 1)) continue; E->push_back({Eq{n, d, p, N, N > 1, f}, nd == 1}); }
        mc::family("far-n" + to_string(n) + "-d" + to_string(d), "exponents from 1 to beyond 2^60, every direction, 1 to 101 steps: a step depends on the exponent modulo p^N alone, many steps are the single ones", E->size(), [=](uint64_t i) { return show((*E)[i].first) + ((*E)[i].second ? " (ND)" : " (J)"); }, [=](uint64_t i) { runFar((*E)[i].first, (*E)[i].second); }, 300);
    }
    { vector<Form> k3 = diagplus(3, 4, {1}); vector<Form> sel; for (size_t i = 0; i < k3.size(); i += th ? 1 : 16) sel.push_back(k3[i]);
      fam("surfaces", "quartic surfaces", 3, 4, {3}, {2}, {1}, sel, 1, th ? 3 : 2, false, 600); }
    if (th) { vector<Form> q5; { Form f = fermat(4, 5); q5.push_back(f); f[{1, 1, 1, 2}] = 1; q5.push_back(f); f = fermat(4, 5); f[{4, 1, 0, 0}] = 1; f[{0, 2, 2, 1}] = 1; q5.push_back(f); }
      fam("quintic-surfaces", "quintic surfaces", 3, 5, {2, 3}, {2}, {1}, q5, 1, 1, false, 1800); }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
