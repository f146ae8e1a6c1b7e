// Calls of the whole public interface, with their environment (the caller's moduli, earlier contents of output variables,
// contents of memory, verbosity) as a parameter.  Shared by the harnesses of C22 and C23.
#ifndef VERIF_CALLS_H
#define VERIF_CALLS_H
#include "heap.h"
#include "said.h"
#include "obj.h"
#include <omp.h>
using namespace NTL; using namespace std;
struct Env { int zp, ZP, dirt, fill, verbose, threads; };
static const long zps[] = {0, 3, 13, 1073741789};                 // 0: nothing installed
static string modname(int k, bool big) { return k == 0 ? "none" : big ? (k == 1 ? "9" : k == 2 ? "13^5" : "2^89-1") : to_string(zps[k]); }
static ZZ ZPs(int k) { return k == 1 ? ZZ(9) : k == 2 ? power_ZZ(13, 5) : power2_ZZ(89) - 1; }
static const int fills[] = {-1, 0x00, 0x5a, 0xff};
static string show(const Env &e) { ostringstream o; o << "caller's moduli " << modname(e.zp, false) << " and " << modname(e.ZP, true) << ", output variables " << (e.dirt == 0 ? "empty" : e.dirt == 1 ? "too large" : e.dirt == 2 ? "too small" : "used before") << ", memory " << (fills[e.fill] < 0 ? "as it is" : "filled with " + to_string(fills[e.fill])) << (e.verbose ? ", verbose" : ""); return o.str(); }
// output variables that held something before
static void dirty(Vec<ZZ> &v, int k) { if (k) { v.SetLength(k == 1 ? 57 : k == 2 ? 1 : 7); for (long i = 0; i < v.length(); ++i) v[i] = power_ZZ(-3, i + 40); } }
static void dirty(Vec<ZZ_p> &v, int k) { if (k) { v.SetLength(k == 1 ? 57 : k == 2 ? 1 : 7); for (long i = 0; i < v.length(); ++i) v[i] = -1 - i; } }
static void dirty(Vec<int64_t> &v, int k) { if (k) { v.SetLength(k == 1 ? 57 : k == 2 ? 1 : 3); for (long i = 0; i < v.length(); ++i) v[i] = 1000 + i; } }
static void dirty(Mat<ZZ> &v, int k) { if (k) { v.SetDims(k == 1 ? 23 : k == 2 ? 1 : 3, k == 1 ? 25 : k == 2 ? 2 : 3); for (long i = 0; i < v.NumRows(); ++i) for (long j = 0; j < v.NumCols(); ++j) v[i][j] = power_ZZ(-5, 30 + i + j); } }
static void dirty(Mat<ZZ_p> &v, int k) { if (k) { v.SetDims(k == 1 ? 23 : k == 2 ? 1 : 3, k == 1 ? 25 : k == 2 ? 2 : 3); for (long i = 0; i < v.NumRows(); ++i) for (long j = 0; j < v.NumCols(); ++j) v[i][j] = -1 - i - j; } }
static void dirty(Mat<zz_p> &v, int k) { if (k) { v.SetDims(k == 1 ? 23 : k == 2 ? 1 : 3, k == 1 ? 25 : k == 2 ? 2 : 3); for (long i = 0; i < v.NumRows(); ++i) for (long j = 0; j < v.NumCols(); ++j) v[i][j] = 1; } }
static void dirty(ZZX &v, int k) { if (k) SetCoeff(v, k == 1 ? 60 : k == 2 ? 0 : 4, power_ZZ(7, 33)); }
static void dirty(Vec<Vec<int64_t>> &v, int k) { if (k) { v.SetLength(k == 1 ? 200 : k == 2 ? 1 : 6); for (long i = 0; i < v.length(); ++i) { v[i].SetLength(i % 5); for (long j = 0; j < v[i].length(); ++j) v[i][j] = 9; } } }
// calls: run() prints every result; moduli: 0 the call needs none, else p and N of the ones it needs
struct Call { string name; int p, N; function<string(const Env &)> run; string want; bool outputs, talks; };
struct Sink { streambuf *o, *e; Said s; int fd; Sink() { o = cout.rdbuf(&s); e = cerr.rdbuf(&s); fflush(stdout); fd = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Sink() { fflush(stdout); cout.rdbuf(o); cerr.rdbuf(e); dup2(fd, 1); close(fd); } };
struct Installed { zz_pContext a; ZZ_pContext b; };
static string installed() { string r; r = zz_pInfo ? to_string(zz_p::modulus()) : string("none"); r += " and " + (ZZ_pInfo ? ::str(ZZ_p::modulus()) : string("none")); return r; }
static string in_env(const Call &c, const Env &e) {
    zz_pPush pa; ZZ_pPush pb; // restored at the end whatever happens
    if (c.p) { zz_p::init(c.p); ZZ_p::init(power_ZZ(c.p, c.N)); }
    else { if (e.zp) zz_p::init(zps[e.zp]); else zz_pContext().restore(); if (e.ZP) ZZ_p::init(ZPs(e.ZP)); else ZZ_pContext().restore(); }
    string before = installed(); ios::fmtflags fl = cout.flags(); streamsize pr = cout.precision(); char fi = cout.fill(); string r;
    { Sink s; heap::fill = fills[e.fill]; if (fills[e.fill] >= 0) heap::dirty_stack(fills[e.fill]); try { r = c.run(e); } catch (...) { heap::fill = -1; throw; } heap::fill = -1; }
    MC_CHECK(installed() == before, c.name << " with " << show(e) << " changes the installed moduli from " << before << " to " << installed());
    MC_CHECK(cout.flags() == fl && cout.precision() == pr && cout.fill() == fi, c.name << " with " << show(e) << " changes the format of the standard output");
    return r;
}
template <class T> static string pr(const T &x) { return ::str(x) + ";"; }
static Form nonnd() { Form g; g[{3, 0, 0}] = 1; g[{1, 0, 2}] = 1; g[{0, 0, 3}] = 1; g[{0, 2, 1}] = -1; return g; }
static vector<Call> entry_points() {
    vector<Call> r; bool th = mc::thorough(); struct Z { Form f; long p; bool better; int abs; bool inc; };
    Form e = fermat(3, 3); e[{1, 1, 1}] = 3; Form q = diagonal(3, 4, {1, 2, 1}); Form two = fermat(2, 4); two[{1, 3}] = 1; Form neg = e; neg[{1, 1, 1}] = -4; Form e2 = fermat(3, 3); e2[{1, 1, 1}] = 1; e2[{2, 1, 0}] = 2;
    vector<Z> zs = {{e, 5, true, 0, true}, {e, 7, true, 0, true}, {nonnd(), 7, false, 0, true}, {nonnd(), 5, false, 0, true}, {nonnd(), 7, false, 3, true}, {e, 11, true, 2, false}, {neg, 13, true, 4, true}, {e2, 37, true, 0, true}, {q, 5, true, 0, true}, {q, 7, true, 1, false}}; if (th) { zs.push_back({q, 11, true, 0, true}); zs.push_back({fermat(4, 4), 5, true, 0, true}); }
    for (auto &z : zs) if (is_smooth(z.f, z.f.begin()->first.size() - 1, [&] { int d = 0; for (int x : z.f.begin()->first) d += x; return d; }(), z.p))
        for (int way = 0; way < 4; ++way) {
            if (way && (&z - &zs[0]) % 4 != way) continue;
            string nm = "zeta_function(" + show(z.f) + ", p=" + to_string(z.p) + ", mod p^" + to_string(z.abs) + (z.inc ? "" : " only") + (way == 1 ? ", lists of machine integers" : way == 2 ? ", lists of big integers" : way == 3 ? ", text" : ", map") + ")";
            r.push_back({nm, 0, 0, [=](const Env &E) {
                ZZX q; Mat<ZZ> F; dirty(q, E.dirt); dirty(F, E.dirt); FZZ f = toZZ(z.f); vector<vector<int64_t>> ms; vector<int64_t> ci; vector<ZZ> cz; for (auto &t : z.f) { ms.push_back(vector<int64_t>(t.first.begin(), t.first.end())); ci.push_back(t.second); cz.push_back(ZZ(t.second)); }
                int64_t p = z.p; bool verb = E.verbose, inc = z.inc, bet = z.better; int thr = E.threads, ab = z.abs; SetSeed(to_ZZ(5));
                if (way == 0) { zeta_function(q, F, f, p, verb, thr, ab, inc, bet); MC_CHECK(f == toZZ(z.f), nm << " changes the equation it was given"); }
                if (way == 1) zeta_function(q, F, ms, ci, p, verb, thr, ab, inc, bet);
                if (way == 2) zeta_function(q, F, ms, cz, p, verb, thr, ab, inc, bet);
                if (way == 3) { ostringstream o; o << p << "\n" << f; zeta_function(q, F, o.str().c_str(), verb, thr, ab, inc, bet); }
                MC_CHECK(p == z.p && verb == (bool)E.verbose && inc == z.inc && bet == z.better && thr == E.threads && ab == z.abs, nm << " changes its arguments");
                return pr(q) + pr(F); }, "", true, true});
        }
    return r;
}
static Mat<ZZ> sample(int r, int c) { Mat<ZZ> M; M.SetDims(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) M[i][j] = (i + 2) * (j * j - 3) - i * i + (i == j ? power_ZZ(2, 70) : ZZ(0)); return M; }
struct Z1 { long n; vector<__mpz_struct> a; Z1(long n_, int k) : n(n_), a(n_) { for (long i = 0; i < n; ++i) { mpz_init(&a[i]); if (k) mpz_ui_pow_ui(&a[i], 7, k == 1 ? 90 : k == 2 ? 1 : 30); } } ~Z1() { for (auto &x : a) mpz_clear(&x); } mpz_t *p() { return reinterpret_cast<mpz_t *>(a.data()); } void set(const Mat<ZZ> &M) { for (long i = 0; i < M.NumRows(); ++i) for (long j = 0; j < M.NumCols(); ++j) ::conv(p()[i * M.NumCols() + j], M[i][j]); } string s() { string r; for (auto &x : a) { char *c = mpz_get_str(nullptr, 10, &x); r += string(c) + " "; free(c); } return r; } };
static vector<Call> helpers() {
    vector<Call> r; auto add = [&](const string &n, bool out, function<string(const Env &)> f, int p = 0, int N = 0) { r.push_back({n, p, N, f, "", out, false}); };
    add("charpoly", false, [](const Env &) { return pr(charpoly(sample(4, 4))) + pr(charpoly(sample(1, 1))); });
    add("charpoly_frob", false, [](const Env &) { Vec<int64_t> pc; pc.SetLength(3); pc[0] = 3; pc[1] = 2; pc[2] = 1; Mat<ZZ> M; M.SetDims(2, 2); M[0][0] = 49; M[0][1] = -7 + 343; M[1][0] = 1; M[1][1] = 1 - 98; return pr(charpoly_frob(M, pc, 7, 1)); });
    add("geometric_picard", false, [](const Env &) { Vec<ZZ> c; ZZX q(INIT_MONO, 0); for (int k = 0; k < 3; ++k) { ZZX l; SetCoeff(l, 2, 1); SetCoeff(l, 1, k == 0 ? 0 : k == 1 ? -5 : 3); SetCoeff(l, 0, 25); q *= l; } c.SetLength(deg(q) + 1); for (int i = 0; i <= deg(q); ++i) c[i] = coeff(q, i); return to_string(geometric_picard(c, 5, 2)); });
    add("geometric_picard of large factors", false, [](const Env &) { string s; for (long p : {5L, 1000003L}) for (int m = 1; m <= 6; ++m) for (int k = 0; k < m; ++k) { ZZX f, l; SetCoeff(f, 2 * m, 1); SetCoeff(f, m, power(ZZ(p), k) * 3); SetCoeff(f, 0, power(ZZ(p), 2 * m)); SetCoeff(l, m, 1); SetCoeff(l, 0, power(ZZ(p), m)); for (int two = 0; two < 2; ++two) { if (two) f *= l * l; Vec<ZZ> c; c.SetLength(deg(f) + 1); for (int i = 0; i <= deg(f); ++i) c[i] = coeff(f, i); if ((c.length() - 1) % 2 == 0) s += to_string(geometric_picard(c, p, 3)) + " "; } } return s; });
    add("charpoly of large matrices", false, [](const Env &) { string s; for (int n = 1; n < 6; ++n) { Mat<ZZ> M = sample(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i][j] *= power(ZZ(7), 30 + i); s += pr(charpoly(M)) + pr(trace(M)); } return s; });
    add("charpoly_frob of large matrices", false, [](const Env &) { string s; for (int w = 1; w <= 2; ++w) for (long p : {10007L, 1000003L}) { ZZ q = power(ZZ(p), w); Vec<int64_t> pc; pc.SetLength(3); pc[0] = 2 + w; pc[1] = 9; pc[2] = 9; Mat<ZZ> M; M.SetDims(2, 2); M[0][1] = -q; M[1][0] = 1; M[1][1] = w == 1 ? 5 : p + 7; M[0][0] = power(ZZ(p), 9); s += pr(charpoly_frob(M, pc, p, w)); } return s; });
    add("default_args", true, [](const Env &E) { string s; for (auto &x : vector<array<int, 3>>{{2, 3, 5}, {2, 4, 7}, {3, 4, 5}, {3, 5, 7}, {2, 9, 11}}) { int64_t prec = E.dirt ? -77 : 0, p = x[2], n = x[0], d = x[1]; Vec<int64_t> N, c; dirty(N, E.dirt); dirty(c, E.dirt); default_args(prec, N, c, p, n, d); s += to_string(prec) + pr(N) + pr(c); MC_CHECK(p == x[2] && n == x[0] && d == x[1], "default_args changes its arguments"); } return s; });
    add("tuple_list_generator", true, [](const Env &E) { string s; for (auto &x : vector<pair<int, int>>{{0, 2}, {3, 1}, {4, 3}, {2, 4}}) { Vec<Vec<int64_t>> t; dirty(t, E.dirt); tuple_list_generator(t, x.first, x.second); s += pr(t); } return s; });
    add("binomials and factorials", false, [](const Env &) { string s; for (int k = 0; k < 20; ++k) s += to_string(binomial(19, k)) + " " + ::str(binomial_ZZ(70, 3 * k)) + " " + ::str(factorial<ZZ>(k)) + " " + ::str(factorial<ZZ>(k, 4)) + " " + to_string(valuation_of_factorial(k * 9, 3)) + ";"; return s; });
    add("factorial_p_adic", true, [](const Env &E) { string s; for (int k = 0; k < 40; k += 3) { ZZ_p x; if (E.dirt) x = -1; int64_t v = factorial_p_adic(x, k, 5); s += ::str(x) + " " + to_string(v) + ";"; if (E.dirt) x = -1; v = factorial_p_adic(x, k, 5, 7); s += ::str(x) + " " + to_string(v) + ";"; } return s; }, 5, 4);
    add("change_of_variables", false, [](const Env &) { Mat<ZZ> M = sample(3, 3); FZZ f = toZZ(nonnd()); string s = pr(change_of_variables<ZZ>(f, M)); Mat<zz_p> m; m.SetDims(3, 3); for (int i = 0; i < 9; ++i) m[i / 3][i % 3] = i * i + 1; return s + pr(change_of_variables<zz_p>(tozz_p(nonnd()), m)); }, 7, 3);
    add("change_of_variables_monomial", false, [](const Env &) { string s; for (auto &m : monos(3, 3)) s += pr(change_of_variables_monomial(vec(m), vec({1, 2, 3}))); return s; });
    add("tests of smoothness", false, [](const Env &) { string s; for (auto &f : vector<Form>{nonnd(), fermat(3, 3), fermat(3, 4), Form{{{2, 1, 0}, 1}, {{0, 0, 3}, 1}}}) s += isSmooth(tozz_p(f)) ? isND(tozz_p(f)) ? "n" : "s" : "-"; return s; }, 7, 2);
    add("find_change_of_variables", false, [](const Env &) { SetSeed(to_ZZ(3)); return pr(find_change_of_variables(tozz_p(nonnd()), 60)); }, 7, 2);
    add("random_SL_matrix", false, [](const Env &) { SetSeed(to_ZZ(9)); return pr(random_SL_matrix(3)) + pr(random_SL_matrix(2)) + pr(random_SL_matrix(1)); }, 7, 2);
    add("trace and products", true, [](const Env &E) {
        string s = pr(trace(sample(4, 4))); Mat<ZZ> A = sample(2, 3), B = sample(4, 3), C = sample(3, 4), R; dirty(R, E.dirt); mul_transpose(R, A, B); s += pr(R); R = Mat<ZZ>(); dirty(R, E.dirt); transpose_mul_transpose(R, A, B); s += pr(R);
        Z1 a(6, 0), b(12, 0), c(12, 0), x(8, E.dirt), y(8, E.dirt), z(6, E.dirt), w(2, E.dirt), v(3, 0); a.set(A); b.set(B); c.set(C); mpz_t t; mpz_init_set_si(t, -5); ::mul(x.p(), a.p(), 2, 3, c.p(), 3, 4); mul_transpose(y.p(), a.p(), 2, 3, b.p(), 3, 4); ::mul(z.p(), t, a.p(), 2, 3); for (int i = 0; i < 3; ++i) mpz_set_si(v.p()[i], i - 1); ::mul(w.p(), a.p(), 2, 3, v.p(), 3); s += x.s() + y.s() + z.s() + w.s(); ::mul(v.p()[0], a.p(), 3, b.p(), 3); s += v.s();
        mpz_t u; mpz_init_set_si(u, E.dirt * 1000003); ::mul(u, a.p(), 6, b.p(), 6); char *q = mpz_get_str(nullptr, 10, u); s += q; free(q); mpz_clear(u); mpz_clear(t); return s; });
    add("products of FLINT matrices", true, [](const Env &E) { fmpz_mat_t A; fmpz_mat_init(A, 3, 3); Mat<ZZ> M = sample(3, 3); for (int i = 0; i < 9; ++i) ::conv(fmpz_mat_entry(A, i / 3, i % 3), M[i / 3][i % 3]); fmpz v[3], w[3]; for (int i = 0; i < 3; ++i) { fmpz_init(v + i); fmpz_init(w + i); fmpz_set_si(v + i, 5 - 7 * i); if (E.dirt) fmpz_set_ui(w + i, E.dirt), fmpz_mul_2exp(w + i, w + i, E.dirt * 40); } ::mul(w, A, v); string s; for (auto &x : w) { char *c = fmpz_get_str(nullptr, 10, &x); s += string(c) + " "; flint_free(c); } ::mul(w, v, v, 3); { char *c = fmpz_get_str(nullptr, 10, w); s += c; flint_free(c); } for (int i = 0; i < 3; ++i) { fmpz_clear(v + i); fmpz_clear(w + i); } fmpz_mat_clear(A); return s; });
    add("products of modular matrices", true, [](const Env &E) { Mat<ZZ_p> A = conv<Mat<ZZ_p>>(sample(2, 3)), B = conv<Mat<ZZ_p>>(sample(4, 3)), R; dirty(R, E.dirt); mul_transpose(R, A, B); string s = pr(R); Mat<ZZ_p> R2; dirty(R2, E.dirt); transpose_mul_transpose(R2, A, B); return s + pr(R2); }, 5, 3);
    for (int wide : {0, 1}) { int p = 5, N = wide ? 40 : 3;
        add(string("conversions, modulus ") + (wide ? "wide" : "short"), true, [=](const Env &E) {
            string s; Mat<ZZ> M = sample(3, 2), B; dirty(B, E.dirt); fmpz_mat_t A; fmpz_mat_init(A, 3, 2); for (int i = 0; i < 6; ++i) if (E.dirt) fmpz_ui_pow_ui(fmpz_mat_entry(A, i / 2, i % 2), 3, 40 * E.dirt); ::conv(A, M); ::conv(B, A); s += pr(B); Mat<ZZ_p> P; dirty(P, E.dirt); ::conv(P, A); s += pr(P); ::conv(A, P); ::conv(B, A); s += pr(B); fmpz_mat_clear(A);
            Z1 x(6, E.dirt); ::conv(x.p(), M); s += x.s(); return s; }, p, N);
        add(string("solve_system, modulus ") + (wide ? "wide" : "short"), true, [=](const Env &E) {
            Mat<zz_p> T; T.SetDims(3, 4); for (int i = 0; i < 12; ++i) T[i / 4][i % 4] = i * i + 1; for (int j = 0; j < 4; ++j) T[2][j] = T[0][j] + 2 * T[1][j]; string s; Mat<zz_p> T0 = T; Mat<ZZ_p> S; S.SetDims(3, 4); for (int i = 0; i < 12; ++i) S[i / 4][i % 4] = i * i + 1 + 5 * i; for (int j = 0; j < 4; ++j) S[2][j] = S[0][j] + 2 * S[1][j]; Mat<ZZ_p> S0 = S;
            for (bool fl : {true, false}) { Vec<int64_t> B, C; Mat<zz_p> U; Mat<ZZ_p> V; dirty(B, E.dirt); dirty(U, E.dirt); dirty(C, E.dirt); dirty(V, E.dirt); solve_system_zz_p(B, U, T, fl); solve_system_padic(C, V, S, N, fl); s += pr(B) + pr(U) + pr(C) + pr(V); MC_CHECK(T == T0 && S == S0, "the solver changes its matrix"); }
            return s; }, p, N);
    }
    return r;
}
// a whole life of an object, with every output variable of its queries used before
static string life(const Cfg &c, const Env &E) {
    omp_set_num_threads(E.threads);
    FZZp f = over(lifted(c.e)), f0 = f; bool verb = E.verbose; string s; int n = c.e.n, d = c.e.d;
    shared_ptr<hypersurface> H; shared_ptr<hypersurface_non_degenerate> HN; if (c.nd) { HN = make_shared<hypersurface_non_degenerate>(c.e.p, c.e.prec, f, verb); H = HN; } else H = make_shared<hypersurface>(c.e.p, c.e.prec, f, verb); H->dR->save_memory = c.save;
    MC_CHECK(f == f0, "a constructor changes the equation it was given"); de_Rham_local &J = *H->dR; s += pr(J.coKernels_J_basis) + pr(J.Hilbert_J);
    auto check = [&](const char *who, const Vec<int64_t> &u, const Vec<int64_t> &v, const Mono &a, const Mono &b) { MC_CHECK(u == vec(a) && v == vec(b), who << " changes its arguments"); };
    for (auto &st : stepsJ(n, d)) { Vec<int64_t> u = vec(st.first), v = vec(st.second); long w = J.tuple_list[d * n - n].length(); Vec<ZZ_p> G = testvec(w), R; Vec<ZZ> Z;
        s += pr(J.reduce_vector_J(u, v, G)); dirty(Z, E.dirt); J.reduce_vector_J_ZZ(Z, u, v, lift(G)); s += pr(Z); bool ok = true; for (int i = 0; i <= n; ++i) ok = ok && (st.first[i] == 0 || st.second[i] > 0);
        dirty(R, E.dirt); J.reduce_vector_J_poly(R, u, v, 3, G); s += pr(R); Vec<ZZ> Y; dirty(Y, E.dirt); J.reduce_vector_J_poly_ZZ(Y, u, v, 3, lift(G)); s += pr(Y); MC_CHECK(G == testvec(w), "a reduction changes the vector it was given"); check("a reduction", u, v, st.first, st.second); s += pr(J.get_reduction_matrix_J(u, v)) + pr(J.get_reduction_matrix_J_ZZ(u, v)); }
    for (int l : {0, d - 1, d, d * n - n}) if (l < (long)J.tuple_list.length()) { Mat<ZZ_p> M; dirty(M, E.dirt); if (l >= d - 1) { J.matrix_J(M, l); s += pr(M); } }
    for (auto &m : monos(n + 1, (n + 1) * d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (pos && (n == 1 ? (m[0] + 2 * m[1]) % 5 == 0 : (m[0] + 2 * m[1] + 3 * m[n]) % 11 == 0)) { Vec<int64_t> u = vec(m); s += pr(J.monomial_to_basis_J(u)); if (HN) s += pr(HN->dR_ND->monomial_to_basis_ND(u)); } }
    if (HN) { auto &D = *HN->dR_ND; for (auto &st : stepsND(n, d)) { Vec<int64_t> u = vec(st.first), v = vec(st.second); long w = D.coKernels_ND_basis.length(); Vec<ZZ_p> G = testvec(w), R; Vec<ZZ> Z; dirty(R, E.dirt); D.reduce_vector_ND(R, u, v, G); s += pr(R); dirty(Z, E.dirt); D.reduce_vector_ND_ZZ(Z, u, v, lift(G)); for (long k = 0; k < Z.length(); ++k) Z[k] %= ZZ_p::modulus(); s += pr(Z); R = Vec<ZZ_p>(); dirty(R, E.dirt); D.reduce_vector_ND_poly(R, u, v, 3, G); s += pr(R); Z = Vec<ZZ>(); dirty(Z, E.dirt); D.reduce_vector_ND_poly_ZZ(Z, u, v, 3, lift(G)); s += pr(Z); MC_CHECK(G == testvec(w), "a reduction changes the vector it was given"); check("a reduction", u, v, st.first, st.second);
            vector<fmpz_mat_struct> P(n + 2); for (auto &m : P) { fmpz_mat_init(&m, w, w); if (E.dirt) for (long i = 0; i < w * w; ++i) fmpz_ui_pow_ui(fmpz_mat_entry(&m, i / w, i % w), 3, 20 * E.dirt); } D.get_ND_poly_flint(P.data(), u, v); for (auto &m : P) { Mat<ZZ> z; ::conv(z, &m); s += pr(z); }
            fmpz_t q; fmpz_init(q); ::conv(q, ZZ_p::modulus()); vector<fmpz> g(w), h(w); for (long i = 0; i < w; ++i) { fmpz_init(&g[i]); fmpz_init(&h[i]); ::conv(&g[i], rep(G[i])); if (E.dirt) fmpz_ui_pow_ui(&h[i], 11, 25 * E.dirt); } D.reduce_vector_ND_poly_flint(h.data(), P.data(), 3, g.data(), q); for (auto &x : h) { char *t = fmpz_get_str(nullptr, 10, &x); s += string(t) + " "; flint_free(t); } for (long i = 0; i < w; ++i) { fmpz_clear(&g[i]); fmpz_clear(&h[i]); } for (auto &m : P) fmpz_mat_clear(&m); fmpz_clear(q); }
        Mat<ZZ_p> M; dirty(M, E.dirt); D.matrix_ND(M, d); s += pr(M); }
    for (long i : {0L, J.coKernels_J_basis.length() - 1}) for (int N : {1, 2}) { s += pr(H->frob_J(i, N)); for (int l : {0, 1, 2}) s += pr(H->frob_J_ZZ(i, N, l)) + (l < 2 ? pr(H->frob_J_ZZ_p(i, N, l)) : ""); if (HN) { s += pr(HN->frob_ND(i, N)) + pr(HN->frob_ND_flint(i, N)); for (int l : {0, 1, 2}) s += pr(HN->frob_ND_ZZ(i, N, l)) + (l < 2 ? pr(HN->frob_ND_ZZ_p(i, N, l)) : ""); } }
    Vec<int64_t> N; N.SetLength(n); for (int i = 0; i < n; ++i) N[i] = i == 0 ? 2 : 1; Vec<int64_t> N0 = N; s += pr(H->frob_matrix_J(N)); if (HN) s += pr(HN->frob_matrix_ND(N)); MC_CHECK(N == N0, "frob_matrix changes its arguments");
    if (HN) HN->dR_ND->compute_everything_ND(true, true); else J.compute_everything_J(); s += pr(H->frob_J(0, 1)); return s;
}
// whole lives of objects
static vector<Call> lives() {
    vector<Call> L; auto addlife = [&](const Eq &e) { if (!is_smooth(e.f, e.n, e.d, e.p)) return; for (int nd = 0; nd < 2; ++nd) for (int sv = 0; sv < 2; ++sv) { if (nd && !is_nd(e.f, e.n, e.d, e.p)) continue; Cfg c{e, (bool)nd, true, (bool)sv}; L.push_back({"a whole life of a " + show(c), (int)e.p, e.prec, [=](const Env &E) { return life(c, E); }, "", true, true}); } };
    Form bin = fermat(2, 3); bin[{2, 1}] = 1; Form quad = fermat(2, 2); quad[{1, 1}] = 1; quad[{0, 2}] = 2; Form cub = fermat(3, 3); cub[{1, 1, 1}] = 1; Form bq = fermat(2, 4); bq[{1, 3}] = 1; Form miss; miss[{2, 1, 0}] = 1; miss[{0, 2, 1}] = 1; miss[{1, 0, 2}] = 1; miss[{1, 1, 1}] = 1;
    addlife({1, 3, 5, 4, 1, bin}); addlife({1, 2, 3, 5, 0, quad}); addlife({1, 4, 3, 44, 2, bq}); addlife({2, 3, 5, 4, 1, cub}); addlife({2, 3, 5, 4, 0, nonnd()}); addlife({2, 3, 5, 4, 1, miss});
    if (mc::thorough()) { addlife({2, 3, 5, 30, 1, cub}); Form quar = fermat(3, 4); quar[{2, 1, 1}] = 1; addlife({2, 4, 3, 5, 1, quar}); addlife({2, 3, 13, 18, 2, cub}); addlife({2, 3, 7, 4, 1, cub}); }
    return L;
}
#endif
