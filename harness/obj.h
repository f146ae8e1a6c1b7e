// Objects under a history of queries: a cloneable wrapper around the four classes, the alphabet of queries, and the
// complete contents of an object as text.  Shared by the harnesses of C07 and C08.
#ifndef VERIF_OBJ_H
#define VERIF_OBJ_H
#include "frob.h"
struct Cfg { Eq e; bool nd, hyp, save; };
inline std::string show(const Cfg &c) { return std::string(c.nd ? "nondegenerate " : "general ") + (c.hyp ? "hypersurface" : "de Rham object") + (c.save ? " saving memory " : " keeping everything ") + show(c.e); }
struct Obj {
    std::shared_ptr<de_Rham_local> J; std::shared_ptr<de_Rham_non_degenerate_local> N; std::shared_ptr<hypersurface> H; std::shared_ptr<hypersurface_non_degenerate> HN;
    Obj() {}
    explicit Obj(const Cfg &c) {
        FZZp f = over(lifted(c.e));
        if (c.hyp) { if (c.nd) { HN = std::make_shared<hypersurface_non_degenerate>(c.e.p, c.e.prec, f, false); H = HN; N = HN->dR_ND; J = N; } else { H = std::make_shared<hypersurface>(c.e.p, c.e.prec, f, false); J = H->dR; } J->save_memory = c.save; }
        else if (c.nd) { N = std::make_shared<de_Rham_non_degenerate_local>(c.e.p, c.e.prec, f, false, c.save); J = N; }
        else J = std::make_shared<de_Rham_local>(c.e.p, c.e.prec, f, false, c.save);
    }
    Obj clone() const {
        Obj o;
        if (N) { o.N = std::make_shared<de_Rham_non_degenerate_local>(*N); o.J = o.N; } else o.J = std::make_shared<de_Rham_local>(*J);
        if (HN) { o.HN = std::make_shared<hypersurface_non_degenerate>(*HN); o.HN->dR_ND = o.N; o.HN->dR = o.N; o.H = o.HN; }
        else if (H) { o.H = std::make_shared<hypersurface>(*H); o.H->dR = o.J; }
        return o;
    }
};
template <class T> void ser(std::ostream &o, const T &x) { o << x << ";"; }
template <class A, class B> void ser(std::ostream &o, const std::pair<A, B> &x);
template <class K, class V, class C> void ser(std::ostream &o, const std::map<K, V, C> &m) { o << "{"; for (auto &t : m) { ser(o, t.first); o << ":"; ser(o, t.second); } o << "}"; }
template <class A, class B> void ser(std::ostream &o, const std::pair<A, B> &x) { ser(o, x.first); ser(o, x.second); }
inline std::string contents(const Obj &x) {
    std::ostringstream o; const de_Rham_local &D = *x.J;
    ser(o, D.p); ser(o, D.precision); ser(o, D.save_memory); ser(o, D.verbose); ser(o, D.n); ser(o, D.d); ser(o, D.f); ser(o, D.fbar); ser(o, D.Hilbert_J); ser(o, D.coKernels_J_basis); ser(o, D.coKernels_J_basis_dict);
    ser(o, D.solve_J); o << "I"; ser(o, D.inclusion_matrix_J_dict); o << "F"; ser(o, D.final_reduction_matrix_J_dict); o << "R"; ser(o, D.reduction_matrix_J_dict); o << "Z"; ser(o, D.reduction_matrix_J_ZZ_dict);
    if (x.N) { auto &E = *x.N; ser(o, E.Hilbert_ND); ser(o, E.coKernels_ND_basis); ser(o, E.coKernels_ND_basis_dict); ser(o, E.solve_ND); o << "I"; ser(o, E.inclusion_matrix_ND_dict); o << "C"; ser(o, E.coKernels_ND_to_basis_dict); o << "R"; ser(o, E.reduction_matrix_ND_dict); o << "Z"; ser(o, E.reduction_matrix_ND_ZZ_dict); o << "P"; ser(o, E.reduction_matrix_ND_poly_dict); o << "Q"; ser(o, E.reduction_matrix_ND_poly_ZZ_dict); }
    if (x.H) { o << "H"; ser(o, x.H->p); ser(o, x.H->precision); ser(o, x.H->n); ser(o, x.H->d); for (long i = 0; i < x.H->fpow.length(); ++i) ser(o, x.H->fpow.get(i)); }
    return o.str();
}
struct Op { std::string name; std::function<std::string(Obj &)> run; };
inline NTL::Vec<NTL::ZZ_p> testvec(long n) { NTL::Vec<NTL::ZZ_p> G; G.SetLength(n); for (long g = 0; g < n; ++g) G[g] = NTL::conv<NTL::ZZ_p>(NTL::power_ZZ(7, g % 23) + g); return G; }
inline NTL::Vec<NTL::ZZ> lift(const NTL::Vec<NTL::ZZ_p> &v) { NTL::Vec<NTL::ZZ> r; r.SetLength(v.length()); for (long i = 0; i < v.length(); ++i) r[i] = rep(v[i]); return r; }
// admissible steps of the general method: a direction of full support, one with a vanishing entry, and states above them
inline std::vector<std::pair<Mono, Mono>> stepsJ(int n, int d) {
    std::vector<std::pair<Mono, Mono>> r; std::vector<Mono> vs; for (auto &v : monos(n + 1, d)) { int z = 0; for (int x : v) z += !x; if ((vs.empty() && !z) || (vs.size() < 2 && z == 1)) vs.push_back(v); else if (vs.size() < 2 && n == 1) vs.push_back(v); }
    for (auto &v : vs) for (int k = 1; k <= 2; ++k) { Mono u; for (auto &m : monos(n + 1, n + d * (k - 1))) { bool ok = true; for (int i = 0; i <= n; ++i) ok = ok && (m[i] == 0 || v[i] > 0); if (ok) { u = m; if (k == 2) break; } } if (u.size()) r.push_back({u, v}); }
    return r;
}
inline std::vector<std::pair<Mono, Mono>> stepsND(int n, int d) {
    std::vector<std::pair<Mono, Mono>> r; std::vector<Mono> vs = monos(n + 1, d), us; for (auto &m : monos(n + 1, d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (pos) us.push_back(m); }
    if (us.empty()) for (auto &m : monos(n + 1, 2 * d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (pos) { us.push_back(m); break; } }
    r.push_back({us[0], vs[0]}); r.push_back({us.back(), vs[vs.size() / 2]}); Mono w = us[0]; for (int i = 0; i <= n; ++i) w[i] += vs[1][i]; r.push_back({w, vs[vs.size() / 2]}); return r;
}
inline std::vector<Op> alphabet(const Cfg &c) {
    std::vector<Op> A; int n = c.e.n, d = c.e.d; std::string s;
    auto add = [&](const std::string &nm, std::function<std::string(Obj &)> f) { A.push_back(Op{nm, f}); };
    std::vector<std::pair<Mono, Mono>> sj = stepsJ(n, d);
    auto lowu = [&](int l, int which) { Mono u; int k = 0; for (auto &m : monos(n + 1, l * d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (pos && (u.empty() || k++ < which)) u = m; } return u; };
    for (size_t i = 0; i < sj.size() && !c.hyp; ++i) {
        NTL::Vec<int64_t> u = vec(sj[i].first), v = vec(sj[i].second); std::string a = " " + str(u) + str(v);
        if (!c.nd || i == 0) {
            add("get_reduction_matrix_J" + a, [=](Obj &o) { return str(o.J->get_reduction_matrix_J(u, v)); });
            add("get_reduction_matrix_J_ZZ" + a, [=](Obj &o) { return str(o.J->get_reduction_matrix_J_ZZ(u, v)); });
        }
        if (i % 2 == 1 && !c.nd) {
            add("reduce_vector_J" + a, [=](Obj &o) { return str(o.J->reduce_vector_J(u, v, testvec(o.J->tuple_list[d * n - n].length()))); });
            add("reduce_vector_J_ZZ" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ> r; o.J->reduce_vector_J_ZZ(r, u, v, ::lift(testvec(o.J->tuple_list[d * n - n].length()))); return str(r); });
            add("reduce_vector_J_poly" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ_p> r; o.J->reduce_vector_J_poly(r, u, v, 3, testvec(o.J->tuple_list[d * n - n].length())); return str(r); });
            add("reduce_vector_J_poly_ZZ" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ> r = ::lift(testvec(o.J->tuple_list[d * n - n].length())); o.J->reduce_vector_J_poly_ZZ(r, u, v, 3, r); return str(r); });
        }
    }
    for (int l : c.nd ? std::vector<int>{n + 1} : c.hyp ? std::vector<int>{n + 1} : std::vector<int>{1, n, n + 1, n + 2}) { Mono m = lowu(l, l > n ? 3 : 1); if (m.empty()) continue; NTL::Vec<int64_t> u = vec(m); add("monomial_to_basis_J " + str(u), [=](Obj &o) { return str(o.J->monomial_to_basis_J(u)); }); }
    if (!c.hyp) {
        std::vector<Mono> us = monos(n + 1, n); for (size_t i : {(size_t)0, us.size() / 2}) { if (c.nd && i) continue; NTL::Vec<int64_t> u = vec(us[i]); add("get_inclusion_matrix_J " + str(u), [=](Obj &o) { return str(*o.J->get_inclusion_matrix_J(u)); }); }
        for (int k = 1; k <= n; ++k) if (!c.nd || k == n) add("get_final_reduction_matrix_J " + std::to_string(k), [=](Obj &o) { return str(*o.J->get_final_reduction_matrix_J(k)); });
        for (int l : {d, (d - 2) * (n + 1) + 1, d * n - n}) if (!c.nd || l == d) add("get_solve_J " + std::to_string(l), [=](Obj &o) { auto *q = o.J->get_solve_J(l); return str(q->first) + str(q->second); });
        if (!c.nd) add("compute_everything_J", [=](Obj &o) { o.J->compute_everything_J(); return std::string(); });
    }
    if (c.nd) {
        std::vector<std::pair<Mono, Mono>> sn = stepsND(n, d);
        for (size_t i = 0; i < sn.size() && !c.hyp; ++i) {
            NTL::Vec<int64_t> u = vec(sn[i].first), v = vec(sn[i].second); std::string a = " " + str(u) + str(v);
            if (i != 1) { add("get_reduction_matrix_ND" + a, [=](Obj &o) { return str(o.N->get_reduction_matrix_ND(u, v)); });
                add("get_reduction_matrix_ND_ZZ" + a, [=](Obj &o) { return str(o.N->get_reduction_matrix_ND_ZZ(u, v)); }); }
            if (i != 0) {
                add("reduce_vector_ND" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ_p> r; o.N->reduce_vector_ND(r, u, v, testvec(o.N->coKernels_ND_basis.length())); return str(r); });
                add("reduce_vector_ND_ZZ" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ> r; o.N->reduce_vector_ND_ZZ(r, u, v, ::lift(testvec(o.N->coKernels_ND_basis.length()))); for (long k = 0; k < r.length(); ++k) r[k] %= NTL::ZZ_p::modulus(); return str(r); });
                add("reduce_vector_ND_poly" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ_p> r; o.N->reduce_vector_ND_poly(r, u, v, 3, testvec(o.N->coKernels_ND_basis.length())); return str(r); });
                add("reduce_vector_ND_poly_ZZ" + a, [=](Obj &o) { NTL::Vec<NTL::ZZ> r = ::lift(testvec(o.N->coKernels_ND_basis.length())); o.N->reduce_vector_ND_poly_ZZ(r, u, v, 3, r); return str(r); });
                add("get_ND_poly_flint" + a, [=](Obj &o) { long W = o.N->coKernels_ND_basis.length(); std::vector<fmpz_mat_struct> P(n + 2); for (auto &m : P) fmpz_mat_init(&m, W, W); o.N->get_ND_poly_flint(P.data(), u, v); std::ostringstream q; for (auto &m : P) { NTL::Mat<NTL::ZZ> z; ::conv(z, &m); q << z; fmpz_mat_clear(&m); } return q.str(); });
            }
        }
        std::vector<Mono> us; for (auto &m : monos(n + 1, d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (pos) us.push_back(m); }
        for (size_t i = 0; i < us.size() && i < 1 && !c.hyp; ++i) { NTL::Vec<int64_t> u = vec(us[i]); add("get_coKernels_ND_to_basis " + str(u), [=](Obj &o) { return str(*o.N->get_coKernels_ND_to_basis(u)); }); add("get_inclusion_matrix_ND " + str(u), [=](Obj &o) { std::string r; for (int l = 0; l < n; ++l) r += str(*o.N->get_inclusion_matrix_ND(u, l)); return r; }); }
        for (int l : c.hyp ? std::vector<int>{2} : std::vector<int>{1, n + 1}) { Mono m = lowu(l, 1); if (m.empty()) continue; NTL::Vec<int64_t> u = vec(m); add("monomial_to_basis_ND " + str(u), [=](Obj &o) { return str(o.N->monomial_to_basis_ND(u)); }); }
        if (!c.hyp) { add("get_solve_ND " + std::to_string(d), [=](Obj &o) { auto *q = o.N->get_solve_ND(d); return str(q->first) + str(q->second); });
            add("compute_everything_ND all", [=](Obj &o) { o.N->compute_everything_ND(true, true); return std::string(); }); add("compute_everything_ND needed", [=](Obj &o) { o.N->compute_everything_ND(false, false); return std::string(); }); }
    }
    if (c.hyp) {
        for (int k : {1, 3}) add("compute_fpow " + std::to_string(k), [=](Obj &o) { o.H->compute_fpow(k); std::ostringstream q; for (int i = 0; i <= k; ++i) ser(q, o.H->fpow.get(i)); return q.str(); });
        std::vector<std::pair<int, int>> cn = {{0, 1}, {0, 3}}; 
        for (auto &x : cn) { int N = x.second; for (int last = 0; last < 2; ++last) {
            if (last && N == 3) continue; auto idx = [=](Obj &o) { return last ? o.J->coKernels_J_basis.length() - 1 : 0; }; std::string a = std::string(last ? " last" : " first") + " column, " + std::to_string(N) + " terms";
            add("frob_J" + a, [=](Obj &o) { return str(o.H->frob_J(idx(o), N)); }); if (!last && N == 1) add("frob_J_ZZ_p" + a, [=](Obj &o) { return str(o.H->frob_J_ZZ_p(idx(o), N, 0)); });
            if (c.nd) { add("frob_ND" + a, [=](Obj &o) { return str(o.HN->frob_ND(idx(o), N)); }); if (last) { add("frob_ND_ZZ" + a, [=](Obj &o) { return str(o.HN->frob_ND_ZZ(idx(o), N, 0)); }); add("frob_ND_ZZ_p" + a, [=](Obj &o) { return str(o.HN->frob_ND_ZZ_p(idx(o), N, 1)); }); } }
        } }
        NTL::Vec<int64_t> N; N.SetLength(n); for (int i = 0; i < n; ++i) N[i] = i == 0 ? 2 : 1;
        add("frob_matrix_J", [=](Obj &o) { return str(o.H->frob_matrix_J(N)); }); if (c.nd) add("frob_matrix_ND", [=](Obj &o) { return str(o.HN->frob_matrix_ND(N)); });
        add("compute_everything", [=](Obj &o) { if (o.N) o.N->compute_everything_ND(true, true); else o.J->compute_everything_J(); return std::string(); });
    }
    return A;
}
#endif
