// C20: all ways of giving the input mean the same, and text round-trips
#define CHOICE_MAIN
#include "choice.h"
#include "said.h"
#include "frob.h"
using namespace NTL; using namespace std;
struct Out { ZZX z; Mat<ZZ> F; bool operator==(const Out &o) const { return z == o.z && F == o.F; } };
static string show(const Out &o) { return str(o.z) + " / " + str(o.F); }
typedef map<Mono, ZZ> BForm;
static string show(const BForm &f) { ostringstream o; for (auto &t : f) { o << (o.str().empty() ? "" : " + ") << t.second << "*x^("; for (size_t i = 0; i < t.first.size(); ++i) o << (i ? "," : "") << t.first[i]; o << ")"; } return o.str(); }
static FZZ mapof(const BForm &f) { FZZ r; for (auto &t : f) r[vec(t.first)] = t.second; return r; }
static vector<int64_t> v64(const Mono &m) { return vector<int64_t>(m.begin(), m.end()); }
struct Opt { bool model, verbose; int threads; };
static Out by_map(const BForm &f, long p, const Opt &o = {false, false, 1}) { Out r; FZZ m = mapof(f); zeta_function(r.z, r.F, m, p, o.verbose, o.threads, 0, true, o.model); return r; }
static Out by_ZZ(const vector<pair<Mono, ZZ>> &f, long p, const Opt &o = {false, false, 1}) { Out r; vector<vector<int64_t>> m; vector<ZZ> c; for (auto &t : f) { m.push_back(v64(t.first)); c.push_back(t.second); } zeta_function(r.z, r.F, m, c, p, o.verbose, o.threads, 0, true, o.model); return r; }
static bool fits(const vector<pair<Mono, ZZ>> &f) { for (auto &t : f) if (NumBits(t.second) > 63) return false; return true; }
static Out by_64(const vector<pair<Mono, ZZ>> &f, long p, const Opt &o = {false, false, 1}) { Out r; vector<vector<int64_t>> m; vector<int64_t> c; for (auto &t : f) { m.push_back(v64(t.first)); c.push_back(to_long(t.second)); } zeta_function(r.z, r.F, m, c, p, o.verbose, o.threads, 0, true, o.model); return r; }
static string text(const vector<pair<Mono, ZZ>> &f, long p, int style) {
    const char *nl = style == 1 ? " " : style == 2 ? "\n\n  " : "\n"; ostringstream o; o << p << nl << "[";
    for (size_t i = 0; i < f.size(); ++i) { o << (i ? (style == 2 ? "\n" : " ") : "") << "["; for (size_t j = 0; j < f[i].first.size(); ++j) o << (j ? " " : "") << f[i].first[j]; o << "]"; }
    o << "]" << nl << "["; for (size_t i = 0; i < f.size(); ++i) o << (i ? " " : "") << f[i].second; o << "]" << (style == 1 ? "" : nl); return o.str();
}
static Out by_text(const vector<pair<Mono, ZZ>> &f, long p, int style, const Opt &o = {false, false, 1}) { Out r; string s = text(f, p, style); zeta_function(r.z, r.F, s.c_str(), o.verbose, o.threads, 0, true, o.model); return r; }
static vector<pair<Mono, ZZ>> listof(const BForm &f) { return vector<pair<Mono, ZZ>>(f.begin(), f.end()); }
static void eq(const Out &a, const Out &b, const string &what) { MC_CHECK(a.z == b.z, what << ": polynomial " << b.z << " instead of " << a.z); MC_CHECK(a.F == b.F, what << ": Frobenius matrix " << b.F << " instead of " << a.F); mc::trans(); mc::trace(); mc::nontrivial(); }
static BForm big(const Form &f) { BForm r; for (auto &t : f) r[t.first] = ZZ(t.second); return r; }

// every order of the monomials through every overload
static void orders(const BForm &f, long p, int d) {
    Out want = by_map(f, p); mc::state(); mc::outcome(str(want.z));
    vector<pair<Mono, ZZ>> l = listof(f); vector<int> idx; for (size_t i = 0; i < l.size(); ++i) idx.push_back(i);
    do { vector<pair<Mono, ZZ>> q; string s; for (int i : idx) { q.push_back(l[i]); s += to_string(i); }
        eq(want, by_ZZ(q, p), "order " + s + ", list of big integers"); if (fits(q)) eq(want, by_64(q, p), "order " + s + ", list of machine integers"); eq(want, by_text(q, p, 0), "order " + s + ", text"); mc::state();
    } while (next_permutation(idx.begin(), idx.end()));
    for (int st = 1; st < 3; ++st) eq(want, by_text(l, p, st), "text style " + to_string(st));
    // printing the polynomial with the library's own operator and feeding it back
    { ostringstream o; FZZ m = mapof(f); o << p << "\n" << m; Out r; zeta_function(r.z, r.F, o.str().c_str(), false, 1, 0, true, false); eq(want, r, "text printed by the library"); }
    for (int v = 0; v < 2; ++v) for (int m = 0; m < 2; ++m) { Opt o = {(bool)m, (bool)v, 1}; auto cmp = [&](const Out &w, const char *what) { if (m) { MC_CHECK(w.z == want.z, what << ", model search: polynomial " << w.z << " instead of " << want.z); mc::trans(); mc::trace(); } else eq(want, w, what); };  // the model found depends on the random state
        cmp(by_map(f, p, o), "map, verbose or model search"); cmp(by_ZZ(l, p, o), "list, verbose or model search"); if (fits(l)) cmp(by_64(l, p, o), "machine integers, verbose or model search"); cmp(by_text(l, p, 0, o), "text, verbose or model search"); }
    (void)d;
}
// every combination of the options, every number of them left out, through all overloads
template <class Call> static void given(int k, bool v, int t, int a, bool i, bool m, const Call &call) { switch (k) { case 0: call(); break; case 1: call(v); break; case 2: call(v, t); break; case 3: call(v, t, a); break; case 4: call(v, t, a, i); break; default: call(v, t, a, i, m); } }
struct Way { int way; Out &r; const FZZ &m; const vector<vector<int64_t>> &ms; const vector<ZZ> &cz; const vector<int64_t> &cl; const string &tx; long p;
    template <class... O> void operator()(O... o) const { if (way == 0) zeta_function(r.z, r.F, m, p, o...); else if (way == 1) zeta_function(r.z, r.F, ms, cz, p, o...); else if (way == 2) zeta_function(r.z, r.F, ms, cl, p, o...); else zeta_function(r.z, r.F, tx.c_str(), o...); } };
static void options(const BForm &f, long p, const vector<int> &as) {
    auto l = listof(f); vector<vector<int64_t>> ms; vector<ZZ> cz; vector<int64_t> cl; for (auto &t : l) { ms.push_back(v64(t.first)); cz.push_back(t.second); if (fits(l)) cl.push_back(to_long(t.second)); } string tx = text(l, p, 0); FZZ m = mapof(f);
    map<tuple<int, bool, bool>, Out> memo;
    for (int k = 0; k <= 5; ++k) for (int v = 0; v < (k > 0 ? 2 : 1); ++v) for (int th = 1; th <= (k > 1 ? 2 : 1); ++th) for (int a : k > 2 ? as : vector<int>{0}) for (int i = 1; i >= (k > 3 ? 0 : 1); --i) for (int b = 1; b >= (k > 4 ? 0 : 1); --b) {
        string nm = to_string(k) + " options given: verbose=" + to_string(v) + " threads=" + to_string(th) + " precision=" + to_string(a) + " increase=" + to_string(i) + " search=" + to_string(b); mc::state();
        auto fresh = [] { choice::tape().lcg = 12345; };
        auto key = make_tuple(a, (bool)i, (bool)b); if (!memo.count(key)) { Out r; fresh(); zeta_function(r.z, r.F, m, p, false, 1, a, (bool)i, (bool)b); memo[key] = r; mc::outcome(str(r.z)); } const Out &want = memo[key];
        for (int way = 0; way < 4; ++way) { if (way == 2 && !fits(l)) continue; Out r; fresh(); Said said; streambuf *old = cout.rdbuf(&said);
            given(k, v, th, a, i, b, Way{way, r, m, ms, cz, cl, tx, p});
            cout.rdbuf(old); const char *w[] = {"map", "list of big integers", "list of machine integers", "text"}; eq(want, r, nm + ", " + w[way]); MC_CHECK(v || said.str().empty(), nm << ", " << w[way] << ": prints although not verbose: " << said.str().substr(0, 80)); MC_CHECK(!v || !said.str().empty(), nm << ", " << w[way] << ": prints nothing although verbose"); }
    }
}
// every subset of the remaining monomials with an explicit zero coefficient
static void zeros(const BForm &f, long p, int n, int d, uint64_t from, uint64_t to, const vector<Mono> &rest) {
    Out want = by_map(f, p, {false, false, 1});
    for (uint64_t w = from; w < to; ++w) {
        BForm g = f; for (size_t i = 0; i < rest.size(); ++i) if (w >> i & 1) g[rest[i]] = ZZ(0);
        mc::state(); Opt o = {false, false, 1}; string s = "explicit zeros " + to_string(w);
        eq(want, by_map(g, p, o), s); eq(want, by_64(listof(g), p, o), s + ", list"); eq(want, by_text(listof(g), p, 0, o), s + ", text");
    }
    (void)n; (void)d; mc::outcome(str(want.z));
}
// every representative of every coefficient modulo a power of p beyond the working precision (same matrix), and modulo p (same polynomial)
static void reps(const BForm &f, long p, const vector<ZZ> &mult, bool high) {
    Out want = by_map(f, p, {false, false, 1}); ZZ q = high ? power_ZZ(p, 45) : ZZ(p);
    vector<Mono> ms; for (auto &t : f) ms.push_back(t.first);
    uint64_t tot = 1; for (size_t i = 0; i < ms.size(); ++i) tot *= mult.size();
    for (uint64_t w = 0; w < tot; ++w) {
        BForm g = f; uint64_t x = w; for (auto &m : ms) { g[m] += q * mult[x % mult.size()]; x /= mult.size(); }
        for (auto it = g.begin(); it != g.end();) if (IsZero(it->second) && it != g.begin()) it = g.erase(it); else ++it;
        mc::state(); string s = "coefficients " + show(g); Opt o = {false, false, 1};
        vector<pair<string, Out>> r; r.push_back({"map", by_map(g, p, o)}); r.push_back({"list", by_ZZ(listof(g), p, o)}); r.push_back({"text", by_text(listof(g), p, 0, o)}); if (fits(listof(g))) r.push_back({"machine integers", by_64(listof(g), p, o)});
        for (auto &t : r) { if (high) eq(want, t.second, s + ", " + t.first); else { MC_CHECK(t.second.z == want.z, s << ", " << t.first << ": polynomial " << t.second.z << " instead of " << want.z); eq(r[0].second, t.second, s + ", " + t.first); } }
    }
    mc::outcome(str(want.z));
}
// all constructors taking the same equation build equivalent objects
template <class D> static void samedr(const de_Rham_local &a, const D &b, const string &w) {
    auto clean = [](const FZZp &m) { map<Mono, ZZ> r; for (auto &t : m) if (!IsZero(t.second)) r[mono(t.first)] = rep(t.second); return r; };
    MC_CHECK(clean(a.f) == clean(b.f), w << ": different equations"); { map<Mono, long> x, y; for (auto &t : a.fbar) if (!IsZero(t.second)) x[mono(t.first)] = rep(t.second); for (auto &t : b.fbar) if (!IsZero(t.second)) y[mono(t.first)] = rep(t.second); MC_CHECK(x == y, w << ": different reductions mod p"); }
    MC_CHECK(a.p == b.p && a.precision == b.precision && a.n == b.n && a.d == b.d, w << ": different parameters"); MC_CHECK(a.coKernels_J_basis == b.coKernels_J_basis, w << ": different bases " << a.coKernels_J_basis << " and " << b.coKernels_J_basis);
    MC_CHECK(a.Hilbert_J == b.Hilbert_J && a.tuple_list == b.tuple_list, w << ": different tables"); mc::trans();
}
static Vec<ZZ_p> dense(const map<Mono, ZZ> &f, int n, int d) { Vec<Vec<int64_t>> t; tuple_list_generator(t, d, n + 1); Vec<ZZ_p> r; r.SetLength(t.length()); for (long i = 0; i < t.length(); ++i) { auto it = f.find(mono(t[i])); if (it != f.end()) r[i] = NTL::conv<ZZ_p>(it->second); } return r; }
static void ctors(const FCase &c) {
    long p = c.e.p; int n = c.e.n, d = c.e.d, prec = c.e.prec; Mod mod(p, prec); map<Mono, ZZ> L = lifted(c.e); FZZp f = over(L); Vec<ZZ_p> fv = dense(L, n, d); bool naive = !c.e.lift;
    Fzzp fb = tozz_p(c.e.f); Vec<zz_p> fbv; fbv.SetLength(fv.length()); for (long i = 0; i < fv.length(); ++i) fbv[i] = NTL::conv<zz_p>(rep(fv[i]));
    de_Rham_local base(p, prec, f, false); Vec<int64_t> ones; ones.SetLength(n + 1); for (int i = 0; i <= n; ++i) ones[i] = 1;
    vector<Vec<int64_t>> us; for (int l = 1; l <= n; ++l) for (long i = 0; i < base.tuple_list[l * d - n - 1].length(); ++i) us.push_back(base.tuple_list[l * d - n - 1][i] + ones);
    vector<Vec<ZZ_p>> cls; for (auto &u : us) cls.push_back(base.monomial_to_basis_J(u));
    auto chk = [&](de_Rham_local &D, const string &w) { mc::state(); samedr(base, D, w); for (size_t i = 0; i < us.size(); ++i) { Vec<ZZ_p> r = D.monomial_to_basis_J(us[i]); MC_CHECK(r == cls[i], w << ": class of " << us[i] << " is " << r << " instead of " << cls[i]); } mc::trace(); mc::nontrivial(); };
    for (int v = 0; v < 2; ++v) for (int s = 0; s < 2; ++s) { string w = string(v ? " verbose" : "") + (s ? " saving memory" : "");
        { de_Rham_local D(p, prec, f, v, s); chk(D, "map" + w); MC_CHECK(D.verbose == (bool)v && D.save_memory == (bool)s, "options are not stored"); }
        { de_Rham_local D(p, prec, n, d, fv, v, s); chk(D, "vector" + w); MC_CHECK(D.verbose == (bool)v && D.save_memory == (bool)s, "options are not stored"); }
        if (naive) { de_Rham_local D(p, prec, fb, v, s); chk(D, "map mod p" + w); de_Rham_local E(p, prec, n, d, fbv, v, s); chk(E, "vector mod p" + w); MC_CHECK(E.verbose == (bool)v && E.save_memory == (bool)s, "options are not stored"); }
        if (c.nd) {
            de_Rham_non_degenerate_local B(p, prec, f, v, s); chk(B, "nondegenerate map" + w); MC_CHECK(B.verbose == (bool)v && B.save_memory == (bool)s, "options are not stored");
            auto chn = [&](de_Rham_non_degenerate_local &D, const string &w2) { chk(D, w2); MC_CHECK(D.coKernels_ND_basis == B.coKernels_ND_basis && D.Hilbert_ND == B.Hilbert_ND, w2 << ": different nondegenerate bases"); for (size_t i = 0; i < us.size() && i < 12; ++i) MC_CHECK(D.monomial_to_basis_ND(us[i]) == cls[i], w2 << ": nondegenerate class of " << us[i]); };
            { de_Rham_non_degenerate_local D(p, prec, n, d, fv, v, s); chn(D, "nondegenerate vector" + w); }
            if (naive) { de_Rham_non_degenerate_local D(p, prec, fb, v, s); chn(D, "nondegenerate map mod p" + w); de_Rham_non_degenerate_local E(p, prec, n, d, fbv, v, s); chn(E, "nondegenerate vector mod p" + w); }
        }
    }
    // hypersurface objects
    Vec<int64_t> N; N.SetLength(n); for (int i = 0; i < n; ++i) N[i] = c.N;
    Mat<ZZ_p> F; { hypersurface H(p, prec, f, false); F = H.frob_matrix_J(N); }
    auto same = [&](const Mat<ZZ_p> &M, const char *w) { MC_CHECK(M == F, w << ": Frobenius matrix " << M << " instead of " << F); mc::trans(); };
    for (int v = 0; v < 2; ++v) {
        { hypersurface H(p, prec, n, d, fv, v); same(H.frob_matrix_J(N), "hypersurface(vector)"); } { hypersurface H(p, prec, f, v); same(H.frob_matrix_J(N), "hypersurface(map)"); }
        if (naive) { { hypersurface H(p, prec, n, d, fbv, v); same(H.frob_matrix_J(N), "hypersurface(vector mod p)"); } { hypersurface H(p, prec, fb, v); same(H.frob_matrix_J(N), "hypersurface(map mod p)"); } }
        if (c.nd) {
            { hypersurface_non_degenerate H(p, prec, n, d, fv, v); same(H.frob_matrix_ND(N), "hypersurface_non_degenerate(vector)"); } { hypersurface_non_degenerate H(p, prec, f, v); same(H.frob_matrix_ND(N), "hypersurface_non_degenerate(map)"); }
            if (naive) { { hypersurface_non_degenerate H(p, prec, n, d, fbv, v); same(H.frob_matrix_ND(N), "hypersurface_non_degenerate(vector mod p)"); } { hypersurface_non_degenerate H(p, prec, fb, v); same(H.frob_matrix_ND(N), "hypersurface_non_degenerate(map mod p)"); } }
        }
    }
    mc::outcome(str(F));
}
static void famc(const string &name, const string &bound, int n, int d, const vector<long> &ps, const vector<Form> &fs, const vector<int> &lifts, double timeout = 120) { fam(name, bound, n, d, ps, {0}, lifts, fs, {1}, false, ctors, timeout); }
// text round trips of the polynomial maps
template <class T> static bool same_map(const map<Vec<int64_t>, T, vi64less> &a, const map<Vec<int64_t>, T, vi64less> &b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto &t : b) { if (i->first != t.first || !(i->second == t.second)) return false; ++i; } return true; }
template <class T> static void roundtrip(const map<Vec<int64_t>, T, vi64less> &m) {
    mc::state(); ostringstream o; o << m; istringstream i(o.str()); map<Vec<int64_t>, T, vi64less> r; T one; one = 1; Vec<int64_t> k; k.SetLength(m.begin()->first.length(), 7); r[k] = one;  // a stale entry must not survive
    i >> r; MC_CHECK(!i.fail(), "reading back " << o.str() << " fails"); MC_CHECK(same_map(m, r), o.str() << " reads back as " << r); ostringstream o2; o2 << r; MC_CHECK(o2.str() == o.str(), "printing again gives " << o2.str() << " instead of " << o.str());
    // two maps in one stream
    istringstream j(o.str() + o.str() + " 17"); map<Vec<int64_t>, T, vi64less> a, b; long x; j >> a >> b >> x; MC_CHECK(same_map(m, a) && same_map(m, b) && x == 17, "two maps in one stream"); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(o.str());
    // the readable form lists every monomial once, in order
    ostringstream h; h <<= m; string s = h.str(); size_t pos = 0; long cnt = 0; MC_CHECK(s[0] == '{' && s[s.size() - 1] == '}', "readable form " << s);
    for (auto &t : m) { ostringstream e; e << "("; for (long q = 0; q < t.first.length(); ++q) e << (q ? ", " : "") << t.first[q]; e << "): " << t.second; size_t f = s.find(e.str(), pos); MC_CHECK(f != string::npos && f >= pos, "readable form " << s << " lacks " << e.str()); pos = f + e.str().size(); ++cnt; }
    MC_CHECK((long)count(s.begin(), s.end(), ':') == cnt, "readable form " << s << " has additional entries");
}
static vector<ZZ> values() { vector<ZZ> r; for (long v : {0L, 1L, -1L, 9L, -10L, 1000000007L}) r.push_back(ZZ(v)); r.push_back(power2_ZZ(63)); r.push_back(-power2_ZZ(63)); r.push_back(power2_ZZ(64) - 1); r.push_back(-power_ZZ(10, 40)); return r; }
static void trips(int nv, int d, int maxterms) {
    vector<Mono> ms = monos(nv, d); vector<ZZ> vs = values(); zz_pPush a(10007); ZZ_pPush b(power_ZZ(10007, 6));
    function<void(size_t, vector<pair<Mono, ZZ>> &)> rec = [&](size_t from, vector<pair<Mono, ZZ>> &cur) {
        if (cur.size()) { FZZ m; FZZp mp; Fzzp mq; map<Vec<int64_t>, int64_t, vi64less> ml; bool sm = true; for (auto &t : cur) { m[vec(t.first)] = t.second; mp[vec(t.first)] = NTL::conv<ZZ_p>(t.second); mq[vec(t.first)] = NTL::conv<zz_p>(t.second); if (NumBits(t.second) > 62) sm = false; else ml[vec(t.first)] = to_long(t.second); }
            roundtrip(m); roundtrip(mp); roundtrip(mq); if (sm) roundtrip(ml); }
        if ((int)cur.size() == maxterms) return;
        for (size_t i = from; i < ms.size(); ++i) for (auto &v : vs) { cur.push_back({ms[i], v}); rec(i + 1, cur); cur.pop_back(); }
    };
    vector<pair<Mono, ZZ>> cur; rec(0, cur);
}
// the constructors that choose a random equation: every sequence of draws
static void randomctor(int n, int d, long p, bool nd, const vector<long> &prefix, size_t limit) {
    Mod mod(p, 2);
    auto r = choice::explore(prefix, limit, [&] {
        mc::state(); choice::Tape &t = choice::tape(); size_t k = monos(n + 1, d).size();
        auto judge = [&](de_Rham_local &D, de_Rham_local &E) {
            choice::Tape save = t; t.on = false;
            Form drawn; size_t off = t.pos - k; for (size_t i = 0; i < k; ++i) if (save.pick[off + i]) drawn[mono(D.tuple_list[d][i])] = save.pick[off + i];
            Form got; for (auto &x : D.f) if (!IsZero(rep(x.second))) got[mono(x.first)] = to_long(rep(x.second));
            MC_CHECK(got == drawn, "the equation is " << ::show(got) << ", drawn were " << ::show(drawn)); samedr(E, D, "random constructor");
            if (!(nd ? is_nd(got, n, d, p) : is_smooth(got, n, d, p))) MC_FAIL("the random constructor accepts " << ::show(got));
            for (size_t o = 0; o < off; o += k) { Form q; for (size_t i = 0; i < k; ++i) if (save.pick[o + i]) q[mono(D.tuple_list[d][i])] = save.pick[o + i]; if (nd ? is_nd(q, n, d, p) : is_smooth(q, n, d, p)) MC_FAIL("the random constructor rejects " << ::show(q)); }
            for (long i = 0; i < D.coKernels_J_basis.length(); ++i) { Vec<int64_t> u = D.coKernels_J_basis[i]; for (int q = 0; q <= n; ++q) ++u[q]; MC_CHECK(D.monomial_to_basis_J(u) == E.monomial_to_basis_J(u), "different classes"); }
            mc::outcome(::show(got)); t = save;
        };
        if (nd) { de_Rham_non_degenerate_local D(p, 2, n, d, false); FZZp f = D.f; bool on = t.on; t.on = false; de_Rham_non_degenerate_local E(p, 2, f, false); t.on = on; judge(D, E); }
        else { de_Rham_local D(p, 2, n, d, false); FZZp f = D.f; bool on = t.on; t.on = false; de_Rham_local E(p, 2, f, false); t.on = on; judge(D, E); }
        mc::trans();
    });
    mc::trace(r.first); mc::nontrivial(r.first); mc::skipped(r.second);
}
void mc::setup() {
    bool th = mc::thorough();
    // orders
    { auto E = make_shared<vector<pair<long, BForm>>>();
      for (long p : th ? vector<long>{5, 7, 11, 17, 23} : vector<long>{5, 17}) for (auto &f : box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {-2}}, {{0, 0, 3}, {4}}, {{1, 1, 1}, {0, 3}}, {{2, 1, 0}, {0, 1}}})) { if (!is_smooth(f, 2, 3, p)) continue; E->push_back({p, big(f)}); BForm g = big(f); for (auto &t : g) t.second += p * power_ZZ(10, 22); if (f.size() < 5) E->push_back({p, g}); }
      { Form f; f[{0, 2, 1}] = 1; f[{3, 0, 0}] = -1; f[{1, 0, 2}] = -1; f[{0, 0, 3}] = 3; if (is_smooth(f, 2, 3, 7)) E->push_back({7, big(f)}); }
      mc::family("orders-cubics", "plane cubics with up to 5 terms, all orders of the terms through all overloads", E->size(), [=](uint64_t i) { return "p=" + to_string((*E)[i].first) + " " + show((*E)[i].second); }, [=](uint64_t i) { orders((*E)[i].second, (*E)[i].first, 3); }, 300); }
    { auto E = make_shared<vector<pair<long, BForm>>>(); Form f = fermat(3, 4); f[{2, 1, 1}] = 1; E->push_back({3, big(fermat(3, 4))}); if (th) { E->push_back({5, big(f)}); E->push_back({7, big(fermat(3, 4))}); } else E->push_back({5, big(fermat(3, 4))});
      mc::family("orders-quartics", "plane quartics, all orders through all overloads", E->size(), [=](uint64_t i) { return "p=" + to_string((*E)[i].first) + " " + show((*E)[i].second); }, [=](uint64_t i) { orders((*E)[i].second, (*E)[i].first, 4); }, 400); }
    // explicit zeros
    { struct Z { long p; Form f; uint64_t from; }; auto E = make_shared<vector<Z>>(); Form a = fermat(3, 3), b; a[{1, 1, 1}] = 1; b[{0, 2, 1}] = 1; b[{3, 0, 0}] = -1; b[{1, 0, 2}] = -1; b[{0, 0, 3}] = 2;
      uint64_t blk = 16; for (auto &f : {a, b}) for (long p : {5L, 17L}) if (is_smooth(f, 2, 3, p)) { uint64_t tot = 1ull << (10 - f.size()); if (!th) tot = min<uint64_t>(tot, p == 5 ? 64 : 16); for (uint64_t w = 0; w < tot; w += blk) E->push_back(Z{p, f, w}); }
      mc::family("explicit-zeros", "plane cubics, subsets of the missing monomials given with coefficient zero", E->size(), [=](uint64_t i) { return "p=" + to_string((*E)[i].p) + " " + show((*E)[i].f) + " from " + to_string((*E)[i].from); },
        [=](uint64_t i) { const Z &z = (*E)[i]; vector<Mono> rest; for (auto &m : monos(3, 3)) if (!z.f.count(m)) rest.push_back(m); zeros(big(z.f), z.p, 2, 3, z.from, z.from + blk, rest); }, 120); }
    // representatives
    { struct R { long p; Form f; bool high; vector<ZZ> m; }; auto E = make_shared<vector<R>>(); ZZ h = power_ZZ(10, 30);
      Form a = fermat(3, 3); Form b; b[{0, 2, 1}] = 1; b[{3, 0, 0}] = -1; b[{1, 0, 2}] = -1; b[{0, 0, 3}] = 2; Form c = a; c[{1, 1, 1}] = 0;
      for (long p : th ? vector<long>{2, 5, 7, 11, 17, 101} : vector<long>{5, 17}) for (auto &f : {a, b, c}) if (is_smooth(f, 2, 3, p) && p > 2) for (int hi = 0; hi < 2; ++hi) { E->push_back(R{p, f, (bool)hi, {ZZ(0), ZZ(-1), h}}); if (th) E->push_back(R{p, f, (bool)hi, {ZZ(1), ZZ(-2), -h, power2_ZZ(61) / p}}); }
      Form q = fermat(3, 4); E->push_back(R{3, q, true, {ZZ(0), ZZ(-1), h}}); E->push_back(R{3, q, false, {ZZ(0), ZZ(-1)}});
      mc::family("representatives", "every choice of representatives of every coefficient, negative and multiprecision ones included", E->size(), [=](uint64_t i) { return "p=" + to_string((*E)[i].p) + " " + show((*E)[i].f) + ((*E)[i].high ? " modulo p^45" : " modulo p"); }, [=](uint64_t i) { reps(big((*E)[i].f), (*E)[i].p, (*E)[i].m, (*E)[i].high); }, 300); }
    // options
    { struct R { long p; Form f; vector<int> as; }; auto E = make_shared<vector<R>>(); Form a = fermat(3, 3), b, c = fermat(3, 3), q = fermat(3, 4); b[{0, 2, 1}] = 1; b[{3, 0, 0}] = -1; b[{1, 0, 2}] = -1; b[{0, 0, 3}] = 2; c[{1, 1, 1}] = 1;
      for (long p : th ? vector<long>{5, 7, 11, 17, 23, 101} : vector<long>{7, 17}) for (auto &f : {a, b, c}) if (is_smooth(f, 2, 3, p)) E->push_back(R{p, f, {0, 1, 3}}); E->push_back(R{th ? 17 : 11, q, {0, 2}});
      mc::family("options", "every combination of options, every number of them left out, through all overloads", E->size(), [=](uint64_t i) { return "p=" + to_string((*E)[i].p) + " " + show(big((*E)[i].f)); }, [=](uint64_t i) { options(big((*E)[i].f), (*E)[i].p, (*E)[i].as); }, 300); }
    // constructors
    famc("constructors-points", "binary quadrics and cubics through all constructors", 1, 2, {3, 5, 10007}, allforms(1, 2, {0, 1, 2}, {0, 1, 2}), {0, 1, 2}); famc("constructors-binary-cubics", "binary cubics through all constructors", 1, 3, {2, 5}, allforms(1, 3, {0, 1}, {0, 1}), {0, 1, 2});
    famc("constructors-cubics", "plane cubics through all constructors", 2, 3, {2, 5, 7}, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1}}, {{1, 1, 1}, {0, 1}}, {{2, 1, 0}, {0, 1}}, {{0, 2, 1}, {0, 1}}}), {0, 1, 2});
    famc("constructors-cubics-missing", "plane cubics without diagonal terms", 2, 3, {5}, box(2, 3, {{{2, 1, 0}, {1}}, {{0, 2, 1}, {1}}, {{1, 0, 2}, {1}}, {{1, 1, 1}, {0, 1, 2, 3}}, {{1, 2, 0}, {0, 1}}}), {0, 1});
    famc("constructors-quartics", "plane quartics", 2, 4, {3}, th ? diagplus(2, 4, {1}) : box(2, 4, {{{4, 0, 0}, {1}}, {{0, 4, 0}, {1}}, {{0, 0, 4}, {1}}, {{2, 1, 1}, {0, 1}}}), {0, 1}, 300);
    // text
    for (auto &t : th ? vector<array<int, 3>>{{{1, 3, 1}}, {{2, 1, 2}}, {{2, 3, 3}}, {{3, 2, 2}}, {{4, 1, 3}}} : vector<array<int, 3>>{{{1, 3, 1}}, {{2, 1, 2}}, {{2, 3, 2}}, {{3, 2, 2}}, {{4, 1, 2}}})
        mc::family("text-" + to_string(t[0]) + "-" + to_string(t[1]), "all maps of up to " + to_string(t[2]) + " monomials of degree " + to_string(t[1]) + " in " + to_string(t[0]) + " variables with boundary coefficients, four coefficient types", 1, [=](uint64_t) { return string("all"); }, [=](uint64_t) { trips(t[0], t[1], t[2]); }, 200);
    // random constructors
    struct RC { int n, d; long p; int rounds; }; for (auto &r : th ? vector<RC>{{1, 2, 3, 2}, {1, 2, 5, 2}, {1, 3, 2, 2}, {1, 4, 3, 1}, {2, 3, 2, 1}} : vector<RC>{{1, 2, 3, 2}, {1, 2, 5, 1}, {1, 3, 2, 2}, {1, 4, 3, 1}}) for (int nd = 0; nd < 2; ++nd) {
        size_t k = monos(r.n + 1, r.d).size(); auto P = make_shared<RC>(r);
        mc::family("random-" + to_string(r.n) + "-" + to_string(r.d) + "-p" + to_string(r.p) + (nd ? "-nd" : ""), "every sequence of random draws of up to " + to_string(r.rounds) + " rounds", r.p, [=](uint64_t i) { return "first draw " + to_string(i); }, [=](uint64_t i) { randomctor(P->n, P->d, P->p, nd, {(long)i}, k * P->rounds); }, 200);
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
