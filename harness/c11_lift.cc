// C11: recovering a Weil polynomial from p-adic approximations of its coefficients
#include "cr.h"
#include "weil.h"
using namespace NTL; using namespace std;

static Mat<ZZ> companion(const Poly &c, bool conj_it) {
    int n = c.size() - 1; Mat<ZZ> M; M.SetDims(n, n);
    for (int i = 0; i + 1 < n; ++i) M[i + 1][i] = 1;
    for (int i = 0; i < n; ++i) M[i][n - 1] = -c[i];
    if (conj_it) {  // conjugate by 1 + sum of the first subdiagonal powers: stays integral, same characteristic polynomial
        Mat<ZZ> L, Li; ident(L, n); ident(Li, n); for (int i = 1; i < n; ++i) { Mat<ZZ> E, Ei; ident(E, n); ident(Ei, n); E[i][0] = i; Ei[i][0] = -i; L = E * L; Li = Li * Ei; }
        M = L * M * Li;
    }
    return M;
}
// the smallest precision vector for which Newton's identities determine the polynomial
static vector<int> minimal(int deg, long p, int w) {
    vector<int> pr(deg + 1, 0); pr[deg] = 1;
    for (int k = 1; k <= deg / 2; ++k) { int e = 0; while (sqr(ZZ(k)) * power_ZZ(p, 2 * e) <= 4 * deg * deg * power_ZZ(p, w * k)) ++e; pr[deg - k] = max(e, pr[deg - k]); }
    if (deg % 2) { }
    return pr;
}
static bool sign_known(const Poly &P, const vector<int> &pr, long p, int w) {
    if (w % 2) return true; int n = P.size() - 1;
    for (int i = 0; i <= n / 2; ++i) { int e = min(pr[i], pr[n - i] + (n - 2 * i) * w / 2); if (P[i] % power_ZZ(p, e) != 0) return true; }
    return false;
}
static void check(const Poly &P, long p, int w, const vector<int> &pr, const vector<int> &delta, bool cj) {
    int n = P.size() - 1;
    if (!sign_known(P, pr, p, w)) { mc::skipped(); return; }
    Poly Q = P; for (int i = 0; i < n; ++i) Q[i] += delta[i] * power_ZZ(p, pr[i]);
    Vec<int64_t> v; v.SetLength(n + 1); for (int i = 0; i <= n; ++i) v[i] = pr[i];
    const Mat<ZZ> M = companion(Q, cj); Mat<ZZ> M1 = M; Vec<int64_t> v1 = v;
    Vec<ZZ> r = charpoly_frob(M1, v1, p, w);
    MC_CHECK(r.length() == n + 1, "length " << r.length());
    for (int i = 0; i <= n; ++i) if (r[i] != P[i]) { ostringstream o; for (int x : pr) o << " " << x; o << "; offsets"; for (int x : delta) o << " " << x; MC_FAIL("from precisions" << o.str() << ": " << r << ", not " << pstr(P)); }
    MC_CHECK(M1 == M && v1 == v, "arguments modified");
    mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
}
static void all(const Poly &P, long p, int w) {
    int n = P.size() - 1; vector<int> base = minimal(n, p, w);
    // every precision vector: minimum (upper half) or zero (lower half) plus 0..2, plus the fully known one
    vector<vector<int>> prs; vector<int> e(n + 1, 0);
    int steps = n <= 3 ? 3 : n == 4 ? 2 : 1;
    vector<int> lowhi = {0, 1, (n * w) / 2, (n * w) / 2 + 1, (n * w) / 2 + 3};
    for (;;) {
        vector<int> q = base; for (int i = 0; i <= n; ++i) q[i] += e[i];
        for (int l : lowhi) { vector<int> q2 = q; for (int i = 0; i < (n + 1) / 2; ++i) q2[i] += l; prs.push_back(q2); if (n >= 2) { q2[0] = q[0]; prs.push_back(q2); } }
        int i = n; while (i >= 0 && e[i] == steps - 1) e[i--] = 0; if (i < 0) break; ++e[i];
    }
    { vector<int> q(n + 1); for (int i = 0; i <= n; ++i) q[i] = n * w + 3; prs.push_back(q); }
    sort(prs.begin(), prs.end()); prs.erase(unique(prs.begin(), prs.end()), prs.end());
    for (auto &pr : prs) {
        vector<vector<int>> ds; ds.push_back(vector<int>(n, 0));
        if (n <= 3) { vector<int> d(n, -1); for (;;) { ds.push_back(d); int i = n - 1; while (i >= 0 && d[i] == 1) d[i--] = -1; if (i < 0) break; ++d[i]; } }
        else for (int s : {1, -1, 1000003}) { ds.push_back(vector<int>(n, s)); for (int i = 0; i < n && n <= 8; ++i) { vector<int> d(n, 0); d[i] = s; ds.push_back(d); } }
        for (size_t k = 0; k < ds.size(); ++k) check(P, p, w, pr, ds[k], k % 3 == 1);
    }
    mc::outcome(pstr(P));
}
static vector<Poly> filter_sign(const vector<Poly> &v) { return v; }

void mc::setup() {
    bool th = mc::thorough();
    auto fam = [&](const string &name, const string &bound, const vector<Poly> &L, long p, int w) {
        auto v = make_shared<vector<Poly>>(L);
        mc::family(name, bound, v->size(), [=](uint64_t i) { return "p=" + to_string(p) + " weight " + to_string(w) + " " + pstr((*v)[i]); }, [=](uint64_t i) { all((*v)[i], p, w); });
    };
    for (long p : {3, 5, 7, 11, 23, 101}) fam("weight1-degree2-p" + to_string(p), "every elliptic Weil polynomial, precision vectors up to +2, offsets -1,0,1", quadratics(p, 1), p, 1);
    for (long p : {3, 5, 7}) fam("weight1-degree4-p" + to_string(p), "every genus 2 Weil polynomial", quartics(p, 1), p, 1);
    if (th) for (long p : {11, 13, 23}) fam("weight1-degree4-p" + to_string(p), "every genus 2 Weil polynomial", quartics(p, 1), p, 1);
    for (long p : th ? vector<long>{3, 5, 7} : vector<long>{3, 5}) {
        vector<Poly> L; auto A = quadratics(p, 1), B = quartics(p, 1); for (auto &a : A) for (auto &b : B) L.push_back(pmul(a, b));
        fam("weight1-degree6-p" + to_string(p), "every product of an elliptic and a genus 2 Weil polynomial", L, p, 1);
        vector<Poly> M; for (size_t i = 0; i < B.size(); ++i) for (size_t j = i; j < B.size(); j += th ? 3 : 11) M.push_back(pmul(B[i], B[j])); 
        fam("weight1-degree8-p" + to_string(p), "products of genus 2 Weil polynomials (fixed stride in the second factor)", M, p, 1);
    }
    for (int w : {2, 4}) for (long p : {3, 5, 7, 11}) {
        if (w == 4 && p > 5) continue;
        ZZ h = power_ZZ(p, w / 2), q = power_ZZ(p, w);
        vector<Poly> lin = {{-h, ZZ(1)}, {h, ZZ(1)}}, two = quadratics(p, w), L1 = lin, L2 = two, L3, L4, L5;
        L2.push_back({-q, ZZ(0), ZZ(1)});
        for (auto &a : lin) for (auto &b : two) L3.push_back(pmul(a, b)); L3.push_back({-h * q, ZZ(0), ZZ(0), ZZ(1)}); L3.push_back({h * q, ZZ(0), ZZ(0), ZZ(1)});
        if (w == 2) { L4 = quartics(p, w); for (auto &b : two) L4.push_back(pmul({-q, ZZ(0), ZZ(1)}, b)); for (int s : {-1, 1}) L4.push_back({s * q * q, ZZ(0), ZZ(0), ZZ(0), ZZ(1)}); }
        if (w == 2 && p <= 5) for (auto &a : lin) for (auto &b : L4) L5.push_back(pmul(a, b));
        string s = "weight" + to_string(w) + "-p" + to_string(p);
        fam(s + "-degree1", "T-+p^(w/2)", L1, p, w); fam(s + "-degree2", "every quadratic, both signs of the functional equation", L2, p, w); fam(s + "-degree3", "every cubic, both signs", L3, p, w);
        if (!L4.empty() && (p <= 3 || th)) fam(s + "-degree4", "every quartic, both signs", L4, p, w);
        if (!L5.empty()) fam(s + "-degree5", "every quintic", L5, p, w);
    }
    // shapes of the built-in cases: degree 21 in weight 2 and degree 6..20 in weight 1, cyclotomic and other factors mixed
    for (long p : {3, 5, 23}) {
        vector<Poly> L; auto two = quadratics(p, 2); vector<int> ms; for (int m = 1; m <= 66; ++m) if (cyclotomic(m).size() - 1 <= 20) ms.push_back(m);
        for (int m : ms) for (int s : {-1, 1}) for (size_t t = 0; t < two.size(); t += (th ? 1 : two.size() / 6 + 1)) {
            Poly f = scaled(cyclotomic(m), p); Poly one = {ZZ(s * p), ZZ(1)}; int k = 0;
            while (f.size() + 2 <= 21) { f = pmul(f, (k++ % 2) ? two[t] : Poly{ZZ(-p * p), ZZ(0), ZZ(1)}); }
            while (f.size() < 22) f = pmul(f, one);
            L.push_back(f);
        }
        auto v = make_shared<vector<Poly>>(L);
        mc::family("weight2-degree21-p" + to_string(p), "one cyclotomic factor of every order with degree <= 20, completed by quadratics and T-+p", v->size(), [=](uint64_t i) { return "p=" + to_string(p) + " " + pstr((*v)[i]); }, [=](uint64_t i) {
            const Poly &P = (*v)[i]; int n = 21; vector<int> base = minimal(n, p, 2);
            for (int l : {0, 1, 22, 24}) for (int up : {0, 1}) { vector<int> pr = base; for (int j = 0; j <= n; ++j) pr[j] += j < 11 ? l : up; for (int s : {0, 1, -1, 999}) check(P, p, 2, pr, vector<int>(n, s), s == 1); }
            mc::outcome(pstr(P));
        });
    }
}
MC_MAIN
