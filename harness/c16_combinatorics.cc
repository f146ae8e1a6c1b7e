// C16: combinatorial building blocks, all arguments up to a bound against definition-level oracles
#include "cr.h"
using namespace NTL; using namespace std;

static __int128 pas(int n, int k) {  // Pascal's triangle
    static vector<vector<__int128>> T;
    while ((int)T.size() <= n) { int m = T.size(); vector<__int128> r(m + 1, 1); for (int i = 1; i < m; ++i) r[i] = std::min(T[m - 1][i - 1] + T[m - 1][i], (__int128)1 << 120); T.push_back(r); }
    return T[n][k];
}
static ZZ toz(__int128 x) { ZZ r((long)(x >> 62)); r <<= 62; r += (long)(x & ((((__int128)1) << 62) - 1)); return r; }
static vector<vector<int>> box(int len, int lo, int hi) { vector<vector<int>> r; vector<int> v(len, lo); for (;;) { r.push_back(v); int i = len - 1; while (i >= 0 && v[i] == hi) v[i--] = lo; if (i < 0) break; ++v[i]; } return r; }
static string sv(const vector<int> &v) { ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }

void mc::setup() {
    bool th = mc::thorough();
    {   // exponent lists
        static vector<pair<int, int>> c; int D = th ? 18 : 14, N = th ? 8 : 7;
        for (int n = 1; n <= N; ++n) for (int d = 0; d <= D; ++d) if (pas(d + n - 1, n - 1) < 60000) c.push_back({n, d});
        for (int n = 1; n <= 12; ++n) for (int d = 0; d <= 300; ++d) if ((n > N || d > D) && pas(d + n - 1, n - 1) < (th ? 60000 : 4000)) c.push_back({n, d});
        mc::family("tuples", "variables 1.." + to_string(N) + ", degree 0.." + to_string(D) + ", and up to 12 variables or degree 300 where there are few monomials", c.size(), [](uint64_t i) { return "n=" + to_string(c[i].first) + " d=" + to_string(c[i].second); }, [](uint64_t i) {
            int n = c[i].first, d = c[i].second; Vec<Vec<int64_t>> r; tuple_list_generator(r, d, n);
            MC_CHECK((__int128)r.length() == pas(d + n - 1, n - 1), "length " << r.length());
            for (long k = 0; k < r.length(); ++k) {
                MC_CHECK(r[k].length() == n, "tuple " << k << " has length " << r[k].length());
                int64_t s = 0; for (int j = 0; j < n; ++j) { MC_CHECK(r[k][j] >= 0, "negative entry in " << r[k]); s += r[k][j]; }
                MC_CHECK(s == d, "degree of " << r[k]);
                if (k) { int j = 0; while (j < n && r[k][j] == r[k - 1][j]) ++j; MC_CHECK(j < n && r[k - 1][j] < r[k][j], "not strictly increasing at " << k); }
                mc::state();
            }
            mc::nontrivial(); mc::trans(r.length()); mc::trace(); mc::outcome(str(r));
        });
    }
    {   // binomials
        static vector<pair<int, int>> c; int N = th ? 260 : 130;
        for (int n = 0; n <= N; ++n) for (int k = 0; k <= n; ++k) c.push_back({n, k});
        mc::family("binomial", "0 <= k <= n <= " + to_string(N), c.size(), [](uint64_t i) { return "n=" + to_string(c[i].first) + " k=" + to_string(c[i].second); }, [](uint64_t i) {
            int n = c[i].first, k = c[i].second;
            // exact value by the multiplicative formula, one exact division at a time
            ZZ e(1); for (int j = 1; j <= k; ++j) { e *= n - k + j; e /= j; }
            MC_CHECK(binomial_ZZ(n, k) == e, "binomial_ZZ gives " << binomial_ZZ(n, k) << ", not " << e);
            if (NumBits(e) <= 63) { int64_t b = binomial(n, k); MC_CHECK(to_ZZ((long)b) == e, "binomial gives " << b << ", not " << e); }
            else {
                auto r = mc::in_child([&](int fd) { int64_t b = binomial(n, k); string s = to_string(b); (void)!write(fd, s.data(), s.size()); }, 20);
                MC_CHECK(!r.exited0(), "returned " << r.out << " although the value " << e << " does not fit");
            }
            mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(str(e));
        });
    }
    {   // the largest arguments whose binomials fit, and the first that do not
        static vector<int> K; for (int k = th ? 5 : 6; k <= 33; ++k) K.push_back(k);
        mc::family("binomial-limits", "for every k from " + to_string(K[0]) + " to 33 the three largest n whose binomial fits and the two next ones", K.size() * 2, [](uint64_t i) { return "k=" + to_string(K[i / 2]) + (i % 2 ? " as n - k" : ""); }, [](uint64_t i) {
            long k = K[i / 2]; auto val = [&](long n) { ZZ e(1); for (long j = 1; j <= k; ++j) { e *= n - k + j; e /= j; } return e; };
            long lo = k, hi = 2 * k; while (NumBits(val(hi)) <= 63) hi *= 2; while (hi - lo > 1) { long m = (lo + hi) / 2; (NumBits(val(m)) <= 63 ? lo : hi) = m; }
            for (long n = max(k, lo - 2); n <= lo + 2; ++n) {
                ZZ e = val(n); long kk = i % 2 ? n - k : k; MC_CHECK(binomial_ZZ(n, kk) == e, "binomial_ZZ(" << n << ", " << kk << ") is " << binomial_ZZ(n, kk) << ", not " << e);
                auto r = mc::in_child([&](int fd) { string s = to_string(binomial(n, kk)); (void)!write(fd, s.data(), s.size()); }, 60);
                if (n <= lo) MC_CHECK(r.exited0() && r.out == str(e), "binomial(" << n << ", " << kk << ") gives " << r.out << ", not " << e); else MC_CHECK(!r.exited0(), "binomial(" << n << ", " << kk << ") returned " << r.out << " although the value " << e << " does not fit");
                mc::state(); mc::trans(2); mc::outcome(str(e)); }
            mc::trace(); mc::nontrivial(); });
    }
    {   // factorials mod p^N with the powers of p removed, every starting point
        static vector<array<int, 3>> c; int M = th ? 160 : 90;
        for (int p : {2, 3, 5, 7, 11, 13}) for (int N : {1, 2, 3, 5, 8, 20}) for (int n = 0; n <= M; ++n) c.push_back({p, N, n});
        mc::family("factorial_p_adic", "p <= 13, p^N with N <= 20, n <= " + to_string(M) + ", every start <= n+2", c.size(), [](uint64_t i) { return "p=" + to_string(c[i][0]) + " N=" + to_string(c[i][1]) + " n=" + to_string(c[i][2]); }, [](uint64_t i) {
            int p = c[i][0], N = c[i][1], n = c[i][2]; ZZ q = power_ZZ(p, N); ZZ_pPush push(q);
            for (int s = 1; s <= n + 2; ++s) {
                ZZ e(1); long val = 0; for (int j = s; j <= n; ++j) e *= j;
                while (e % p == 0) { e /= p; ++val; }
                ZZ_p r; int64_t v = factorial_p_adic(r, n, p, s);
                MC_CHECK(v == val, "start " << s << ": valuation " << v << ", not " << val);
                MC_CHECK(rep(r) == e % q, "start " << s << ": unit part " << r << ", not " << e % q);
                if (s == 1) { int64_t w = valuation_of_factorial(n, p); MC_CHECK(w == val, "valuation_of_factorial " << w << ", not " << val); }
                ZZ g = factorial<ZZ>(n, s); ZZ e2(1); for (int j = s; j <= n; ++j) e2 *= j; MC_CHECK(g == e2, "factorial<ZZ> from " << s << " gives " << g);
                ZZ_p h = factorial<ZZ_p>(n, s); MC_CHECK(rep(h) == e2 % q, "factorial<ZZ_p> from " << s << " gives " << h);
                mc::state(); mc::trans(3); mc::outcome(str(r) + " " + to_string(v));
            }
            mc::nontrivial(); mc::trace();
        });
        static vector<array<long, 2>> big; for (long p : {2L, 3L, 5L, 101L, 1009L}) for (long k : {1L, 2L, 3L}) { long q = 1; for (int j = 0; j < k; ++j) q *= p; for (long m : {1L, 2L, 3L, 7L}) for (long o = -1; o <= 1; ++o) if (q * m + o > 45 && q * m + o < (th ? 40000 : 4000)) big.push_back({p, q * m + o}); } for (long p : {2L, 3L, 7L, 101L}) for (long n : {1000L, 1100L, 2100L, 4100L, 8200L, 33000L, 70000L}) big.push_back({p, n});
        mc::family("factorial_p_adic-larger", "arguments around the first multiples of p, p^2 and p^3, and up to 70000", big.size() * 3, [](uint64_t i) { return "p=" + to_string(big[i / 3][0]) + " n=" + to_string(big[i / 3][1]) + " width " + to_string(i % 3); }, [](uint64_t i) {
            long p = big[i / 3][0], n = big[i / 3][1]; long N = 1; ZZ q = ZZ(p); long bits = i % 3 == 0 ? 1 : i % 3 == 1 ? 63 : 70; while (NumBits(q) < bits) { q *= p; ++N; } ZZ_pPush push(q);
            for (long s : {1L, 2L, p, p + 1, p * p, n - 1, n, n + 1}) if (s >= 1 && s <= n + 1) {
                ZZ e(1); long val = 0; for (long j = s; j <= n; ++j) { long t = j; while (t % p == 0) { t /= p; ++val; } e = e * t % q; }
                ZZ_p r; int64_t v = factorial_p_adic(r, n, p, s); MC_CHECK(v == val && rep(r) == e % q, "start " << s << ": " << r << " and valuation " << v << ", not " << e % q << " and " << val);
                mc::state(); mc::trans(); mc::outcome(str(r)); }
            mc::trace(); mc::nontrivial(); });
        static vector<long> BP = {2, 3, 5, 7, 101, 65537, 2147483647, 4294967291};
        mc::family("factorials-far", "products of up to 12 factors beginning around every power of two up to 2^62", 63, [](uint64_t i) { return "2^" + to_string(i); }, [](uint64_t i) {
            for (long p : {2L, 3L, 101L, 2147483647L, 4294967291L}) for (int N : {1, 2, 5}) { ZZ q = power_ZZ(p, N); ZZ_pPush push(q); for (long a = max<long>(1, (1L << i) - 6); a <= (1L << i) + 3; ++a) for (long b = a - 1; b <= a + 10; b += 1 + (N == 2)) {
                ZZ e(1), u(1); long val = 0; for (long j = a; j <= b; ++j) { e *= j; long t = j; while (t % p == 0) { t /= p; ++val; } u = u * t % q; }
                ZZ_p r; int64_t v = a == 1 && b < 0 ? 0 : factorial_p_adic(r, b, p, a); MC_CHECK(v == val && rep(r) == u % q, "p=" << p << " N=" << N << " from " << a << " to " << b << ": " << r << " and valuation " << v << ", not " << u << " and " << val);
                ZZ g = factorial<ZZ>(b, a); ZZ_p h = factorial<ZZ_p>(b, a); MC_CHECK(g == e && rep(h) == e % q, "factorial from " << a << " to " << b << ": " << g << " and " << h); mc::state(); mc::trans(3); mc::outcome(str(r)); } }
            mc::trace(); mc::nontrivial(); });
        mc::family("valuation_of_factorial-limits", "n around every power of two up to 2^62 and around the powers of eight primes", 63, [](uint64_t i) { return "2^" + to_string(i); }, [](uint64_t i) {
            std::set<int64_t> ns; for (long o = -2; o <= 2; ++o) ns.insert((1L << i) + o); for (long p : BP) { __int128 q = 1; for (uint64_t j = 0; j < i && q < ((__int128)1 << 62); ++j) q *= p; if (q < ((__int128)1 << 62)) for (long o = -1; o <= 1; ++o) ns.insert((long)q + o); }
            for (int64_t n : ns) if (n >= 0) for (long p : BP) { int64_t e = 0, m = n; while (m) { m /= p; e += m; } int64_t v = valuation_of_factorial(n, p); MC_CHECK(v == e, "n=" << n << " p=" << p << ": " << v << ", not " << e); mc::state(); mc::trans(); mc::outcome(to_string(v)); }
            mc::trace(); mc::nontrivial(); });
        static vector<int> P = {2, 3, 5, 7, 11, 13, 17, 101, 65537};
        mc::family("valuation_of_factorial", "n <= 3000 step 1, nine primes", 3001, [](uint64_t i) { return "n=" + to_string(i); }, [](uint64_t i) {
            for (int p : P) { long e = 0; for (long q = p; q <= (long)i; q *= p) e += i / q; int64_t v = valuation_of_factorial(i, p); MC_CHECK(v == e, "p=" << p << ": " << v << ", not " << e); mc::state(); mc::outcome(to_string(v)); }
            mc::nontrivial(); mc::trans(P.size()); mc::trace();
        });
    }
    {   // exponent shifting as a transition system: every vector is a state, one step is one transition
        static vector<vector<int>> V; for (int l = 1; l <= (th ? 5 : 4); ++l) for (auto &v : box(l, 0, th ? 4 : 4)) V.push_back(v);
        mc::family("tweak", "all exponent vectors with entries 0..4, every number of steps up to the degree", V.size(), [](uint64_t i) { return sv(V[i]); }, [](uint64_t i) {
            const vector<int> &v = V[i]; int s = 0; for (int x : v) s += x;
            vector<int> cur = v; Vec<int64_t> walk = vec(v);
            for (int r = 0; r <= s; ++r) {
                Vec<int64_t> in = vec(v), t = tweak(in, r);
                MC_CHECK(mono(in) == v, "input modified");
                MC_CHECK(mono(t) == cur, r << " steps give " << t << ", not " << sv(cur));
                MC_CHECK(mono(walk) == cur, "step " << r << " gives " << walk << ", not " << sv(cur));
                for (size_t j = 0; j < v.size(); ++j) MC_CHECK(t[j] >= 0 && t[j] <= v[j], "left the original exponent: " << t);
                mc::state();
                if (r < s) { walk = tweak_step(walk); for (auto &x : cur) if (x) { --x; break; } mc::trans(); }
            }
            for (size_t j = 0; j < v.size(); ++j) if (v[j]) { vector<int> w = v; --w[j]; MC_CHECK(mono(diff(vec(v), j)) == w, "diff " << j); mc::trans(); }
            else { auto r = mc::in_child([&](int) { diff(vec(v), j); }, 20); MC_CHECK(!r.exited0(), "diff " << j << " of a zero entry is not refused"); }
            mc::nontrivial(); mc::trace(); mc::outcome(sv(v));
        });
    }
    {   // order and vector arithmetic
        static vector<vector<int>> V; for (int l = 1; l <= 3; ++l) for (auto &v : box(l, -2, th ? 3 : 2)) V.push_back(v);
        mc::family("vectors", "all pairs of vectors of length <= 3 with entries in -2..", V.size(), [](uint64_t i) { return sv(V[i]); }, [](uint64_t i) {
            const vector<int> &a = V[i]; Vec<int64_t> A = vec(a);
            const int64_t big = 1000000007;
            for (auto &b : V) if (b.size() == a.size()) {
                Vec<int64_t> B = vec(b); int n = a.size();
                bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
                MC_CHECK((A < B) == lt, A << " < " << B << " gives " << (A < B)); MC_CHECK(vi64less()(A, B) == lt, "vi64less on " << A << B);
                Vec<int64_t> s = A + B, d = A - B; int64_t dot = A * B, e = 0;
                for (int j = 0; j < n; ++j) { MC_CHECK(s[j] == a[j] + b[j] && d[j] == a[j] - b[j], "sum or difference of " << A << B); e += a[j] * b[j]; }
                MC_CHECK(dot == e, "inner product of " << A << B << " is " << dot);
                Vec<int64_t> x = A; ::add(x, x, B); MC_CHECK(x == s, "add in place"); x = A; sub(x, x, B); MC_CHECK(x == d, "sub in place"); x = B; sub(x, A, x); MC_CHECK(x == d, "sub into the second operand");
                MC_CHECK(mono(A) == a && mono(B) == b, "operands modified");
                mc::trans(); mc::state();
            }
            for (int64_t c : {-3, -1, 0, 1, 2, 7}) { Vec<int64_t> x = c * A; for (size_t j = 0; j < a.size(); ++j) MC_CHECK(x[j] == c * a[j], "scaling by " << c); x = A; mul(x, c, x); for (size_t j = 0; j < a.size(); ++j) MC_CHECK(x[j] == c * a[j], "scaling in place by " << c); }
            { Vec<int64_t> x = big * A; for (size_t j = 0; j < a.size(); ++j) MC_CHECK(x[j] == big * a[j], "scaling by " << big); }
            int64_t m = max(A); MC_CHECK(m == *max_element(a.begin(), a.end()), "max is " << m);
            int64_t arr[4]; conv(arr, A); Vec<int64_t> back; conv(back, arr, a.size()); MC_CHECK(back == A, "array round trip");
            // matrix times vector, every matrix with rows from the same box (rows taken cyclically), every number of rows
            for (int rows = 0; rows <= 3; ++rows) for (uint64_t o = 0; o < 5; ++o) {
                vector<vector<int>> rs; for (auto &b : V) if (b.size() == a.size()) rs.push_back(b);
                Mat<int64_t> M; M.SetDims(rows, a.size()); for (int r = 0; r < rows; ++r) M[r] = vec(rs[(i * 7 + o * 11 + r * 13) % rs.size()]);
                Vec<int64_t> y = M * A; MC_CHECK(y.length() == rows, "length of the product");
                for (int r = 0; r < rows; ++r) { int64_t e = 0; for (size_t j = 0; j < a.size(); ++j) e += M[r][j] * a[j]; MC_CHECK(y[r] == e, "row " << r << " of matrix times vector"); }
            }
            mc::nontrivial(); mc::trace(); mc::outcome(sv(a));
        });
    }
    {   // the same with entries of every size
        static vector<int64_t> B = {0, 1, -1, 127, 128, -129, 65536, (1L << 31) - 1, 1L << 31, -(1L << 31) - 1, (1L << 32) - 1, 1L << 32, -(1L << 32) - 1, (1L << 53) + 1, (1L << 61) + 3, -(1L << 61) - 5};
        static vector<vector<int64_t>> W; for (int64_t x : B) { W.push_back({x}); for (int64_t y : B) { W.push_back({x, y}); W.push_back({x, 5, y}); } }
        mc::family("vectors-large", "all pairs of vectors of up to 3 entries around the limits of 8, 16, 32 and 53 bits and near 2^61", W.size(), [](uint64_t i) { ostringstream o; for (auto x : W[i]) o << x << " "; return o.str(); }, [](uint64_t i) {
            auto mk = [](const vector<int64_t> &v) { Vec<int64_t> r; r.SetLength(v.size()); for (size_t j = 0; j < v.size(); ++j) r[j] = v[j]; return r; }; const auto &a = W[i]; Vec<int64_t> A = mk(a);
            MC_CHECK(max(A) == *max_element(a.begin(), a.end()), "max of " << A << " is " << max(A)); { int64_t arr[3]; conv(arr, A); Vec<int64_t> b; conv(b, arr, a.size()); MC_CHECK(b == A, "array round trip of " << A); }
            for (auto &b : W) if (b.size() == a.size()) { Vec<int64_t> C = mk(b); MC_CHECK((A < C) == (a < b), A << " < " << C << " gives " << (A < C)); Vec<int64_t> s = A + C, d = A - C; __int128 dot = 0;
                for (size_t j = 0; j < a.size(); ++j) { MC_CHECK(s[j] == a[j] + b[j] && d[j] == a[j] - b[j], "sum or difference of " << A << C); dot += (__int128)a[j] * b[j]; }
                auto fits = [](__int128 x) { return x > -((__int128)1 << 62) && x < ((__int128)1 << 62); }; bool ok = true; for (size_t j = 0; j < a.size(); ++j) ok = ok && fits((__int128)a[j] * b[j]); if (ok && fits(dot)) { MC_CHECK(A * C == (int64_t)dot, "inner product of " << A << C << " is " << A * C); Mat<int64_t> M; M.SetDims(2, a.size()); M[0] = A; M[1] = A; Vec<int64_t> y = M * C; MC_CHECK(y.length() == 2 && y[0] == (int64_t)dot && y[1] == y[0], "matrix times " << C); }
                mc::state(); mc::trans(); }
            for (int64_t c : B) { bool ok = true; for (auto x : a) { __int128 y = (__int128)c * x; ok = ok && y < ((__int128)1 << 62) && y > -((__int128)1 << 62); } if (ok) { Vec<int64_t> x = c * A; for (size_t j = 0; j < a.size(); ++j) MC_CHECK(x[j] == c * a[j], "scaling " << A << " by " << c); } }
            mc::trace(); mc::nontrivial(); ostringstream o; o << A; mc::outcome(o.str()); });
    }
    {   // substitution x_i -> x_i + v_i x
        static vector<pair<vector<int>, vector<int>>> c;
        for (int l = 1; l <= 3; ++l) for (auto &u : box(l, 0, l < 3 ? 4 : th ? 3 : 2)) for (auto &v : box(l, -2, 2)) c.push_back({u, v});
        { vector<int> u4 = {1, 2, 0, 1}; for (auto &v : box(4, -1, 2)) c.push_back({u4, v}); }
        mc::family("substitution", "exponents up to 4, directions with entries -2..2, up to 4 variables", c.size(), [](uint64_t i) { return "u=" + sv(c[i].first) + " v=" + sv(c[i].second); }, [](uint64_t i) {
            const vector<int> &u = c[i].first, &v = c[i].second; int n = u.size();
            auto r = change_of_variables_monomial(vec(u), vec(v));
            // coefficient of x^(sum j) prod x_i^(u_i-j_i) is prod binomial(u_i,j_i) v_i^j_i
            map<vector<int>, long> e;
            vector<int> j(n, 0);
            for (;;) {
                long co = 1; vector<int> m(n + 1, 0);
                for (int k = 0; k < n; ++k) { co *= (long)pas(u[k], j[k]); for (int t = 0; t < j[k]; ++t) co *= v[k]; m[k] = u[k] - j[k]; m[n] += j[k]; }
                e[m] += co; mc::state();
                int k = n - 1; while (k >= 0 && j[k] == u[k]) j[k--] = 0; if (k < 0) break; ++j[k];
            }
            for (auto &t : r) { auto it = e.find(mono(t.first)); long x = it == e.end() ? 0 : it->second; MC_CHECK(t.second == x, "coefficient of " << t.first << " is " << t.second << ", not " << x); mc::trans(); }
            for (auto &t : e) if (t.second) MC_CHECK(r.count(vec(t.first)), "missing term " << sv(t.first));
            mc::nontrivial(); mc::trace(); mc::outcome(sv(u) + sv(v));
        });
    }
}
MC_MAIN
