// C01: the polynomial returned for a smooth hypersurface is the characteristic polynomial of Frobenius.
// Every member of each bounded family is run through the public entry point; the oracle is brute-force point counting
// over extension fields together with the functional equation.
#include "zeta_oracle.h"
using namespace NTL;

static ZZX run_zeta(const Form &f, long p, bool better) {
    ZZX z; Mat<ZZ> F; SetSeed(to_ZZ(1));
    zeta_function(z, F, toZZ(f), p, false, 1, 0, true, better);
    return z;
}
static void decide(const Form &f, int n, int d, long p, int K, bool bothmodels) {
    if (!ref::smooth(f, n + 1, d, p)) { mc::skipped(); return; }
    std::vector<long> c = counts_of(f, n, d, p, K);
    bool nd = ref::nondegenerate(f, n + 1, d, p);
    ZZX z = run_zeta(f, p, true);
    check_zeta(z, n, d, p, c, "default options");
    mc::state(); mc::trans(K); mc::trace(); mc::nontrivial(); mc::outcome(str(p) + str(z));
    if (bothmodels && !nd) { ZZX y = run_zeta(f, p, false); check_zeta(y, n, d, p, c, "without searching for a better model"); MC_CHECK(y == z, "the two models give different polynomials"); mc::trace(); mc::state(); }
}
static Form from_bits(const std::vector<Mono> &ms, uint64_t bits) { Form f; for (size_t i = 0; i < ms.size(); ++i) if (bits >> i & 1) f[ms[i]] = 1; return f; }

void mc::setup() {
    // A. every plane cubic with coefficients 0/1
    static std::vector<Mono> c3 = monos(3, 3);
    static std::vector<long> P3 = {5, 7, 11, 13, 17, 19, 23, 29, 43, 101};
    for (long p : P3)
        mc::family("cubic01-p" + str(p), "all 1023 nonzero plane cubics with coefficients in {0,1}, p = " + str(p), 1023,
            [=](uint64_t i) { return "p=" + str(p) + " f=" + show(from_bits(c3, i + 1)); },
            [=](uint64_t i) { decide(from_bits(c3, i + 1), 2, 3, p, p < 20 ? 2 : 1, (i & 7) == 0 || mc::thorough()); });
    if (mc::thorough()) {  // every plane cubic with coefficients in {-1,0,1}
        static std::vector<long> PT = {5, 7, 11, 17};
        for (long p : PT)
            mc::family("cubic3-p" + str(p), "all plane cubics with coefficients in {0,1,-1}, p = " + str(p), 59049,
                [=](uint64_t i) { Form f; uint64_t w = i; for (auto &m : c3) { f[m] = (long[]){0, 1, -1}[w % 3]; w /= 3; } return "p=" + str(p) + " f=" + show(f); },
                [=](uint64_t i) { Form f; uint64_t w = i; for (auto &m : c3) { long c = (long[]){0, 1, -1}[w % 3]; if (c) f[m] = c; w /= 3; } if (f.empty()) return; decide(f, 2, 3, p, 1, false); });
    }
    // B. large primes: y^2 z = x^3 + a x z^2 + b z^3
    {
        static std::vector<long> PL = {257, 1009, 4001};
        if (mc::thorough()) PL.push_back(10007);
        static std::vector<long> AB = {1, 2, 3, -1, -5, 7};
        mc::family("weierstrass", "y^2z = x^3+axz^2+bz^3 (and with an extra xyz term), a,b in {1,2,3,-1,-5,7}, three large primes", PL.size() * 36 * 2,
            [=](uint64_t i) { return "p=" + str(PL[i / 72]) + " a=" + str(AB[i % 36 / 6]) + " b=" + str(AB[i % 6]) + " xyz=" + str(i % 72 / 36); },
            [=](uint64_t i) {
                long p = PL[i / 72], a = AB[i % 36 / 6], b = AB[i % 6];
                Form f; f[{0, 2, 1}] = 1; f[{3, 0, 0}] = -1; f[{1, 0, 2}] = -a; f[{0, 0, 3}] = -b; if (i % 72 / 36) f[{1, 1, 1}] = 1;
                decide(f, 2, 3, p, 1, i % 9 == 0);
            });
    }
    // C. plane quartics: a smooth base plus one or two further monomials
    {
        static std::vector<Mono> c4 = monos(3, 4);
        static std::vector<Form> fam;
        std::vector<Form> base = {fermat(3, 4), diagonal(3, 4, {1, 1, 2}), Form{{{3, 1, 0}, 1}, {{0, 3, 1}, 1}, {{1, 0, 3}, 1}}, Form{{{4, 0, 0}, 1}, {{0, 3, 1}, 1}, {{0, 0, 4}, 1}, {{0, 1, 3}, 1}}};
        for (size_t b = 0; b < base.size(); ++b) {
            std::vector<Mono> rest; for (auto &m : c4) if (!base[b].count(m)) rest.push_back(m);
            fam.push_back(base[b]);
            for (size_t i = 0; i < rest.size(); ++i) {
                Form f = base[b]; f[rest[i]] = 1; fam.push_back(f);
                if (b == 0 || mc::thorough()) { f[rest[i]] = -1; fam.push_back(f); f[rest[i]] = 1; for (size_t j = i + 1; j < rest.size(); ++j) if (b == 0 && (mc::thorough() || (i + j) % 3 == 0)) { f[rest[j]] = 1; fam.push_back(f); f.erase(rest[j]); } }
            }
        }
        static std::vector<long> P4 = {3, 5, 7, 11, 13, 17, 19, 23};
        for (long p : P4)
            mc::family("quartic-p" + str(p), "plane quartics: four bases plus at most one (Fermat: two) further monomials, p = " + str(p), fam.size(),
                [=](uint64_t i) { return "p=" + str(p) + " f=" + show(fam[i]); },
                [=](uint64_t i) { decide(fam[i], 2, 4, p, p <= 11 || (p <= 19 && i % 8 == 0) || mc::thorough() ? 3 : 2, i % 4 == 0 || mc::thorough()); }, 120);
    }
    // D. diagonal hypersurfaces of higher degree and dimension; the whole polynomial is pinned down by exact counts
    {
        struct D { int n, d; long p; int K; bool quick; };
        static std::vector<D> ds = {
            {3, 4, 3, 9, true}, {3, 4, 5, 7, true}, {3, 4, 7, 6, true}, {3, 4, 23, 4, true}, {3, 4, 43, 3, true}, {2, 7, 3, 11, true}, {2, 7, 17, 5, true}, {2, 7, 5, 8, true}, {2, 7, 11, 6, true}, {3, 4, 11, 5, false}, {3, 4, 19, 5, false}, {3, 4, 41, 4, false}, {3, 4, 47, 4, false},
            {2, 6, 5, 9, true}, {2, 6, 7, 7, true}, {2, 6, 11, 6, true}, {2, 6, 13, 6, true}, {2, 6, 17, 5, true}, {2, 6, 43, 4, true},
            {2, 5, 3, 6, true}, {2, 5, 7, 6, true}, {2, 5, 11, 6, true}, {2, 5, 13, 6, true}, {2, 5, 17, 5, true}, {2, 5, 19, 5, true}, {2, 5, 31, 4, true}, {2, 5, 41, 4, true},
            {2, 4, 3, 3, true}, {2, 4, 5, 3, true}, {2, 4, 7, 3, true}, {2, 4, 11, 3, true}, {2, 4, 13, 3, true}, {2, 4, 17, 3, true}, {2, 4, 29, 3, true}, {2, 4, 41, 3, true}, {2, 4, 73, 3, true}, {2, 4, 97, 3, true},
            {2, 3, 5, 1, true}, {2, 3, 7, 1, true}, {2, 3, 13, 1, true}, {2, 3, 17, 1, true}, {2, 3, 19, 1, true}, {2, 3, 31, 1, true}, {2, 3, 1009, 1, true},
        };
        static std::vector<std::pair<D, std::vector<long>>> cs;
        for (auto &x : ds) if (x.quick || mc::thorough()) {
            bool heavy = x.n == 3 || x.d >= 7;
            std::vector<std::vector<long>> co;
            std::vector<long> one(x.n + 1, 1); co.push_back(one);
            if (!heavy || mc::thorough()) for (long a = 2; a <= 4; ++a) for (long b = 1; b <= (heavy ? 1 : 3); ++b) if (a % x.p && b % x.p) { auto c = one; c[x.n] = a; c[0] = b; co.push_back(c); }
            for (auto &c : co) cs.push_back({x, c});
        }
        if (mc::thorough()) mc::family("quintic-surface", "the Fermat quintic surface over F_3", 1, [](uint64_t) { return std::string("p=3"); }, [](uint64_t) { std::vector<long> one(4, 1); ZZX z = run_zeta(diagonal(4, 5, one), 3, true); check_zeta(z, 3, 5, 3, counts_diag(one, 5, 3, 10), "diagonal"); }, 3600);
        mc::family("diagonal", "diagonal hypersurfaces a0 x0^d+...+an xn^d for the listed (n,d,p) and coefficient choices", cs.size(),
            [=](uint64_t i) { std::ostringstream o; o << "n=" << cs[i].first.n << " d=" << cs[i].first.d << " p=" << cs[i].first.p << " coefficients"; for (long c : cs[i].second) o << " " << c; return o.str(); },
            [=](uint64_t i) {
                const D &x = cs[i].first; ZZX z = run_zeta(diagonal(x.n + 1, x.d, cs[i].second), x.p, true);
                check_zeta(z, x.n, x.d, x.p, counts_diag(cs[i].second, x.d, x.p, x.K), "diagonal");
                mc::state(); mc::trans(x.K); mc::trace(); mc::nontrivial(); mc::outcome(str(x.p) + str(z));
            }, 600);
    }
    // E. quintic and sextic curves that are not diagonal
    {
        struct Q { int d; long p; Form f; };
        static std::vector<Q> qs;
        for (long p : {3L, 7L, 11L}) {
            std::vector<Mono> c5 = monos(3, 5); int k = 0;
            for (auto &m : c5) { Form f = fermat(3, 5); if (f.count(m)) continue; f[m] = 1; if (mc::thorough() || k++ % 3 == (int)(p % 3)) qs.push_back({5, p, f}); }
            if (mc::thorough()) qs.push_back({5, p, Form{{{4, 1, 0}, 1}, {{0, 4, 1}, 1}, {{1, 0, 4}, 1}}});
        }
        qs.push_back({5, 7, Form{{{4, 1, 0}, 1}, {{0, 4, 1}, 1}, {{1, 0, 4}, 1}}});
        if (mc::thorough()) for (long p : {5L, 7L, 11L}) for (auto &m : monos(3, 6)) { Form f = fermat(3, 6); if (f.count(m)) continue; f[m] = 1; qs.push_back({6, p, f}); }
        else { for (long p : {5L, 7L, 11L}) { Form f = fermat(3, 6); f[{2, 2, 2}] = 1; qs.push_back({6, p, f}); } }
        mc::family("quintic-sextic", "Fermat quintics and sextics plus one monomial (and a cyclic quintic)", qs.size(),
            [=](uint64_t i) { return "p=" + str(qs[i].p) + " f=" + show(qs[i].f); },
            [=](uint64_t i) { decide(qs[i].f, 2, qs[i].d, qs[i].p, qs[i].p <= 7 ? 4 : 3, false); }, 600);
    }
    // G. quartic surfaces that are not diagonal, in both methods
    {
        struct S { long p; Form f; int K; bool better; };
        static std::vector<S> ss; bool th = mc::thorough();
        auto put = [&](long p, const Form &f, int K, bool better = true) { if (ref::smooth(f, 4, 4, p)) ss.push_back({p, f, K, better}); };
        for (long p : {3L, 5L, 7L, 11L, 13L}) {
            int k = 0; for (auto &m : monos(4, 4)) { Form f = fermat(4, 4); if (f.count(m)) continue; f[m] = 1; bool pick = p == 5 ? k == 9 || k == 20 : p == 7 ? k == 13 : false; ++k; if (th || pick) put(p, f, p == 3 ? 5 : p == 5 ? 3 : p == 7 ? 3 : 2); }
        }
        Form cyc; cyc[{3, 1, 0, 0}] = 1; cyc[{0, 3, 1, 0}] = 1; cyc[{0, 0, 3, 1}] = 1; cyc[{1, 0, 0, 3}] = 1; Form mixed = cyc; mixed[{1, 1, 1, 1}] = 2;
        if (th) { put(3, cyc, 5); put(5, cyc, 3); put(7, cyc, 3); put(7, mixed, 3); put(3, cyc, 5, false); put(5, cyc, 3, false); }
        mc::family("quartic-surfaces", "Fermat quartic surfaces plus one monomial, and cyclic ones", ss.size(),
            [=](uint64_t i) { return "p=" + str(ss[i].p) + " f=" + show(ss[i].f) + (ss[i].better ? "" : " without searching for a better model"); },
            [=](uint64_t i) { const S &x = ss[i]; ZZX z = run_zeta(x.f, x.p, x.better); check_zeta(z, 3, 4, x.p, counts_of(x.f, 3, 4, x.p, x.K), "quartic surface"); mc::state(); mc::trans(x.K); mc::trace(); mc::nontrivial(); mc::outcome(str(x.p) + str(z)); }, 3000);
    }
    // F. p = 2 is below the range of the precision tables: the call may refuse, but it may not answer wrongly
    mc::family("cubic-p2", "all 1023 nonzero plane cubics over F_2: refused, or answered correctly", 1023,
        [=](uint64_t i) { return "p=2 f=" + show(from_bits(c3, i + 1)); },
        [=](uint64_t i) {
            Form f = from_bits(c3, i + 1);
            if (!ref::smooth(f, 3, 3, 2)) { mc::skipped(); return; }
            mc::ChildResult r = mc::in_child([&](int fd) { ZZX z = run_zeta(f, 2, true); check_zeta(z, 2, 3, 2, counts_of(f, 2, 3, 2, 3), "p=2"); (void)fd; }, 60);
            MC_CHECK(!r.timed_out, "does not end");
            if (r.exited0()) mc::nontrivial();
            MC_CHECK(r.out.compare(0, 5, "FAIL ") != 0, r.out);
            MC_CHECK(r.exited0() || (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT), "neither an answer nor a refusal: " << mc::tail(r.err));
            mc::state();
        });
}
MC_MAIN
