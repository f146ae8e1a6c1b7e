// C03: all arithmetic variants of a Frobenius column agree
#include "frob.h"
using namespace NTL; using namespace std;
static void diff(const Vec<ZZ_p> &a, const Vec<ZZ_p> &b, long c, const char *x, const char *y) { MC_CHECK(a == b, "column " << c << ": " << x << " gives " << a << ", " << y << " gives " << b); mc::trans(); mc::trace(); mc::nontrivial(); }
static void runcols(const FCase &c, const vector<long> &cols) {
    Mod mod(c.e.p, c.e.prec);
    if (c.nd) {
        hypersurface_non_degenerate H(c.e.p, c.e.prec, over(lifted(c.e)), false);
        long nb = H.dR->coKernels_J_basis.length();
        for (long i = 0; i < nb; ++i) {
            if (cols.size() && find(cols.begin(), cols.end(), i) == cols.end()) continue;
            mc::state();
            Vec<ZZ_p> a = H.frob_J_ZZ(i, c.N, 0);
            diff(a, H.frob_J_ZZ(i, c.N, 1), i, "frob_J_ZZ loop 0", "frob_J_ZZ loop 1");
            diff(a, H.frob_J_ZZ(i, c.N, 2), i, "frob_J_ZZ loop 0", "frob_J_ZZ loop 2");
            diff(a, H.frob_J_ZZ_p(i, c.N, 0), i, "frob_J_ZZ loop 0", "frob_J_ZZ_p loop 0");
            diff(a, H.frob_J_ZZ_p(i, c.N, 1), i, "frob_J_ZZ loop 0", "frob_J_ZZ_p loop 1");
            diff(a, H.frob_J(i, c.N), i, "frob_J_ZZ loop 0", "frob_J");
            Vec<ZZ_p> b = H.frob_ND_flint(i, c.N);
            diff(b, H.frob_ND_ZZ(i, c.N, 0), i, "frob_ND_flint", "frob_ND_ZZ loop 0");
            diff(b, H.frob_ND_ZZ(i, c.N, 1), i, "frob_ND_flint", "frob_ND_ZZ loop 1");
            if (c.e.p < 10000)  // this variant multiplies without reducing: quadratic in p
            diff(b, H.frob_ND_ZZ(i, c.N, 2), i, "frob_ND_flint", "frob_ND_ZZ loop 2");
            diff(b, H.frob_ND_ZZ_p(i, c.N, 0), i, "frob_ND_flint", "frob_ND_ZZ_p loop 0");
            diff(b, H.frob_ND_ZZ_p(i, c.N, 1), i, "frob_ND_flint", "frob_ND_ZZ_p loop 1");
            diff(b, H.frob_ND(i, c.N), i, "frob_ND_flint", "frob_ND");
            mc::outcome(str(a));
        }
    } else {
        hypersurface H(c.e.p, c.e.prec, over(lifted(c.e)), false);
        long nb = H.dR->coKernels_J_basis.length();
        for (long i = 0; i < nb; ++i) {
            if (cols.size() && find(cols.begin(), cols.end(), i) == cols.end()) continue;
            mc::state();
            Vec<ZZ_p> a = H.frob_J_ZZ(i, c.N, 0);
            diff(a, H.frob_J_ZZ(i, c.N, 1), i, "frob_J_ZZ loop 0", "frob_J_ZZ loop 1");
            diff(a, H.frob_J_ZZ(i, c.N, 2), i, "frob_J_ZZ loop 0", "frob_J_ZZ loop 2");
            diff(a, H.frob_J_ZZ_p(i, c.N, 0), i, "frob_J_ZZ loop 0", "frob_J_ZZ_p loop 0");
            diff(a, H.frob_J_ZZ_p(i, c.N, 1), i, "frob_J_ZZ loop 0", "frob_J_ZZ_p loop 1");
            diff(a, H.frob_J(i, c.N), i, "frob_J_ZZ loop 0", "frob_J");
            mc::outcome(str(a));
        }
    }
}
void mc::setup() {
    bool th = mc::thorough();
    // p <= n only happens for surfaces and beyond; one column of each pole order in the quick tier
    { vector<Form> fs = diagplus(3, 4, {1}); vector<Form> sel; if (th) sel = fs; else sel = {fs[0]};
      fam("surfaces", "diagonal quartic surfaces with one more monomial, p = 3 = n", 3, 4, {3}, th ? vector<int>{0} : vector<int>{4}, {1}, sel, {1}, false, [=](const FCase &c) { runcols(c, th ? vector<long>{0, 1, 2, 10, 20} : vector<long>{0, 9, 20}); }, 900); }
    { vector<Form> q5; { Form f = fermat(4, 5); q5.push_back(f); f[{1, 1, 1, 2}] = 1; q5.push_back(f); f = fermat(4, 5); f[{4, 1, 0, 0}] = 1; f[{0, 2, 2, 1}] = 1; q5.push_back(f); } if (!th) q5 = {q5[1]};
      fam("quintic-surfaces", "quintic surfaces, p = 2 and 3, columns of each pole order", 3, 5, th ? vector<long>{2, 3} : vector<long>{2}, th ? vector<int>{0} : vector<int>{4}, {1}, q5, {1}, false, [=](const FCase &c) { runcols(c, th ? vector<long>{0, 1, 3, 4, 20, 47, 48, 51} : vector<long>{0}); }, 900); }
    frob_families([](const FCase &c) { runcols(c, {}); }, false);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
