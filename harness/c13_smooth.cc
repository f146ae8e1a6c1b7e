// C13: smoothness and nondegeneracy are decided exactly; singular input is refused
#include "eqs.h"
#include <NTL/lzz_pXFactoring.h>
using namespace NTL; using namespace std;
// a common zero of the partial derivatives (of the x_i d/dx_i when toric) with coordinates in F_q
static bool zero_over(const Form &f, int nv, long p, int k, bool toric) {
    const Fq &F = field(p, k); vector<vector<pair<Mono, int32_t>>> g(nv);
    for (int i = 0; i < nv; ++i) for (auto &t : ref::deriv(f, i, p, toric)) g[i].push_back({t.first, F.fromint(t.second)});
    for (int lead = 0; lead < nv; ++lead) {
        long tot = 1; for (int i = lead + 1; i < nv; ++i) tot *= F.q;
        vector<int32_t> x(nv, -1); x[lead] = 0;
        for (long w = 0; w < tot; ++w) {
            long y = w; for (int i = lead + 1; i < nv; ++i) { x[i] = (int32_t)(y % F.q) - 1; y /= F.q; }
            bool all = true;
            for (int i = 0; i < nv && all; ++i) { int32_t s = -1; for (auto &t : g[i]) { int32_t c = t.second; for (int j = 0; j < nv && c >= 0; ++j) if (t.first[j]) c = F.mul(c, F.pw(x[j], t.first[j])); s = F.add(s, c); } if (s >= 0) all = false; }
            if (all) return true;
        }
    }
    return false;
}
// maxk: a singular form of the family has a singular point over F_{p^k} for some k <= maxk; 0 = only the Jacobian criterion
static void decide(const Form &f, int n, int d, long p, int maxk, int zeros) {
    mc::state();
    zz_pPush a(p); ZZ_pPush b(power_ZZ(p, 3)); Fzzp g = tozz_p(f);
    if (zeros) for (auto &m : monos(n + 1, d)) if (!g.count(vec(m)) && (zeros == 2 || g.empty())) g[vec(m)] = zz_p(0);
    if (g.empty()) { mc::skipped(); return; }
    bool s = ref::smooth(f, n + 1, d, p), lib = isSmooth(g);
    MC_CHECK(lib == s, "isSmooth returns " << lib << ", the Jacobian criterion gives " << s);
    if (maxk) { bool z = false; for (int k = 1; k <= maxk && !z; ++k) z = zero_over(f, n + 1, p, k, false); MC_CHECK(z == !lib, "isSmooth returns " << lib << ", but " << (z ? "there is a" : "there is no") << " singular point"); }
    mc::trans(); mc::trace(); mc::nontrivial(); mc::outcome(string(lib ? "smooth " : "singular ") + show(f));
    if (d % p) { bool nd = ref::nondegenerate(f, n + 1, d, p), l2 = isND(g); MC_CHECK(l2 == nd, "isND returns " << l2 << ", the criterion gives " << nd); MC_CHECK(!l2 || lib, "nondegenerate but not smooth"); mc::trans();
        if (maxk) { bool z = false; for (int k = 1; k <= maxk && !z; ++k) z = zero_over(f, n + 1, p, k, true); MC_CHECK(!z || !l2, "isND holds but the toric derivatives have a common zero"); } }
}
static void all(const string &nm, int n, int d, long p, const vector<Form> &fs, int maxk, int zeros = 1, double timeout = 60) {
    auto E = make_shared<vector<Form>>(fs); const uint64_t block = 16;
    mc::family(nm + "-p" + to_string(p), "every form of the family in " + to_string(n + 1) + " variables of degree " + to_string(d) + " over F_" + to_string(p), (E->size() + block - 1) / block,
        [=](uint64_t i) { return "p=" + to_string(p) + " forms " + to_string(i * block) + ".. from " + show((*E)[i * block]); },
        [=](uint64_t i) { for (uint64_t j = i * block; j < min<uint64_t>((i + 1) * block, E->size()); ++j) { try { decide((*E)[j], n, d, p, maxk, zeros); } catch (mc::Fail &x) { mc::fail(show((*E)[j]) + ": " + x.msg); } } }, timeout);
}
// singular forms through every entry point: the call ends the process with an error and never answers; nondegenerate forms are accepted
struct Entry { const char *name; bool nd; function<void(const Form &, int, int, long)> call; };
static vector<Entry> entries() {
    vector<Entry> r;
    r.push_back({"de_Rham_local", false, [](const Form &f, int n, int d, long p) { Mod m(p, 2); de_Rham_local D(p, 2, toZZ_p(f), false); }});
    r.push_back({"de_Rham_non_degenerate_local", true, [](const Form &f, int n, int d, long p) { Mod m(p, 2); de_Rham_non_degenerate_local D(p, 2, toZZ_p(f), false); }});
    r.push_back({"hypersurface(fbar)", false, [](const Form &f, int n, int d, long p) { Mod m(p, 2); hypersurface H(p, 2, tozz_p(f), false); }});
    r.push_back({"hypersurface_non_degenerate(fbar)", true, [](const Form &f, int n, int d, long p) { Mod m(p, 2); hypersurface_non_degenerate H(p, 2, tozz_p(f), false); }});
    r.push_back({"zeta_function", false, [](const Form &f, int n, int d, long p) { ZZX z; Mat<ZZ> F; zeta_function(z, F, toZZ(f), p, false, 1, 0, true, false); }});
    r.push_back({"zeta_function with model search", false, [](const Form &f, int n, int d, long p) { ZZX z; Mat<ZZ> F; zeta_function(z, F, toZZ(f), p, false, 1, 0, true, true); }});
    return r;
}
static void refuse(const string &nm, int n, int d, long p, const vector<Form> &fs, const vector<int> &which, double timeout = 60) {
    auto E = make_shared<vector<Form>>(); for (auto &f : fs) { bool any = false; for (auto &t : f) if (imod(t.second, p)) any = true; if (any && !is_nd(f, n, d, p)) E->push_back(f); }
    auto S = make_shared<vector<Entry>>(entries()); auto W = make_shared<vector<int>>(which);
    if (E->empty()) return;
    mc::family(nm + "-p" + to_string(p), "every singular or degenerate form of the family in " + to_string(n + 1) + " variables of degree " + to_string(d) + " through " + to_string(which.size()) + " entry points", E->size() * W->size(),
        [=](uint64_t i) { return string((*S)[(*W)[i % W->size()]].name) + " p=" + to_string(p) + " " + show((*E)[i / W->size()]); },
        [=](uint64_t i) {
            const Form &f = (*E)[i / W->size()]; const Entry &e = (*S)[(*W)[i % W->size()]];
            if (!e.nd && is_smooth(f, n, d, p)) { mc::skipped(); return; }
            mc::state(); auto r = mc::in_child([&](int) { e.call(f, n, d, p); }, timeout);
            MC_CHECK(!r.timed_out, "neither refuses nor answers");
            MC_CHECK(!r.exited0(), "answers for a form that is not " << (e.nd ? "nondegenerate" : "smooth"));
            MC_CHECK(WIFEXITED(r.status) || WTERMSIG(r.status) == SIGABRT, "dies from signal " << WTERMSIG(r.status) << " instead of refusing: " << mc::tail(r.err));
            mc::trans(); mc::trace(); mc::nontrivial();
        }, timeout + 30);
}
static void accept_(const string &nm, int n, int d, long p, const vector<Form> &fs) {
    auto E = make_shared<vector<Form>>(); for (auto &f : fs) if (is_nd(f, n, d, p)) E->push_back(f);
    if (E->empty()) return;
    mc::family(nm + "-p" + to_string(p), "every nondegenerate form of the family is accepted", E->size(), [=](uint64_t i) { return "p=" + to_string(p) + " " + show((*E)[i]); },
        [=](uint64_t i) { mc::state(); for (auto &e : entries()) { if (string(e.name).find("zeta") == 0) continue; e.call((*E)[i], n, d, p); mc::trans(); } mc::trace(); mc::nontrivial(); });
}
// x^3 + y^3 + z^3 + c xyz over a large prime: singular exactly when c^3 = -27
static vector<Form> hesse(long p) {
    vector<Form> r; zz_pPush push(p); vector<long> cs = {0, 1, p - 1, p - 3, 3, 5, p - 5};
    zz_pX f; SetCoeff(f, 3, 1); zz_p c27; c27 = 27; SetCoeff(f, 0, c27); zz_pX g, x; SetX(x); zz_pX h = PowerXMod(ZZ(p), f) - x; GCD(g, f, h);
    if (deg(g) > 0) { MakeMonic(g); vec_zz_p rt = FindRoots(g); for (long i = 0; i < rt.length(); ++i) { cs.push_back(rep(rt[i])); cs.push_back((rep(rt[i]) + 1) % p); } }
    for (long c : cs) { Form u = fermat(3, 3); if (c) u[{1, 1, 1}] = c; r.push_back(u); }
    return r;
}
void mc::setup() {
    bool th = mc::thorough();
    for (long p : {2, 3, 5, 7}) for (int d = 2; d <= (p == 2 ? 7 : p == 3 ? 5 : p == 5 ? (th ? 5 : 4) : (th ? 4 : 3)); ++d) all("binary-" + to_string(d), 1, d, p, allforms(1, d, upto(p), upto(p)), d, 1);
    all("conics", 2, 2, 2, allforms(2, 2, upto(2), upto(2)), 1, 1); all("conics", 2, 2, 3, allforms(2, 2, upto(3), upto(3)), 1, 1); if (th) all("conics", 2, 2, 5, allforms(2, 2, upto(5), upto(5)), 1, 1); else all("conics", 2, 2, 5, allforms(2, 2, {0, 1, 2}, {0, 1, 3}), 1, 1);
    all("cubics", 2, 3, 2, allforms(2, 3, upto(2), upto(2)), 4, 1);
    all("cubics-zeros", 2, 3, 2, allforms(2, 3, {1}, upto(2)), 0, 2);
    all("cubics", 2, 3, 3, allforms(2, 3, th ? upto(3) : vector<long>{0, 1}, th ? upto(3) : vector<long>{0, 1}), 0, 1);
    all("cubics", 2, 3, 5, allforms(2, 3, th ? vector<long>{0, 1, 2} : vector<long>{0, 1}, {0, 1}), 0, 1); all("cubics", 2, 3, 7, allforms(2, 3, th ? vector<long>{0, 1, 3} : vector<long>{0, 1}, {0, 3}), 0, 1);
    for (long p : {31L, 10007L, 10009L, 1000003L, 1000000007L, 2147483647L, 2147483629L, 2147483587L, 2147483659L, 4294967291L, 4294967311L, 281474976710597L, 1152921504606846883L}) all("hesse", 2, 3, p, hesse(p), 0, 1);
    { vector<Form> q; if (th) q = allforms(2, 4, {0, 1}, {0, 1}); else q = box(2, 4, {{{4, 0, 0}, {0, 1}}, {{0, 4, 0}, {0, 1}}, {{0, 0, 4}, {0, 1}}, {{3, 1, 0}, {0, 1}}, {{0, 3, 1}, {0, 1}}, {{1, 0, 3}, {0, 1}}, {{2, 2, 0}, {0, 1}}, {{2, 1, 1}, {0, 1}}, {{0, 2, 2}, {0, 1}}});
      for (long p : {2, 3, 5}) all("quartics", 2, 4, p, q, 0, 1); }
    { vector<Form> q = allforms(3, 2, {0, 1}, {0, 1}); all("quadric-surfaces", 3, 2, 2, q, 0, 1); all("quadric-surfaces", 3, 2, 3, q, 1, 1); }
    { vector<pair<Mono, vector<long>>> s; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i == j) { Mono m(4, 0); m[i] = 3; s.push_back({m, {0, 1}}); } else if (j == (i + 1) % 4) { Mono m(4, 0); m[i] = 2; m[j] = 1; s.push_back({m, {0, 1}}); } } if (th) { s.push_back({{1, 1, 1, 0}, {0, 1}}); s.push_back({{0, 1, 1, 1}, {0, 1}}); }
      for (long p : {2, 3, 5}) all("cubic-surfaces", 3, 3, p, box(3, 3, s), 0, 1, 300); }
    { vector<pair<Mono, vector<long>>> s; for (int i = 0; i < 4; ++i) { Mono m(4, 0); m[i] = 4; s.push_back({m, {0, 1}}); m[i] = 3; m[(i + 1) % 4] = 1; s.push_back({m, th ? vector<long>{0, 1} : i ? vector<long>{0, 1} : vector<long>{0}}); }
      for (long p : {3, 5}) all("quartic-surfaces", 3, 4, p, th || p == 3 ? box(3, 4, s) : diagplus(3, 4, {1}), 0, 1, 600); }
    // refusal
    refuse("refuse-conics", 1, 2, 5, allforms(1, 2, {0, 1, 2}, {0, 1, 2}), {0, 1, 2, 3});
    refuse("refuse-cubics", 2, 3, 5, allforms(2, 3, {0, 1}, th ? vector<long>{0, 1} : vector<long>{0}), {0, 1, 2, 3, 4, 5});
    refuse("refuse-cubics-terms", 2, 3, 5, box(2, 3, {{{3, 0, 0}, {0, 1}}, {{0, 3, 0}, {0, 1}}, {{0, 2, 1}, {0, 1, 4}}, {{2, 0, 1}, {0, 1}}, {{1, 1, 1}, {0, 1, 2}}}), {1, 3, 4, 5});
    for (long p : {7L, 31L, 10009L, 2147483629L, 4294967311L, 1152921504606846883L}) refuse("refuse-hesse", 2, 3, p, hesse(p), p < 1000 ? vector<int>{0, 1, 2, 3, 4, 5} : vector<int>{0, 1, 2, 3});
    refuse("refuse-quartics", 2, 4, 3, box(2, 4, {{{4, 0, 0}, {0, 1}}, {{0, 4, 0}, {0, 1}}, {{0, 0, 4}, {0, 1}}, {{0, 3, 1}, {0, 1}}, {{2, 2, 0}, {0, 2}}}), th ? vector<int>{0, 1, 2, 3, 4, 5} : vector<int>{0, 3, 5});
    { vector<Form> cones; for (int k = 0; k < 4; ++k) { vector<long> c(4, 1); c[k] = 0; Form f = diagonal(4, 4, c); f.erase(Mono(4, 0)); for (auto it = f.begin(); it != f.end();) if (!it->second) it = f.erase(it); else ++it; cones.push_back(f); Form g = f; Mono m(4, 0); m[k] = 2; m[(k + 1) % 4] = 2; g[m] = 1; cones.push_back(g); }
      refuse("refuse-quartic-surfaces", 3, 4, 3, cones, {0, 1, 4}, 120); }
    for (long p : {2L, 5L, 7L}) accept_("accept-cubics", 2, 3, p, box(2, 3, {{{3, 0, 0}, {1}}, {{0, 3, 0}, {1, 2}}, {{0, 0, 3}, {1, 3}}, {{1, 1, 1}, {0, 1, 2}}, {{2, 1, 0}, {0, 1}}, {{0, 1, 2}, {0, 1}}}));
    for (long p : {2147483629L, 4294967291L, 1152921504606846883L}) accept_("accept-cubics-large", 2, 3, p, hesse(p));
    accept_("accept-quartics", 2, 4, 3, diagplus(2, 4, {1, 2}));
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
