// C08: a saved object loads back as the same object.  Every query before the save, every query after the load, every
// kind of file name, both methods, both wrappers, lifts that are not the smallest representatives.
#include "saved.h"
using namespace NTL; using namespace std;
struct Setup { Cfg c; vector<Op> ops; };
typedef shared_ptr<Setup> SP;
static void roundtrip(const Setup &s, Obj &o, const char *name, int depth) {
    const Cfg &c = s.c; string before = coreless(o.clone());
    MC_CHECK(save(c, o, name), "save(\"" << name << "\") reports failure");
    MC_CHECK(exists(name), "no file \"" << name << "\" after a successful save"); MC_CHECK(!exists(string(name) + ".swp"), "the marker of \"" << name << "\" is still there after a successful save");
    MC_CHECK(coreless(o.clone()) == before, "saving changed the object");
    string text = slurp(name); Obj l = load(c, name);
    MC_CHECK(slurp(name) == text, "loading changed the file");
    string a = coreless(o.clone()), b = coreless(l.clone());
    if (o.H) { // powers of f are a cache: compare after dropping them
        Obj x = o.clone(), y = l.clone(); x.H->fpow.SetLength(1); y.H->fpow.SetLength(1); a = coreless(x); b = coreless(y);
    }
    MC_CHECK(a == b, "the loaded object differs from the saved one: " << b.substr(0, 1500) << " instead of " << a.substr(0, 1500));
    mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(text);
    function<void(Obj &, Obj &, string, int)> ask = [&](Obj &p, Obj &q, string h, int left) {
        for (auto &op : s.ops) { Obj x = p.clone(), y = q.clone(); string u = op.run(x), v = op.run(y); mc::trans();
            MC_CHECK(u == v, op.name << (h.empty() ? "" : " after " + h) << " gives " << v.substr(0, 300) << " on the loaded object, " << u.substr(0, 300) << " on the saved one");
            if (left > 1) ask(x, y, h + op.name + "; ", left - 1); }
    };
    ask(o, l, "", depth);
    // a second generation
    MC_CHECK(save(c, l, "second"), "saving the loaded object fails"); MC_CHECK(slurp("second") == text, "the loaded object is saved differently"); mc::trans();
    Obj l2 = load(c, "second"); MC_CHECK(coreless(l2.clone()) == coreless(load(c, name)), "the second generation differs"); mc::trans();
}
static Form ndform(int64_t p, int k) {
    for (int64_t a = 1; a < p; ++a) for (int64_t b = k > 1; b < p; ++b) for (int64_t c = 0; c < p; ++c) { Form g = fermat(3, 3); g[{1, 1, 1}] = a; if (b) g[{2, 1, 0}] = b; if (c) g[{0, 1, 2}] = c; if (is_nd(g, 2, 3, p) && !--k) return g; }
    fprintf(stderr, "no nondegenerate cubic over F_%ld\n", (long)p); exit(3);
}
#ifdef __SANITIZE_ADDRESS__
static const bool ASAN = true;   // under ASan: file names and tiny objects
#else
static const bool ASAN = false;
#endif
void mc::setup() {
    bool th = mc::thorough(); vector<SP> all; auto make = [&](const Cfg &c) { SP s(new Setup); s->c = c; s->ops = alphabet(c); all.push_back(s); return s; };
    Form cub = ndform(5, 1), cub2 = ndform(7, 2), miss, quad = fermat(2, 2), bin = fermat(2, 3), bq = fermat(2, 4); miss[{2, 1, 0}] = 1; miss[{0, 2, 1}] = 1; miss[{1, 0, 2}] = 1; quad[{1, 1}] = 1; quad[{0, 2}] = 2; bin[{2, 1}] = 1; bq[{1, 3}] = 1; if (!is_smooth(miss, 2, 3, 5)) miss[{1, 1, 1}] = 1; Form quar = fermat(3, 4), surf = fermat(4, 4); quar[{2, 1, 1}] = 1;
    vector<Eq> es; for (int lift : {0, 1, 2}) { es.push_back({2, 3, 5, 2, lift, cub}); es.push_back({2, 3, 5, 3, lift, miss}); es.push_back({1, 3, 5, 2, lift, bin}); es.push_back({1, 4, 3, 20, lift, bq}); es.push_back({1, 2, 3, 45, lift, quad}); if (th) { es.push_back({2, 3, 7, 24, lift, cub2}); es.push_back({2, 4, 3, 2, lift, quar}); es.push_back({2, 3, 2, 3, lift, miss}); } }
    if (th) es.push_back({3, 4, 3, 1, 0, surf});
    es.push_back({2, 3, 7, 1, 0, cub2}); es.push_back({2, 3, 10007, 5, 1, fermat(3, 3)}); es.push_back({1, 3, 1000003, 4, 1, fermat(2, 3)});
    for (auto &e : es) for (int save = 0; save < 2; ++save) for (int nd = 0; nd < 2; ++nd) for (int hyp = 0; hyp < 2; ++hyp) {
        if (!is_smooth(e.f, e.n, e.d, e.p)) continue; if (nd && !is_nd(e.f, e.n, e.d, e.p)) continue; { if (hyp && e.p > 100) continue; if (ASAN && e.lift != 1) continue; if (ASAN && e.n > 1 && !(e.prec == 2 && !hyp && !save)) continue; make(Cfg{e, (bool)nd, (bool)hyp, (bool)save}); }
    }
    // 1. every history of one query (two for tiny objects) before the save, every query afterwards
    {
        auto A = make_shared<vector<SP>>(all); auto first = make_shared<vector<pair<int, int>>>(); for (size_t s = 0; s < all.size(); ++s) { bool big = all[s]->c.e.n > 1 && (all[s]->c.e.d > 3 || all[s]->c.e.n > 2 || all[s]->c.e.p > 100); for (int k = -1; k < (int)all[s]->ops.size(); ++k) if (!big || k < 0 || k % 5 == 0) first->push_back({(int)s, k}); }
        mc::family(ASAN ? "histories-asan" : "histories", "save after no query and after every single query, load, and ask every query of both objects; general and nondegenerate, plain and as hypersurface, both memory modes, " + to_string(es.size()) + " equations with lifts", first->size(),
            [=](uint64_t i) { auto t = (*first)[i]; return show((*A)[t.first]->c) + ", after " + (t.second < 0 ? string("nothing") : (*A)[t.first]->ops[t.second].name); },
            [=](uint64_t i) { auto t = (*first)[i]; const Setup &s = *(*A)[t.first]; Dir dir; Mod mod(s.c.e.p, s.c.e.prec); Obj o(s.c); if (t.second >= 0) { s.ops[t.second].run(o); mc::trans(); } roundtrip(s, o, "object.txt", t.second < 0 && s.c.e.n == 1 && s.c.e.p < 100 ? 2 : 1); }, 240);
    }
    // 2. file names: every length a name may have, odd characters, directories, earlier contents of the file and of its marker
    {
        auto names = make_shared<vector<pair<string, string>>>(); for (int k = 1; k <= 251; ++k) if (th || k < 40 || k % 16 < 2 || k > 244) names->push_back({string(k, 'a'), ""});
        for (const char *x : {" ", "a b", "%s%n", "x.swp", ".hidden", "-", "caf\xc3\xa9", "new\nline", "back\\slash", "'q'", "\"q\"", "*", "$HOME", "~", "a;b", ".swp", "..."}) names->push_back({x, ""});
        names->push_back({"sub/dir/f", "sub/dir"}); { string d; for (int k = 0; k < 12; ++k) d += (k ? "/" : "") + string(200, 'd'); names->push_back({d + "/f", d}); } names->push_back({"./f", ""}); names->push_back({"ABS", ""});
        vector<SP> use; for (auto &s : all) if (s->c.e.p == 5 && s->c.e.lift == 1 && !s->c.save && (s->c.e.n == 1 || (s->c.nd && !s->c.hyp))) use.push_back(s); auto U = make_shared<vector<SP>>(use);
        if (ASAN) mc::family("names", "saves under every length of name and odd names x no earlier file, longer earlier file, stale marker, file of another object", names->size() * U->size() * 4,
            [=](uint64_t i) { auto &nm = (*names)[i / 4 / U->size()].first; return show((*U)[i / 4 % U->size()]->c) + ", name of " + to_string(nm.size()) + " bytes \"" + nm.substr(0, 30) + "\", earlier state " + to_string(i % 4); },
            [=](uint64_t i) {
                Dir dir; auto nm = (*names)[i / 4 / U->size()]; const Setup &s = *(*U)[i / 4 % U->size()]; int pre = i % 4; string name = nm.first == "ABS" ? dir.p + "/abs" : nm.first;
                if (nm.second.size()) { string d; stringstream ss(nm.second); string part; while (getline(ss, part, '/')) { d += (d.empty() ? "" : "/") + part; mkdir(d.c_str(), 0700); } }
                Mod mod(s.c.e.p, s.c.e.prec); Obj o(s.c);
                if (pre == 1) { ofstream q(name.c_str()); q << string(100000, '7'); } if (pre == 2) { ofstream q((name + ".swp").c_str()); q << "stale"; ofstream r(name.c_str()); r << "5\n2"; } if (pre == 3) { Cfg c = s.c; c.e.f = c.e.n == 1 ? fermat(2, 3) : fermat(3, 3); Obj other(c); MC_CHECK(save(c, other, name.c_str()), "the earlier save fails"); }
                MC_CHECK(save(s.c, o, name.c_str()), "save reports failure"); MC_CHECK(!exists(name + ".swp"), "the marker is still there after a successful save");
                Obj l = load(s.c, name.c_str()); MC_CHECK(coreless(l.clone()) == coreless(o.clone()), "the loaded object differs from the saved one"); MC_CHECK(s.ops.back().run(l) == s.ops.back().run(o), s.ops.back().name << " differs on the loaded object"); MC_CHECK(l.J->solve_J.size() >= 1, "no solutions loaded");
                for (auto &t : l.J->solve_J) { auto &w = o.J->solve_J[t.first]; MC_CHECK(t.second.first == w.first && t.second.second == w.second, "solution for degree " << t.first << " differs"); }
                // nothing else appeared or vanished next to it
                string base = name.substr(name.rfind('/') == string::npos ? 0 : name.rfind('/') + 1), dn = name.rfind('/') == string::npos ? "." : name.substr(0, name.rfind('/')); DIR *h = opendir(dn.c_str()); int extra = 0; while (dirent *e = readdir(h)) { string q = e->d_name; if (q != "." && q != ".." && q != base && q != "sub") { ++extra; } } closedir(h); MC_CHECK(extra == 0, extra << " stray files next to the saved one");
                mc::state(); mc::trans(2); mc::trace(); mc::nontrivial(); mc::outcome(name);
            }, 240);
    }
    if (ASAN) return;
    // 3. all coefficient vectors of a small shape: zero patterns and lifts of every coefficient
    {
        int P = th ? 5 : 3; auto run = [=](int n, int d, int64_t p, int prec, bool nd, vector<long> co) {
            vector<Mono> ms = monos(n + 1, d); Form f; for (size_t k = 0; k < ms.size(); ++k) if (co[k] % p) f[ms[k]] = co[k] % p; if (f.empty() || !(nd ? is_nd(f, n, d, p) : is_smooth(f, n, d, p))) { mc::skipped(); return; }
            Dir dir; Mod mod(p, prec); FZZp F; for (size_t k = 0; k < ms.size(); ++k) if (co[k]) F[vec(ms[k])] = NTL::conv<ZZ_p>(co[k]);
            Obj o, l; if (nd) { o.N = make_shared<de_Rham_non_degenerate_local>(p, prec, F, false); o.J = o.N; } else o.J = make_shared<de_Rham_local>(p, prec, F, false);
            MC_CHECK(o.J->save("f"), "save reports failure"); if (nd) { l.N = make_shared<de_Rham_non_degenerate_local>("f"); l.J = l.N; } else l.J = make_shared<de_Rham_local>("f");
            MC_CHECK(coreless(o) == coreless(l), "the loaded object differs from the saved one"); MC_CHECK(contents(o).substr(contents(o).find("I{")) == contents(l).substr(contents(l).find("I{")), "caches differ");
            for (auto &m : monos(n + 1, 2 * d)) { bool pos = true; for (int x : m) pos = pos && x > 0; if (!pos) continue; string a = str(o.J->monomial_to_basis_J(vec(m))), b = str(l.J->monomial_to_basis_J(vec(m))); MC_CHECK(a == b, "monomial_to_basis_J " << str(vec(m)) << " gives " << b << " on the loaded object, " << a << " on the saved one"); mc::trans(); if (nd) { a = str(o.N->monomial_to_basis_ND(vec(m))); b = str(l.N->monomial_to_basis_ND(vec(m))); MC_CHECK(a == b, "monomial_to_basis_ND " << str(vec(m)) << " gives " << b << " on the loaded object, " << a << " on the saved one"); mc::trans(); } }
            mc::state(); mc::trace(); mc::nontrivial(); mc::outcome(str(F));
        };
        struct Sh { int n, d; int64_t p; int prec; }; for (Sh s : vector<Sh>{{1, 2, 3, 2}, {1, 3, 5, 2}, {1, 2, 5, 2}, {1, 2, 3, 3}, {1, 3, 2, 2}}) { if (s.p == 5 && s.d == 3 && P == 3) s.p = 2, s.prec = 3; int q = monos(s.n + 1, s.d).size(); int64_t M = 1; for (int k = 0; k < s.prec; ++k) M *= s.p; uint64_t tot = 1; for (int k = 0; k < q; ++k) tot *= M; bool cut = tot > 60000; int64_t base = cut ? 2 * s.p : M; uint64_t cnt = 1; for (int k = 0; k < q; ++k) cnt *= base;
            for (int nd = 0; nd < 2; ++nd) mc::family("coefficients-n" + to_string(s.n) + "-d" + to_string(s.d) + "-p" + to_string(s.p) + "-N" + to_string(s.prec) + (nd ? "-nd" : ""), "every equation with coefficients below " + to_string(base) + " modulo " + to_string(M), cnt,
                [=](uint64_t i) { string r = "coefficients"; for (int k = 0; k < q; ++k) { r += " " + to_string(i % base); i /= base; } return r; }, [=](uint64_t i) { vector<long> co; for (int k = 0; k < q; ++k) { co.push_back(i % base); i /= base; } run(s.n, s.d, s.p, s.prec, nd, co); }, 60); }
    }
    // 4. talkative objects, and primes of every size the word type admits
    {
        auto L = make_shared<vector<SP>>(); for (auto &s : all) if (s->c.e.lift == 1 && s->c.e.p < 100 && (s->c.e.n == 1 || th || (s->c.e.prec == 2 && s->c.e.p == 5))) L->push_back(s); size_t nv = L->size();
        for (long p : {257L, 65537L, 2147483647L, 2147483659L, 4294967291L, 4294967311L, 1152921504606846883L}) for (int N : {1, 2, 5}) for (int d : {2, 3}) { if (d % p == 0) continue; for (int nd = 0; nd < 2; ++nd) for (int sv = 0; sv < 2; ++sv) { SP s(new Setup); s->c = Cfg{Eq{1, d, p, N, N > 1, fermat(2, d)}, (bool)nd, false, (bool)sv}; s->ops = alphabet(s->c); L->push_back(s); } }
        mc::family("verbose-and-large-primes", "verbose objects, and objects over primes up to 2^60: save, load, every query", L->size(), [=](uint64_t i) { return show((*L)[i]->c) + (i < nv ? " verbose" : ""); },
            [=](uint64_t i) { const Setup &s = *(*L)[i]; Dir dir; Mod mod(s.c.e.p, s.c.e.prec); Obj o(s.c); if (i < nv) { o.J->verbose = true; if (o.H) o.H->verbose = true; } roundtrip(s, o, "object.txt", 1); }, 240);
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
