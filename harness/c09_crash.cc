// C09: an interrupted or failing save is never mistaken for a good one.  Every operation on files of every save is made to
// fail, to transfer only a part, or to be the last one of the process; every prefix of a saved file is loaded.
#include "saved.h"
#include "fault.h"
using namespace fault;
struct Setup { Cfg c; };
typedef shared_ptr<Setup> SP;
static void put(const string &f, const string &s) { ofstream o(f.c_str(), ios::binary | ios::trunc); o << s; }
static vector<string> others(const string &name) { vector<string> r; DIR *h = opendir("."); while (dirent *e = readdir(h)) { string q = e->d_name; if (q != "." && q != ".." && q != name) r.push_back(q); } closedir(h); return r; }
static void wipe() { Dir::clean("."); }
// the ways a directory may look before the save
enum { NPRE = 5 };
static const char *prename(int p) { static const char *n[] = {"no earlier file", "an earlier complete file", "a longer earlier complete file", "a stale marker with a partial file", "a stale marker alone"}; return n[p]; }
struct Case {
    Cfg c; Mod mod; Obj o, other; string ref, old, bigold; std::set<uint64_t> refused; Dir dir;
    explicit Case(const Cfg &c_) : c(c_), mod(c_.e.p, c_.e.prec), o(c_) {
        Cfg b = c; b.e.lift = c.e.lift == 2 ? 0 : 2; b.save = !c.save; other = Obj(b);
        MC_CHECK(save(c, o, "f"), "a save without faults fails"); ref = slurp("f"); MC_CHECK(ref.size() && others("f").empty(), "a save without faults leaves " << others("f").size() << " other files");
        MC_CHECK(save(b, other, "f"), "a save without faults fails"); old = slurp("f"); bigold = old + string(5000, '\n'); wipe();
    }
    string before(int pre) { wipe(); string b; if (pre == 1) b = old; if (pre == 2) b = bigold; if (pre == 3) b = ref.substr(0, ref.size() / 2); if (pre == 1 || pre == 2 || pre == 3) put("f", b); if (pre >= 3) put("f.swp", ""); return b; }
    // an incomplete file must be refused
    void refuse(const string &what) {
        string x = slurp("f"); if (!refused.insert(mc::fnv(x)).second) return;
        mc::ChildResult r = mc::in_child([&](int fd) { Obj l = load(c, "f"); string a = coreless(l) == coreless(o.clone()) ? "same" : "different"; if (write(fd, a.data(), a.size())) {} }, 20);
        MC_CHECK(!r.timed_out, "loading an incomplete file of " << x.size() << " bytes (complete: " << ref.size() << ") does not end, " << what); MC_CHECK(!r.exited0() || r.out == "same", "an incomplete file of " << x.size() << " bytes (complete: " << ref.size() << ") is loaded, " << what);
        MC_CHECK(r.exited0() || !WIFSIGNALED(r.status) || WTERMSIG(r.status) == SIGABRT, "loading an incomplete file of " << x.size() << " bytes (complete: " << ref.size() << ") crashes with signal " << WTERMSIG(r.status) << ", " << what);
        mc::trans();
    }
    // the state left behind by one faulty save; had is the file before it
    void judge(const Run &r, const Plan &p, bool hadfile, const string &had, bool hadmarker, const string &ctx) {
        bool there = exists("f"); string now = there ? slurp("f") : string(); bool complete = there && now == ref, marker = others("f").size() > 0, untouched = there == hadfile && now == had && (!hadmarker || marker);
        string what = ctx + show(p, r.ops);
        if (r.result == 1) MC_CHECK(complete, what << ": the save reports success but the file has " << now.size() << " bytes instead of " << ref.size());
        else MC_CHECK(complete || marker || untouched, what << ": " << (r.crashed ? "the process ended" : r.aborted ? "the save ended the process" : "the save failed") << " and left an incomplete file (" << now.size() << " of " << ref.size() << " bytes) without a marker");
        if (there && !complete && !untouched) refuse("after " + what);
        mc::state(); mc::trans(); if (p.size()) mc::nontrivial(); mc::outcome(to_string(there) + to_string(complete) + to_string(marker) + to_string(r.result) + now);
    }
    Run attempt(const Plan &p) { return run(p, [&] { return save(c, o, "f") ? 1 : 0; }); }
    void good(const string &what) { Run r = attempt({}); MC_CHECK(r.result == 1 && slurp("f") == ref && others("f").empty(), what << ": a later save without faults does not leave the complete file alone"); mc::trans(); }
};
static vector<Step> steps(int k, const fault::Op &op, int detail) {
    vector<Step> r; auto e = [&](int x) { r.push_back(Step{k, ERR, x}); };
    r.push_back(Step{k, CRASH_BEFORE, 0}); r.push_back(Step{k, CRASH_AFTER, 0});
    switch (op.kind) {
    case OPEN: e(EACCES); if (detail) { e(ENOSPC); e(EMFILE); e(EINTR); } break;
    case WRITE: e(ENOSPC); r.push_back(Step{k, FULL, 0}); if (detail) { e(EIO); e(EINTR); e(EDQUOT); e(EAGAIN); }
        for (long j : std::set<long>{1, op.len / 2, op.len - 1}) if (j > 0 && j < op.len && (detail || j == op.len / 2)) { r.push_back(Step{k, SHORT, j}); r.push_back(Step{k, TORN, j}); r.push_back(Step{k, SHORTERR, j}); } break;
    case CLOSE: e(EIO); if (detail) { e(ENOSPC); e(EINTR); } break;
    case REMOVE: case RENAME: e(EACCES); if (detail) e(EIO); break;
    default: e(EIO); }
    return r;
}
// all plans of up to depth faults, each continued from what the operations really were
static void explore(Case &C, int pre, const Plan &p, int from, int depth, int detail, bool again) {
    string had = C.before(pre); bool hadfile = pre >= 1 && pre <= 3; Run r = C.attempt(p); C.judge(r, p, hadfile, had, pre >= 3, ""); mc::trace();
    if (p.size() && again) C.good(show(p, r.ops));
    if (!depth || r.crashed || r.aborted) return;
    for (int k = from; k < r.nops; ++k) for (auto &s : steps(k, r.ops[k], detail)) { Plan q = p; q.push_back(s); explore(C, pre, q, k + 1, depth - 1, 0, again); }
}
// a crash, then another save that crashes too, then a good one
static void resume(Case &C, int pre, int k1) {
    for (Act a : {CRASH_BEFORE, CRASH_AFTER}) {
        Plan p{Step{k1, a, 0}}; string had = C.before(pre); Run r = C.attempt(p); if (!r.crashed) return; C.judge(r, p, pre >= 1 && pre <= 3, had, pre >= 3, "");
        bool f = exists("f"), m = exists("f.swp"); string fs = slurp("f"), ms = slurp("f.swp");
        for (int k2 = 0;; ++k2) { bool any = false;
            for (Act b : {CRASH_BEFORE, CRASH_AFTER, FULL}) {
                wipe(); if (f) put("f", fs); if (m) put("f.swp", ms);
                Plan q{Step{k2, b, 0}}; Run x = C.attempt(q); if (k2 < x.nops) any = true; C.judge(x, q, f, fs, m, "after an interrupted save, "); mc::trace(); if (b == FULL || k2 >= x.nops) C.good("after an interrupted save, " + show(q, x.ops));
            }
            if (!any) break; }
    }
}
static string whole(const Cfg &c) { Mod mod(c.e.p, c.e.prec); Obj o(c); Dir d; if (!save(c, o, "f")) return ""; return slurp("f"); }
void mc::setup() {
    bool th = mc::thorough(); vector<Cfg> all, tiny; Form cub = fermat(3, 3), quad = fermat(2, 2), bin = fermat(2, 3), bq = fermat(2, 4), quar = fermat(3, 4); quad[{1, 1}] = 1; quad[{0, 2}] = 2; bin[{2, 1}] = 1; bq[{1, 3}] = 1;
    for (int64_t a = 1; a < 5; ++a) { Form g = fermat(3, 3); g[{1, 1, 1}] = a; if (is_nd(g, 2, 3, 5)) cub = g; }
    for (Eq e : vector<Eq>{{1, 2, 3, 2, 1, quad}, {1, 3, 5, 2, 1, bin}, {1, 4, 3, 20, 1, bq}, {2, 3, 5, 2, 1, cub}, {2, 4, 3, 2, 1, quar}}) for (int nd = 0; nd < 2; ++nd) for (int hyp = 0; hyp < 2; ++hyp) {
        if (!is_smooth(e.f, e.n, e.d, e.p) || (nd && !is_nd(e.f, e.n, e.d, e.p))) continue; if (e.d == 4 && e.n == 2 && (hyp || !th)) continue; Cfg c{e, (bool)nd, (bool)hyp, false}; all.push_back(c); if (e.n == 1 && (th || e.d == 2 || (e.d == 3 && nd && hyp))) tiny.push_back(c); }
    auto A = make_shared<vector<Cfg>>(all), T = make_shared<vector<Cfg>>(tiny);
    auto key = [](const Cfg &c, int pre) { return show(c) + ", " + prename(pre); };
    mc::family("single-faults", "every operation on files of a save: failing with every listed error, transferring a part, disk full from here on, end of the process before, inside and after it; then a good save; x earlier states of the directory", all.size() * NPRE, [=](uint64_t i) { return key((*A)[i / NPRE], i % NPRE); },
        [=](uint64_t i) { Case C((*A)[i / NPRE]); explore(C, i % NPRE, {}, 0, 1, 1, true); }, 240);
    mc::family("double-faults", "every pair of faults within one save of a tiny object", tiny.size() * NPRE * 64, [=](uint64_t i) { return key((*T)[i / 64 / NPRE], i / 64 % NPRE) + ", first fault at operation " + to_string(i % 64) + (i % 64 == 63 ? " or later" : ""); },
        [=](uint64_t i) { int pre = i / 64 % NPRE, k0 = i % 64; Cfg c = (*T)[i / 64 / NPRE]; if (!th && pre == 2) { return; } Case C(c); C.before(pre); Run b = C.attempt({}); for (int k = k0; k < (k0 == 63 ? b.nops : std::min(b.nops, k0 + 1)); ++k) for (auto &s : steps(k, b.ops[k], 0)) { if (s.act == CRASH_BEFORE || s.act == CRASH_AFTER || s.act == TORN) continue; explore(C, pre, {s}, k + 1, 1, 0, false); } }, 240);
    if (th) mc::family("triple-faults", "every triple of faults within one save of a tiny object", tiny.size() * 2 * 64, [=](uint64_t i) { return key((*T)[i / 64 / 2], i / 64 % 2) + ", first fault at operation " + to_string(i % 64) + (i % 64 == 63 ? " or later" : ""); },
        [=](uint64_t i) { int pre = i / 64 % 2, k0 = i % 64; Cfg c = (*T)[i / 64 / 2]; if (c.hyp || c.e.d > 2) return; Case C(c); C.before(pre); Run b = C.attempt({}); for (int k = k0; k < (k0 == 63 ? b.nops : std::min(b.nops, k0 + 1)); ++k) for (auto &s : steps(k, b.ops[k], 0)) { if (s.act == CRASH_BEFORE || s.act == CRASH_AFTER || s.act == TORN) continue; explore(C, pre, {s}, k + 1, 2, 0, false); } }, 600);
    mc::family("two-saves", "an interrupted save followed by another one interrupted or failing at every operation, followed by a good one", tiny.size() * NPRE * 64, [=](uint64_t i) { return key((*T)[i / 64 / NPRE], i / 64 % NPRE) + ", first end of the process at operation " + to_string(i % 64) + (i % 64 == 63 ? " or later" : ""); },
        [=](uint64_t i) { int pre = i / 64 % NPRE; Cfg c = (*T)[i / 64 / NPRE]; if (!th && (pre == 2 || c.hyp)) return; Case C(c); int k = i % 64; resume(C, pre, k); if (k == 63) for (k = 64;; ++k) { C.before(pre); Run b = C.attempt({}); if (k >= b.nops) break; resume(C, pre, k); } }, 240);
    {   // torn writes and full disks at every byte
        auto S = make_shared<vector<pair<Cfg, int>>>(); for (auto &c : all) { if (c.hyp && !th) continue; int sz = whole(c).size(); for (int b = 0; b * 128 < sz + 1; ++b) if (th || sz < 3000 || b % 8 == 0) S->push_back({c, b}); }
        mc::family("torn", "a save of which exactly the first j bytes reach the file, for every j: end of the process there, and disk full there", S->size(), [=](uint64_t i) { return show((*S)[i].first) + ", bytes " + to_string((*S)[i].second * 128) + "..." + to_string((*S)[i].second * 128 + 127); },
            [=](uint64_t i) { Case C((*S)[i].first); C.before(0); Run b = C.attempt({}); long off = 0, lo = (*S)[i].second * 128, hi = lo + 128;
                for (int k = 0; k < b.nops; ++k) { if (b.ops[k].kind != WRITE) continue; for (long j = 0; j < b.ops[k].len; ++j) if (off + j >= lo && off + j < hi) for (Act a : {TORN, SHORTERR}) { Plan p{Step{k, a, j}}; string had = C.before(off % 2 ? 1 : 0); Run r = C.attempt(p); C.judge(r, p, off % 2, had, false, ""); mc::trace(); } off += b.ops[k].len; }
            }, 240);
        auto P = make_shared<vector<pair<Cfg, int>>>(); for (auto &c : all) { int sz = whole(c).size(); for (int b = 0; b * 64 < sz; ++b) if (th || !c.hyp || b % 4 == 0) P->push_back({c, b}); }
        mc::family("prefixes", "loading every proper prefix of a saved file", P->size(), [=](uint64_t i) { return show((*P)[i].first) + ", prefixes of " + to_string((*P)[i].second * 64) + "..." + to_string((*P)[i].second * 64 + 63) + " bytes"; },
            [=](uint64_t i) { Case C((*P)[i].first); for (size_t j = (*P)[i].second * 64; j < (size_t)(*P)[i].second * 64 + 64 && j < C.ref.size(); ++j) { put("f", C.ref.substr(0, j)); C.refuse("prefix"); mc::state(); mc::trace(); mc::nontrivial(); } }, 240);
    }
    // what the names themselves make impossible
    mc::family("refusals", "saving where the file or its marker cannot be created, loading what is not there", all.size() * 9, [=](uint64_t i) { static const char *w[] = {"directory does not exist", "the file is a directory", "the marker is a directory", "the marker is a directory, earlier file", "name too long for the marker", "name too long for the marker, earlier file", "name too long", "no file to load", "a directory to load"}; return show((*A)[i / 9]) + ", " + w[i % 9]; },
        [=](uint64_t i) { Case C((*A)[i / 9]); int w = i % 9; string name = "f", l252(252, 'n'), l256(256, 'n'); bool had = w == 3 || w == 5; if (w == 0) name = "no/f"; if (w == 1) mkdir("f", 0700); if (w == 2 || w == 3) mkdir("f.swp", 0700); if (w == 4 || w == 5) name = l252; if (w == 6) name = l256; if (had) put(name, C.old);
            if (w < 7) { Run r = run({}, [&] { return save(C.c, C.o, name.c_str()) ? 1 : 0; }); MC_CHECK(r.result != 1 || slurp(name) == C.ref, "the save reports success but the file is not complete"); if (w == 0 || w == 1 || w == 6) MC_CHECK(r.result != 1, "the save reports success although the file cannot be created"); if (r.result != 1 && (w == 2 || w == 4)) MC_CHECK(!exists(name) || slurp(name) == C.ref, "a failed save left an incomplete file without a marker"); if (r.result != 1 && had) MC_CHECK(slurp(name) == C.old || slurp(name) == C.ref, "a failed save destroyed the earlier file without leaving a marker"); }
            else { if (w == 8) mkdir("f", 0700); mc::ChildResult r = mc::in_child([&](int) { Obj l = load(C.c, "f"); }, 20); MC_CHECK(!r.exited0(), "loading yields an object"); }
            mc::state(); mc::trans(); mc::trace(); mc::nontrivial(); }, 60);
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
