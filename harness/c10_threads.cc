// C10: no number of threads and no schedule changes a result.  The library runs on the controlled OpenMP runtime
// (sched_rt.cc); every schedule within a bound on deviations from two default schedulers is executed, and every
// access to memory is checked against the happens-before order.
#include "threads.h"
#include "ompsched.h"
using namespace NTL; using namespace std;
typedef vector<pair<uint32_t, uint8_t>> Dev;
static string show(const Dev &d) { string s; for (auto &x : d) s += (s.empty() ? "" : ",") + to_string(x.first) + ":" + to_string(x.second); return s.empty() ? "default" : s; }
struct Exec { sched::Result r; Out out; string contents; };
struct Explorer {
    const Task &t; int T, policy; shared_ptr<void> prep; string want; string content2; uint64_t runs = 0;
    Explorer(const Task &t_, int T_, int p) : t(t_), T(T_), policy(p) {}
    Exec exec(int threads, int focus, const Dev &d) {
        Exec e; sched::Options o; o.threads = threads; o.policy = (sched::Policy)policy; o.focus = focus; o.dev = d; zeta_threads() = threads;
        sched::begin(o); e.out = t.run(prep); e.r = sched::end(); ++runs; mc::trans(e.r.alts.size()); return e;
    }
    void sequential(Obj &o, const string &ctx) {   // later queries, asked by one thread
        for (auto &q : t.follow) { sched::Options so; sched::begin(so); string a = q.run(o); sched::end(); Obj f(*t.cfg); sched::begin(so); string b = q.run(f); sched::end(); MC_CHECK(a == b, q.name << " asked afterwards (" << ctx << ") gives " << first_difference(a, b)); }
    }
    void judge(Exec &e, int focus, const Dev &d) {
        ostringstream c; c << T << " threads, " << (policy ? "run-to-block" : "round-robin") << " schedule, region " << focus << ", deviations " << ::show(d);
        mc::trace(); mc::state();
        MC_CHECK(e.r.races.empty(), t.name << " with " << c.str() << ": " << e.r.races[0] << (e.r.races.size() > 1 ? "; " + e.r.races[1] : ""));
        MC_CHECK(e.out.value == want, t.name << " with " << c.str() << " gives " << first_difference(e.out.value, want));
        if (e.out.obj) { string x = ::contents(*e.out.obj); if (content2.empty()) { content2 = x; Obj o = e.out.obj->clone(); sequential(o, c.str()); } else if (x != content2) { Obj o = e.out.obj->clone(); sequential(o, c.str()); } mc::outcome(x); } else mc::outcome(e.out.value);
        if (e.r.maxteam > 1 && e.r.regions) mc::nontrivial();
    }
    // depth more deviations after the last one of d
    void deviate(int focus, Dev &d, const vector<uint8_t> &alts, int depth) {
        if (!depth) return;
        for (uint32_t p = d.empty() ? 0 : d.back().first + 1; p < alts.size(); ++p) for (int a = 1; a < alts[p]; ++a) { d.push_back({p, (uint8_t)a}); Exec e = exec(T, focus, d); judge(e, focus, d); deviate(focus, d, e.r.alts, depth - 1); d.pop_back(); }
    }
};
static const int SLOTS = 8;
// every schedule of one parallel region with at most depth deviations, the other regions following the default
static void explore(const Task &t, int T, int policy, int depth, int slot, int slots) {
    Explorer x(t, T, policy); x.prep = t.prepare();
    { Exec e = x.exec(1, -1, Dev()); x.want = e.out.value; MC_CHECK(e.r.regions == 0, "one thread starts a team"); }
    Dev none; Exec all = x.exec(T, -1, none); x.judge(all, -1, none);
    if (!depth) return;
    uint64_t job = 0;
    for (int r = 0; r < all.r.regions; ++r) {
        if (!mc::thorough() && r > 1 && r < all.r.regions - 1) { mc::skipped(); continue; }
        Exec b = x.exec(T, r, none);
        for (uint32_t p = 0; p < b.r.alts.size(); ++p) for (int a = 1; a < b.r.alts[p]; ++a) if ((int)(job++ % slots) == slot) { Dev d = {{p, (uint8_t)a}}; Exec e = x.exec(T, r, d); x.judge(e, r, d); x.deviate(r, d, e.r.alts, depth - 1); }
    }
}
void mc::setup() {
    bool th = mc::thorough(); auto all = make_shared<vector<Task>>(tasks());
    struct Case { size_t task; int T, policy, depth, slot, slots; };
    auto fam = [&](const string &name, const string &bound, int cost, const vector<int> &Ts, int depth, int slots) {
        auto C = make_shared<vector<Case>>();
        for (size_t i = 0; i < all->size(); ++i) if ((*all)[i].cost == cost && (th || !depth || (*all)[i].name.find(" after ") == string::npos)) for (int T : Ts) for (int p = 0; p < 2; ++p) for (int s = 0; s < slots; ++s) C->push_back({i, T, p, depth, s, slots});
        mc::family(name, bound, C->size(), [=](uint64_t i) { auto &c = (*C)[i]; return (*all)[c.task].name + ", " + to_string(c.T) + " threads, " + (c.policy ? "run-to-block" : "round-robin") + (c.slots > 1 ? ", part " + to_string(c.slot) : ""); }, [=](uint64_t i) { auto &c = (*C)[i]; explore((*all)[c.task], c.T, c.policy, c.depth, c.slot, c.slots); }, 120);
    };
    fam("every-team-size", "default schedules, teams of 2 to 5 threads and one thread per iteration; points on a line", 0, {2, 3, 4, 5, 40}, 0, 1);
    fam("tiny", "all schedules with at most 2 deviations in one region, 2 and 3 threads; points on a line", 0, {2, 3}, th ? 3 : 2, 1);
    fam("default-schedules", th ? "default schedules, teams of 2 to 5 threads and one thread per iteration; plane cubics, quartic points" : "default schedules, teams of 2 and 3 threads and one thread per iteration; plane cubics, quartic points", 1, th ? vector<int>{2, 3, 4, 5, 64} : vector<int>{2, 3, 64}, 0, 1);
    fam("one-deviation", th ? "all schedules with at most 1 deviation in one region; plane cubics, quartic points" : "all schedules with at most 1 deviation in one of the first two and the last region; plane cubics, quartic points", 1, th ? vector<int>{2, 3} : vector<int>{2}, 1, th ? SLOTS : 2);
    fam("large", "default schedules; plane quartics", 2, th ? vector<int>{2, 3, 64} : vector<int>{3, 64}, 0, 1);
}
MC_MAIN
