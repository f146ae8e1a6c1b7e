// C10, conformance of the controlled runtime: the same calls on the production runtime (libgomp) with several threads
#include "threads.h"
using namespace NTL; using namespace std;
static void go(const Task &t, const vector<int> &Ts) {
    shared_ptr<void> prep = t.prepare(); string want;
    omp_set_num_threads(1); zeta_threads() = 1; want = t.run(prep).value;
    for (int T : Ts) {
        omp_set_num_threads(T); zeta_threads() = T; Out o = t.run(prep); omp_set_num_threads(1); mc::trace(); mc::state(); mc::trans();
        MC_CHECK(o.value == want, t.name << " with " << T << " threads of the production runtime gives " << first_difference(o.value, want));
        if (o.obj) for (auto &q : t.follow) { Obj f(*t.cfg); string a = q.run(*o.obj), b = q.run(f); MC_CHECK(a == b, q.name << " asked after " << t.name << " with " << T << " threads gives " << first_difference(a, b)); }
        mc::nontrivial(); mc::outcome(o.value);
    }
}
void mc::setup() {
    auto all = make_shared<vector<Task>>(tasks());
    for (int cost = 0; cost < 3; ++cost) {
        auto C = make_shared<vector<size_t>>(); for (size_t i = 0; i < all->size(); ++i) if ((*all)[i].cost == cost && (mc::thorough() || (*all)[i].name.find(" after ") == string::npos)) C->push_back(i);
        mc::family("libgomp-" + to_string(cost), cost == 0 ? "points on a line, 2 and 5 threads (thorough: 3 too) of the production runtime" : cost == 1 ? "plane cubics and quartic points, 2 and 5 threads (thorough: 3 too) of the production runtime" : "plane quartics, 3 threads of the production runtime", C->size(), [=](uint64_t i) { return (*all)[(*C)[i]].name; }, [=](uint64_t i) { go((*all)[(*C)[i]], cost == 2 ? vector<int>{3} : (mc::thorough() ? vector<int>{2, 3, 5} : vector<int>{2, 5})); }, 120);
    }
}
MC_MAIN
