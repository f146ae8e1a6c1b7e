// Every random draw of the library becomes a nondeterministic choice that the harness enumerates.
// NTL::RandomBnd(long) is interposed; outside an exploration it answers from a fixed linear congruence.
#ifndef VERIF_CHOICE_H
#define VERIF_CHOICE_H
#include <cstddef>
#include <cstdint>
#include <vector>
#include <functional>
namespace choice {
struct Exhausted {};
struct Tape { std::vector<long> pick, bound; size_t pos = 0, limit = 0; bool on = false; uint64_t lcg = 12345; };
inline Tape &tape() { static Tape t; return t; }
// answers given in order before anything else, used outside an exploration
inline std::vector<long> &script() { static std::vector<long> s; return s; }
inline size_t &scripted() { static size_t n = 0; return n; }
inline long draw(long n) {
    Tape &t = tape();
    if (n <= 1) return 0;
    if (!t.on && scripted() < script().size()) { long x = script()[scripted()++] % n; return x < 0 ? x + n : x; }
    if (!t.on) { t.lcg = t.lcg * 6364136223846793005ull + 1442695040888963407ull; return (long)((t.lcg >> 33) % (uint64_t)n); }
    if (t.pos >= t.limit) throw Exhausted();
    if (t.pos == t.pick.size()) { t.pick.push_back(0); t.bound.push_back(n); }
    t.bound[t.pos] = n;
    return t.pick[t.pos++];
}
// runs body once for every sequence of draws that starts with the fixed prefix and has at most limit draws;
// body returns normally for a complete execution.  Returns (complete, cut off).
inline std::pair<uint64_t, uint64_t> explore(const std::vector<long> &prefix, size_t limit, const std::function<void()> &body) {
    Tape &t = tape(); uint64_t done = 0, cut = 0;
    t.pick = prefix; t.bound.assign(prefix.size(), 0);
    for (;;) {
        t.on = true; t.pos = 0; t.limit = limit;
        bool complete = true;
        try { body(); } catch (Exhausted &) { complete = false; } catch (...) { t.on = false; throw; }
        t.on = false;
        complete ? ++done : ++cut;
        t.pick.resize(t.pos); t.bound.resize(t.pos);
        while (t.pick.size() > prefix.size() && t.pick.back() + 1 >= t.bound.back()) { t.pick.pop_back(); t.bound.pop_back(); }
        if (t.pick.size() <= prefix.size()) break;
        ++t.pick.back();
    }
    return {done, cut};
}
}  // namespace choice
#ifdef CHOICE_MAIN
namespace NTL { long RandomBnd(long n) { return choice::draw(n); } }
#endif
#endif
