// Interface of the controlled OpenMP runtime (sched_rt.cc): virtual threads are real threads that run one at a time;
// at every synchronisation operation the runtime decides who runs next and follows a list of deviations.
#ifndef VERIF_OMPSCHED_H
#define VERIF_OMPSCHED_H
#include <string>
#include <vector>
#include <utility>
#include <cstdint>
namespace sched {
enum Policy { ROUND_ROBIN, RUN_TO_BLOCK };
struct Options {
    int threads = 1;          // initial size of teams
    Policy policy = ROUND_ROBIN;
    int focus = -1;           // only this parallel region offers choices and is watched for races; -1: every region
    bool races = true;
    std::vector<std::pair<uint32_t, uint8_t>> dev;  // (choice point, alternative), in increasing order
};
struct Result {
    std::vector<uint8_t> alts;          // number of alternatives at every choice point
    int regions = 0;                    // parallel regions with a team of more than one thread
    int maxteam = 0;                    // largest team
    uint64_t iterations = 0, criticals = 0, accesses = 0;
    std::vector<std::string> races;
    bool overflow = false;              // a region touched more memory than the detector remembers
};
void begin(const Options &o);
Result end();
}
#endif
