#ifndef FAKEMPI_HPP
#define FAKEMPI_HPP
#include <functional>
#include <vector>
#include "mc.hpp"
namespace fakempi {
enum Policy { AllInterleavings, RunToBlock, RunToBlockReverse, RoundRobin };   // which schedules run() explores
struct Options { int ranks = 1; Policy policy = RunToBlock; bool rendezvous = false; int reorder = 0; bool prune = true; };  // reorder: 0 identity, 1 reversed, 2 rotated by one
int me();                                   // rank of the running fiber in the world
// runs body(rank) on every rank until all have returned; a deadlock, a mismatched operation, a truncated
// message or an unreceived message is reported as a violation, like a failed MC_REQUIRE inside a rank.
void run(const Options &o, std::function<void(int)> body);
extern std::string unreleased;             // MPI objects that the ranks of the last run() did not release
void note(uint64_t h);                      // adds an observation of the running rank to its history (state hash)
}
#endif
