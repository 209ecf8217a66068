// Harness side of the in-process MPI.
#pragma once
#include "mpi.h"
#include "../src/pbt.hpp"
#include <functional>
#include <vector>
namespace mpi {
struct Stats { uint64_t msgs = 0, bytes = 0, switches = 0, rendezvous = 0, colls = 0; };
// Start a world of n ranks; comms may then be made, then run.
void begin(pbt::Src& s, int n, bool simple = false);
MPI_Comm make_comm(const std::vector<int>& world_ranks);  // rank i of the comm is world_ranks[i]
// Runs body(world rank) on every rank. Throws pbt::Failure when MPI is misused,
// ranks deadlock, or a body fails.
void run(const std::function<void(int)>& body);
const Stats& stats();
int me();           // world rank of the calling thread
// a point where the harness lets other ranks run
void breathe();
}
