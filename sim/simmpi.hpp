#ifndef VERIF_SIMMPI_HPP
#define VERIF_SIMMPI_HPP
#include <mpi.h>
#include <functional>
#include <vector>
#include <string>
#include "sim.hpp"
namespace simmpi {
struct Config {
    // transport of a message: weights for eager / deferred copy / rendezvous
    int transport = 0;        // 0 eager, 1 deferred, 2 rendezvous, 3 mixed
    int recv_copy = 0;        // 0 copy when matched, 1 copy at completion call, 2 mixed
    int coll_leave = 0;       // 0 collectives synchronise, 1 leave as early as allowed, 2 mixed
    bool truncate_is_violation = true;
    bool mismatch_is_violation = true;
    bool strict_end = true;   // unreceived messages / live requests at the end are violations
    bool yield_every_call = true;
    // fault: the k-th MPI call on rank `fault_rank` fails (counted over communication calls)
    int  fault_rank = -1; long fault_at = -1; bool fault_after_effect = false;
    int  fault_code = MPI_ERR_OTHER;
};
extern Config cfg;
void draw_transport();
extern int TAG_UB;                 // draws transport/recv_copy/coll_leave
struct FaultInfo { bool fired = false; int rank = -1; std::string call; };
extern FaultInfo fault;
// spawn `n` world ranks running fn(rank); run until they end
void run_ranks(int n, const std::function<void(int)> &fn);
// communicators made by the harness: group[i] = world rank of comm rank i
MPI_Comm make_comm(const std::vector<int> &group);
void reset();
size_t live_requests();
size_t undelivered();
std::string dump();
uint64_t messages();
long calls_of_rank(int world_rank);
MPI_Errhandler errhandler_of(MPI_Comm c, int world_rank);
int live_errhandlers();
int live_types();
} // namespace simmpi
#endif
