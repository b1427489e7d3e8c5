// A simulated MPI library: ranks are simulated tasks of one process. Arrival orders,
// delays and failures are decided by the simulator.
#ifndef VERIF_SIM_MPI_HPP
#define VERIF_SIM_MPI_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <mpi.h>
namespace simmpi {
struct Config {
  int  nranks = 1;
  bool synchronising = false;       // collectives leave no rank early
  uint32_t fail_num = 0, fail_den = 1;   // probability that a call fails
  bool delays = true;
  bool initialized = true;          // MPI_Init was already called
};
void begin(const Config&);          // per run
int  world_rank();                  // of the calling task
void set_rank(int r);               // in a task: which rank it plays
void dead(int r);                   // rank r left the program
bool take_failed();                 // did a call of this rank report or suffer failure since the last query
int  inits(int r); int finalizes(int r);
uint64_t calls(int r);
// Calls made while one exists are not made to fail (those of the harness itself).
struct NoFaults { NoFaults(); ~NoFaults(); };
bool same(MPI_Comm a, MPI_Comm b);               // same communication context
std::vector<int> members(MPI_Comm c);            // its world ranks, in order
// called when MPI would abort the job; default: a violation
extern std::function<void(int rank, const std::string& why)> on_mpi_abort;
}
#endif
