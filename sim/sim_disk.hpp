// A simulated file system in memory. While a run has it switched on, files with relative
// names live here: opens, reads, writes, renames and closes made through the C library,
// stdio or iostreams may be slow, short or fail, as the simulator decides.
#ifndef VERIF_SIM_DISK_HPP
#define VERIF_SIM_DISK_HPP
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
namespace simdisk {
struct Config {
  uint32_t den = 0;                  // each fault below is offered with probability k/den; 0: no faults
  uint32_t open = 0, write = 0, full = 0, split = 0, slow = 0, read = 0, rename = 0, remove = 0, close = 0;
  int max_open_failures = 1000000;     // in a run
  int max_rename_failures = 1000000;   // in a row
  bool close_loses = false;            // a close that fails may lose the end of what was written (delayed writes, as on NFS)
};
void begin(const Config&);           // per run, in root: an empty disk, switched on
void end();
void heal();                         // no more faults
void set(const Config&);
bool exists(const std::string& name);
std::string content(const std::string& name);
void put(const std::string& name, const std::string& data);
std::vector<std::string> list();
uint64_t size(const std::string& name);
const std::string& data(const std::string& name);
uint64_t ops();                      // operations seen so far (a crash can be put before any of them)
extern void (*before_op)();          // called before every operation, from the task that makes it
uint64_t failed();                   // operations that were made to fail
bool any_open();                     // a file is still open
FILE* stream(const std::string& name);   // an append-only stream that never fails (a console)
struct NoFaults { NoFaults(); ~NoFaults(); };
}
#endif
