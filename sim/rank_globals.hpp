// Every simulated rank (task group) has its own copy of the writable data of the shared
// objects whose path contains a given text: what would be one process per rank.
#ifndef VERIF_RANK_GLOBALS_HPP
#define VERIF_RANK_GLOBALS_HPP
namespace sim {
// At the start of a run, in root: groups 0..n-1 get a copy of the data as it is now.
void rank_globals(const char* object, int n);
}
#endif
