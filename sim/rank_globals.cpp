#include "rank_globals.hpp"
#include "sim_internal.hpp"
#include <cstring>
#include <link.h>
#include <vector>
// data of the executable that ranks have copies of too (see sim/catch_ranks.ld)
extern "C" char sim_rank_lo[] __attribute__((weak)), sim_rank_hi[] __attribute__((weak));
namespace sim {
namespace {
struct Range { char* p; size_t n; };
struct Find { const char* name; std::vector<Range> r; };
std::vector<Range> ranges;
std::vector<std::vector<char>> images;      // 0: root, g+1: group g
size_t owner = 0;
int visit(struct dl_phdr_info* i, size_t, void* d) {
  Find* f = (Find*)d;
  if (!i->dlpi_name || !strstr(i->dlpi_name, f->name)) return 0;
  uintptr_t rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = rlo + i->dlpi_phdr[k].p_memsz; }
  rhi = (rhi + 4095) & ~uintptr_t(4095);
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    auto& h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
    if (rlo >= (lo & ~uintptr_t(4095)) && rlo < hi && rhi > lo) lo = rhi;
    if (lo < hi) f->r.push_back({(char*)lo, hi - lo});
  }
  return 0;
}
void save(size_t k) { char* d = images[k].data(); for (auto& r : ranges) { memcpy(d, r.p, r.n); d += r.n; } }
void load(size_t k) { const char* d = images[k].data(); for (auto& r : ranges) { memcpy(r.p, d, r.n); d += r.n; } }
void to(size_t k) { if (k >= images.size()) k = 0; if (k == owner) return; save(owner); load(k); owner = k; }
void in(int, int group) { to(size_t(group + 1)); }
void out(int, int) { to(0); }
}
void rank_globals(const char* object, int n) {
  Find f{object, {}}; dl_iterate_phdr(visit, &f); ranges = f.r; if (sim_rank_lo && sim_rank_hi > sim_rank_lo) ranges.push_back({sim_rank_lo, size_t(sim_rank_hi - sim_rank_lo)});
  size_t t = 0; for (auto& r : ranges) t += r.n;
  if (!t) harness_error("no writable data found in an object named like %s", object);
  images.assign(size_t(n) + 1, std::vector<char>(t)); owner = 0;
  for (size_t k = 0; k < images.size(); ++k) save(k);
  switch_in_hook = in; switch_out_hook = out;
}
}
