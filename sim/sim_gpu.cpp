// Memory model and barrier of the simulated GPU. Not instrumented.
#include "sim_internal.hpp"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>

namespace simgpu {
struct Config { int concurrency = 8; int residency = 4; bool shuffle_league = false; bool weak_memory = false; bool async = false; };
struct TeamState {
  int league_rank, league_size, team_size, group;
  int arrived = 0; unsigned long epoch = 0; int exited = 0;
  std::vector<void*> slots; std::vector<char> bcast;
};
Config g_cfg;
Config& config() { return g_cfg; }
struct Kernel { std::function<void(size_t)> element; std::vector<size_t> order; size_t next = 0, done = 0; };
std::vector<std::shared_ptr<Kernel>>& stream() { static std::vector<std::shared_ptr<Kernel>> s; return s; }

namespace {
int next_group = 0;
struct Word { unsigned char val[8]; unsigned char mask; };   // val: the other version of the masked bytes
struct Buf { std::map<uintptr_t, Word> w; };                  // ordered: deterministic iteration (fixed layout)
std::map<int, Buf> bufs;
int active = -1;
bool on = false;

void swap_words(Buf& b) {
  for (auto& kv : b.w) { auto* m = (unsigned char*)kv.first; for (int i = 0; i < 8; ++i) if (kv.second.mask & (1 << i)) std::swap(m[i], kv.second.val[i]); }
}
void deactivate() {
  if (active < 0) return;
  Buf& b = bufs[active];
  // decide what the memory system drains now: 0 = everything
  uint32_t r = b.w.empty() ? 0 : sim::draw(sim::FAULT, 4);
  if (r == 0 || b.w.empty()) b.w.clear();
  else {
    sim::fault_count("gpu-store-delayed");
    if (r != 1) { uint64_t s = sim::draw(sim::FAULT, 1u << 16) * 0x9e3779b97f4a7c15ull + 1;
      for (auto it = b.w.begin(); it != b.w.end();) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; if ((s & 3) < r - 1) it = b.w.erase(it); else ++it; } }
    swap_words(b);       // memory now shows what others see; val holds the team's own values
  }
  active = -1;
}
void activate(int g) { active = g; auto it = bufs.find(g); if (it != bufs.end()) swap_words(it->second); }
void on_in(int, int group) {
  if (!on || group == active) return;
  deactivate();
  // background draining of teams that are not running
  if (group >= 0) activate(group);
}
void on_write(void* p, size_t n) {
  if (!on || sim::detail::g_nopreempt || active < 0 || !sim::in_task() || sim::self_group() != active) return;
  // not the stack of the task
  char here; uintptr_t a = uintptr_t(p), sp = uintptr_t(&here);
  if (a + 4096 > sp - 65536 && a < sp + 1024 * 1024) return;
  Buf& b = bufs[active];
  for (size_t i = 0; i < n; ++i) {
    uintptr_t q = a + i, w = q & ~uintptr_t(7); int k = int(q & 7);
    Word& e = b.w[w];
    if (!(e.mask & (1 << k))) { e.mask = (unsigned char)(e.mask | (1 << k)); e.val[k] = *(unsigned char*)q; }
  }
}
void on_fence() { if (on && active >= 0 && sim::self_group() == active) bufs[active].w.clear(); }
void on_atomic(void* p, size_t n, bool) {
  if (!on || active < 0 || sim::self_group() != active) return;
  uintptr_t a = uintptr_t(p) & ~uintptr_t(7);
  bufs[active].w.erase(a); if (((uintptr_t(p) + n - 1) & ~uintptr_t(7)) != a) bufs[active].w.erase(a + 8);
}
}

int new_group() { return next_group++; }
void memory_begin() {
  next_group = 0; stream().clear(); bufs.clear(); active = -1; on = false;
  sim::switch_in_hook = on_in; sim::write_hook = on_write; sim::fence_hook = on_fence; sim::atomic_hook = on_atomic;
}
void kernel_begin() { on = g_cfg.weak_memory; bufs.clear(); active = -1; }
void kernel_end() {
  if (!on) return;
  deactivate();
  for (auto& kv : bufs) swap_words(kv.second);
  bufs.clear(); on = false; active = -1;
}
void team_barrier(TeamState& t) {
  if (t.team_size == 1) return;
  unsigned long e = t.epoch;
  if (++t.arrived == t.team_size) { t.arrived = 0; ++t.epoch; sim::detail::access(); return; }
  sim::block_until([&t, e] { return t.epoch != e; }, "team barrier");
}
}
