// A simulated GPU execution space for Kokkos 3.7: every team is a set of simulated
// tasks, many teams are resident at once, writes of a team become visible to other
// teams only after a fence, an atomic access, or when the (seeded) memory system
// drains them. Plugged in EKAT through the hook EKAT_SIM_GPU_SPACE.
#ifndef VERIF_SIM_GPU_SPACE_HPP
#define VERIF_SIM_GPU_SPACE_HPP

#include <Kokkos_Core.hpp>
#include <algorithm>
#include <cstring>
#include <memory>
#include <vector>
#include "sim.hpp"

namespace Kokkos { using Serial = OpenMP; }     // named, never used, by EKAT's GPU code

namespace simgpu {

struct Config { int concurrency = 8; int residency = 4; bool shuffle_league = false; bool weak_memory = false; bool async = false; };
Config& config();
// memory model (sim_gpu.cpp)
void memory_begin();            // per run
void kernel_begin();
void kernel_end();              // everything becomes visible

struct TeamState {
  int league_rank, league_size, team_size, group;
  int arrived = 0; unsigned long epoch = 0; int exited = 0;
  std::vector<void*> slots; std::vector<char> bcast;
};
void team_barrier(TeamState& t);
int  new_group();

class SimGpu {
 public:
  using execution_space = SimGpu;
  using memory_space    = Kokkos::HostSpace;
  using device_type     = Kokkos::Device<execution_space, memory_space>;
  using array_layout    = Kokkos::LayoutRight;
  using size_type       = memory_space::size_type;
  using scratch_memory_space = Kokkos::ScratchMemorySpace<SimGpu>;
  static int concurrency() { return config().concurrency; }
  static const char* name() { return "SimGpu"; }
  static bool impl_is_initialized() noexcept { return true; }
  void print_configuration(std::ostream&, bool = false) const {}
  static bool in_parallel(SimGpu const& = SimGpu()) { return sim::in_task(); }
  static void impl_static_fence(const std::string&) {}
  void fence(const std::string& = "") const;
  static int impl_hardware_thread_id() { return 0; }
  uint32_t impl_instance_id() const noexcept { return 1; }
};

class Member {
 public:
  using execution_space = SimGpu;
  using scratch_memory_space = SimGpu::scratch_memory_space;
  using team_handle = Member;
  Member(TeamState* t, int r) : m_t(t), m_rank(r) {}
  int team_rank() const { return m_rank; }
  int team_size() const { return m_t->team_size; }
  int league_rank() const { return m_t->league_rank; }
  int league_size() const { return m_t->league_size; }
  void team_barrier() const { simgpu::team_barrier(*m_t); }
  template <class T> void team_broadcast(T& value, int src) const {
    auto& t = *m_t; team_barrier();
    if (m_rank == src) { sim::NoPreempt np; t.slots[0] = &value; }
    team_barrier();
    if (m_rank != src) { sim::NoPreempt np; value = *static_cast<T*>(t.slots[0]); }
    team_barrier();
  }
  template <class F, class T> void team_broadcast(F const& f, T& value, int src) const {
    if (m_rank == src) f(value);
    team_broadcast(value, src);
  }
  template <class Reducer> std::enable_if_t<Kokkos::is_reducer<Reducer>::value> team_reduce(Reducer const& red) const { team_reduce(red, red.reference()); }
  template <class Reducer> std::enable_if_t<Kokkos::is_reducer<Reducer>::value> team_reduce(Reducer const& red, typename Reducer::value_type& mine) const {
    using V = typename Reducer::value_type;
    auto& t = *m_t; team_barrier();
    { sim::NoPreempt np; t.slots[size_t(m_rank)] = &mine; }
    team_barrier();
    V res;
    {
      sim::NoPreempt np;
      // every member computes the same combination, in the order of the hardware tree
      const int n = t.team_size; 
      std::vector<V> v; for (int i = 0; i < n; ++i) v.push_back(*static_cast<V*>(t.slots[size_t(i)]));
      for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) red.join(v[size_t(i)], v[size_t(i + w)]);
      res = v[0];
    }
    team_barrier();
    { sim::NoPreempt np; mine = res; red.reference() = res; }
  }
  template <class T> T team_scan(T const& value, T* const global = nullptr) const {
    if (global) sim::harness_error("team_scan with a global accumulator is not simulated");
    auto& t = *m_t; T mine = value; team_barrier();
    { sim::NoPreempt np; t.slots[size_t(m_rank)] = &mine; }
    team_barrier();
    T r = T(); { sim::NoPreempt np; for (int i = 0; i < m_rank; ++i) r += *static_cast<T*>(t.slots[size_t(i)]); }
    team_barrier();
    return r;
  }
 private:
  TeamState* m_t; int m_rank;
};

// Kernels of the one stream, when they run after their launch has returned: in order, the elements of one in any order.
struct Kernel { std::function<void(size_t)> element; std::vector<size_t> order; size_t next = 0, done = 0; };
std::vector<std::shared_ptr<Kernel>>& stream();
inline void stream_task() {
  for (;;) {
    std::shared_ptr<Kernel> k; size_t n; int helpers;
    std::function<void()> work;
    {
      sim::NoPreempt np; k = stream().front(); n = k->order.size(); helpers = n > 1 ? int(sim::draw(sim::SCHED, 3)) : 0;
      work = [k, n] { for (;;) { size_t i; { sim::NoPreempt np2; if (k->next >= n) return; i = k->order[k->next++]; } k->element(i); sim::NoPreempt np2; ++k->done; } };
    }
    for (int h = 0; h < helpers; ++h) sim::spawn("gpu", work);
    work(); Kernel* q = k.get(); sim::block_until([q, n] { return q->done == n; }, "kernel completion");
    sim::yield();
    // one task serves the stream: whoever finds it empty starts the next
    sim::NoPreempt np; stream().erase(stream().begin()); if (stream().empty()) return;
  }
}
inline void launch(size_t n, std::function<void(size_t)> element) {
  if (!config().async || !sim::running()) { for (size_t i = 0; i < n; ++i) element(i); return; }
  bool idle;
  {
    sim::NoPreempt np; auto k = std::make_shared<Kernel>(); k->element = std::move(element);
    k->order.resize(n); for (size_t i = 0; i < n; ++i) k->order[i] = i;
    if (n > 1) switch (sim::draw(sim::SCHED, 3)) { case 0: break; case 1: std::reverse(k->order.begin(), k->order.end()); break; default: for (size_t i = n - 1; i > 0; --i) std::swap(k->order[i], k->order[sim::draw(sim::SCHED, uint32_t(i + 1))]); }
    idle = stream().empty(); stream().push_back(k);
  }
  sim::fault_count("kernel-deferred");
  if (idle) sim::spawn("stream", stream_task);
}
inline void SimGpu::fence(const std::string&) const { if (config().async && sim::running()) sim::block_until([] { return stream().empty(); }, "fence"); }

// Run a league of teams; body(Member) is the kernel.
template <class Body>
void run_league(int league, int team_size, const Body& body) {
  if (league <= 0) return;
  std::vector<int> order(size_t(league), 0); for (int i = 0; i < league; ++i) order[size_t(i)] = i;
  if (!sim::running()) {
    if (team_size != 1) sim::harness_error("multi-thread team outside a run");
    for (int l : order) { TeamState t{l, league, 1, -1}; t.slots.resize(1); body(Member(&t, 0)); }
    return;
  }
  if (config().shuffle_league) for (int i = league - 1; i > 0; --i) std::swap(order[size_t(i)], order[size_t(i) - sim::draw(sim::SCHED, uint32_t(i + 1))]);
  kernel_begin();
  struct Launch { std::vector<std::unique_ptr<TeamState>> teams; size_t next = 0; std::vector<int>* order; int done = 0; };
  Launch L; L.order = &order;
  std::function<void()> start = [&] {
    sim::NoPreempt np;
    if (L.next >= order.size()) return;
    auto t = std::make_unique<TeamState>(); t->league_rank = order[L.next++]; t->league_size = league; t->team_size = team_size; t->group = new_group(); t->slots.resize(size_t(team_size));
    TeamState* tp = t.get(); L.teams.push_back(std::move(t));
    for (int r = 0; r < team_size; ++r)
      sim::spawn("gpu", [&, tp, r] {
        body(Member(tp, r));
        sim::NoPreempt np2;
        if (++tp->exited == tp->team_size) { ++L.done; start(); }
      }, tp->group);
  };
  int res = std::max(1, std::min(config().residency, league));
  for (int i = 0; i < res; ++i) start();
  sim::block_until([&] { return L.done == league; }, "kernel completion");
  sim::join_all();
  kernel_end();
}

} // namespace simgpu

namespace Kokkos {
namespace Tools { namespace Experimental {
template <> struct DeviceTypeTraits<simgpu::SimGpu> { static constexpr DeviceType id = DeviceType::Unknown; static int device_id(const simgpu::SimGpu&) { return 0; } };
}}
namespace Impl {
template <> struct is_thread_team_member<simgpu::Member> : public std::true_type {};
template <> struct is_host_thread_team_member<simgpu::Member> : public std::true_type {};

// GPU-like iteration: member r takes r, r+size, r+2*size, ...
template <typename iType>
struct TeamThreadRangeBoundariesStruct<iType, simgpu::Member> {
  using index_type = iType;
  const iType start, end, increment; const simgpu::Member& thread;
  TeamThreadRangeBoundariesStruct(const simgpu::Member& m, const iType& e) : start(iType(m.team_rank())), end(e), increment(iType(m.team_size())), thread(m) {}
  TeamThreadRangeBoundariesStruct(const simgpu::Member& m, const iType& b, const iType& e) : start(b + iType(m.team_rank())), end(e), increment(iType(m.team_size())), thread(m) {}
};

template <class... Properties>
class TeamPolicyInternal<simgpu::SimGpu, Properties...> : public PolicyTraits<Properties...> {
  int m_league = 0, m_team = 1, m_chunk = 1; size_t m_ts[2] = {0, 0}, m_th[2] = {0, 0};
 public:
  using execution_policy = TeamPolicyInternal;
  using traits = PolicyTraits<Properties...>;
  using execution_space = simgpu::SimGpu;
  using member_type = simgpu::Member;
  template <class E, class... O> friend class TeamPolicyInternal;
  const execution_space& space() const { static execution_space s; return s; }
  TeamPolicyInternal() = default;
  template <class... O> TeamPolicyInternal(const TeamPolicyInternal<simgpu::SimGpu, O...>& p) : m_league(p.m_league), m_team(p.m_team), m_chunk(p.m_chunk) {}
  TeamPolicyInternal(const execution_space&, int l, int t, int = 1) : m_league(l), m_team(t) {}
  TeamPolicyInternal(int l, int t, int = 1) : m_league(l), m_team(t) {}
  TeamPolicyInternal(const execution_space&, int l, const AUTO_t&, int = 1) : m_league(l), m_team(4) {}
  TeamPolicyInternal(int l, const AUTO_t&, int = 1) : m_league(l), m_team(4) {}
  template <class F, class Tag> int team_size_max(const F&, const Tag&) const { return 128; }
  template <class F, class Tag> int team_size_recommended(const F&, const Tag&) const { return 32; }
  int impl_vector_length() const { return 1; }
  static int vector_length_max() { return 1; }
  static int scratch_size_max(int) { return 1 << 20; }
  int team_size() const { return m_team; }
  int league_size() const { return m_league; }
  bool impl_auto_team_size() const { return false; }
  bool impl_auto_vector_length() const { return false; }
  void impl_set_team_size(size_t s) { m_team = int(s); }
  void impl_set_vector_length(size_t) {}
  size_t scratch_size(const int& lvl, int = -1) const { return m_ts[lvl] + size_t(m_team) * m_th[lvl]; }
  int chunk_size() const { return m_chunk; }
  TeamPolicyInternal& set_chunk_size(typename traits::index_type c) { m_chunk = int(c); return *this; }
  TeamPolicyInternal& set_scratch_size(const int& l, const PerTeamValue& v) { m_ts[l] = size_t(v.value); return *this; }
  TeamPolicyInternal& set_scratch_size(const int& l, const PerThreadValue& v) { m_th[l] = size_t(v.value); return *this; }
  TeamPolicyInternal& set_scratch_size(const int& l, const PerTeamValue& v, const PerThreadValue& w) { m_ts[l] = size_t(v.value); m_th[l] = size_t(w.value); return *this; }
};

template <class FunctorType, class... Traits>
class ParallelFor<FunctorType, Kokkos::RangePolicy<Traits...>, simgpu::SimGpu> {
  using Policy = Kokkos::RangePolicy<Traits...>; using WorkTag = typename Policy::work_tag;
  const FunctorType m_f; const Policy m_p;
  template <class Tag> std::enable_if_t<std::is_void<Tag>::value> call(typename Policy::index_type i) const { m_f(i); }
  template <class Tag> std::enable_if_t<!std::is_void<Tag>::value> call(typename Policy::index_type i) const { m_f(Tag(), i); }
 public:
  void execute() const {
    if (m_p.begin() >= m_p.end()) return;
    auto self = std::make_shared<ParallelFor>(*this);
    simgpu::launch(size_t(m_p.end() - m_p.begin()), [self](size_t i) { self->template call<WorkTag>(typename Policy::index_type(self->m_p.begin() + typename Policy::index_type(i))); });
  }
  ParallelFor(const FunctorType& f, Policy p) : m_f(f), m_p(p) {}
};

template <class FunctorType, class... Properties>
class ParallelFor<FunctorType, Kokkos::TeamPolicy<Properties...>, simgpu::SimGpu> {
  using Policy = TeamPolicyInternal<simgpu::SimGpu, Properties...>; using WorkTag = typename Policy::work_tag;
  const FunctorType m_f; const Policy m_p;
  template <class Tag> std::enable_if_t<std::is_void<Tag>::value> call(const simgpu::Member& m) const { m_f(m); }
  template <class Tag> std::enable_if_t<!std::is_void<Tag>::value> call(const simgpu::Member& m) const { m_f(Tag(), m); }
 public:
  void execute() const { simgpu::run_league(m_p.league_size(), m_p.team_size(), [&](const simgpu::Member& m) { this->template call<WorkTag>(m); }); }
  ParallelFor(const FunctorType& f, const Policy& p) : m_f(f), m_p(p) {}
};

template <class FunctorType, class... Traits>
class ParallelFor<FunctorType, Kokkos::MDRangePolicy<Traits...>, simgpu::SimGpu> {
  using Policy = Kokkos::MDRangePolicy<Traits...>;
  const FunctorType m_f; const Policy m_p;
  template <size_t... I> void call(size_t flat, std::index_sequence<I...>) const {
    typename Policy::array_index_type x[Policy::rank];
    for (int d = Policy::rank - 1; d >= 0; --d) { const size_t e = size_t(m_p.m_upper[d] - m_p.m_lower[d]); x[d] = m_p.m_lower[d] + typename Policy::array_index_type(flat % e); flat /= e; }
    m_f(x[I]...);
  }
 public:
  void execute() const {
    size_t n = 1; for (int d = 0; d < int(Policy::rank); ++d) n *= m_p.m_upper[d] > m_p.m_lower[d] ? size_t(m_p.m_upper[d] - m_p.m_lower[d]) : 0;
    if (!n) return;
    auto self = std::make_shared<ParallelFor>(*this);
    simgpu::launch(n, [self](size_t i) { self->call(i, std::make_index_sequence<size_t(Policy::rank)>()); });
  }
  ParallelFor(const FunctorType& f, Policy p) : m_f(f), m_p(p) {}
};
} // Impl
} // Kokkos

// The simulated device's memory is host memory, but a mirror of it is a place of its own that holds nothing
// until it is copied to, as on a device whose memory the host cannot reach.
namespace Kokkos {
template <class V, class... R> auto simgpu_create_mirror_view(const V& v, R&&... r) {
  if constexpr (sizeof...(R) == 0 && Kokkos::is_view<V>::value) {
    if constexpr (std::is_same<typename V::execution_space, simgpu::SimGpu>::value) return Kokkos::create_mirror(v);
    else return Kokkos::create_mirror_view(v);
  } else return Kokkos::create_mirror_view(v, std::forward<R>(r)...);
}
}
#define create_mirror_view simgpu_create_mirror_view

#endif
