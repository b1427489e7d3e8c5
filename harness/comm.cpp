// Comm over the simulated MPI library: the ranks are simulated tasks.
#include "ekat_comm.hpp"
#include "../sim/sim.hpp"
#include "../sim/rank_globals.hpp"
#ifdef EKAT_ENABLE_MPI
#include "../sim/sim_mpi.hpp"
#endif
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace {
enum Kind { BCAST, SCAN, ALLREDUCE, ALLGATHER, BARRIER, QUERY, COPY, RESET, SPLIT, RAW, SELFOP, BADARG };
const char* kn[] = {"broadcast", "scan", "all_reduce", "all_gather", "barrier", "query", "copy", "reset", "split", "raw split", "self op", "wrong argument"};
enum Type { CHAR, SHORT, INT, LONG, LLONG, FLOAT, DOUBLE, BOOL, NTYPES };
const char* tn[] = {"char", "short", "int", "long", "long long", "float", "double", "bool"};
struct Step { int kind, group, type, op, count, root, slot; bool in_place, ret; std::vector<int> color, key; std::vector<int> made; };
struct Group { std::vector<int> members; };
struct Plan { int n; std::vector<Group> groups; std::vector<Step> steps; uint64_t seed; std::vector<int> entered; std::vector<char> may_abort; };
Plan* P = nullptr;                       // same pointer in every rank's copy
const std::vector<std::pair<MPI_Op, const char*>>& ops() {
  static const std::vector<std::pair<MPI_Op, const char*>> o = {{MPI_SUM, "sum"}, {MPI_MAX, "max"}, {MPI_MIN, "min"}, {MPI_PROD, "prod"}, {MPI_LAND, "land"}, {MPI_LOR, "lor"}, {MPI_LXOR, "lxor"}, {MPI_BAND, "band"}, {MPI_BOR, "bor"}, {MPI_BXOR, "bxor"}};
  return o;
}
struct RankCtx { int w; std::map<int, std::vector<ekat::Comm>> comms; };

// ------------------------------------------------------------------ values and model
template <class T> T value(int step, int pos, int i, int op) {
  uint64_t h = sim::mix(sim::mix(sim::mix(P->seed, uint64_t(step)), uint64_t(pos)), uint64_t(i));
  if (std::is_same<T, bool>::value) return T(h & 1);
  if (op == 3) return T(int(h % 5) - 2);                        // product
  if (std::is_floating_point<T>::value) {
    if (op == 0) return T(double(int64_t(h % (sizeof(T) == 4 ? 1u << 19 : 1ull << 40)) - (sizeof(T) == 4 ? 1 << 18 : 1ll << 39)));
    return T((double(h >> 11) / 9007199254740992.0 - 0.5) * 1e6);
  }
  if (op == 4 || op == 5 || op == 6) return T(h % 3 == 0 ? 0 : int(h % 100));
  const uint64_t span = sizeof(T) == 1 ? 256 : sizeof(T) == 2 ? 8000 : sizeof(T) == 4 ? 1u << 28 : 1ull << 58;
  return T(int64_t(h % span) - int64_t(span / 2));
}
template <class T> struct Bits { static T f(int op, T a, T b) {
  switch (op) {
    case 0: return T(a + b); case 1: return a > b ? a : b; case 2: return a < b ? a : b; case 3: return T(a * b);
    case 4: return T(a && b); case 5: return T(a || b); case 6: return T(!a != !b);
    case 7: return T(a & b); case 8: return T(a | b); default: return T(a ^ b);
  } } };
template <class T> struct Flo { static T f(int op, T a, T b) {
  switch (op) { case 0: return a + b; case 1: return a > b ? a : b; case 2: return a < b ? a : b; default: return a * b; } } };
template <> struct Bits<float> : Flo<float> {};
template <> struct Bits<double> : Flo<double> {};

// a buffer between guard zones
template <class T> struct Buf {
  static constexpr size_t G = 64;
  std::vector<unsigned char> raw; size_t n;
  explicit Buf(size_t count) : raw(2 * G + count * sizeof(T) + 16), n(count) { memset(raw.data(), 0x5a, raw.size()); if (n) memset(raw.data() + off(), 0x3c, n * sizeof(T)); }
  size_t off() const { size_t a = size_t(raw.data()) + G; return G + (16 - a % 16) % 16; }
  T* p() { return (T*)(raw.data() + off()); }
  void check(const char* what) const {
    for (size_t i = 0; i < raw.size(); ++i) if ((i < off() || i >= off() + n * sizeof(T)) && raw[i] != 0x5a) sim::fail("memory-outside", "%s changed memory outside of its buffer, %ld bytes from its start (of %zu)", what, long(i) - long(off()), n * sizeof(T));
  }
};
std::string str(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

template <class T> void collective(const ekat::Comm& c, const Step& s, int si, int pos, int n) {
  const int cnt = s.count, op = s.op;
  const bool gather = s.kind == ALLGATHER;
  char what[160]; snprintf(what, sizeof what, "step %d: %s%s of %d x %s (%s, root %d) on rank %d of %d", si, kn[s.kind], s.in_place ? " in place" : "", cnt, tn[s.type], ops()[size_t(op)].second, s.root, pos, n);
  sim::trace("%s", what);
  Buf<T> out{size_t(cnt) * size_t(gather ? n : 1)}, in{size_t(cnt)};
  for (int i = 0; i < cnt; ++i) { T v = value<T>(si, pos, i, op); in.p()[i] = v; if (s.in_place) out.p()[gather ? pos * cnt + i : i] = v; }
  if (s.kind == BCAST && pos == s.root) for (int i = 0; i < cnt; ++i) out.p()[i] = value<T>(si, pos, i, op);
  const std::vector<unsigned char> in0 = in.raw;
  const MPI_Op mop = ops()[size_t(op)].first;
  T* o = out.p(); const T* a = in.p();
  switch (s.kind) {
    case BCAST: c.broadcast(o, cnt, s.root); break;
    case SCAN: if (s.in_place) c.scan(o, cnt, mop); else c.scan(a, o, cnt, mop); break;
    case ALLREDUCE: if (s.in_place) c.all_reduce(o, cnt, mop); else c.all_reduce(a, o, cnt, mop); break;
    default: if (s.in_place) c.all_gather(o, cnt); else c.all_gather(a, o, cnt); break;
  }
  sim::count("collectives");
  if (in.raw != in0) sim::fail("input-changed", "%s changed the values contributed", what);
  in.check(what); out.check(what);
  auto same = [&](int i, T want) {
    T got; memcpy(&got, o + i, sizeof(T));
    if (memcmp(&got, &want, sizeof(T)) != 0) sim::fail("wrong-value", "%s: element %d is %s instead of %s", what, i, str(double(got)).c_str(), str(double(want)).c_str());
  };
  for (int i = 0; i < cnt; ++i) {
    if (s.kind == BCAST) same(i, value<T>(si, s.root, i, op));
    else if (gather) for (int r = 0; r < n; ++r) same(r * cnt + i, value<T>(si, r, i, op));
    else { T v = value<T>(si, 0, i, op); for (int r = 1; r < (s.kind == SCAN ? pos + 1 : n); ++r) v = Bits<T>::f(op, v, value<T>(si, r, i, op)); if (s.kind != BCAST) same(i, n == 1 ? value<T>(si, 0, i, op) : v); }
  }
}
void typed(const ekat::Comm& c, const Step& s, int si, int pos, int n) {
  switch (s.type) {
    case CHAR: collective<char>(c, s, si, pos, n); break;
    case SHORT: collective<short>(c, s, si, pos, n); break;
    case INT: collective<int>(c, s, si, pos, n); break;
    case LONG: collective<long>(c, s, si, pos, n); break;
    case LLONG: collective<long long>(c, s, si, pos, n); break;
    case FLOAT: collective<float>(c, s, si, pos, n); break;
    case DOUBLE: collective<double>(c, s, si, pos, n); break;
    default: collective<bool>(c, s, si, pos, n); break;
  }
}
void query(const ekat::Comm& c, int pos, int n, const char* what) {
  if (c.size() != n || c.rank() != pos) sim::fail("wrong-rank-or-size", "%s: rank %d of %d reports rank %d of %d", what, pos, n, c.rank(), c.size());
  if (c.root_rank() < 0 || c.root_rank() >= n || c.am_i_root() != (pos == c.root_rank())) sim::fail("wrong-root", "%s: rank %d of %d, root rank %d, am_i_root %d", what, pos, n, c.root_rank(), int(c.am_i_root()));
#ifdef EKAT_ENABLE_MPI
  int r = -1; sim::NoPreempt np; simmpi::NoFaults nf;
  MPI_Comm_rank(c.mpi_comm(), &r);
  if (r != pos) sim::fail("wrong-rank-or-size", "%s: the handle's rank is %d, the communicator reports %d", what, r, pos);
#endif
  sim::count("queries");
}

int position(const Group& g, int w) { for (size_t i = 0; i < g.members.size(); ++i) if (g.members[i] == w) return int(i); return -1; }

#ifdef EKAT_ENABLE_MPI
// Something MPI refuses, from every rank of the group: it must be reported, and the communicator is as good as before.
void bad_argument(ekat::Comm& c, const Step& s, int si, int pos, int n, int w) {
  static const char* what[] = {"broadcast from a root that does not exist", "a negative count", "a null communicator", "split without a colour", "an operation that does not suit the type"};
  const int v = int(s.key[0]); sim::trace("step %d: %s on rank %d of %d", si, what[v], pos, n); simmpi::NoFaults nf;
  double x[4] = {1, 2, 3, 4}, y[4]; int z[4] = {1, 2, 3, 4}; bool threw = false;
  try {
    switch (v) {
      case 0: if (s.in_place) c.broadcast(z, 1, s.root % 2 ? n + s.root : -1 - s.root); else c.broadcast(x, 1, s.root % 2 ? n + s.root : -1 - s.root); break;
      case 1: if (s.root % 3 == 0) c.all_reduce(x, y, -1 - s.root, MPI_SUM); else if (s.root % 3 == 1) c.scan(x, -1 - s.root, MPI_SUM); else c.broadcast(z, -1, 0); break;
      case 2: if (s.in_place) { P->may_abort[size_t(w)] = 1; ekat::Comm d(MPI_COMM_NULL); (void)d; } else c.reset_mpi_comm(MPI_COMM_NULL); break;
      case 3: { ekat::Comm d = c.split(MPI_UNDEFINED); (void)d; break; }
      default: if (s.root % 2) { if (s.in_place) c.all_reduce(x, 4, MPI_BAND); else c.all_reduce(x, y, 4, MPI_BXOR); } else if (s.in_place) c.scan(x, 4, MPI_BOR); else c.scan(x, y, 4, MPI_BAND); break;
    }
  } catch (const std::exception&) { threw = true; }
  simmpi::take_failed(); P->may_abort[size_t(w)] = 0;
  if (!threw) sim::fail("wrong-argument-accepted", "step %d: %s on rank %d of %d was not reported", si, what[v], pos, n);
  query(c, pos, n, "after a call that was refused");
  sim::count("wrong-arguments");
}
#endif

// One step of one rank. Throws what the communicator throws.
void do_step(RankCtx& R, const Step& s, int si) {
  if (s.kind == SELFOP) {
    P->may_abort[size_t(R.w)] = 1; ekat::Comm self; P->may_abort[size_t(R.w)] = 0; query(self, 0, 1, "a default communicator");
    Step t = s; t.kind = s.root % 4; t.root = 0; typed(self, t, si, 0, 1);
    return;
  }
  const Group& g = P->groups[size_t(s.group)];
  const int pos = position(g, R.w), n = int(g.members.size());
  if (pos < 0) return;
  auto& mine = R.comms[s.group];
  const size_t k = size_t(s.slot) % mine.size();
  switch (s.kind) {
    case BARRIER:
      sim::trace("step %d: barrier on rank %d of %d", si, pos, n);
      { sim::NoPreempt np; ++P->entered[size_t(si)]; }
      mine[k].barrier();
      sim::count("barriers");
      if (P->entered[size_t(si)] != n) sim::fail("barrier-left-early", "step %d: rank %d left the barrier when %d of %d ranks had entered it", si, pos, P->entered[size_t(si)], n);
      break;
    case QUERY: query(mine[k], pos, n, "query"); break;
    case COPY: { ekat::Comm c(mine[k]); query(c, pos, n, "copy"); if (s.in_place) mine.push_back(c); else { P->may_abort[size_t(R.w)] = 1; mine.emplace_back(MPI_COMM_SELF); P->may_abort[size_t(R.w)] = 0; mine.back() = c; } if (mine.size() > 4) mine.erase(mine.begin()); break; }
    case RESET: {          // another communicator object is made to refer to this group
      MPI_Comm h = mine[k].mpi_comm();
#ifndef EKAT_ENABLE_MPI
      h = MPI_COMM_SELF;
#endif
      auto other = R.comms.begin(); std::advance(other, s.root % int(R.comms.size()));
      ekat::Comm c(other->second[size_t(s.slot) % other->second.size()]);
      c.reset_mpi_comm(h); query(c, pos, n, "reset"); mine.push_back(c); if (mine.size() > 4) mine.erase(mine.begin());
      break;
    }
    case SPLIT: {
      const int gi = s.made[size_t(pos)]; const Group& ng = P->groups[size_t(gi)];
      sim::trace("step %d: split on rank %d of %d with colour %d", si, pos, n, s.color[size_t(pos)]);
      ekat::Comm c = mine[k].split(s.color[size_t(pos)]);
      query(c, position(ng, R.w), int(ng.members.size()), "split");
      sim::count("splits");
#ifdef EKAT_ENABLE_MPI
      if (simmpi::same(c.mpi_comm(), mine[k].mpi_comm())) sim::fail("split-not-new", "the communicator made by a split is the one it was made from");
      if (simmpi::members(c.mpi_comm()) != ng.members) sim::fail("split-members", "the communicator made by a split does not consist of the ranks with the same colour in order of rank");
#endif
      R.comms[gi].push_back(c);
      break;
    }
    case RAW: {
      const int gi = s.made[size_t(pos)]; const Group& ng = P->groups[size_t(gi)];
#ifdef EKAT_ENABLE_MPI
      MPI_Comm h; { simmpi::NoFaults nf; if (MPI_Comm_split(mine[k].mpi_comm(), s.color[size_t(pos)], s.key[size_t(pos)], &h) != MPI_SUCCESS) throw std::runtime_error("the harness's own split failed"); if (s.ret) MPI_Comm_set_errhandler(h, MPI_ERRORS_RETURN); }
#else
      MPI_Comm h = MPI_COMM_SELF;
#endif
      P->may_abort[size_t(R.w)] = 1; ekat::Comm c(h); P->may_abort[size_t(R.w)] = 0;
      query(c, position(ng, R.w), int(ng.members.size()), "construction from an MPI communicator");
      R.comms[gi].push_back(c);
      break;
    }
#ifdef EKAT_ENABLE_MPI
    case BADARG: bad_argument(mine[k], s, si, pos, n, R.w); break;
#endif
    default: typed(mine[k], s, si, pos, n);
  }
}

struct Mix { int collectives, barriers, queries, structure, self; bool faults; int maxsteps; int bad = 0; };

void make_plan(Plan& p, const Mix& m) {
#ifdef EKAT_ENABLE_MPI
  p.n = sim::op(100) == 99 ? sim::op_range(9, 24) : sim::op_range(1, sim::op(4) == 3 ? 8 : 4);
#else
  p.n = 1;
#endif
  p.seed = sim::op64();
  Group w; for (int i = 0; i < p.n; ++i) w.members.push_back(i);
  p.groups.push_back(w);
  const int ns = sim::op_range(1, p.n > 8 && m.maxsteps > 6 ? 6 : m.maxsteps); int large = 0;
  const int tot = m.collectives + m.barriers + m.queries + m.structure + m.self + m.bad;
  for (int i = 0; i < ns; ++i) {
    Step s{}; int x = int(sim::op(uint32_t(tot)));
    if ((x -= m.collectives) < 0) s.kind = int(sim::op(4));
    else if ((x -= m.barriers) < 0) s.kind = BARRIER;
    else if ((x -= m.queries) < 0) s.kind = QUERY;
    else if ((x -= m.structure) < 0) { static const int k[] = {SPLIT, SPLIT, COPY, RESET, RAW}; s.kind = k[sim::op(5)]; }
    else if ((x -= m.self) < 0) s.kind = SELFOP;
    else s.kind = BADARG;
    s.group = int(sim::op(uint32_t(p.groups.size())));
    const Group g = p.groups[size_t(s.group)]; const int n = int(g.members.size());
    s.type = int(sim::op(NTYPES));
    const bool reduces = s.kind == SCAN || s.kind == ALLREDUCE || s.kind == SELFOP;
    if (reduces && s.type == CHAR) s.type = INT;           // MPI has no reductions of characters
    s.op = s.type == BOOL ? 4 + int(sim::op(3)) : (s.type == FLOAT || s.type == DOUBLE) ? int(sim::op(4)) : int(sim::op(10));
    s.count = p.n <= 8 && sim::op(400) == 399 && !large++ ? sim::op_range(100, sim::op(4) == 3 ? 70000 / p.n : 3000) : sim::op(5) == 4 ? int(sim::op(60)) : sim::op_range(0, 5);
    s.root = int(sim::op(uint32_t(s.kind == SELFOP || s.kind == RESET || s.kind == BADARG ? 8 : n))); s.slot = int(sim::op(12)); s.in_place = sim::op(2); s.ret = sim::op(2);
    if (s.kind == BADARG) s.key.push_back(int(sim::op(5)));
    if (s.kind == SPLIT || s.kind == RAW) {
      const uint32_t nc = 1 + sim::op(3); const int style = int(sim::op(3));
      std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> by;
      for (int r = 0; r < n; ++r) {
        int c = int(sim::op(nc)); if (style == 1) c = c * 1000003; if (style == 2) c = 0x7fffffff - c;
        s.color.push_back(c); s.key.push_back(s.kind == RAW ? int(sim::op(5)) : 0);
        by[c].push_back({{s.key.back(), r}, g.members[size_t(r)]});
      }
      s.made.assign(size_t(n), -1);
      for (auto& kv : by) {
        std::sort(kv.second.begin(), kv.second.end());
        Group ng; for (auto& e : kv.second) { ng.members.push_back(e.second); s.made[size_t(e.first.second)] = int(p.groups.size()); }
        p.groups.push_back(ng);
      }
    }
    p.steps.push_back(s);
  }
  p.entered.assign(p.steps.size(), 0); p.may_abort.assign(size_t(p.n), 0);
}

void rank_body(int r, const Mix& m) {
  RankCtx R; R.w = r; int si = -1;
#ifdef EKAT_ENABLE_MPI
  simmpi::set_rank(r);
  auto leave = [&] { simmpi::dead(r); };
  try {
    P->may_abort[size_t(r)] = 1; R.comms[0].emplace_back(MPI_COMM_WORLD); P->may_abort[size_t(r)] = 0;
    if (simmpi::take_failed()) sim::fail("failure-swallowed", "a call that failed while a communicator was made raised no error");
    for (si = 0; si < int(P->steps.size()); ++si) {
      if (m.faults && sim::fault("rank-crashes", 1, 150)) { leave(); return; }
      sim::yield();
      do_step(R, P->steps[size_t(si)], si);
      if (simmpi::take_failed()) sim::fail("failure-swallowed", "step %d: %s on rank %d returned normally although an MPI call in it failed", si, kn[P->steps[size_t(si)].kind], r);
    }
  } catch (const std::exception& e) {
    if (!simmpi::take_failed()) sim::fail("spurious-error", "step %d: %s on rank %d raised an error although no MPI call failed: %.300s", si, si < 0 ? "construction" : kn[P->steps[size_t(si)].kind], r, e.what());
    sim::trace("rank %d: error raised: %.60s", r, e.what());
    sim::count("errors-raised"); leave();
  }
#else
  R.comms[0].emplace_back(MPI_COMM_WORLD);
  for (si = 0; si < int(P->steps.size()); ++si) do_step(R, P->steps[size_t(si)], si);
#endif
}

void run(const Mix& m) {
  auto* plan = new Plan; make_plan(*plan, m); P = plan;
#ifdef EKAT_ENABLE_MPI
  simmpi::Config c; c.nranks = plan->n; c.synchronising = sim::op(3) == 2;
  if (m.faults) { c.fail_num = 1; c.fail_den = 20 + sim::draw(sim::FAULT, 150); }
  simmpi::begin(c);
  if (m.faults) simmpi::on_mpi_abort = [](int r, const std::string& why) {
#ifndef EKAT_MPI_ERRORS_ARE_FATAL
    // until a communicator has been wrapped, its errors are whatever it was made with; afterwards they are returned
    if (!P->may_abort[size_t(r)]) sim::fail("abort-instead-of-error", "errors of MPI are not fatal in this build, yet rank %d was stopped: %s", r, why.c_str());
#endif
    (void)r; (void)why; sim::count("jobs-aborted"); sim::finish_run();
  };
#endif
  sim::rank_globals("_ranks.so", plan->n);
  for (int r = 0; r < plan->n; ++r) sim::spawn("rank", [=] { rank_body(r, m); }, r);
  sim::join_all();
  delete plan; P = nullptr;
}
void c12() { run({10, 2, 1, 3, 1, false, 30}); }
void c13() { run({4, 1, 4, 10, 1, false, 30}); }
void c14() { run({8, 2, 1, 4, 2, true, 25, 1}); }
const char* REAL =
#ifdef EKAT_ENABLE_MPI
  "ekat::Comm (MPI build)";
#else
  "ekat::Comm (serial build)";
#endif
const char* STUB = "MPI library (simulated: one task with its own copy of the globals per rank)";
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"comm", 1, nullptr, nullptr, {{"C12", c12, REAL, STUB}, {"C13", c13, REAL, STUB}
#ifdef EKAT_ENABLE_MPI
  , {"C14", c14, REAL, STUB}
#endif
}};
