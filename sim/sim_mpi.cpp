// Simulated MPI. Not instrumented.
#include <mpi.h>
#include "sim_mpi.hpp"
#include "sim_internal.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace simmpi {
std::function<void(int, const std::string&)> on_mpi_abort;
namespace {
Config cfg;
struct Coll {
  int kind = -1; long bytes = 0; MPI_Op op = 0; int root = 0; MPI_Datatype dt = 0;
  int arrived = 0, left = 0; bool failed = false;
  std::vector<char> in; std::vector<std::vector<char>> data; std::vector<int> color, key;
  std::map<int, struct CommObj*> made; bool split_done = false;
};
struct CommObj {
  int id; std::vector<int> members;                    // world ranks
  std::vector<uint64_t> seq; std::vector<MPI_Errhandler> errh; std::map<uint64_t, Coll> colls; std::set<int> freed;
  int local(int w) const { for (size_t i = 0; i < members.size(); ++i) if (members[i] == w) return int(i); return -1; }
};
std::vector<std::unique_ptr<CommObj>> comms;
CommObj* world = nullptr; std::vector<CommObj*> selfs;
std::set<int> gone; std::vector<char> failed_flag; std::vector<int> n_init, n_fini; std::vector<uint64_t> n_calls;
int kind_barrier = 0, kind_bcast = 1, kind_scan = 2, kind_allreduce = 3, kind_allgather = 4, kind_split = 5, kind_reduce = 6, kind_exscan = 7, kind_dup = 8, kind_gather = 9;
const char* kname[] = {"MPI_Barrier", "MPI_Bcast", "MPI_Scan", "MPI_Allreduce", "MPI_Allgather", "MPI_Comm_split", "MPI_Reduce", "MPI_Exscan", "MPI_Comm_dup", "MPI_Gather"};

CommObj* newcomm(std::vector<int> m) {
  comms.emplace_back(new CommObj); auto* c = comms.back().get(); c->id = int(comms.size()) - 1; c->members = std::move(m);
  c->seq.assign(c->members.size(), 0); c->errh.assign(c->members.size(), MPI_ERRORS_ARE_FATAL); return c;
}
CommObj* obj(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return world;
  if (c == MPI_COMM_SELF) return selfs[size_t(world_rank())];
  if (c == MPI_COMM_NULL) return nullptr;
  for (auto& p : comms) if ((void*)p.get() == (void*)c) return p->freed.count(world_rank()) ? nullptr : p.get();
  return nullptr;
}
int error(CommObj* c, int code, const char* what) {
  int w = world_rank(); failed_flag[size_t(w)] = 1;
  MPI_Errhandler h = MPI_ERRORS_ARE_FATAL;
  if (c) { int l = c->local(w); if (l >= 0) h = c->errh[size_t(l)]; } else h = world->errh[size_t(w)];
  sim::trace("rank %d: %s fails with code %d (%s)", w, what, code, h == MPI_ERRORS_RETURN ? "errors return" : "errors are fatal");
  if (h != MPI_ERRORS_RETURN) {
    std::string why = std::string(what) + " failed";
    if (on_mpi_abort) { auto f = on_mpi_abort; f(w, why); }
    sim::fail("mpi-abort", "MPI aborted the job on rank %d: %s (code %d)", w, what, code);
  }
  return code;
}
void enter() { if (!sim::running()) sim::harness_error("MPI called outside a run"); ++n_calls[size_t(world_rank())]; }
std::vector<int> no_faults;
bool inject(const char* what) {
  if (no_faults[size_t(world_rank())]) return false;
  if (cfg.fail_num && sim::fault("mpi-call-fails", cfg.fail_num, cfg.fail_den)) { sim::trace("rank %d: %s is made to fail", world_rank(), what); return true; }
  return false;
}
int dtsize(MPI_Datatype d) {
  if (d == MPI_CHAR || d == MPI_SIGNED_CHAR || d == MPI_UNSIGNED_CHAR || d == MPI_BYTE || d == MPI_CXX_BOOL || d == MPI_C_BOOL || d == MPI_INT8_T || d == MPI_UINT8_T) return 1;
  if (d == MPI_SHORT || d == MPI_UNSIGNED_SHORT || d == MPI_INT16_T || d == MPI_UINT16_T) return 2;
  if (d == MPI_INT || d == MPI_UNSIGNED || d == MPI_FLOAT || d == MPI_INT32_T || d == MPI_UINT32_T) return 4;
  if (d == MPI_LONG || d == MPI_UNSIGNED_LONG || d == MPI_LONG_LONG || d == MPI_UNSIGNED_LONG_LONG || d == MPI_DOUBLE || d == MPI_2INT || d == MPI_INT64_T || d == MPI_UINT64_T) return 8;
  return -1;
}
template <class T, bool I> bool red(MPI_Op op, T* a, const T* b, long n) {
  for (long i = 0; i < n; ++i) {
    if (op == MPI_SUM) a[i] = T(a[i] + b[i]); else if (op == MPI_PROD) a[i] = T(a[i] * b[i]);
    else if (op == MPI_MAX) { if (b[i] > a[i]) a[i] = b[i]; } else if (op == MPI_MIN) { if (b[i] < a[i]) a[i] = b[i]; }
    else if constexpr (I) {
      if (op == MPI_LAND) a[i] = T(a[i] && b[i]); else if (op == MPI_LOR) a[i] = T(a[i] || b[i]); else if (op == MPI_LXOR) a[i] = T(!a[i] != !b[i]);
      else if (op == MPI_BAND) a[i] = T(a[i] & b[i]); else if (op == MPI_BOR) a[i] = T(a[i] | b[i]); else if (op == MPI_BXOR) a[i] = T(a[i] ^ b[i]);
      else return false;
    } else return false;
  }
  return true;
}
// a = a op b
bool combine(MPI_Datatype d, MPI_Op op, char* a, const char* b, long n) {
  if (n == 0) return true;
  if (d == MPI_SHORT || d == MPI_INT16_T) return red<short, true>(op, (short*)a, (const short*)b, n);
  if (d == MPI_UNSIGNED_SHORT || d == MPI_UINT16_T) return red<unsigned short, true>(op, (unsigned short*)a, (const unsigned short*)b, n);
  if (d == MPI_INT || d == MPI_INT32_T) return red<int, true>(op, (int*)a, (const int*)b, n);
  if (d == MPI_UNSIGNED || d == MPI_UINT32_T) return red<unsigned, true>(op, (unsigned*)a, (const unsigned*)b, n);
  if (d == MPI_LONG || d == MPI_LONG_LONG || d == MPI_INT64_T) return red<long, true>(op, (long*)a, (const long*)b, n);
  if (d == MPI_UNSIGNED_LONG || d == MPI_UNSIGNED_LONG_LONG || d == MPI_UINT64_T) return red<unsigned long, true>(op, (unsigned long*)a, (const unsigned long*)b, n);
  if (d == MPI_FLOAT) return red<float, false>(op, (float*)a, (const float*)b, n);
  if (d == MPI_DOUBLE) return red<double, false>(op, (double*)a, (const double*)b, n);
  if (d == MPI_SIGNED_CHAR || d == MPI_INT8_T) return red<signed char, true>(op, (signed char*)a, (const signed char*)b, n);
  if (d == MPI_UNSIGNED_CHAR || d == MPI_UINT8_T) return red<unsigned char, true>(op, (unsigned char*)a, (const unsigned char*)b, n);
  if (d == MPI_CXX_BOOL || d == MPI_C_BOOL) {
    for (long i = 0; i < n; ++i) { bool x = a[i] != 0, y = b[i] != 0; if (op == MPI_LAND) a[i] = x && y; else if (op == MPI_LOR) a[i] = x || y; else if (op == MPI_LXOR) a[i] = x != y; else return false; }
    return true;
  }
  if (d == MPI_2INT) {
    int* x = (int*)a; const int* y = (const int*)b;
    for (long i = 0; i < n; ++i, x += 2, y += 2) {
      if (op == MPI_MAXLOC) { if (y[0] > x[0] || (y[0] == x[0] && y[1] < x[1])) { x[0] = y[0]; x[1] = y[1]; } }
      else if (op == MPI_MINLOC) { if (y[0] < x[0] || (y[0] == x[0] && y[1] < x[1])) { x[0] = y[0]; x[1] = y[1]; } }
      else return false;
    }
    return true;
  }
  return false;         // MPI_CHAR, MPI_BYTE: not for reductions
}
bool op_ok(MPI_Datatype d, MPI_Op op) { alignas(8) char a[16] = {0}, b[16] = {0}; return combine(d, op, a, b, 1); }

int collective(int kind, MPI_Comm mc, const void* send, void* recv, long count, MPI_Datatype dt, MPI_Op op, int root, int color, int key, MPI_Comm* out) {
  enter();
  const char* what = kname[kind];
  CommObj* c; int w, me, n; Coll* co; long bytes = 0; bool in_place = send == MPI_IN_PLACE;
  {
    sim::NoPreempt np;
    w = world_rank(); c = obj(mc);
    if (!c) return error(nullptr, MPI_ERR_COMM, what);
    me = c->local(w); n = int(c->members.size());
    if (me < 0) return error(nullptr, MPI_ERR_COMM, what);
    if (count < 0) return error(c, MPI_ERR_COUNT, what);
    if (dt) { int s = dtsize(dt); if (s < 0) return error(c, MPI_ERR_TYPE, what); bytes = count * s; }
    if (root < 0 || root >= n) return error(c, MPI_ERR_ROOT, what);
    if (op && !op_ok(dt, op)) return error(c, MPI_ERR_OP, what);
    if (!in_place && send && recv && bytes && send == recv) return error(c, MPI_ERR_BUFFER, what);
  }
  if (cfg.delays && sim::fault("mpi-rank-delayed", 1, 12)) sim::sleep_for(sim::draw(sim::FAULT, 100000));
  bool mine_fails = inject(what);
  {
    sim::NoPreempt np;
    const uint64_t s = c->seq[size_t(me)]++;
    co = &c->colls[s];
    sim::note(uint64_t(kind), uint64_t(c->id), s * 64 + uint64_t(me));
    if (co->kind < 0) { co->kind = kind; co->bytes = bytes; co->op = op; co->root = root; co->dt = dt; co->in.assign(size_t(n), 0); co->data.resize(size_t(n)); co->color.assign(size_t(n), 0); co->key.assign(size_t(n), 0); }
    else if (co->kind != kind || co->bytes != bytes || co->op != op || co->root != root || co->dt != dt)
      sim::fail("collective-mismatch", "rank %d calls %s with %ld bytes where another rank of the communicator calls %s with %ld bytes (or another type, operation or root)", w, what, bytes, kname[co->kind], co->bytes);
    if (mine_fails) { co->failed = true; if (recv && bytes) memset(recv, 0x7e, size_t(bytes)); return error(c, MPI_ERR_OTHER, what); }
    co->in[size_t(me)] = 1; ++co->arrived; co->color[size_t(me)] = color; co->key[size_t(me)] = key;
    const char* src = (const char*)(in_place ? (kind == kind_allgather || (kind == kind_gather && me == root) ? (const char*)recv + long(me) * bytes : recv) : send);
    if (kind == kind_bcast) { if (me == root) co->data[size_t(me)].assign((char*)recv, (char*)recv + bytes); }
    else if (bytes) co->data[size_t(me)].assign(src, src + bytes);
    // the library may use the result buffer as scratch while the operation runs
    if (bytes && recv && !(kind == kind_bcast && me == root)) {
      if (kind == kind_allgather || (kind == kind_gather && me == root)) { for (int i = 0; i < n; ++i) if (i != me || !in_place) memset((char*)recv + long(i) * bytes, 0x7d, size_t(bytes)); }
      else if (kind == kind_reduce ? me == root : kind != kind_gather) memset(recv, 0x7d, size_t(bytes));
    }
  }
  auto ready = [=] {
    if (co->arrived == n) return true;
    if (cfg.synchronising || kind == kind_allreduce || kind == kind_allgather || kind == kind_barrier || kind == kind_split || kind == kind_dup) return false;
    if (kind == kind_bcast) return co->in[size_t(co->root)] != 0;
    if (kind == kind_scan || kind == kind_exscan) { for (int i = 0; i < me; ++i) if (!co->in[size_t(i)]) return false; return true; }
    if (kind == kind_reduce || kind == kind_gather) return me != co->root;
    return false;
  };
  auto someone_gone = [=] { for (int i = 0; i < n; ++i) if (!co->in[size_t(i)] && gone.count(c->members[size_t(i)])) return true; return false; };
  sim::block_until([=] { return ready() || co->failed || someone_gone(); }, what);
  if (cfg.delays && sim::fault("mpi-message-delayed", 1, 12)) sim::sleep_for(sim::draw(sim::FAULT, 100000));
  sim::NoPreempt np;
  if (!ready()) { co->failed = true; if (recv && bytes && kind != kind_reduce && kind != kind_gather) memset(recv, 0x7e, size_t(bytes)); return error(c, MPI_ERR_OTHER, what); }
  auto fold = [&](int upto, char* dst) { memcpy(dst, co->data[0].data(), size_t(bytes)); for (int i = 1; i <= upto; ++i) combine(dt, op, dst, co->data[size_t(i)].data(), count); };
  if (bytes) {
    std::vector<char> r(size_t(bytes), 0);
    if (kind == kind_bcast) { if (me != root) memcpy(recv, co->data[size_t(root)].data(), size_t(bytes)); }
    else if (kind == kind_scan) { fold(me, r.data()); memcpy(recv, r.data(), size_t(bytes)); }
    else if (kind == kind_exscan) { if (me > 0) { fold(me - 1, r.data()); memcpy(recv, r.data(), size_t(bytes)); } }
    else if (kind == kind_allreduce || (kind == kind_reduce && me == root)) { fold(n - 1, r.data()); memcpy(recv, r.data(), size_t(bytes)); }
    else if (kind == kind_allgather || (kind == kind_gather && me == root)) for (int i = 0; i < n; ++i) memcpy((char*)recv + long(i) * bytes, co->data[size_t(i)].data(), size_t(bytes));
  }
  if (kind == kind_split || kind == kind_dup) {
    if (!co->split_done) {
      co->split_done = true;
      std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> g;
      for (int i = 0; i < n; ++i) if (co->color[size_t(i)] != MPI_UNDEFINED) g[co->color[size_t(i)]].push_back({{co->key[size_t(i)], i}, c->members[size_t(i)]});
      for (auto& kv : g) { std::sort(kv.second.begin(), kv.second.end()); std::vector<int> m; for (auto& x : kv.second) m.push_back(x.second); auto* nc = newcomm(m); for (size_t i = 0; i < m.size(); ++i) nc->errh[i] = c->errh[size_t(c->local(m[i]))]; co->made[kv.first] = nc; }
    }
    *out = co->color[size_t(me)] == MPI_UNDEFINED ? MPI_COMM_NULL : (MPI_Comm)(void*)co->made[co->color[size_t(me)]];
  }
  if (++co->left == n) { for (auto& d : co->data) d.clear(); }
  return MPI_SUCCESS;
}
}

void begin(const Config& c) {
  cfg = c; comms.clear(); selfs.clear(); gone.clear(); on_mpi_abort = nullptr;
  no_faults.assign(size_t(c.nranks), 0); failed_flag.assign(size_t(c.nranks), 0); n_init.assign(size_t(c.nranks), 0); n_fini.assign(size_t(c.nranks), 0); n_calls.assign(size_t(c.nranks), 0);
  std::vector<int> all; for (int i = 0; i < c.nranks; ++i) all.push_back(i);
  world = newcomm(all); for (int i = 0; i < c.nranks; ++i) selfs.push_back(newcomm({i}));
}
NoFaults::NoFaults() { ++no_faults[size_t(world_rank())]; }
NoFaults::~NoFaults() { --no_faults[size_t(world_rank())]; }
bool same(MPI_Comm a, MPI_Comm b) { sim::NoPreempt np; return obj(a) == obj(b); }
std::vector<int> members(MPI_Comm c) { sim::NoPreempt np; auto* o = obj(c); return o ? o->members : std::vector<int>(); }
int world_rank() { return int((intptr_t)sim::local(sim::LOCAL_RANK)); }
void set_rank(int r) { sim::local(sim::LOCAL_RANK) = (void*)(intptr_t)r; }
void dead(int r) { gone.insert(r); }
bool take_failed() { auto& f = failed_flag[size_t(world_rank())]; bool r = f; f = 0; return r; }
int inits(int r) { return n_init[size_t(r)]; }
int finalizes(int r) { return n_fini[size_t(r)]; }
uint64_t calls(int r) { return n_calls[size_t(r)]; }
}

using namespace simmpi;
extern "C" {
int MPI_Init(int*, char***) { enter(); int r = world_rank(); if (n_init[size_t(r)]++) return error(nullptr, MPI_ERR_OTHER, "MPI_Init (called twice)"); return MPI_SUCCESS; }
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { *prov = req; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { if (!sim::running()) { *f = 0; return 0; } *f = cfg.initialized || n_init[size_t(world_rank())] > 0; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = n_fini[size_t(world_rank())] > 0; return MPI_SUCCESS; }
int MPI_Finalize() {
  enter(); int r = world_rank();
  if (n_fini[size_t(r)]++) return error(nullptr, MPI_ERR_OTHER, "MPI_Finalize (called twice)");
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
  enter(); int w = world_rank(); failed_flag[size_t(w)] = 1;
  if (on_mpi_abort) { auto f = on_mpi_abort; f(w, "MPI_Abort"); }
  sim::fail("mpi-abort", "rank %d called MPI_Abort(%d)", w, code);
}
int MPI_Comm_rank(MPI_Comm c, int* r) { enter(); sim::NoPreempt np; auto* o = obj(c); if (!o) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_rank"); if (inject("MPI_Comm_rank")) return error(o, MPI_ERR_OTHER, "MPI_Comm_rank"); *r = o->local(world_rank()); return *r < 0 ? error(nullptr, MPI_ERR_COMM, "MPI_Comm_rank") : MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* r) { enter(); sim::NoPreempt np; auto* o = obj(c); if (!o) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_size"); if (inject("MPI_Comm_size")) return error(o, MPI_ERR_OTHER, "MPI_Comm_size"); *r = int(o->members.size()); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h) { enter(); sim::NoPreempt np; auto* o = obj(c); if (!o || o->local(world_rank()) < 0) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_set_errhandler"); if (inject("MPI_Comm_set_errhandler")) return error(o, MPI_ERR_OTHER, "MPI_Comm_set_errhandler"); o->errh[size_t(o->local(world_rank()))] = h; return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler* h) { enter(); sim::NoPreempt np; auto* o = obj(c); if (!o || o->local(world_rank()) < 0) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_get_errhandler"); *h = o->errh[size_t(o->local(world_rank()))]; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { sim::NoPreempt np; auto* x = obj(a); auto* y = obj(b); if (!x || !y) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_compare"); *r = x == y ? MPI_IDENT : x->members == y->members ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) {
  enter(); sim::NoPreempt np; auto* o = obj(*c);
  if (!o || o == world || o->local(world_rank()) < 0) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_free");
  for (auto* s : selfs) if (s == o) return error(nullptr, MPI_ERR_COMM, "MPI_Comm_free (of MPI_COMM_SELF)");
  o->freed.insert(world_rank()); *c = MPI_COMM_NULL; return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c) { return collective(kind_barrier, c, nullptr, nullptr, 0, 0, 0, 0, 0, 0, nullptr); }
int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c) { return collective(kind_bcast, c, nullptr, b, n, d, 0, root, 0, 0, nullptr); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return collective(kind_scan, c, s, r, n, d, op, 0, 0, 0, nullptr); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return collective(kind_exscan, c, s, r, n, d, op, 0, 0, 0, nullptr); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return collective(kind_allreduce, c, s, r, n, d, op, 0, 0, 0, nullptr); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { return collective(kind_reduce, c, s, r, n, d, op, root, 0, 0, nullptr); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm c) {
  if (s != MPI_IN_PLACE && long(sn) * dtsize(sd) != long(rn) * dtsize(rd)) return error(obj(c), MPI_ERR_TRUNCATE, "MPI_Allgather");
  return collective(kind_allgather, c, s, r, rn, rd, 0, 0, 0, 0, nullptr);
}
int MPI_Gather(const void* s, int sn, MPI_Datatype sd, void* r, int, MPI_Datatype, int root, MPI_Comm c) { return collective(kind_gather, c, s, r, sn, sd, 0, root, 0, 0, nullptr); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { return collective(kind_split, c, nullptr, nullptr, 0, 0, 0, 0, color, key, out); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { return collective(kind_dup, c, nullptr, nullptr, 0, 0, 0, 0, 0, 0, out); }
int MPI_Type_size(MPI_Datatype d, int* s) { *s = dtsize(d); return *s < 0 ? error(nullptr, MPI_ERR_TYPE, "MPI_Type_size") : MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* n) { *n = sprintf(s, "error code %d", e); return MPI_SUCCESS; }
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }
double MPI_Wtime() { return double(sim::now()) * 1e-9; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "sim"); *n = 3; return MPI_SUCCESS; }
}
