// Simulated runs of WorkspaceManager/TeamUtils, shared by the OpenMP and GPU harnesses.
#ifndef VERIF_WS_HPP
#define VERIF_WS_HPP
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_workspace.hpp"
#include "../sim/sim.hpp"
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

namespace wsim {

// what a run explores; set by the property
struct Params {
  bool user_data = false;          // caller-supplied memory, with canaries
  int  max_phases = 3;
  int  max_ops = 12;
  bool contention = false;         // many small teams
  int  misuse = 0;                 // 1: inject one misuse (debug builds)
  bool report = false;             // check the usage report
  bool alloc_faults = false;
  bool internals = true;           // use reset_internals between phases
};

enum Kind { TAKE, TAKE_MANY, TAKE_REFS, TAKE_CONTIG, TAKE_MACRO, TAKE_RESET, RELEASE, RELEASE_CONTIG, RELEASE_MACRO, RESET, WRITE, CHECK, SYNC, PRINT, MISUSE };
inline const char* kname(int k) { static const char* n[] = {"take", "take_many", "take_many_refs", "take_many_contiguous_unsafe", "take_macro_block", "take_many_and_reset", "release", "release_many_contiguous", "release_macro_block", "reset", "write", "check", "sync", "print", "misuse"}; return n[k]; }
struct Op { Kind k; int n = 1; int b = -1; int sub = 0; int arg = 0; };   // b: first block id; sub: element type selector
struct Prog { std::vector<Op> ops; int nblocks = 0; std::vector<std::string> names; std::vector<int> bsub, bmacro; int leak = 0; int peak = 0; std::map<std::string, std::pair<int,int>> uses; };

constexpr int MAXB = 96;          // blocks of one program
constexpr int MAXN = 4;

template <class S> struct Lane { static S make(uint32_t v) { return S(v % 1000003u); } static bool eq(const S& a, uint32_t v) { return a == S(v % 1000003u); } };
template <class S, int N> struct Lane<ekat::Pack<S, N>> {
  static ekat::Pack<S, N> make(uint32_t v) { ekat::Pack<S, N> p; for (int i = 0; i < N; ++i) p[i] = S((v + uint32_t(i) * 77u) % 1000003u); return p; }
  static bool eq(const ekat::Pack<S, N>& a, uint32_t v) { for (int i = 0; i < N; ++i) if (a[i] != S((v + uint32_t(i) * 77u) % 1000003u)) return false; return true; }
};

// set once a run has misused the workspace on purpose: anything may happen until that is reported
inline bool misused = false;

// Records which memory every team believes it owns; consulted by the tasks themselves.
struct Registry {
  struct Iv { uintptr_t end; int team, blk; };
  struct Given { uintptr_t a, e; bool live; };
  std::map<uintptr_t, Iv> live;
  std::map<std::pair<int, int>, Given> cur;        // (team, blk) -> what its first thread was given
  uintptr_t lo = 0, hi = 0;                        // permitted memory, if known
  void reset() { live.clear(); cur.clear(); }
  // A slow thread may report a block after a faster one of its team gave it back: then only the address matters.
  void add(int team, int blk, const void* p, size_t bytes) {
    sim::NoPreempt np; if (misused) return;
    uintptr_t a = uintptr_t(p), e = a + bytes; auto key = std::make_pair(team, blk);
    auto it = cur.find(key);
    if (it != cur.end()) {
      if (it->second.a != a || it->second.e != e) sim::fail("team-inconsistent", "two threads of team %d were given different memory for sub-block %d (%ld bytes apart, sizes %zu and %zu bytes)", team, blk, long(a - it->second.a), size_t(it->second.e - it->second.a), bytes);
      return;
    }
    if (hi && (a < lo || e > hi)) sim::fail("out-of-bounds", "team %d was given sub-block %d of %zu bytes outside the memory supplied (offset %ld of %zu)", team, blk, bytes, long(a - lo), size_t(hi - lo));
    auto nx = live.upper_bound(a);
    const Iv* clash = nullptr;
    if (nx != live.end() && nx->first < e) clash = &nx->second;
    if (nx != live.begin()) { auto pv = std::prev(nx); if (pv->second.end > a) clash = &pv->second; }
    if (clash && bytes) sim::fail(clash->team == team ? "overlap-in-team" : "overlap-across-teams", "sub-block %d given to team %d overlaps sub-block %d still held by team %d", blk, team, clash->blk, clash->team);
    if (bytes) live[a] = Iv{e, team, blk};
    cur[key] = {a, e, bytes > 0};
    sim::count("blocks taken");
  }
  void drop(int team, int blk) { sim::NoPreempt np; auto it = cur.find({team, blk}); if (it == cur.end() || !it->second.live) return; live.erase(it->second.a); it->second.live = false; }
  void drop_team(int team) { sim::NoPreempt np; for (auto it = cur.lower_bound({team, -1}); it != cur.end() && it->first.first == team; ++it) if (it->second.live) { live.erase(it->second.a); it->second.live = false; } }
};

template <class T, class S1, class Dev>
struct Engine {
  using WSM = ekat::WorkspaceManager<T, Dev>;
  using KT = ekat::KokkosTypes<Dev>;
  using Member = typename KT::MemberType;
  using TeamPolicy = typename KT::TeamPolicy;
  using ExeSpace = typename KT::ExeSpace;
  template <class S> using uview = ekat::Unmanaged<typename KT::template view_1d<S>>;
  using WS = typename WSM::Workspace;

  struct Shared { std::vector<Prog>* progs; Registry reg; int size; bool expect_abort = false; int passed_misuse = 0; int phase = 0; int cap = 0; std::multiset<int> printed; };

  // thread-private view of the blocks of the running program
  struct Blk { void* p = nullptr; int sub = 0; int macro = 0; uint32_t tag = 0; bool live = false; };
  struct Ctx { Blk b[MAXB]; };

  static size_t elems(int size, int sub) { return sub == 0 ? size_t(size) : (sizeof(T) == sizeof(S1) ? size_t(size) : (size_t(size) * sizeof(T)) / sizeof(S1)); }

  struct Kernel {
    WSM wsm; Shared* sh;
    KOKKOS_FUNCTION void operator()(const Member& team) const {
      const Prog& pr = (*sh->progs)[size_t(team.league_rank())];
      auto ws = wsm.get_workspace(team, "sim-kernel");
      Ctx c;
      for (size_t i = 0; i < pr.ops.size(); ++i) step(team, ws, pr, pr.ops[i], c, int(i));
      // whatever is still held stops being ours when the workspace is given back
      sh->reg.drop_team(team.league_rank());
    }
    // on the element types
    template <class S> static void fill(const Member& team, const Blk& b, size_t n) {
      S* p = static_cast<S*>(b.p);
      Kokkos::parallel_for(Kokkos::TeamVectorRange(team, int(n)), [&](int i) { p[i] = Lane<S>::make(b.tag + uint32_t(i)); });
    }
    template <class S> static void verify(const Member& team, const Blk& b, size_t n, bool own_only, int blk) {
      const S* p = static_cast<const S*>(b.p);
      auto chk = [&](int i) {
        if (!Lane<S>::eq(p[i], b.tag + uint32_t(i)) && !misused) sim::fail("corrupted", "team %d (thread %d): element %d of sub-block %d no longer holds what the team wrote", team.league_rank(), team.team_rank(), i, blk);
      };
      if (own_only) Kokkos::parallel_for(Kokkos::TeamVectorRange(team, int(n)), chk);
      else for (int i = 0; i < int(n); ++i) chk(i);
    }
    size_t nelem(const Blk& b) const { return b.macro ? elems(sh->size, b.sub) * size_t(b.macro) : elems(sh->size, b.sub); }
    void wr(const Member& team, Blk& b, int id) const {
      (void)id; size_t n = nelem(b); if (b.sub == 0) fill<T>(team, b, n); else fill<S1>(team, b, n);
    }
    void ck(const Member& team, const Blk& b, int id, bool own) const {
      if (!b.tag) return; size_t n = nelem(b); if (b.sub == 0) verify<T>(team, b, n, own, id); else verify<S1>(team, b, n, own, id);
    }
    template <class V> void got(const Member& team, const Prog& pr, Ctx& c, int id, int sub, int macro, const V& v) const {
      using S = typename V::value_type;
      Blk& b = c.b[id]; b.p = v.data(); b.sub = sub; b.macro = macro; b.live = true; b.tag = 0;
      size_t want = elems(sh->size, sub);
      if (v.size() != want && !misused) sim::fail("bad-extent", "team %d: sub-block %d has %zu elements, asked for %zu", team.league_rank(), id, size_t(v.size()), want);
      sh->reg.add(team.league_rank(), id, b.p, nelem(b) * sizeof(S));
      (void)pr;
    }
    template <class S, size_t N> void take_n(const Member& team, const WS& ws, const Prog& pr, const Op& o, Ctx& c) const {
      Kokkos::Array<const char*, N> names; for (size_t i = 0; i < N; ++i) names[i] = pr.names[size_t(o.b) + i].c_str();
      uview<S> v[N]; Kokkos::Array<uview<S>*, N> ptrs; for (size_t i = 0; i < N; ++i) ptrs[i] = &v[i];
      if (o.k == TAKE_MANY) ws.template take_many<N, S>(names, ptrs);
      else if (o.k == TAKE_CONTIG) ws.template take_many_contiguous_unsafe<N, S>(names, ptrs);
      else if (o.k == TAKE_RESET) { team.team_barrier(); drop_all(team, c); ws.template take_many_and_reset<N, S>(names, ptrs); }
      for (size_t i = 0; i < N; ++i) got(team, pr, c, o.b + int(i), o.sub, 0, v[i]);
    }
    template <class S> void take_refs(const Member& team, const WS& ws, const Prog& pr, const Op& o, Ctx& c) const {
      uview<S> v[4]; const auto nm = [&](int i) { return pr.names[size_t(o.b + i)].c_str(); };
      if (o.n == 1) ws.take_many_refs({nm(0)}, v[0]);
      else if (o.n == 2) ws.take_many_refs({nm(0), nm(1)}, v[0], v[1]);
      else if (o.n == 3) ws.take_many_refs({nm(0), nm(1), nm(2)}, v[0], v[1], v[2]);
      else ws.take_many_refs({nm(0), nm(1), nm(2), nm(3)}, v[0], v[1], v[2], v[3]);
      for (int i = 0; i < o.n; ++i) got(team, pr, c, o.b + i, o.sub, 0, v[i]);
    }
    template <class S> void take_dispatch(const Member& team, const WS& ws, const Prog& pr, const Op& o, Ctx& c) const {
      if (o.k == TAKE) { auto v = ws.template take<S>(pr.names[size_t(o.b)].c_str()); got(team, pr, c, o.b, o.sub, 0, v); name_check(team, ws, v, pr.names[size_t(o.b)], 0); return; }
      if (o.k == TAKE_MACRO) { auto v = ws.template take_macro_block<S>(pr.names[size_t(o.b)].c_str(), o.n); got(team, pr, c, o.b, o.sub, o.n, v); return; }
      if (o.k == TAKE_REFS) { if constexpr (std::is_same<S, T>::value) take_refs<S>(team, ws, pr, o, c); return; }
      switch (o.n) { case 1: take_n<S, 1>(team, ws, pr, o, c); break; case 2: take_n<S, 2>(team, ws, pr, o, c); break; case 3: take_n<S, 3>(team, ws, pr, o, c); break; default: take_n<S, 4>(team, ws, pr, o, c); }
    }
    template <class V> void name_check(const Member& team, const WS& ws, const V& v, const std::string& nm, int) const {
#ifndef NDEBUG
      const char* got = ws.get_name(v);
      sim::NoPreempt np;
      if (nm != got && !misused) sim::fail("wrong-name", "team %d: the sub-block taken as '%s' is reported as '%s'", team.league_rank(), nm.c_str(), got);
#else
      (void)team; (void)ws; (void)v; (void)nm;
#endif
    }
    void drop_all(const Member& team, Ctx& c) const { for (int i = 0; i < MAXB; ++i) if (c.b[i].live) { sh->reg.drop(team.league_rank(), i); c.b[i].live = false; } }
    template <class S> void rel(const Member&, const WS& ws, const Blk& b, size_t n) const { uview<S> v(static_cast<S*>(b.p), n); ws.release(v); }
    template <class S, size_t N> void rel_n(const WS& ws, const Op& o, Ctx& c) const {
      uview<S> v[N]; Kokkos::Array<uview<S>*, N> ptrs; for (size_t i = 0; i < N; ++i) { v[i] = uview<S>(static_cast<S*>(c.b[o.b + int(i)].p), elems(sh->size, o.sub)); ptrs[i] = &v[i]; }
      ws.template release_many_contiguous<N, S>(ptrs);
    }
    template <class S> void rel_dispatch(const WS& ws, const Op& o, Ctx& c) const {
      if (o.k == RELEASE_MACRO) { uview<S> v(static_cast<S*>(c.b[o.b].p), elems(sh->size, o.sub)); ws.template release_macro_block<S>(v, o.n); return; }
      switch (o.n) { case 1: rel_n<S, 1>(ws, o, c); break; case 2: rel_n<S, 2>(ws, o, c); break; case 3: rel_n<S, 3>(ws, o, c); break; default: rel_n<S, 4>(ws, o, c); }
    }
    void step(const Member& team, const WS& ws, const Prog& pr, const Op& o, Ctx& c, int pc) const {
      if (team.team_rank() == 0) { sim::NoPreempt np; sim::note(uint64_t(o.k), uint64_t(team.league_rank()), uint64_t(pc)); if (sim::tracing()) sim::trace("team %d: %s n=%d block=%d type=%d", team.league_rank(), kname(o.k), o.n, o.b, o.sub); sim::count(kname(o.k)); }
      switch (o.k) {
        case TAKE: case TAKE_MANY: case TAKE_REFS: case TAKE_CONTIG: case TAKE_MACRO: case TAKE_RESET:
          if (o.sub == 0) take_dispatch<T>(team, ws, pr, o, c); else take_dispatch<S1>(team, ws, pr, o, c);
          break;
        case RELEASE: {
          Blk& b = c.b[o.b]; ck(team, b, o.b, true);
          sh->reg.drop(team.league_rank(), o.b); b.live = false;
          if (b.sub == 0) rel<T>(team, ws, b, elems(sh->size, 0)); else rel<S1>(team, ws, b, elems(sh->size, 1));
          break; }
        case RELEASE_CONTIG: case RELEASE_MACRO: {
          int nb = o.k == RELEASE_MACRO ? 1 : o.n;
          for (int i = 0; i < nb; ++i) ck(team, c.b[o.b + i], o.b + i, true);
          for (int i = 0; i < nb; ++i) { sh->reg.drop(team.league_rank(), o.b + i); c.b[o.b + i].live = false; }
          if (o.sub == 0) rel_dispatch<T>(ws, o, c); else rel_dispatch<S1>(ws, o, c);
          break; }
        case RESET:
          for (int i = 0; i < MAXB; ++i) if (c.b[i].live) ck(team, c.b[i], i, true);
          drop_all(team, c); ws.reset(); break;
        case WRITE:
          for (int i = 0; i < pr.nblocks; ++i) { Blk& b = c.b[i]; if (b.live && (o.arg == 0 || i % o.arg == 0)) {
            b.tag = uint32_t(sim::mix(uint64_t(team.league_rank()) * 131 + uint64_t(i), uint64_t(pc) * 7 + uint64_t(sh->phase)) & 0x3fffffff) | 1; wr(team, b, i); } }
          break;
        case CHECK:
          if (o.arg) team.team_barrier();
          for (int i = 0; i < pr.nblocks; ++i) if (c.b[i].live) ck(team, c.b[i], i, !o.arg);
          if (o.arg) team.team_barrier();          // a whole-block check ends before others write again
          break;
        case SYNC: team.team_barrier(); break;
        case PRINT:                                             // one line: the sub-blocks that are free
          if (team.team_rank() == 0) { sim::NoPreempt np; sh->printed.insert(o.n); }
          ws.print(); break;
        case MISUSE: misuse(team, ws, pr, o, c); break;
      }
    }
    void misuse(const Member& team, const WS& ws, const Prog& pr, const Op& o, Ctx& c) const {
      if (team.team_rank() == 0) { sim::NoPreempt np; ++sh->passed_misuse; misused = true; }
      team.team_barrier();
      // the thread that checks goes first: the others might crash on what is not theirs before it reports
      if (team.team_rank() != 0) sim::sleep_for(1000000);
      switch (o.arg) {
        case 0: { auto v = ws.template take<T>("one-too-many"); (void)v; break; }                                     // beyond capacity
        case 1: rel<T>(team, ws, c.b[o.b], elems(sh->size, 0)); break;                                                   // released before
        case 2: { auto v = ws.template take<T>(""); (void)v; break; }                                                  // no name
        case 3: { std::string* s; { sim::NoPreempt np; s = new std::string(size_t(128 + o.n), 'n'); } auto v = ws.template take<T>(s->c_str()); (void)v; break; }  // name too long
        case 4: { uview<T> v(static_cast<T*>(c.b[o.b].p), elems(sh->size, 0)); ws.template release_macro_block<T>(v, o.n); break; }   // macro released twice
        case 5: { Op q = o; q.k = TAKE_CONTIG; take_n<T, 2>(team, ws, pr, q, c); break; }                                 // contiguous blocks that are not
        case 6: { Op q = o; q.k = TAKE_MANY; take_n<T, 4>(team, ws, pr, q, c); break; }                                   // bulk beyond capacity
        case 7: { Op q = o; q.k = TAKE_CONTIG; take_n<T, 4>(team, ws, pr, q, c); break; }                                 // bulk contiguous beyond capacity
        case 8: rel_n<T, 2>(ws, o, c); break;                                                                            // bulk release of released blocks
        case 9: { auto v = ws.template take_macro_block<T>("macro-too-big", o.n); (void)v; break; }
      }
      team.team_barrier();
    }
  };

  // ---------------------------------------------------------------- generator
  struct Gen {
    int cap; bool seq, seq0; const Params& P; Prog pr; int ntypes;
    struct G { int b, n; bool macro; int sub; bool intact; };
    std::vector<G> groups;          // live, in order of acquisition (top at the back); an individual block is a group of 1
    int used = 0; bool reset_first = false; bool allow_nonseq;
    Gen(int c, bool s, bool ans, const Params& p, int nt) : cap(c), seq(s), seq0(s), P(p), ntypes(nt), allow_nonseq(ans) {}
    std::string name(int i) {
      int k = int(sim::op(8));
      std::string s = k < 5 ? "b" + std::to_string(k) : k == 5 ? "t" + std::to_string(i % 7) : k == 6 ? std::string("a much longer name of a temporary ") + std::to_string(i % 5) : std::string(size_t(1 + sim::op(126)), 'x');
      return s;
    }
    int newb(int n, int sub, int macro) { int b = pr.nblocks; for (int i = 0; i < n; ++i) { pr.names.push_back(name(b + i)); pr.bsub.push_back(sub); pr.bmacro.push_back(macro); } pr.nblocks += n; return b; }
    bool room(int n) const { return pr.nblocks + n <= MAXB - 8; }
    void use(int n) { used += n; if (used > pr.peak) pr.peak = used; }
    void push_take(Kind k, int n) {
      Op o; o.k = k; o.n = n; o.sub = k == TAKE_REFS ? 0 : int(sim::op(uint32_t(ntypes)));
      if (k == TAKE_MACRO) { o.b = newb(1, o.sub, n); groups.push_back({o.b, n, true, o.sub, true}); pr.uses[pr.names[size_t(o.b)]].first++; }
      else {
        if (k == TAKE_RESET) { forget(); seq = true; }
        o.b = newb(n, o.sub, 0);
        bool contiguous = seq || k == TAKE_CONTIG || k == TAKE_RESET;
        if (k == TAKE) groups.push_back({o.b, 1, false, o.sub, true});
        else if (contiguous) groups.push_back({o.b, n, false, o.sub, true});
        else for (int i = 0; i < n; ++i) groups.push_back({o.b + i, 1, false, o.sub, true});
        for (int i = 0; i < n; ++i) pr.uses[pr.names[size_t(o.b + i)]].first++;
      }
      use(n); pr.ops.push_back(o);
    }
    void forget() { for (auto& g : groups) for (int i = 0; i < (g.macro ? 1 : g.n); ++i) pr.uses[pr.names[size_t(g.b + i)]].second++; groups.clear(); used = 0; }
    void release_group(size_t gi) {
      G g = groups[gi]; const bool top = gi + 1 == groups.size();
      if (g.macro) { Op o; o.k = RELEASE_MACRO; o.n = g.n; o.b = g.b; o.sub = g.sub; pr.ops.push_back(o); used -= g.n; pr.uses[pr.names[size_t(g.b)]].second++; if (!top) seq = false; groups.erase(groups.begin() + long(gi)); return; }
      // individually, or as a group
      bool as_group = g.n > 1 ? sim::op(3) != 0 : sim::op(4) == 3;
      if (as_group && g.n <= MAXN) { Op o; o.k = RELEASE_CONTIG; o.n = g.n; o.b = g.b; o.sub = g.sub; pr.ops.push_back(o); if (!top) seq = false; }
      else {
        // one by one: in reverse order keeps the memory contiguous
        bool rev = sim::op(2) == 0 || !allow_nonseq;
        if (!rev && g.n > 1) seq = false;
        if (!top) seq = false;
        for (int i = 0; i < g.n; ++i) { Op o; o.k = RELEASE; o.b = rev ? g.b + g.n - 1 - i : g.b + i; o.sub = g.sub; pr.ops.push_back(o); }
      }
      used -= g.n; for (int i = 0; i < g.n; ++i) pr.uses[pr.names[size_t(g.b + i)]].second++;
      groups.erase(groups.begin() + long(gi));
    }
    void misuse_at_end(int ntyp) {
      (void)ntyp; Op o; o.k = MISUSE; o.sub = 0;
      int m = int(sim::op(10)); o.arg = m;
      auto fill = [&](int leave) { while (used < cap - leave && room(1)) { int n = 1; push_take(TAKE, n); } };
      // every misuse but the release of free blocks needs nothing special
      switch (m) {
        case 0: fill(0); break;
        case 1: { clear(); if (!reset_seq()) {} Op t; t.k = TAKE; t.sub = 0; t.b = newb(1, 0, 0); pr.ops.push_back(t); Op r; r.k = RELEASE; r.b = t.b; pr.ops.push_back(r);
                  if (sim::op(2)) { Op t2; t2.k = TAKE; t2.sub = 0; t2.b = newb(1, 0, 0); (void)t2; } o.b = t.b;
                  // hold another block so that the count alone cannot tell
                  Op rs; rs.k = RESET; pr.ops.push_back(rs); if (cap >= 2) { Op a; a.k = TAKE; a.b = newb(1, 0, 0); pr.ops.push_back(a); Op b; b.k = TAKE; b.b = newb(1, 0, 0); pr.ops.push_back(b); Op rr; rr.k = RELEASE; rr.b = b.b; pr.ops.push_back(rr); o.b = b.b; }
                  break; }
        case 2: if (used >= cap) clear(); break;
        case 3: if (used >= cap) clear(); o.n = sim::op_chance(1, 2) ? 0 : int(sim::op(40)); break;
        case 4: { clear(); Op rs; rs.k = RESET; pr.ops.push_back(rs); int n = 1 + int(sim::op(uint32_t(cap))); Op t; t.k = TAKE_MACRO; t.n = n; t.sub = 0; t.b = newb(1, 0, n); pr.ops.push_back(t); Op r; r.k = RELEASE_MACRO; r.n = n; r.b = t.b; pr.ops.push_back(r); o.b = t.b; o.n = n; break; }
        case 5: { if (cap < 3) { o.arg = 0; fill(0); break; }
                  clear(); Op rs; rs.k = RESET; pr.ops.push_back(rs); int a[3]; for (int i = 0; i < 3; ++i) { Op t; t.k = TAKE; t.b = newb(1, 0, 0); a[i] = t.b; pr.ops.push_back(t); }
                  Op r; r.k = RELEASE; r.b = a[2]; pr.ops.push_back(r); r.b = a[0]; pr.ops.push_back(r); o.b = newb(2, 0, 0); break; }      // free list: a0, a2, ... : not contiguous
        case 6: case 7: { clear(); Op rs; rs.k = RESET; pr.ops.push_back(rs); used = 0; seq = true; fill(int(sim::op(4)) % std::min(4, cap + 1)); o.b = newb(4, 0, 0); o.n = 4; break; }
        case 8: { if (cap < 3) { o.arg = 0; fill(0); break; } clear(); Op rs; rs.k = RESET; pr.ops.push_back(rs); Op t; t.k = TAKE_CONTIG; t.n = 2; t.b = newb(2, 0, 0); pr.ops.push_back(t); Op r; r.k = RELEASE_CONTIG; r.n = 2; r.b = t.b; pr.ops.push_back(r); o.b = t.b; o.n = 2; break; }
        case 9: { clear(); Op rs; rs.k = RESET; pr.ops.push_back(rs); used = 0; seq = true; fill(int(sim::op(3)) % (cap + 1)); o.n = cap - used + 1 + int(sim::op(3)); if (o.n < 1) o.n = 1; break; }
      }
      pr.ops.push_back(o);
    }
    bool reset_seq() { return true; }
    void clear() { while (!groups.empty()) release_group(groups.size() - 1); }
    // a legal program; leaves nothing held unless leak_ok
    void make(bool start_reset, bool leak_ok, int nops) {
      if (start_reset) {
        if (sim::op(2) && cap >= 1) { push_take(TAKE_RESET, 1 + int(sim::op(uint32_t(std::min(cap, MAXN))))); }
        else { Op o; o.k = RESET; pr.ops.push_back(o); seq = true; }
      }
      for (int i = 0; i < nops; ++i) {
        int c = int(sim::op(16)); int avail = cap - used;
        if (c < 6) {                                            // take something
          if (avail <= 0 || !room(MAXN)) { if (!groups.empty()) release_group(pick_group()); continue; }
          int n = 1 + int(sim::op(uint32_t(std::min(avail, MAXN))));
          int how = int(sim::op(seq ? 5 : 3));
          if (how == 0) push_take(TAKE, 1); else if (how == 1) push_take(TAKE_MANY, n); else if (how == 2) push_take(TAKE_REFS, n);
          else if (how == 3) push_take(TAKE_CONTIG, n); else push_take(TAKE_MACRO, 1 + int(sim::op(uint32_t(avail))));
        } else if (c < 9) { if (!groups.empty()) release_group(pick_group()); }
        else if (c < 12) { Op o; o.k = WRITE; o.arg = int(sim::op(3)); pr.ops.push_back(o); }
        else if (c < 14) { Op o; o.k = CHECK; o.arg = int(sim::op(2)); pr.ops.push_back(o); }
        else if (c == 14) { if (start_reset || leak_ok || sim::op(3) == 0) { if (sim::op(2) && room(MAXN)) push_take(TAKE_RESET, 1 + int(sim::op(uint32_t(std::min(cap, MAXN))))); else { forget(); Op o; o.k = RESET; pr.ops.push_back(o); seq = true; } } }
        else { Op o; o.k = sim::op(3) ? SYNC : PRINT; o.n = cap - used; pr.ops.push_back(o); }
      }
      { Op o; o.k = WRITE; pr.ops.push_back(o); o.k = CHECK; o.arg = 1; pr.ops.push_back(o); }
      if (!leak_ok) while (!groups.empty()) release_group(pick_group());
      pr.leak = used;
    }
    size_t pick_group() { if (!allow_nonseq) return groups.size() - 1; return groups.size() - 1 - sim::op(uint32_t(groups.size())); }
  };

  struct NamesKernel {
    WSM wsm; int n;
    KOKKOS_FUNCTION void operator()(const Member& team) const {
      auto ws = wsm.get_workspace(team, "sim-names");
      for (int i = 0; i < n; ++i) {
        const char* nm; { sim::NoPreempt np; nm = (new std::string("m" + std::to_string(i)))->c_str(); }
        auto v = ws.template take<T>(nm); ws.release(v);
      }
    }
  };

  // ------------------------------------------------------------------- a run
  static TeamPolicy make_policy(int league, int team_size) { return ekat::TeamPolicyFactory<ExeSpace>::get_team_policy_force_team_size(league, team_size); }

  struct Setup { int league, team_size, size, cap; double overprov; };

  // every line: the workspace, then the free sub-blocks as (index, index of the next one), the last next one being the capacity
  static void check_printed(Shared& sh, const std::string& text) {
    std::multiset<int> want = sh.printed; sh.printed.clear();
    std::stringstream ss(text); std::string line;
    while (std::getline(ss, line)) {
      std::vector<long> v; for (size_t i = 0; i < line.size();) { if (isdigit((unsigned char)line[i]) || (line[i] == '-' && i + 1 < line.size() && isdigit((unsigned char)line[i + 1]))) { size_t used; v.push_back(std::stol(line.substr(i), &used)); i += used; } else ++i; }
      if (v.empty()) continue;
      const int n = int(v.size() - 1) / 2;
      bool ok = v.size() % 2 == 1 && want.count(n); std::vector<char> seen(size_t(sh.cap), 0);
      for (int i = 0; ok && i < n; ++i) {
        const long id = v[size_t(1 + 2 * i)], next = v[size_t(2 + 2 * i)];
        ok = id >= 0 && id < sh.cap && !seen[size_t(id)] && next == (i + 1 < n ? v[size_t(3 + 2 * i)] : long(sh.cap)); if (ok) seen[size_t(id)] = 1;
      }
      if (!ok) { std::string e; for (int x : want) e += " " + std::to_string(x); sim::fail("printed-wrong", "a workspace of %d sub-blocks prints its free ones as '%s'; numbers of free ones expected:%s", sh.cap, line.c_str(), e.c_str()); }
      want.erase(want.find(n)); sim::count("printed lists checked");
    }
    if (!want.empty()) sim::fail("printed-wrong", "%zu calls of print() printed nothing", want.size());
  }

  static void run(const Params& P, Setup s) {
    Shared sh; sh.size = s.size; sh.cap = s.cap; misused = false;
    auto policy = make_policy(s.league, s.team_size);
    const int ntypes = sizeof(S1) <= sizeof(T) ? 2 : 1;
    WSM wsm;
    std::unique_ptr<char[]> raw; size_t bytes = 0; char* data = nullptr;
    // a misuse may write past the end before it is reported: give it room
    const size_t CAN = P.misuse ? 4096 + size_t(s.cap + 8) * size_t(s.size + 8) * sizeof(T) : 512;
    if (P.user_data || P.misuse) {
      bytes = size_t(WSM::get_total_bytes_needed(s.size, s.cap, policy, s.overprov));
      raw.reset(new char[bytes + 2 * CAN + 128]);
      uintptr_t a = (uintptr_t(raw.get()) + CAN + 63) & ~uintptr_t(63); data = (char*)a;
      for (size_t i = 0; i < bytes + 2 * CAN; ++i) data[long(i) - long(CAN)] = char(0x5a + (i & 3));
      sh.reg.lo = a; sh.reg.hi = a + bytes;
      sim::note(bytes, uint64_t(s.league), uint64_t(s.cap));
    }
    auto canaries = [&] {
      if (!data) return;
      for (size_t i = 0; i < CAN; ++i) {
        if (data[long(i) - long(CAN)] != char(0x5a + (i & 3))) sim::fail("out-of-bounds", "the byte %zu before the memory supplied was overwritten", CAN - i);
        if (data[bytes + i] != char(0x5a + ((bytes + CAN + i) & 3))) sim::fail("out-of-bounds", "the byte %zu past the %zu bytes supplied was overwritten", i, bytes);
      }
    };
    const bool ctor = sim::op_chance(1, 3);
    auto setup = [&] {
      if (ctor) { if (data) wsm = WSM(reinterpret_cast<T*>(data), s.size, s.cap, policy, s.overprov); else wsm = WSM(s.size, s.cap, policy, s.overprov); }
      else if (data) wsm.setup(reinterpret_cast<T*>(data), s.size, s.cap, policy, s.overprov); else wsm.setup(s.size, s.cap, policy, s.overprov);
    };
    if (P.alloc_faults) {
      bool ok = false;
      for (int attempt = 0; attempt < 4 && !ok; ++attempt) {
        sim::AllocFaults af(attempt < 2 ? 1 : 0, 2, 40);
        try { setup(); ok = true; } catch (const std::exception&) { af.disarm(); if (!af.fired()) sim::fail("setup-failed", "setup threw although no allocation failed"); sim::count("setup retried after allocation failure"); }
      }
      if (!ok) sim::fail("setup-failed", "setup kept failing");
    } else setup();
    canaries();

    int phases = sim::op_range(1, P.max_phases); bool clean = true, seq = true;
    std::map<std::string, std::pair<int, int>> total; int peak = 0; bool counted = true;
#ifndef NDEBUG
    // rarely: as many names as the tables of a debug build can hold
    if (P.report && s.league <= 4 && sim::op_chance(1, 100)) {
      const int distinct = 256; sim::set_min_slice(500); sim::set_step_cap(400000000);
      sim::trace("%d distinct names, league %d team %d", distinct, s.league, s.team_size);
      Kokkos::parallel_for("sim-names", policy, NamesKernel{wsm, distinct});
      for (int i = 0; i < distinct; ++i) { auto& t = total["m" + std::to_string(i)]; t.first += s.league; t.second += s.league; }
      sim::count("kernels"); sim::count("kernels with 256 distinct names");
      canaries(); check_report(wsm, total, 1, true);
      return;
    }
#endif
    for (int ph = 0; ph < phases; ++ph) {
      sh.phase = ph;
      bool start_reset = !clean || sim::op(3) == 0;
      bool leak_ok = sim::op(3) == 0 && start_reset;      // teams share slots: what one leaves held, the next must reset
      bool nonseq = sim::op(2) == 0;
      bool seq0 = seq && !nonseq;                   // teams sharing a slot see what others left
      std::vector<Prog> progs; int mis = -1;
      bool misuse_phase = P.misuse && ph == phases - 1;
      if (misuse_phase) mis = int(sim::op(uint32_t(s.league)));
      for (int l = 0; l < s.league; ++l) {
        Gen g(s.cap, seq0, nonseq, P, ntypes);
        if (misuse_phase && l == mis) { bool sr = start_reset; g.make(sr, false, int(sim::op(uint32_t(P.max_ops)))); g.misuse_at_end(ntypes); }
        else g.make(start_reset, leak_ok, int(sim::op(uint32_t(P.max_ops + 1))));
        progs.push_back(std::move(g.pr));
      }
      sh.progs = &progs; sh.reg.reset();
      if (leak_ok) { bool any = false; for (auto& p : progs) any |= p.leak > 0; clean = !any; if (any) counted = false; } else if (start_reset) clean = true;
      if (start_reset) seq = !nonseq; else if (nonseq) seq = false;
      for (auto& p : progs) { peak = std::max(peak, p.peak); for (auto& u : p.uses) { total[u.first].first += u.second.first; total[u.first].second += u.second.second; } }
      if (misuse_phase) {
        sim::on_abort = [&](const char*) { if (sh.passed_misuse == 0) return; sim::count("misuse reported"); sim::finish_run(); };
      }
      sim::trace("phase %d: league %d team %d size %d cap %d start_reset %d leak_ok %d", ph, s.league, s.team_size, s.size, s.cap, start_reset, leak_ok);
      struct Printed : std::streambuf {
        std::string text; std::streambuf* old; Printed() : old(std::cout.rdbuf(this)) {} ~Printed() { std::cout.rdbuf(old); }
        std::streamsize xsputn(const char* p, std::streamsize n) override { sim::NoPreempt np; text.append(p, size_t(n)); return n; }
        int overflow(int c) override { sim::NoPreempt np; if (c != EOF) text += char(c); return 0; }
      };
      std::string printed;
      { Printed pt; Kokkos::parallel_for("sim", policy, Kernel{wsm, &sh}); printed = pt.text; }
      canaries();
      if (!misuse_phase) check_printed(sh, printed);
      if (misuse_phase) sim::fail("misuse-not-reported", "a debug build went through misuse kind %d without reporting it", progs[size_t(mis)].ops.back().arg);
      sim::count("kernels");
#ifndef NDEBUG
      if (P.report && !P.misuse) check_report(wsm, total, peak, counted);
#endif
      if (P.internals && sim::op(3) == 0) { sim::trace("reset_internals"); wsm.reset_internals(); clean = true; seq = true; canaries(); total.clear(); peak = 0; counted = true; sim::count("reset_internals"); }
    }
  }

#ifndef NDEBUG
  static void check_report(const WSM& wsm, const std::map<std::string, std::pair<int, int>>& total, int peak, bool exact) {
    std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
    wsm.report();
    std::cout.rdbuf(old);
    // "Workspace 'NAME' was used by U wsindices with T takes and R releases."; "WS i high-water H"
    std::map<std::string, std::pair<int, int>> got; int hw = 0, inuse = 0, leaks = 0; std::string line;
    while (std::getline(ss, line)) {
      size_t p;
      if (line.compare(0, 11, "Workspace '") == 0 && (p = line.find("' was used by ")) != std::string::npos) {
        std::string nm = line.substr(11, p - 11); int u, t, r;
        if (sscanf(line.c_str() + p, "' was used by %d wsindices with %d takes and %d releases", &u, &t, &r) == 3) { got[nm] = {t, r}; if (t > 0 && u < 1) sim::fail("report-wrong", "the report says '%s' was taken %d times from %d workspaces", nm.c_str(), t, u); }
      } else if ((p = line.find(" currently using ")) != std::string::npos) { int n = atoi(line.c_str() + p + 17); inuse += n; if (n < 0) sim::fail("report-wrong", "the report says %d sub-blocks are in use", n); }
      else if (line.find("POSSIBLE LEAK") != std::string::npos) ++leaks;
 else if ((p = line.find(" high-water ")) != std::string::npos) hw = std::max(hw, atoi(line.c_str() + p + 12));
    }
    if (exact && inuse) sim::fail("report-wrong", "the report says %d sub-blocks are in use, every one was released", inuse);
    if (exact && leaks) sim::fail("report-wrong", "the report lists %d possible leaks, every sub-block was released", leaks);
    sim::count("usage reports checked");
    if (hw != peak) sim::fail("report-wrong", "the report gives a high-water mark of %d sub-blocks, the kernels used at most %d at once", hw, peak);
    for (auto& kv : total) {
      auto it = got.find(kv.first);
      if (it == got.end()) sim::fail("report-wrong", "the report misses '%s'", kv.first.c_str());
      if (it->second.first != kv.second.first || (exact && it->second.second != kv.second.second)) sim::fail("report-wrong", "the report says '%s' was taken %d and released %d times; it was %d and %d", kv.first.c_str(), it->second.first, it->second.second, kv.second.first, kv.second.second);
    }
    for (auto& kv : got) if (!total.count(kv.first) && (kv.second.first || kv.second.second)) sim::fail("report-wrong", "the report lists '%s', which was not used", kv.first.c_str());
  }
#endif

  // ------------------------------------------- slot sharing, through TeamUtils
  struct SlotShared { std::vector<int> holder; std::vector<int> seen_idx; int nslots = 0, holding = 0, acquired = 0, target = 0; std::vector<int> work; bool rendezvous = false; int passed_on = -1; };
  struct SlotKernel {
    ekat::TeamUtils<T, ExeSpace> tu; SlotShared* sh; int* cells;
    KOKKOS_FUNCTION void operator()(const Member& team) const {
      const int idx = tu.get_workspace_idx(team);
      {
        sim::NoPreempt np;
        const int l = team.league_rank();
        if (idx < 0 || idx >= sh->nslots) sim::fail("slot-out-of-range", "team %d was given slot %d of %d", l, idx, sh->nslots);
        int& seen = sh->seen_idx[size_t(l)];
        if (seen == -1) {
          seen = idx; 
          if (sh->holder[size_t(idx)] != -1) sim::fail("slot-shared", "slot %d was given to team %d while team %d still holds it", idx, l, sh->holder[size_t(idx)]);
          sh->holder[size_t(idx)] = l; ++sh->holding; ++sh->acquired; sim::count("slots acquired");
          sim::trace("team %d holds slot %d", l, idx);
        } else if (seen != idx) sim::fail("team-inconsistent", "threads of team %d were given slots %d and %d", l, seen, idx);
      }
      // use the slot: an unprotected counter, private to the holder
      team.team_barrier();
      if (sh->rendezvous) { sim::block_until([this] { return sh->acquired >= sh->target; }, "every slot being held at once"); }
      // only one slot is given back: everyone who waits has to get it, one after another
      if (sh->passed_on >= 0 && idx != sh->passed_on) sim::block_until([this, &team] { return sh->acquired >= team.league_size(); }, "the others having had the slot that is passed on");
      for (int w = 0; w < sh->work[size_t(team.league_rank())]; ++w) {
        if (team.team_rank() == 0) { int v = cells[idx * 32]; cells[idx * 32] = v + 1; }
        team.team_barrier();
      }
      {
        sim::NoPreempt np;
        if (sh->seen_idx[size_t(team.league_rank())] >= 0 && sh->holder[size_t(idx)] == team.league_rank() && team.team_rank() == 0) { }
      }
      team.team_barrier();
      if (team.team_rank() == 0) { sim::NoPreempt np; sh->holder[size_t(idx)] = -1; --sh->holding; }
      tu.release_workspace_idx(team, idx);
    }
  };
  static void run_slots(Setup s, bool rendezvous_ok, bool gpu) {
    auto policy = make_policy(s.league, s.team_size);
    ekat::TeamUtils<T, ExeSpace> tu(policy, s.overprov);
    const int nslots = tu.get_num_ws_slots();
    if (nslots < 1) sim::fail("slot-count", "%d slots for a league of %d", nslots, s.league);
    if (nslots > s.league && gpu) sim::fail("slot-count", "%d slots for a league of %d", nslots, s.league);
    const int threads = tu.get_max_concurrent_threads(), teams = tu.get_num_concurrent_teams();
    if (teams < 1 || long(teams) * s.team_size > threads || threads > int(ExeSpace().concurrency())) sim::fail("slot-count", "%d teams of %d threads at once, of %d threads, on a machine with %d", teams, s.team_size, threads, int(ExeSpace().concurrency()));
    if (teams > s.league) sim::fail("slot-count", "%d teams at once for a league of %d", teams, s.league);
    sim::note(uint64_t(nslots));
    std::vector<int> cells(size_t(nslots) * 32, 0); long expect = 0;
    int kernels = sim::op_range(1, 3);
    for (int k = 0; k < kernels; ++k) {
      SlotShared sh; sh.nslots = nslots; sh.holder.assign(size_t(nslots), -1); sh.seen_idx.assign(size_t(s.league), -1); sh.work.resize(size_t(s.league));
      for (auto& w : sh.work) { w = int(sim::op(4)); expect += w; }
      sh.rendezvous = rendezvous_ok && sim::op(2); sh.target = std::min(nslots, s.league);
      if (sh.rendezvous) sim::count("kernels in which every slot must be held at once");
      if (sh.rendezvous && gpu && s.league > nslots && sim::op(2)) { sh.passed_on = int(sim::op(uint32_t(nslots))); sim::count("kernels in which all who wait share one slot"); }
      Kokkos::parallel_for("slots", policy, SlotKernel{tu, &sh, cells.data()});
      if (sh.acquired != s.league) sim::fail("team-not-run", "%d of %d teams got a slot", sh.acquired, s.league);
      sim::count("kernels");
    }
    long sum = 0; for (int i = 0; i < nslots; ++i) sum += cells[size_t(i) * 32];
    if (sum != expect) sim::fail("lost-update", "counters protected by the slots sum up to %ld, expected %ld", sum, expect);
  }
};
} // namespace wsim
#endif
