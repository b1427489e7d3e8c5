// Simulated runs of the team-level algorithms: tridiagonal solvers, reductions,
// vertical interpolation. Shared by the OpenMP and GPU harnesses.
#ifndef VERIF_ALGO_HPP
#define VERIF_ALGO_HPP
#include "ekat.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_tridiag.hpp"
#include "ekat_reduction_utils.hpp"
#include "ekat_lin_interp.hpp"
#include "../sim/sim.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <vector>

namespace alg {
template <class Dev> using Exe = typename Dev::execution_space;
template <class T, class Dev> using V1 = Kokkos::View<T*, Kokkos::LayoutRight, Dev, Kokkos::MemoryUnmanaged>;
template <class T, class Dev> using V2 = Kokkos::View<T**, Kokkos::LayoutRight, Dev, Kokkos::MemoryUnmanaged>;

// Memory between guard zones, aligned for packs.
template <class T> struct Guarded {
  static constexpr size_t G = 256;
  std::unique_ptr<char[]> raw; size_t n, bytes; char* at;
  explicit Guarded(size_t n_) : raw(new char[2 * G + n_ * sizeof(T) + 128]), n(n_), bytes(2 * G + n_ * sizeof(T) + 128) {
    memset(raw.get(), 0x5a, bytes); at = (char*)((uintptr_t(raw.get()) + G + 127) & ~uintptr_t(127)); for (size_t i = 0; i < n; ++i) p()[i] = std::numeric_limits<T>::quiet_NaN();
  }
  T* p() { return (T*)at; }
  T& operator[](size_t i) { return p()[i]; }
  void check(const char* what) {
    for (size_t i = 0; i < bytes; ++i) { const char* q = raw.get() + i; if ((q < at || q >= at + n * sizeof(T)) && *q != 0x5a) sim::fail("memory-outside", "%s wrote outside of its array, %ld bytes from the start of %zu", what, long(q - at), n * sizeof(T)); }
  }
};
inline double rnd(uint64_t& s) { s = sim::mix(s, 0x1234567); return double(s >> 11) / 9007199254740992.0; }
template <class T> T any_value(uint64_t& s) { double v = (rnd(s) - 0.5) * 2; int e = int(rnd(s) * 8) - 4; return T(std::ldexp(v, e)); }

struct Layout { int team, league; };

// -------------------------------------------------------------- tridiagonal
enum Solver { THOMAS_TEAM, THOMAS_TEAM_PACK, THOMAS_1X1, THOMAS_1XM, THOMAS_MXM, THOMAS_1XM_PACK, THOMAS_MXM_PACK, CR_1X1, CR_1XM, CR_MXM, BFB_1, BFB_2, BFB_2_BCAST, BFB_1_PACK, BFB_2_PACK, NSOLVERS };
inline const char* sname(int s) {
  static const char* n[] = {"thomas (team)", "thomas (team, packs)", "thomas 1x1", "thomas 1xm", "thomas mxm", "thomas 1xm packs", "thomas mxm packs", "cr 1x1", "cr 1xm", "cr mxm", "bfb one matrix", "bfb many matrices", "bfb rank-2 single matrix", "bfb one matrix packs", "bfb many matrices packs"};
  return n[s];
}
inline bool many(int s) { return s == THOMAS_MXM || s == THOMAS_MXM_PACK || s == CR_MXM || s == BFB_2 || s == BFB_2_PACK; }
inline bool packed(int s) { return s == THOMAS_TEAM_PACK || s == THOMAS_1XM_PACK || s == THOMAS_MXM_PACK || s == BFB_1_PACK || s == BFB_2_PACK; }
inline bool one_rhs(int s) { return s == THOMAS_1X1 || s == CR_1X1; }
constexpr int NP = 4;

// One system per team of the league.
template <class DT, class XT> struct Problem {
  int nrow, nrhs, nmat;                 // nmat: 1 or nrhs (padded as nrhs)
  std::vector<DT> dl, d, du;            // nrow x nmat
  std::vector<XT> b;                    // nrow x nrhs
  void make(int nr, int m, bool many_mat, uint64_t& s) {
    nrow = nr; nrhs = m; nmat = many_mat ? m : 1;
    dl.resize(size_t(nrow * nmat)); d = du = dl; b.resize(size_t(nrow * nrhs));
    const double margin = rnd(s) < 0.5 ? 0.05 : 1.0; const bool scale = rnd(s) < 0.3, sym0 = rnd(s) < 0.1;
    for (int i = 0; i < nrow; ++i) for (int j = 0; j < nmat; ++j) {
      double l = i > 0 ? (rnd(s) - 0.5) * 4 : 0, u = i + 1 < nrow ? (rnd(s) - 0.5) * 4 : 0, dd = (std::fabs(l) + std::fabs(u)) * (1.05 + margin * rnd(s)) + 0.1 + rnd(s);
      if (rnd(s) < 0.5) dd = -dd;
      if (sym0) { if (rnd(s) < 0.5) l = 0; else u = 0; }
      const double f = scale ? std::ldexp(1.0, int(rnd(s) * 12) - 6) : 1;
      dl[size_t(i * nmat + j)] = DT(l * f); du[size_t(i * nmat + j)] = DT(u * f); d[size_t(i * nmat + j)] = DT(dd * f);
    }
    for (auto& x : b) x = XT(any_value<double>(s));
  }
};
template <class DT, class XT> struct Store {            // the arrays of one team
  int nrow, cols, mcols, xpitch, xoff, mpitch, moff;    // the columns may be some of a wider array
  Guarded<DT> dl, d, du; Guarded<XT> x;
  Store(int nr, int c, int mc, int xl, int xr, int ml, int mr) : nrow(nr), cols(c), mcols(mc), xpitch(xl + c + xr), xoff(xl), mpitch(ml + mc + mr), moff(ml), dl(size_t(nr * mpitch)), d(size_t(nr * mpitch)), du(size_t(nr * mpitch)), x(size_t(nr * xpitch)) {}
  size_t xi(int i, int j) const { return size_t(i * xpitch + xoff + j); }
  size_t mi(int i, int j) const { return size_t(i * mpitch + moff + j); }
  template <class G> void only_columns(G& g, int pitch, int off, int n, const char* what) { for (int i = 0; i < nrow; ++i) for (int j = 0; j < pitch; ++j) if ((j < off || j >= off + n) && g[size_t(i * pitch + j)] == g[size_t(i * pitch + j)]) sim::fail("memory-outside", "%s wrote to a column next to those it was given", what); }
  void check(const char* what) { x.check(what); d.check(what); dl.check(what); du.check(what); only_columns(x, xpitch, xoff, cols, what); only_columns(d, mpitch, moff, mcols, what); only_columns(dl, mpitch, moff, mcols, what); only_columns(du, mpitch, moff, mcols, what); }
};

template <class DT, class XT, class Dev> struct SolveKernel {
  using MT = typename Kokkos::TeamPolicy<Exe<Dev>>::member_type;
  int solver; std::vector<Store<DT, XT>*>* st; 
  template <class E> static V2<E, Dev> columns(E* p, int n, int pitch, int off, int m) { V2<E, Dev> all(p, n, pitch); if (pitch == m) return all; return Kokkos::subview(all, Kokkos::ALL, Kokkos::pair<int, int>(off, off + m)); }
  void operator()(const MT& team) const {
    auto& s = *(*st)[size_t(team.league_rank())];
    using PD = ekat::Pack<DT, NP>; using PX = ekat::Pack<XT, NP>;
    V1<DT, Dev> dl1(s.dl.p(), s.nrow), d1(s.d.p(), s.nrow), du1(s.du.p(), s.nrow);
    V2<DT, Dev> dl2 = columns<DT>(s.dl.p(), s.nrow, s.mpitch, s.moff, s.mcols), d2 = columns<DT>(s.d.p(), s.nrow, s.mpitch, s.moff, s.mcols), du2 = columns<DT>(s.du.p(), s.nrow, s.mpitch, s.moff, s.mcols);
    V1<XT, Dev> x1(s.x.p(), s.nrow); V2<XT, Dev> x2 = columns<XT>(s.x.p(), s.nrow, s.xpitch, s.xoff, s.cols);
    V2<PX, Dev> xp; V2<PD, Dev> dlp, dp, dup;
    if (packed(solver)) {
      xp = columns<PX>((PX*)s.x.p(), s.nrow, s.xpitch / NP, s.xoff / NP, s.cols / NP);
      dlp = columns<PD>((PD*)s.dl.p(), s.nrow, s.mpitch / NP, s.moff / NP, s.mcols / NP); dp = columns<PD>((PD*)s.d.p(), s.nrow, s.mpitch / NP, s.moff / NP, s.mcols / NP); dup = columns<PD>((PD*)s.du.p(), s.nrow, s.mpitch / NP, s.moff / NP, s.mcols / NP);
    }
    namespace T = ekat::tridiag;
    switch (solver) {
      case THOMAS_TEAM: T::thomas(team, dl1, d1, du1, x2); break;
      case THOMAS_TEAM_PACK: T::thomas(team, dl1, d1, du1, xp); break;
      case THOMAS_1X1: Kokkos::single(Kokkos::PerTeam(team), [&] { T::thomas(dl1, d1, du1, x1); }); break;
      case THOMAS_1XM: Kokkos::single(Kokkos::PerTeam(team), [&] { T::thomas(dl1, d1, du1, x2); }); break;
      case THOMAS_MXM: Kokkos::single(Kokkos::PerTeam(team), [&] { T::thomas(dl2, d2, du2, x2); }); break;
      case THOMAS_1XM_PACK: Kokkos::single(Kokkos::PerTeam(team), [&] { T::thomas(dl1, d1, du1, xp); }); break;
      case THOMAS_MXM_PACK: Kokkos::single(Kokkos::PerTeam(team), [&] { T::thomas(dlp, dp, dup, xp); }); break;
      case CR_1X1: T::cr(team, dl1, d1, du1, x1); break;
      case CR_1XM: T::cr(team, dl1, d1, du1, x2); break;
      case CR_MXM: T::cr(team, dl2, d2, du2, x2); break;
      case BFB_1: T::bfb(team, dl1, d1, du1, x2); break;
      case BFB_2: case BFB_2_BCAST: T::bfb(team, dl2, d2, du2, x2); break;
      case BFB_1_PACK: T::bfb(team, dl1, d1, du1, xp); break;
      case BFB_2_PACK: T::bfb(team, dlp, dp, dup, xp); break;
    }
  }
};
// Solve every problem of the league; the solutions, nrow x nrhs each.
template <class DT, class XT, class Dev>
std::vector<std::vector<XT>> solve(int solver, const std::vector<Problem<DT, XT>>& pr, int team_size) {
  std::vector<std::unique_ptr<Store<DT, XT>>> own; std::vector<Store<DT, XT>*> st;
  {
    sim::NoPreempt np;
    for (auto& p : pr) {
      const int cols = packed(solver) ? (p.nrhs + NP - 1) / NP * NP : p.nrhs, mcols = p.nmat == 1 ? 1 : (solver == BFB_2_PACK || solver == THOMAS_MXM_PACK) ? cols : p.nmat;
      const bool manyp = solver == BFB_2_PACK || solver == THOMAS_MXM_PACK;
      int w[4] = {0, 0, 0, 0};
      if (!one_rhs(solver) && sim::op(4) == 3) { for (int& v : w) v = int(sim::op(3)) * (packed(solver) ? NP : 1); if (!many(solver) && solver != BFB_2_BCAST) w[2] = w[3] = 0; sim::count("systems in columns of a wider array"); }
      auto s = std::make_unique<Store<DT, XT>>(p.nrow, cols, manyp ? cols : mcols, w[0], w[1], w[2], w[3]);
      for (int i = 0; i < p.nrow; ++i) {
        for (int j = 0; j < s->mcols; ++j) {
          const int k = j < p.nmat ? j : 0; const size_t q = s->mi(i, j), f = size_t(i * p.nmat + k);
          if (i > 0) s->dl[q] = p.dl[f];                  // dl(0) and du(nrow-1) are no part of the matrix
          if (i + 1 < p.nrow) s->du[q] = p.du[f];
          s->d[q] = p.d[f];
        }
        for (int j = 0; j < cols; ++j) s->x[s->xi(i, j)] = p.b[size_t(i * p.nrhs + (j < p.nrhs ? j : 0))];
      }
      st.push_back(s.get()); own.push_back(std::move(s));
    }
  }
  Kokkos::parallel_for("solve", Kokkos::TeamPolicy<Exe<Dev>>(int(pr.size()), team_size), SolveKernel<DT, XT, Dev>{solver, &st});
  sim::NoPreempt np;
  std::vector<std::vector<XT>> out;
  for (size_t k = 0; k < pr.size(); ++k) {
    auto& s = *st[k]; s.check(sname(solver));
    std::vector<XT> x; for (int i = 0; i < pr[k].nrow; ++i) for (int j = 0; j < pr[k].nrhs; ++j) x.push_back(s.x[s.xi(i, j)]);
    out.push_back(std::move(x));
  }
  sim::count("systems-solved", pr.size());
  return out;
}
template <class DT, class XT> void check_residual(int solver, const Problem<DT, XT>& p, const std::vector<XT>& x, int team) {
  const double eps = std::max(double(std::numeric_limits<DT>::epsilon()), double(std::numeric_limits<XT>::epsilon()));
  for (int j = 0; j < p.nrhs; ++j) {
    double bmax = 0, xmax = 0;
    for (int i = 0; i < p.nrow; ++i) xmax = std::max(xmax, std::fabs(double(x[size_t(i * p.nrhs + j)])));
    for (int i = 0; i < p.nrow; ++i) {
      const size_t m = size_t(i * p.nmat + (p.nmat == 1 ? 0 : j));
      auto X = [&](int r) { return (long double)x[size_t(r * p.nrhs + j)]; };
      long double r = (long double)p.d[m] * X(i), a = std::fabs((double)p.d[m]);
      if (i > 0) { r += (long double)p.dl[m] * X(i - 1); a += std::fabs((double)p.dl[m]); }
      if (i + 1 < p.nrow) { r += (long double)p.du[m] * X(i + 1); a += std::fabs((double)p.du[m]); }
      const long double b = (long double)p.b[size_t(i * p.nrhs + j)], res = std::fabs((double)(r - b));
      const double scale = double(a) * xmax + std::fabs(double(b));
      if (!(res <= 2000 * eps * scale + 1e-30)) sim::fail("wrong-solution", "%s with a team of %d: %d rows, %d right-hand sides: row %d of solution %d is off by %g (scale %g)", sname(solver), team, p.nrow, p.nrhs, i, j, double(res), scale);
    }
    (void)bmax;
  }
}
inline bool rarely() { return sim::op(64) == 63; }         // something large
inline int some_rows() { if (rarely()) return sim::op_range(60, 700); int r = int(sim::op(4)); return r == 0 ? sim::op_range(1, 9) : r == 1 ? sim::op_range(1, 40) : r == 2 ? (1 << sim::op(6)) + int(sim::op(3)) : sim::op_range(1, 20); }

template <class DT, class XT, class Dev> void tri_correct(const Layout& L) {
  static const int sv[] = {CR_1X1, CR_1XM, CR_MXM, THOMAS_TEAM, THOMAS_TEAM_PACK, THOMAS_1X1, THOMAS_1XM, THOMAS_MXM, THOMAS_1XM_PACK, THOMAS_MXM_PACK, BFB_1, BFB_2, BFB_2_BCAST, BFB_1_PACK, BFB_2_PACK, CR_1XM, CR_MXM, CR_1X1, THOMAS_TEAM, THOMAS_TEAM_PACK};
  const int solver = sv[sim::op(20)];
  std::vector<Problem<DT, XT>> pr(static_cast<size_t>(L.league)); uint64_t s = sim::op64();
  // thomas divides in another order than the packed operations need: DT must convert to XT
  for (auto& p : pr) { int nr = some_rows(), m = one_rhs(solver) ? 1 : (rarely() ? sim::op_range(14, 80) : sim::op_range(1, sim::op(3) == 2 ? 13 : 5)); if (solver == BFB_2_BCAST) m = m + 1; p.make(nr, m, many(solver), s); }
  auto x = solve<DT, XT, Dev>(solver, pr, L.team);
  for (size_t k = 0; k < pr.size(); ++k) check_residual(solver, pr[k], x[k], L.team);
  if (sim::op(3) == 0) {
    auto y = solve<DT, XT, Dev>(solver, pr, L.team);
    for (size_t k = 0; k < pr.size(); ++k) if (memcmp(x[k].data(), y[k].data(), x[k].size() * sizeof(XT)) != 0) sim::fail("schedule-dependent", "%s with a team of %d gave different bits for the same system under two schedules", sname(solver), L.team);
  }
}
template <class XT, class Dev, class Ref> void tri_bfb(const Layout& L) {
  using DT = XT;
  static const int sv[] = {BFB_1, BFB_2, BFB_1_PACK, BFB_2_PACK, BFB_2_BCAST};
  const int solver = sv[sim::op(5)];
  std::vector<Problem<DT, XT>> pr(static_cast<size_t>(L.league)); uint64_t s = sim::op64();
  for (auto& p : pr) { int nr = some_rows(), m = (rarely() ? sim::op_range(14, 80) : sim::op_range(1, sim::op(3) == 2 ? 13 : 5)); if (solver == BFB_2_BCAST) ++m; p.make(nr, m, many(solver), s); }
  auto x = solve<DT, XT, Dev>(solver, pr, L.team);
  // reference: one thread, one right-hand side at a time, unpacked
  std::vector<Problem<DT, XT>> alone;
  for (auto& p : pr) for (int j = 0; j < p.nrhs; ++j) {
    Problem<DT, XT> q; q.nrow = p.nrow; q.nrhs = 1; q.nmat = 1;
    for (int i = 0; i < p.nrow; ++i) { const size_t m = size_t(i * p.nmat + (p.nmat == 1 ? 0 : j)); q.dl.push_back(p.dl[m]); q.d.push_back(p.d[m]); q.du.push_back(p.du[m]); q.b.push_back(p.b[size_t(i * p.nrhs + j)]); }
    alone.push_back(q);
  }
  const int rs = sim::op(2) ? BFB_1 : BFB_2;
  auto y = solve<DT, XT, Ref>(rs, alone, 1);
  size_t k = 0;
  for (size_t t = 0; t < pr.size(); ++t) for (int j = 0; j < pr[t].nrhs; ++j, ++k) for (int i = 0; i < pr[t].nrow; ++i) {
    const XT a = x[t][size_t(i * pr[t].nrhs + j)], b = y[k][size_t(i)];
    if (memcmp(&a, &b, sizeof a) != 0) sim::fail("not-bit-identical", "%s with a team of %d, %d rows, %d right-hand sides: row %d of solution %d is %.17g, but %.17g when solved alone by one thread", sname(solver), L.team, pr[t].nrow, pr[t].nrhs, i, j, double(a), double(b));
  }
  sim::count("bit-comparisons", k);
}

// --------------------------------------------------------------- reductions
struct RedCase { int len, begin, end, style; };           // style: 0 parallel_reduce, 1 view_reduction of a view, 2 of a functor
template <class S, int N, bool Ser, class Dev> struct RedKernel {
  using MT = typename Kokkos::TeamPolicy<Exe<Dev>>::member_type;
  std::vector<RedCase>* rc; S** data; S* out; int nred;      // out: [team][red][thread]
  void operator()(const MT& team) const {
    using U = ekat::ReductionUtils<Exe<Dev>, Ser>;
    for (int r = 0; r < nred; ++r) {
      const int q = team.league_rank() * nred + r; const RedCase& c = (*rc)[size_t(q)];
      S v;
      if (c.style == 0) { const S* p = data[q]; v = U::template parallel_reduce<S>(team, c.begin, c.end, [=](const int k, S& sum) { sum += p[k]; }); }
      else if (c.style == 3) {
        V1<S, Dev> view(data[q], size_t(c.len)); v = U::view_reduction(team, c.begin, c.end, view);
      } else {
        V1<ekat::Pack<S, N>, Dev> view((ekat::Pack<S, N>*)data[q], size_t((c.len + N - 1) / N));
        if (c.style == 1) v = U::view_reduction(team, c.begin, c.end, view);
        else v = U::view_reduction(team, c.begin, c.end, [&](const int k) -> ekat::Pack<S, N> { return view(k); });
      }
      out[q * team.team_size() + team.team_rank()] = v;
    }
  }
};
template <class S, int N, bool Ser, class Dev> void reductions(const Layout& L) {
  const int nred = sim::op_range(1, 4); uint64_t s = sim::op64();
  std::vector<RedCase> rc; std::vector<std::unique_ptr<Guarded<S>>> own; std::vector<S*> data; std::vector<char> exact;
  for (int q = 0; q < L.league * nred; ++q) {
    RedCase c; c.len = rarely() ? sim::op_range(100, 3000) : sim::op_range(1, sim::op(3) == 2 ? 60 : 14); c.begin = sim::op(2) ? 0 : int(sim::op(uint32_t(c.len + 1))); c.end = sim::op(2) ? c.len : c.begin + int(sim::op(uint32_t(c.len - c.begin + 1))); c.style = int(sim::op(4));
    if (c.begin > c.end) std::swap(c.begin, c.end);
    const int pad = (c.len + N - 1) / N * N; auto g = std::make_unique<Guarded<S>>(size_t(pad));
    const bool ex = sim::op(2), junk = sim::op(2);
    for (int i = 0; i < pad; ++i) (*g)[size_t(i)] = i >= c.begin && i < c.end ? (ex ? S(int(rnd(s) * 2000) - 1000) : any_value<S>(s)) : junk ? S(1048576.0 * (1 + i)) : std::numeric_limits<S>::quiet_NaN();
    rc.push_back(c); data.push_back(g->p()); own.push_back(std::move(g)); exact.push_back(ex);
  }
  std::vector<S> out(size_t(L.league * nred * L.team), S(-77777));
  Kokkos::parallel_for("reduce", Kokkos::TeamPolicy<Exe<Dev>>(L.league, L.team), RedKernel<S, N, Ser, Dev>{&rc, data.data(), out.data(), nred});
  sim::NoPreempt np;
  for (int q = 0; q < L.league * nred; ++q) {
    const RedCase& c = rc[size_t(q)]; S seq = S(0); long double sum = 0, mag = 0;
    for (int i = c.begin; i < c.end; ++i) { seq += data[size_t(q)][i]; sum += (long double)data[size_t(q)][i]; mag += std::fabs((double)data[size_t(q)][i]); }
    own[size_t(q)]->check("reduction");
    for (int t = 0; t < L.team; ++t) {
      const S v = out[size_t(q * L.team + t)], v0 = out[size_t(q * L.team)];
      if (memcmp(&v, &v0, sizeof v) != 0) sim::fail("threads-differ", "reduction over [%d,%d) of %d (packs of %d, style %d): thread %d of %d got %.17g and thread 0 %.17g", c.begin, c.end, c.len, c.style == 1 || c.style == 2 ? N : 1, c.style, t, L.team, double(v), double(v0));
      const bool ok = Ser ? v == seq : exact[size_t(q)] ? (long double)v == sum : std::fabs(double((long double)v - sum)) <= 4 * double(std::numeric_limits<S>::epsilon()) * double(c.end - c.begin + 2) * double(mag);
      if (!ok) sim::fail(Ser ? "not-sequential-sum" : "wrong-sum", "%s reduction over [%d,%d) of %d (packs of %d, style %d) with a team of %d: %.17g instead of %.17g", Ser ? "serialised" : "parallel", c.begin, c.end, c.len, c.style == 1 || c.style == 2 ? N : 1, c.style, L.team, double(v), Ser ? double(seq) : double(sum));
      if (Ser && !(c.begin == c.end) && memcmp(&v, &seq, sizeof v) != 0 && !(v == 0)) sim::fail("not-sequential-sum", "bits differ");
    }
    sim::count("reductions");
  }
}

// ------------------------------------------------------------ interpolation
struct LiCase { int mode; bool barrier; int rounds; bool setup_only_first; };
template <class S, int N, int SrcN, class Dev> struct LiKernel {
  using LI = ekat::LinInterp<S, N, Dev>; using MT = typename Kokkos::TeamPolicy<Exe<Dev>>::member_type;
  LI li; LiCase c; int ncol, w1, w2, km2p; S *x1, *x2, *y1, *y2; bool do_setup, do_interp; const int* perm;
  template <class T> void column(const MT& team, int col, T&& fn) const { (void)team; fn(col); }
  template <class E> V1<E, Dev> view(S* base, int col, int w) const { return V1<E, Dev>((E*)(base + size_t(col) * size_t(w)), size_t(w) * sizeof(S) / sizeof(E)); }
  template <class E> void go(const MT& team) const {
    using CE = const E;
    if (c.mode == 0) {                      // one column per team
      const int col = team.league_rank();
      if (do_setup) li.setup(team, view<E>(x1, col, w1), view<E>(x2, col, w2));
      if (c.barrier) team.team_barrier();
      if (do_interp) for (int r = 0; r < c.rounds; ++r) li.lin_interp(team, V1<CE, Dev>(view<E>(x1, col, w1)), V1<CE, Dev>(view<E>(x2, col, w2)), view<E>(y1 + size_t(r) * size_t(ncol) * size_t(w1), col, w1), view<E>(y2 + size_t(r) * size_t(ncol) * size_t(w2), col, w2));
    } else if (c.mode == 1) {               // one column per team, the column named
      const int col = perm[team.league_rank()];
      if (do_setup) li.setup(team, V1<CE, Dev>(view<E>(x1, col, w1)), view<E>(x2, col, w2), col);
      if (c.barrier) team.team_barrier();
      if (do_interp) for (int r = 0; r < c.rounds; ++r) li.lin_interp(team, view<E>(x1, col, w1), view<E>(x2, col, w2), V1<CE, Dev>(view<E>(y1 + size_t(r) * size_t(ncol) * size_t(w1), col, w1)), view<E>(y2 + size_t(r) * size_t(ncol) * size_t(w2), col, w2), col);
    } else if (c.mode == 2) {               // all columns by one team, a thread each
      Kokkos::parallel_for(Kokkos::TeamThreadRange(team, ncol), [&](const int col) {
        if (do_setup) li.setup(team, Kokkos::ThreadVectorRange(team, km2p), view<E>(x1, col, w1), view<E>(x2, col, w2), col);
        if (do_interp) for (int r = 0; r < c.rounds; ++r) li.lin_interp(team, Kokkos::ThreadVectorRange(team, km2p), view<E>(x1, col, w1), view<E>(x2, col, w2), view<E>(y1 + size_t(r) * size_t(ncol) * size_t(w1), col, w1), view<E>(y2 + size_t(r) * size_t(ncol) * size_t(w2), col, w2), col);
      });
    } else {                                // all columns by every team in turn (one team): the team shares each column
      for (int k = 0; k < ncol; ++k) { const int col = perm[k]; if (do_setup) li.setup(team, Kokkos::TeamVectorRange(team, km2p), view<E>(x1, col, w1), view<E>(x2, col, w2), col); }
      team.team_barrier();
      if (do_interp) Kokkos::parallel_for(Kokkos::TeamThreadRange(team, ncol), [&](const int col) {
        for (int r = 0; r < c.rounds; ++r) li.lin_interp(team, Kokkos::ThreadVectorRange(team, km2p), view<E>(x1, col, w1), view<E>(x2, col, w2), view<E>(y1 + size_t(r) * size_t(ncol) * size_t(w1), col, w1), view<E>(y2 + size_t(r) * size_t(ncol) * size_t(w2), col, w2), col);
      });
    }
  }
  void operator()(const MT& team) const { if constexpr (SrcN == 0) go<S>(team); else go<ekat::Pack<S, SrcN>>(team); }
};
template <class S, int N, int SrcN, class Dev> void interp(int max_team, bool gpu) {
  using K = LiKernel<S, N, SrcN, Dev>; using LI = typename K::LI;
  const int ncol = rarely() ? sim::op_range(6, 40) : sim::op_range(1, 5), km1 = rarely() ? sim::op_range(40, 400) : sim::op_range(2, sim::op(3) == 2 ? 40 : 10), km2 = rarely() ? sim::op_range(40, 400) : sim::op_range(1, sim::op(3) == 2 ? 40 : 10);
  constexpr int M = SrcN > N ? SrcN : N;
  const int w1 = (km1 + M - 1) / M * M, w2 = (km2 + M - 1) / M * M;
  LiCase c; c.mode = int(sim::op(4)); c.barrier = sim::op(2); c.rounds = sim::op_range(1, 3);
  const bool two_kernels = sim::op(2), own_policy = gpu ? sim::op(4) == 3 : sim::op(2);
  uint64_t s = sim::op64();
  Guarded<S> x1(size_t(ncol * w1)), x2(size_t(ncol * w2)), y1(size_t(c.rounds * ncol * w1)), y2(size_t(c.rounds * ncol * w2));
  const int pads = int(sim::op(3));         // what lies in the padding
  auto padding = [&](int i) { return pads == 0 ? S(0) : pads == 1 ? std::numeric_limits<S>::quiet_NaN() : S(-1000.0 - i); };
  std::vector<int> perm; for (int k = 0; k < ncol; ++k) perm.push_back(k);
  for (int k = ncol - 1; k > 0; --k) std::swap(perm[size_t(k)], perm[sim::op(uint32_t(k + 1))]);
  for (int k = 0; k < ncol; ++k) {
    double x = any_value<double>(s) * 4;
    for (int i = 0; i < w1; ++i) { x1[size_t(k * w1 + i)] = i < km1 ? S(x) : padding(i); x += 0.125 + rnd(s) * 2; }
    const double lo = double(x1[size_t(k * w1)]), hi = double(x1[size_t(k * w1 + km1 - 1)]);
    for (int i = 0; i < w2; ++i) {
      double v; const double t = rnd(s);
      if (t < 0.25) v = double(x1[size_t(k * w1 + int(rnd(s) * km1))]); else if (t < 0.35) v = lo - rnd(s); else if (t < 0.45) v = hi + rnd(s); else v = lo + rnd(s) * (hi - lo);
      x2[size_t(k * w2 + i)] = i < km2 ? S(v) : padding(i);
    }
    for (int r = 0; r < c.rounds; ++r) { for (int i = 0; i < w1; ++i) y1[size_t((r * ncol + k) * w1 + i)] = i < km1 ? S((rnd(s) - 0.5) * 100) : padding(i); }
  }
  for (size_t i = 0; i < size_t(c.rounds * ncol * w2); ++i) y2[i] = S(-999);
  std::vector<S> keep[3] = {std::vector<S>(x1.p(), x1.p() + ncol * w1), std::vector<S>(x2.p(), x2.p() + ncol * w2), std::vector<S>(y1.p(), y1.p() + c.rounds * ncol * w1)};
  LI li(ncol, km1, km2);
  const int league = c.mode >= 2 ? 1 : ncol;
  const int team = own_policy && c.mode < 2 ? li.policy().team_size() : sim::op_range(1, max_team);
  auto launch = [&](bool su, bool in) {
    K k{li, c, ncol, w1, w2, li.km2_pack(), x1.p(), x2.p(), y1.p(), y2.p(), su, in, perm.data()};
    if (own_policy && c.mode < 2) Kokkos::parallel_for("li", li.policy(), k); else Kokkos::parallel_for("li", Kokkos::TeamPolicy<Exe<Dev>>(league, team), k);
  };
  if (two_kernels) { launch(true, false); launch(false, true); } else launch(true, true);
  sim::NoPreempt np;
  x1.check("interpolation"); x2.check("interpolation"); y1.check("interpolation"); y2.check("interpolation");
  if (memcmp(keep[0].data(), x1.p(), keep[0].size() * sizeof(S)) || memcmp(keep[1].data(), x2.p(), keep[1].size() * sizeof(S)) || memcmp(keep[2].data(), y1.p(), keep[2].size() * sizeof(S))) sim::fail("input-changed", "interpolation changed its input");
  const double eps = std::numeric_limits<S>::epsilon();
  for (int r = 0; r < c.rounds; ++r) for (int k = 0; k < ncol; ++k) for (int i = 0; i < km2; ++i) {
    const S* X = x1.p() + k * w1; const S* Y = y1.p() + (r * ncol + k) * w1; const S t = x2[size_t(k * w2 + i)], got = y2[size_t((r * ncol + k) * w2 + i)];
    int a = 0; while (a + 2 < km1 && t >= X[a + 1]) ++a;
    const long double w = ((long double)t - X[a]) / ((long double)X[a + 1] - X[a]), want = (long double)Y[a] + w * ((long double)Y[a + 1] - Y[a]);
    const double tol = 200 * eps * (1 + std::fabs((double)w)) * (std::fabs((double)Y[a]) + std::fabs((double)Y[a + 1]) + 1) * (1 + std::max(std::fabs((double)X[a]), std::fabs((double)X[a + 1])) / (double(X[a + 1]) - double(X[a])));
    if (!(std::fabs(double((long double)got - want)) <= tol)) sim::fail("wrong-value", "interpolation (packs of %d from %d, %d columns, %d to %d levels, mode %d, team of %d): column %d, point %d: %.17g instead of %.17g", N, SrcN, ncol, km1, km2, c.mode, team, k, i, double(got), double(want));
  }
  sim::count("points-interpolated", uint64_t(c.rounds * ncol * km2));
}
}
#endif
