// Loggers over simulated ranks, threads, console and disk.
#include "ekat_logger.hpp"
#include "../sim/sim.hpp"
#include "../sim/rank_globals.hpp"
#include "../sim/sim_mpi.hpp"
#include "../sim/sim_disk.hpp"
#include "../sim/pthread_shim.hpp"
#include <algorithm>
#include <climits>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace {
using namespace ekat::logger;
using sim::NoPreempt;
enum FP { NOFILE, BASIC, BIG };
enum MP { ALL, ROOT };
const LogLevel LV[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical, spdlog::level::off};
const char* LN[] = {"trace", "debug", "info", "warning", "error", "critical", "off"};
const char* PATTERNS[] = {"", "%v", "[%l] %v", "%n|%v"};       // 0: left as it is by default
// "%v" is what set_no_format() is for, and what set_format() means by itself
template <class L> void set_pattern(L& l, int p) { const bool other = p == 1 && sim::op_chance(2, 3); if (!other) l.set_format(PATTERNS[p]); else if (sim::op(2)) l.set_no_format(); else l.set_format(); }

struct Mix { int max_ranks, max_threads, max_loggers; bool big, faults, crash; int phases; };

struct LoggerPlan { int fp, mp, src, level, pattern, color; std::string name, suffix; int flush_on; };
struct Cmd { enum K { LOG, FLUSH, SET_LOG, SET_CONSOLE, SET_FILE, CLOCK, PAUSE } k; int logger, level, size, how; };
struct Plan { int n, threads, phases; std::vector<LoggerPlan> lg; std::vector<int> color; uint64_t seed; bool split, stale; std::map<std::string, bool> files; };
Plan* P = nullptr; Mix M;

// ---------------------------------------------------------------- the model
struct Level {                            // a level, and what it may have been when
  struct E { uint64_t t; int lo, hi; }; std::vector<E> h;
  void init(int v) { h.assign(1, {0, v, v}); }
  int now() const { return h.back().hi; }
  void range(uint64_t a, uint64_t b, int& lo, int& hi) const { lo = 99; hi = -1; for (size_t i = 0; i < h.size(); ++i) if (h[i].t <= b && (i + 1 == h.size() || h[i + 1].t > a)) { lo = std::min(lo, h[i].lo); hi = std::max(hi, h[i].hi); } }
};
struct Sink { int old = 0; std::string where; bool file = false, null = false, big = false; Level level; std::vector<std::pair<uint64_t, int>> pattern; std::vector<int> loggers; };
struct Msg { int rank, thread, logger, level; uint64_t t0, t1; std::string text; bool flushed; };     // t1==0: still being logged
struct Flush { int sink; uint64_t t0, t1; };
struct LoggerModel { Level level; int csink, fsink; bool allowed; };
// what one rank did
struct Rank { std::vector<Sink> sinks; std::vector<LoggerModel> lg; std::vector<Msg> msgs; std::vector<Flush> flushes; };
struct World { std::vector<Rank> r; uint64_t clock = 0; };
World* W = nullptr;
// what a logger is called on a rank: groups of ranks use names of their own
std::string lname(int l, int r) { return P->lg[size_t(l)].name + (P->split ? std::string("_g") + char('0' + P->color[size_t(r)]) : std::string()); }
uint64_t tick() { return ++W->clock; }

// ------------------------------------------------------------- real loggers
struct Real { std::unique_ptr<LoggerBase> p; };
template <class F, class Mp> Logger<F, Mp>* as(LoggerBase* b) { return static_cast<Logger<F, Mp>*>(b); }
template <class F> std::unique_ptr<LoggerBase> make_f(const LoggerPlan& l, const ekat::Comm& c, LoggerBase* src, int src_mp) {
  const LogLevel lev = LV[l.level];
  if (!src) {
    if (l.mp == ALL) return l.suffix == "default" ? std::make_unique<Logger<F, LogAllRanks>>(l.name, lev, c) : std::make_unique<Logger<F, LogAllRanks>>(l.name, lev, c, l.suffix);
    return l.suffix == "default" ? std::make_unique<Logger<F, LogRootRank>>(l.name, lev, c) : std::make_unique<Logger<F, LogRootRank>>(l.name, lev, c, l.suffix);
  }
  if (l.mp == ALL) { if (src_mp == ALL) return std::make_unique<Logger<F, LogAllRanks>>(l.name, lev, c, *as<F, LogAllRanks>(src)); return std::make_unique<Logger<F, LogAllRanks>>(l.name, lev, c, *as<F, LogRootRank>(src)); }
  if (src_mp == ALL) return std::make_unique<Logger<F, LogRootRank>>(l.name, lev, c, *as<F, LogAllRanks>(src));
  return std::make_unique<Logger<F, LogRootRank>>(l.name, lev, c, *as<F, LogRootRank>(src));
}
std::unique_ptr<LoggerBase> make(const LoggerPlan& l, const ekat::Comm& c, LoggerBase* src, int src_mp) {
  switch (l.fp) { case NOFILE: return make_f<LogNoFile>(l, c, src, src_mp); case BASIC: return make_f<LogBasicFile>(l, c, src, src_mp); default: return make_f<LogBigFiles>(l, c, src, src_mp); }
}

// ------------------------------------------------------------------ checks
std::string where_console(int r) { return "<stdout " + std::to_string(r) + ">"; }
bool stamp(const std::string& s) {                 // "[2023-11-14 22:13:20.000] "
  static const char f[] = "[dddd-dd-dd dd:dd:dd.ddd] ";
  if (s.size() < 26) return false;
  for (int i = 0; i < 26; ++i) if (f[i] == 'd' ? !(s[size_t(i)] >= '0' && s[size_t(i)] <= '9') : s[size_t(i)] != f[i]) return false;
  return true;
}
std::string dress(const std::string& name, int level, const std::string& text, int pattern) {
  switch (pattern) { case 1: return text; case 2: return std::string("[") + LN[level] + "] " + text; case 3: return name + "|" + text; }
  return "[" + name + "] [" + LN[level] + "] " + text;          // after the time stamp
}
std::string cut(const std::string& s) { return s.size() <= 90 ? s : s.substr(0, 60) + "..." + s.substr(s.size() - 25) + " (" + std::to_string(s.size()) + " bytes)"; }
struct Expect { const Msg* m; int must, may; };      // must: appears; may: may appear
// Everything that may appear in one place (a file or a console), by its text.
struct Place { int old = 0; std::string name; std::vector<std::pair<int, int>> sinks; std::unordered_map<std::string, Expect> by_text; std::vector<Expect*> order; };
bool accepted(const Msg& m, const LoggerModel& l, const Sink& s, int& must, int& may) {
  int lo, hi, slo, shi; uint64_t t1 = m.t1 ? m.t1 : ~0ull;
  l.level.range(m.t0, t1, lo, hi); s.level.range(m.t0, t1, slo, shi);
  may = m.level >= lo && m.level >= slo; must = m.t1 && m.level >= hi && m.level >= shi;
  return may;
}
Place place(int r, int s0) {
  Rank& R = W->r[size_t(r)]; Place p; p.name = R.sinks[size_t(s0)].where; p.old = R.sinks[size_t(s0)].old;
  for (size_t s = 0; s < R.sinks.size(); ++s) if (R.sinks[s].where == p.name && !R.sinks[s].null) p.sinks.push_back({r, int(s)});
  for (auto& m : R.msgs) {
    const LoggerModel& l = R.lg[size_t(m.logger)];
    for (auto& rs : p.sinks) {
      const int s = rs.second; if (l.csink != s && l.fsink != s) continue;
      const Sink& S = R.sinks[size_t(s)]; int must, may;
      accepted(m, l, S, must, may);
      int pat = 0; for (auto& q : S.pattern) if (q.first <= m.t0) pat = q.second;
      auto e = p.by_text.emplace(dress(lname(m.logger, r), m.level, m.text, pat), Expect{&m, must, may});
      if (!e.second) sim::harness_error("two messages with the same text in one place");
    }
  }
  return p;
}
Expect* lookup(Place& p, const std::string& line) {
  auto i = p.by_text.find(line); if (i != p.by_text.end()) return &i->second;
  if (stamp(line)) { i = p.by_text.find(line.substr(26)); if (i != p.by_text.end()) return &i->second; }
  return nullptr;
}
// The lines of a place against the messages. torn: lines that may be damaged (faults).
// tail: a last unfinished line is allowed. lossy: messages before a loss may be missing.
struct Seen { int old = 0; std::vector<Expect*> lines; int torn = 0; std::string tail; };
Seen parse(Place& p, const std::string& c, bool tail_ok, bool torn_ok) {
  Seen s; size_t a = 0; std::map<const Msg*, int> n;
  while (a < c.size()) {
    size_t b = c.find('\n', a);
    const bool last = b == std::string::npos;
    std::string line = c.substr(a, last ? std::string::npos : b - a); a = last ? c.size() : b + 1;
    if (line.compare(0, 5, "<old ") == 0) {          // of an earlier run
      size_t e = line.find('>'); int k = atoi(line.c_str() + 5);
      if (!p.old) sim::fail("stale-line", "%s contains lines of an earlier run", p.name.c_str());
      if (!s.lines.empty() || (s.old && k != s.old + 1)) sim::fail("order", "%s has the lines of an earlier run out of order", p.name.c_str());
      s.old = k; line.erase(0, e + 1); if (line.empty()) continue;
    }
    if (last) { s.tail = line; if (!tail_ok && !torn_ok) sim::fail("unfinished-line", "%s ends in an unfinished line: '%s'", p.name.c_str(), cut(s.tail).c_str()); break; }
    Expect* e = lookup(p, line);
    if (!e) { if (torn_ok) { ++s.torn; continue; } sim::fail("garbled-line", "%s contains a line that is no message: '%s'", p.name.c_str(), cut(line).c_str()); }
    if (!e->may) sim::fail("rejected-message", "%s contains message '%s' (level %s) which is below the level of its logger or of the sink", p.name.c_str(), cut(e->m->text).c_str(), LN[e->m->level]);
    if (n[e->m]++) sim::fail("repeated-message", "%s contains message '%s' more than once", p.name.c_str(), cut(e->m->text).c_str());
    s.lines.push_back(e);
  }
  // order: what was finished before another was begun comes first
  uint64_t latest = 0; const Msg* lm = nullptr;
  for (auto* e : s.lines) { if (e->m->t1 && e->m->t1 < latest) sim::fail("order", "%s has message '%s' after message '%s', which was begun after the first had been logged", p.name.c_str(), cut(e->m->text).c_str(), cut(lm->text).c_str()); if (e->m->t0 > latest) { latest = e->m->t0; lm = e->m; } }
  return s;
}
std::string joined(const std::string& name, bool big, std::vector<uint64_t>* sizes = nullptr) {
  if (!big) { if (sizes) sizes->push_back(simdisk::size(name)); return simdisk::content(name); }
  // name.ext, name.1.ext, ...: the oldest has the highest number
  std::string base = name, ext; size_t dot = name.rfind('.'); if (dot != std::string::npos && dot != 0 && dot + 1 != name.size()) { base = name.substr(0, dot); ext = name.substr(dot); }
  std::string c;
  for (int i = 40; i >= 0; --i) { std::string f = i ? base + "." + std::to_string(i) + ext : name; if (simdisk::exists(f)) { c += simdisk::data(f); if (sizes) sizes->push_back(simdisk::size(f)); } }
  return c;
}
constexpr uint64_t FILE_MAX = 8ull << 20;
// All places of a rank at the end of a run without disk faults: exactly what was accepted.
void check_exact(int r) {
  Rank& R = W->r[size_t(r)]; std::map<std::string, bool> done;
  for (size_t s = 0; s < R.sinks.size(); ++s) {
    Sink& S = R.sinks[s]; if (S.null || done[S.where]) continue; done[S.where] = true;
    Place p = place(r, int(s)); std::vector<uint64_t> sizes;
    const std::string c = S.file ? joined(S.where, S.big, &sizes) : simdisk::content(S.where);
    Seen n = parse(p, c, false, false); std::map<const Msg*, bool> have; for (auto* e : n.lines) have[e->m] = true;
    // a rotating file may have dropped its oldest lines, but only if it is full
    uint64_t big = 0; for (auto& x : p.by_text) big = std::max<uint64_t>(big, x.first.size() + 27);
    bool rotated = S.big && sizes.size() > 1; const bool dropping = S.big && c.size() >= 4 * (FILE_MAX - big) && sizes.size() >= 5;
    if (S.big) for (auto z : sizes) if (z > std::max(FILE_MAX, big)) sim::fail("file-too-big", "a rotating log file has %llu bytes", (unsigned long long)z);
    if (S.big) for (size_t q = 0; q + 1 < sizes.size(); ++q) if (sizes[q] + big < FILE_MAX) sim::fail("rotated-early", "a rotating log file was set aside with only %llu bytes", (unsigned long long)sizes[q]);
    if (S.big && sizes.size() > 6) sim::fail("too-many-files", "%zu log files", sizes.size());
    if (S.old && n.old != S.old && !dropping) sim::fail("lost-message", "%s has %d of the %d lines that were in it when logging began", S.where.c_str(), n.old, S.old);
    uint64_t first_kept = ~0ull; for (auto* e : n.lines) first_kept = std::min(first_kept, e->m->t1);
    for (auto& x : p.by_text) if (x.second.must && !have.count(x.second.m)) {
      if (dropping && x.second.m->t0 <= first_kept) continue;
      sim::fail("lost-message", "%s lacks message '%s' (level %s)%s", S.where.c_str(), cut(x.second.m->text).c_str(), LN[x.second.m->level], rotated ? " after rotations" : "");
    }
    if (rotated) sim::count("rotated-files", sizes.size() - 1);
    sim::count("places-checked"); sim::count("lines-checked", n.lines.size());
  }
}
// What would be found after a crash now.
void check_crash(int r, uint64_t now, bool faults) {
  Rank& R = W->r[size_t(r)];
  for (size_t s = 0; s < R.sinks.size(); ++s) {
    Sink& S = R.sinks[s]; if (S.null || !S.file) continue;
    Place p = place(r, int(s)); std::vector<uint64_t> sizes; const std::string c = joined(S.where, S.big, &sizes);
    Seen n = parse(p, c, true, faults); std::map<const Msg*, bool> have; for (auto* e : n.lines) have[e->m] = true;
    if (faults) continue;
    // the tail is the beginning of some message that was not complete on disk yet
    const Msg* tm = nullptr;
    if (!n.tail.empty()) {
      bool ok = n.tail.size() <= 26; for (auto& x : p.by_text) { auto pre = [&](const std::string& t) { return t.size() <= x.first.size() && x.first.compare(0, t.size(), t) == 0; }; if ((pre(n.tail) || (n.tail.size() > 26 && stamp(n.tail) && pre(n.tail.substr(26)))) && !have.count(x.second.m) && x.second.may) { ok = true; if (n.tail.size() >= 40 && (!tm || x.second.m->t0 < tm->t0)) tm = x.second.m; } }
      if (!ok) sim::fail("garbled-line", "after a crash %s ends in '%s', which is no beginning of a message", S.where.c_str(), cut(n.tail).c_str());
    }
    uint64_t big = 0; for (auto& x : p.by_text) big = std::max<uint64_t>(big, x.first.size() + 27);
    const bool dropping = S.big && c.size() + 2 * big + FILE_MAX >= 4 * (FILE_MAX - big) && sizes.size() >= 4;      // the newest file may just have been started
    uint64_t first_kept = ~0ull, last_begun = 0; for (auto* e : n.lines) { first_kept = std::min(first_kept, e->m->t1 ? e->m->t1 : now); last_begun = std::max(last_begun, e->m->t0); }
    if (tm) last_begun = std::max(last_begun, tm->t0);
    uint64_t flushed = 0; for (auto& f : R.flushes) if (f.sink == int(s) && f.t1) flushed = std::max(flushed, f.t0);
    for (auto& x : p.by_text) {
      const Msg& m = *x.second.m; if (!x.second.must || have.count(&m)) continue;
      if (dropping && m.t0 <= first_kept) continue;
      if (m.t1 < flushed || m.flushed) sim::fail("flushed-message-lost", "a crash loses message '%s' of %s, which had been flushed", cut(m.text).c_str(), S.where.c_str());
      if (m.t1 < last_begun) sim::fail("hole", "after a crash %s lacks message '%s' but has a later one", S.where.c_str(), cut(m.text).c_str());
    }
    sim::count("crash-images-checked");
  }
}

// --------------------------------------------------------------------- runs
std::string text_of(int r, int t, uint64_t k, int size) {
  std::string s = "<" + std::to_string(r) + "." + std::to_string(t) + "." + std::to_string(k) + ":";
  uint64_t x = sim::mix(P->seed, k * 977 + uint64_t(t) * 31 + uint64_t(r));
  static const char abc[] = "abcdefghijklmnopqrstuvwxyz {}%[]|0123456789";
  if (size > 5000) { const char ch = abc[x % 26]; s.append(size_t(size), ch); } else for (int i = 0; i < size; ++i) { x = sim::mix(x, uint64_t(i)); s += abc[x % (sizeof abc - 1)]; }
  return s + ">";
}
void set_level(int r, Level& l, int v, const std::function<void()>& call) {
  { NoPreempt np; int o = l.now(); l.h.push_back({tick(), std::min(o, v), std::max(o, v)}); }
  call();
  NoPreempt np; l.h.push_back({tick(), v, v});
}
void do_log(int r, int t, uint64_t& k, const Cmd& c, LoggerBase& lg) {
  size_t idx; std::string text; bool flushes; int fs = -1, cs = -1; uint64_t f0 = 0; 
  {
    NoPreempt np; Rank& R = W->r[size_t(r)]; text = text_of(r, t, k++, c.size);
    R.msgs.push_back({r, t, c.logger, c.level, tick(), 0, text, false}); idx = R.msgs.size() - 1; f0 = R.msgs[idx].t0;
  }
  const LogLevel lev = LV[c.level];
  try {
    switch (c.how) {
      case 0: lg.log(lev, text); break;
      case 1: lg.log(lev, "{}", text); break;
      case 2: lg.log(lev, "{}{}{}", text.substr(0, 2), text[2], text.substr(3)); break;
      case 3: switch (c.level) { case 0: lg.trace(text); break; case 1: lg.debug(text); break; case 2: lg.info(text); break; case 3: lg.warn(text); break; case 4: lg.error(text); break; default: lg.critical(text); } break;
      default: switch (c.level) { case 0: lg.trace("{}", text); break; case 1: lg.debug("{}", text); break; case 2: lg.info("{}", text); break; case 3: lg.warn("{}", text); break; case 4: lg.error("{}", text); break; default: lg.critical("{}", text); }
    }
  } catch (const std::exception& e) { sim::fail("logging-throws", "logging a message threw: %s", e.what()); }
  NoPreempt np; Rank& R = W->r[size_t(r)]; Msg& m = R.msgs[idx]; m.t1 = tick(); (void)fs; (void)cs;
  const auto& lp = P->lg[size_t(c.logger)]; int lo, hi; R.lg[size_t(c.logger)].level.range(m.t0, m.t1, lo, hi);
  flushes = lp.flush_on < 6 && c.level >= lp.flush_on && c.level >= hi && !M.faults;
  if (flushes) { R.flushes.push_back({R.lg[size_t(c.logger)].fsink, f0, m.t1}); m.flushed = true; }      // it covers what was logged before, and itself
  sim::count("messages");
}
Cmd draw_cmd(bool changes) {
  Cmd c; uint32_t k = sim::op(M.faults || M.crash ? 12u : 16u); c.k = Cmd::LOG;
  if (M.crash || M.faults) { if (k == 11) c.k = Cmd::FLUSH; else if (k == 10) c.k = Cmd::CLOCK; }
  else if (k == 15) c.k = Cmd::FLUSH; else if (k == 14) c.k = Cmd::CLOCK;
  if (changes) { uint32_t q = sim::op(6); if (q >= 3) c.k = Cmd::K(Cmd::SET_LOG + q - 3); }
  c.logger = int(sim::op(uint32_t(P->lg.size()))); c.level = c.k == Cmd::LOG ? int(sim::op(6)) : int(sim::op(7));
  const auto& l = P->lg[size_t(c.logger)];
  if (l.fp == BIG && M.big) c.size = sim::op(3) ? (100 << 10) + int(sim::op(1500 << 10)) : int(sim::op(300));
  else c.size = sim::op(8) == 7 ? int(sim::op(M.faults || M.crash ? 9000 : 3000)) : int(sim::op(80));
  c.how = int(sim::op(5));
  return c;
}
void execute(int r, int t, uint64_t& k, const Cmd& c, std::vector<std::unique_ptr<LoggerBase>>& lg) {
  LoggerBase& L = *lg[size_t(c.logger)];
  Rank& R = W->r[size_t(r)];
  switch (c.k) {
    case Cmd::LOG: do_log(r, t, k, c, L); break;
    case Cmd::FLUSH: { size_t i; { NoPreempt np; R.flushes.push_back({R.lg[size_t(c.logger)].fsink, tick(), 0}); i = R.flushes.size() - 1; } try { L.flush(); } catch (const std::exception& e) { sim::fail("logging-throws", "flushing threw: %s", e.what()); } NoPreempt np; R.flushes[i].t1 = M.faults ? 0 : tick(); break; }
    case Cmd::SET_LOG: if (R.lg[size_t(c.logger)].allowed) set_level(r, R.lg[size_t(c.logger)].level, c.level, [&] { L.set_log_level(LV[c.level]); }); else L.set_log_level(LV[c.level]); sim::count("level-changes"); break;
    case Cmd::SET_CONSOLE: set_level(r, R.sinks[size_t(R.lg[size_t(c.logger)].csink)].level, c.level, [&] { L.set_console_level(LV[c.level]); }); sim::count("level-changes"); break;
    case Cmd::SET_FILE: set_level(r, R.sinks[size_t(R.lg[size_t(c.logger)].fsink)].level, c.level, [&] { L.set_file_level(LV[c.level]); }); sim::count("level-changes"); break;
    case Cmd::CLOCK: if (sim::fault("clock-jump", 1, 2)) simpt::clock_offset += (int64_t(sim::draw(sim::FAULT, 2000001)) - 1000000) * 1000000; break;
    default: break;
  }
}
bool allowed(int mp, const ekat::Comm& c) { return mp == ALL || c.rank() == 0; }
// Build the loggers of a rank and the model of them.
void build(int r, const ekat::Comm& comm, std::vector<std::unique_ptr<LoggerBase>>& lg) {
  Rank& R = W->r[size_t(r)];
  for (size_t i = 0; i < P->lg.size(); ++i) {
    LoggerPlan l; { NoPreempt np; l = P->lg[i]; l.name = lname(int(i), r); }
    const bool ok = allowed(l.mp, comm);
    std::string name; int old = 0;
    if (l.src < 0) {
      NoPreempt np; name = l.mp == ALL ? l.name + "." + std::to_string(comm.size()) + "." + std::to_string(comm.rank()) : l.name;
      name += l.suffix == "default" ? ".log" : l.suffix;
      // what an earlier run left behind; its last line may be unfinished
      if (P->stale && ok && l.fp != NOFILE) { old = 1 + int(sim::op(5)); std::string d; for (int q = 1; q <= old; ++q) d += "<old " + std::to_string(q) + (sim::op(2) ? " abcd" : "") + (q == old && sim::op(2) ? ">" : ">\n"); simdisk::put(name, d); if (l.fp == BASIC) old = 0; }
    }
    auto p = make(l, comm, l.src >= 0 ? lg[size_t(l.src)].get() : nullptr, l.src >= 0 ? P->lg[size_t(l.src)].mp : 0);
    {
      NoPreempt np; LoggerModel m; m.allowed = ok; m.level.init(ok ? l.level : 6);
      if (l.src >= 0) { m.csink = R.lg[size_t(l.src)].csink; m.fsink = R.lg[size_t(l.src)].fsink; }
      else {
        Sink c; c.where = where_console(r); c.level.init(ok ? l.level : 0); R.sinks.push_back(c); m.csink = int(R.sinks.size() - 1);
        Sink f; f.file = true; f.null = !ok || l.fp == NOFILE; f.big = l.fp == BIG; f.level.init(ok ? l.level : 6);
        f.where = f.null ? "" : name; f.old = old;
        if (!f.null) { P->files[name] = true; if (f.big) { std::string b = name, e; size_t dot = name.rfind('.'); if (dot != std::string::npos && dot && dot + 1 != name.size()) { b = name.substr(0, dot); e = name.substr(dot); } for (int q = 1; q <= 5; ++q) P->files[b + "." + std::to_string(q) + e] = true; } }
        R.sinks.push_back(f); m.fsink = int(R.sinks.size() - 1);
        if (p->get_logfile_name() != (l.fp == NOFILE ? std::string() : name)) sim::fail("wrong-name", "the log file is called '%s', not '%s'", p->get_logfile_name().c_str(), name.c_str());
        R.sinks[size_t(m.csink)].pattern.push_back({0, 0}); R.sinks[size_t(m.fsink)].pattern.push_back({0, 0});
      }
      R.lg.push_back(m);
    }
    if (l.pattern) { set_pattern(*p, l.pattern); NoPreempt np; uint64_t t = tick(); R.sinks[size_t(R.lg[i].csink)].pattern.push_back({t, l.pattern}); R.sinks[size_t(R.lg[i].fsink)].pattern.push_back({t, l.pattern}); }
    if (l.flush_on < 6) p->flush_on(LV[l.flush_on]);
    lg.push_back(std::move(p));
    if (int(lg.back()->log_level()) != R.lg[i].level.now() || int(lg.back()->file_level()) != R.sinks[size_t(R.lg[i].fsink)].level.now() || (ok && int(lg.back()->console_level()) != R.sinks[size_t(R.lg[i].csink)].level.now())) sim::fail("wrong-level", "logger %zu starts with levels %d, %d, %d", i, int(lg.back()->log_level()), int(lg.back()->console_level()), int(lg.back()->file_level()));
  }
}
void thread_body(int r, int t, std::vector<std::unique_ptr<LoggerBase>>* lg, std::vector<Cmd> prog, uint64_t* k) { for (auto& c : prog) execute(r, t, *k, c, *lg); }

// crash images: taken before drawn disk operations
int crash_left = 0; uint64_t crash_next = 0;
void plan_crash() { crash_next = simdisk::ops() + 1 + sim::draw(sim::FAULT, sim::draw(sim::FAULT, 2) ? 6u : 60u); }
void at_op() { if (crash_left > 0 && simdisk::ops() >= crash_next) { --crash_left; plan_crash(); sim::fault_count("crash"); NoPreempt np; uint64_t now = tick(); for (size_t r = 0; r < W->r.size(); ++r) check_crash(int(r), now, M.faults); } }

void rank_body(int r) {
  simmpi::set_rank(r);
  ekat::Comm world(MPI_COMM_WORLD), comm = world;
  if (P->split) comm = world.split(P->color[size_t(r)]);
  std::vector<std::unique_ptr<LoggerBase>> lg;
  std::unique_ptr<Plan> mine;
  build(r, comm, lg);
  std::vector<uint64_t> k(size_t(P->threads + 1), 0);
  for (int ph = 0; ph < P->phases; ++ph) {
    std::vector<int> ids; const int each = 1 + int(sim::op(M.big ? 14 : 8));
    for (int t = 1; t <= P->threads; ++t) { std::vector<Cmd> prog; for (int i = 0; i < each; ++i) prog.push_back(draw_cmd(false)); ids.push_back(sim::spawn("thread", [=, &lg, &k] { thread_body(r, t, &lg, prog, &k[size_t(t)]); }, r)); }
    const int mine_n = int(sim::op(6)); for (int i = 0; i < mine_n; ++i) execute(r, 0, k[0], draw_cmd(!M.faults && !M.crash), lg);
    sim::join(ids);
    if (!M.faults && sim::op(4) == 3) {      // another format from here on
      const int l = int(sim::op(uint32_t(lg.size()))), p = 1 + int(sim::op(3)); set_pattern(*lg[size_t(l)], p);
      NoPreempt np; uint64_t t = tick(); Rank& R = W->r[size_t(r)]; R.sinks[size_t(R.lg[size_t(l)].csink)].pattern.push_back({t, p}); R.sinks[size_t(R.lg[size_t(l)].fsink)].pattern.push_back({t, p});
    }
  }
  if (M.faults) {
    // the disk is well again: what is logged from here on must arrive whole
    size_t from; std::vector<std::string> before;
    { NoPreempt np; simdisk::heal(); }
    for (size_t i = 0; i < lg.size(); ++i) { lg[i]->flush(); Cmd c{Cmd::LOG, int(i), 5, 8, 0}; do_log(r, 0, k[0], c, *lg[i]); lg[i]->flush(); }
    { NoPreempt np; from = W->r[size_t(r)].msgs.size(); }
    for (size_t i = 0; i < lg.size(); ++i) for (int q = 0; q < 3; ++q) { Cmd c{Cmd::LOG, int(i), 5, 20 + q * 50, q}; do_log(r, 0, k[0], c, *lg[i]); }
    for (auto& l : lg) l->flush();
    NoPreempt np; Rank& R = W->r[size_t(r)];
    for (size_t s = 0; s < R.sinks.size(); ++s) {
      Sink& S = R.sinks[s]; if (S.null || !S.file) continue;
      Place p = place(r, int(s)); Seen n = parse(p, joined(S.where, S.big), false, true); std::map<const Msg*, bool> have; for (auto* e : n.lines) have[e->m] = true;
      if (uint64_t(n.torn) > 2 * simdisk::failed()) sim::fail("garbled-lines", "%s has %d damaged lines after %llu failed disk operations", S.where.c_str(), n.torn, (unsigned long long)simdisk::failed());
      for (auto& x : p.by_text) if (x.second.must && !have.count(x.second.m) && x.second.m >= &R.msgs[from]) sim::fail("not-logged-after-recovery", "%s lacks message '%s', logged after the disk had recovered", S.where.c_str(), cut(x.second.m->text).c_str());
      if (simdisk::failed() == 0) for (auto& x : p.by_text) if (x.second.must && !have.count(x.second.m) && !S.big) sim::fail("lost-message", "%s lacks message '%s' though no disk operation failed", S.where.c_str(), cut(x.second.m->text).c_str());
      sim::count("recoveries-checked");
    }
  }
  lg.clear();
}
void make_plan() {
  P->n = M.max_ranks > 2 && sim::op(80) == 79 ? sim::op_range(5, 14) : sim::op_range(1, M.max_ranks); P->threads = sim::op_range(1, M.max_threads); P->phases = sim::op_range(1, M.phases); P->seed = sim::op64();
  P->stale = !M.faults && sim::op(3) == 2; P->split = P->n > 1 && sim::op(3) == 2; for (int r = 0; r < P->n; ++r) P->color.push_back(int(sim::op(2)));
  const int n = sim::op(60) == 59 ? sim::op_range(4, 9) : sim::op_range(1, M.max_loggers);
  for (int i = 0; i < n; ++i) {
    LoggerPlan l; l.fp = int(sim::op(3)); if ((M.faults || M.crash) && l.fp == NOFILE) l.fp = BASIC; l.mp = int(sim::op(2)); l.src = -1; l.level = int(sim::op(sim::op(3) ? 3 : 7)); l.pattern = int(sim::op(4)); l.flush_on = sim::op(2) ? 6 : int(sim::op(7)); l.color = 0;
    static const char* sfx[] = {"default", ".log", "", ".txt", ".out.log"}; l.suffix = sfx[sim::op(5)];
    if (M.faults) l.level = 0;
    l.name = "sd_log" + std::to_string(i); if (sim::op(4) == 3) l.name = "sd_dir/" + l.name;
    std::vector<int> same; for (int j = 0; j < i; ++j) if (P->lg[size_t(j)].fp == l.fp) same.push_back(j);
    if (!same.empty() && sim::op(2)) l.src = same[sim::op(uint32_t(same.size()))];
    P->lg.push_back(l);
  }
}
void (*chain_in)(int, int) = nullptr; void (*chain_out)(int, int) = nullptr; FILE* std_out = nullptr; FILE* std_err = nullptr; std::vector<FILE*>* consoles = nullptr;
void sw_in(int t, int g) { if (g >= 0) { stdout = (*consoles)[size_t(g)]; stderr = (*consoles)[size_t(g) + consoles->size() / 2]; } if (chain_in) chain_in(t, g); }
void sw_out(int t, int g) { if (chain_out) chain_out(t, g); stdout = std_out; stderr = std_err; }
}
// lives outside of the ranks' own data
void run(const Mix& m) {
  M = m; P = new Plan; W = new World; make_plan(); W->r.resize(size_t(P->n));
  for (auto& r : W->r) { r.sinks.reserve(128); r.msgs.reserve(9000); r.flushes.reserve(9000); r.lg.reserve(64); }
  simmpi::Config mc; mc.nranks = P->n; mc.delays = false; simmpi::begin(mc);
  simdisk::Config dc; dc.max_open_failures = 4; dc.max_rename_failures = 1;
  const bool slow = sim::op(2); if (slow || m.faults) { dc.den = 200; dc.slow = slow ? 20 : 0; dc.split = slow || m.faults ? 20 : 0; }
  simdisk::begin(dc); simpt::begin();
  if (P->split) for (auto& l : P->lg) l.mp = ALL;      // roots of sub-communicators would share a file
  std_out = stdout; std_err = stderr; consoles = new std::vector<FILE*>;
  for (int r = 0; r < P->n; ++r) consoles->push_back(simdisk::stream(where_console(r)));
  for (int r = 0; r < P->n; ++r) consoles->push_back(simdisk::stream("<stderr " + std::to_string(r) + ">"));
  if (m.crash) { crash_left = 1 + int(sim::draw(sim::FAULT, 6)); simdisk::before_op = nullptr; plan_crash(); }
  sim::rank_globals("_ranks.so", P->n);
  chain_in = sim::switch_in_hook; chain_out = sim::switch_out_hook; sim::switch_in_hook = sw_in; sim::switch_out_hook = sw_out;
  if (m.crash) simdisk::before_op = at_op;
  if (m.faults) {
    // loggers are built on a healthy disk: that a file cannot be opened is reported to the caller by an exception
    simdisk::Config f = dc; f.den = 400; f.write = sim::draw(sim::FAULT, 2) ? 40 : 0; f.full = sim::draw(sim::FAULT, 2) ? 20 : 0; f.split = 40; f.open = 30; f.rename = 30; f.remove = 30; f.close = 30; simdisk::set(f);
  }
  for (int r = 0; r < P->n; ++r) sim::spawn("rank", [=] { rank_body(r); }, r);
  sim::join_all();
  simdisk::before_op = nullptr;
  if (!m.faults) for (int r = 0; r < P->n; ++r) check_exact(r);
  for (auto& f : simdisk::list()) if (!P->files.count(f)) sim::fail("unexpected-file", "a file called '%s' was made", f.c_str());
  for (int r = 0; r < P->n; ++r) if (W->r[size_t(r)].sinks.empty() && simdisk::size(where_console(r))) sim::fail("output-on-silent-rank", "rank %d wrote to its console", r);
  if (simdisk::any_open()) sim::fail("file-left-open", "a log file is still open after its loggers are gone");
  simdisk::end();
  for (auto* f : *consoles) fclose(f);
  delete consoles; delete P; delete W; P = nullptr; W = nullptr;
}
namespace {
void c15() { Mix m{4, 3, 3, false, false, false, 3}; if (sim::op(24) == 23) { m.big = true; m.max_ranks = 2; } run(m); }
void c16() {
  Mix m{1, 3, 2, sim::op(10) == 9, false, true, 3}; const uint32_t k = sim::op(3);
  if (k == 1) { m.faults = true; m.crash = false; } else if (k == 2) { m.faults = true; }
  run(m);
}
const char* REAL = "ekat::logger (Logger, policies), ekat::Comm, spdlog (header-only build), fmt, the C library's stdio";
const char* STUB = "disk and consoles (in memory, below stdio), mutexes, clock and sleeping, MPI library, threads";
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"logger", 1, nullptr, nullptr, {{"C15", c15, REAL, STUB}, {"C16", c16, REAL, STUB}}};
