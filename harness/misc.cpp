// Error reporting, floating-point traps and object factories, in simulated threads.
#include "ekat_assert.hpp"
#include "ekat_fpe.hpp"
#include "ekat_factory.hpp"
#include "ekat_string_utils.hpp"
#include "../sim/sim.hpp"
#include "../sim/pthread_shim.hpp"
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>

namespace {
using sim::NoPreempt;

// ------------------------------------------------------- C21: assertions
struct Named : std::runtime_error { explicit Named(const std::string& s) : std::runtime_error(s) {} };
struct Plain { int tag = 77; };                                  // only default constructible
struct Odd { Odd(int, int) {} };                                 // not constructible by the library
struct Foreign { int n; };
enum Kind { K_RUNTIME, K_LOGIC, K_NAMED, K_PLAIN, K_ODD, K_FOREIGN };
struct Pending { Kind k; std::string msg, cond, place; int foreign = 0; };
struct Thread {
  std::vector<Pending> flying;      // errors thrown by this thread and not caught yet, innermost last
  bool warned = false; int n = 0, thrown = 0, suppressed = 0; std::string err;
};
bool err_broken = false, err_ever_broken = false;
Thread* me() { return (Thread*)sim::local(sim::LOCAL_USER); }
struct ErrBuf : std::streambuf {
  int overflow(int c) override { if (err_broken) { sim::fault_count("stderr-fails"); return EOF; } char ch = char(c); return xsputn(&ch, 1) == 1 ? c : EOF; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (err_broken) { sim::fault_count("stderr-fails"); return 0; } if (Thread* t = me()) { { NoPreempt np; t->err.append(s, size_t(n)); } sim::yield(); } return n; }
  int sync() override { return err_broken ? -1 : 0; }
};
#define STR2(x) #x
#define STR(x) STR2(x)
// what a failing requirement must do here; returns with the expectation recorded
void before(Thread& t, Kind k, const std::string& msg, const char* cond, int line) {
  NoPreempt np; t.err.clear(); 
  if (t.flying.empty()) { t.flying.push_back({k, msg, cond, "misc.cpp:" + std::to_string(line)}); ++t.thrown; t.warned = false; }
}
void after(Thread& t, bool expected, const std::string& msg) {       // it did not throw
  NoPreempt np;
  if (expected) sim::fail("not-thrown", "a failed requirement ('%s') outside any unwinding did not throw", msg.c_str());
  ++t.suppressed; sim::count("suppressed-errors");
  if (!t.warned && !err_ever_broken) { if (t.err.find(msg) == std::string::npos) sim::fail("not-warned", "an error during unwinding was suppressed without a warning that gives its message '%s' (got '%s')", msg.c_str(), t.err.substr(0, 200).c_str()); t.warned = true; sim::count("warnings-seen"); }
  else if (t.warned && !err_ever_broken && !t.err.empty()) sim::fail("warned-again", "an error during unwinding was reported although the thread had reported one since it last threw: '%s'", t.err.substr(0, 200).c_str());
}
#define FAILING(KIND, COND, STMT) { const bool expected = t.flying.empty(); before(t, KIND, msg, COND, __LINE__); STMT; after(t, expected, msg); break; }
void fail_some(Thread& t) {
  std::string msg; int ten; { NoPreempt np; msg = "message " + std::to_string(++t.n) + " of task " + std::to_string(sim::self()); ten = 10; }
  int evals = 0;
  switch (sim::op(9)) {
    case 0: FAILING(K_RUNTIME, "ten == 11", EKAT_REQUIRE_MSG(ten == 11, msg))
    case 1: FAILING(K_RUNTIME, "ten < 0", EKAT_REQUIRE_MSG(ten < 0, msg << " and more"))
    case 2: FAILING(K_LOGIC, "ten > 11", EKAT_REQUIRE(ten > 11, msg, std::logic_error))
    case 3: FAILING(K_NAMED, "evals++ > 5", EKAT_REQUIRE(evals++ > 5, msg, Named))
    case 4: FAILING(K_PLAIN, "ten == 12", EKAT_REQUIRE(ten == 12, msg, Plain))
    case 5: FAILING(K_ODD, "ten == 13", EKAT_REQUIRE(ten == 13, msg, Odd))
    case 6: FAILING(K_RUNTIME, "", EKAT_ERROR_MSG(msg))
    case 7: { const bool expected = t.flying.empty(); before(t, K_RUNTIME, "", "ten == 14", __LINE__); EKAT_REQUIRE(ten == 14); after(t, expected, ""); break; }
    default:
#ifndef NDEBUG
      FAILING(K_RUNTIME, "ten == 15", EKAT_ASSERT_MSG(ten == 15, msg))
#else
      EKAT_ASSERT_MSG(evals++ == 15, msg); if (evals) sim::fail("evaluated", "a disabled assertion evaluated its condition"); break;
#endif
  }
  if (evals > 1) sim::fail("evaluated", "the condition was evaluated %d times", evals);
}
void pass_some(Thread& t) {
  int evals = 0, msgs = 0; auto m = [&] { ++msgs; return std::string("never"); };
  EKAT_REQUIRE_MSG(++evals == 1, m()); EKAT_REQUIRE(++evals == 2, m(), Named); EKAT_REQUIRE(++evals == 3); int expect = 3;
#ifndef NDEBUG
  EKAT_ASSERT(++evals == 4); EKAT_ASSERT_MSG(++evals == 5, m()); expect = 5;
#else
  EKAT_ASSERT(++evals == 4); EKAT_ASSERT_MSG(++evals == 5, m());
#endif
  if (evals != expect || msgs) sim::fail("evaluated", "conditions evaluated %d times instead of %d, messages %d times", evals, expect, msgs);
}
void act(Thread& t, int depth);
struct Scope {                      // its destructor does things, perhaps while unwinding
  Thread& t; int depth; size_t flying;
  ~Scope() noexcept(false) {
    sim::yield();
    // outside unwinding an error may leave the destructor; during unwinding none does (errors are suppressed, foreign ones are caught here)
    if (t.flying.empty()) { if (sim::op(2)) act(t, depth - 1); return; }
    int k = int(sim::op(4)); while (k--) { if (sim::op(3) == 2) guarded(); else if (sim::op(2)) fail_some(t); else pass_some(t); }
  }
  void guarded();
};
// run something and catch what it throws
void caught(Thread& t, const std::exception* e, Kind got) {
  NoPreempt np;
  if (t.flying.empty()) sim::fail("unexpected-error", "an exception arrived that this thread did not throw: %s", e ? e->what() : "");
  Pending p = t.flying.back(); t.flying.pop_back();
  if (p.k == K_ODD) p.k = K_RUNTIME;
  if (p.k != got) sim::fail("wrong-error", "the exception caught is of kind %d instead of %d (%s)", int(got), int(p.k), e ? e->what() : "");
  if (e) { std::string w = e->what(); for (auto& x : {p.msg, p.cond, p.place}) if (w.find(x) == std::string::npos) sim::fail("wrong-error", "the exception caught says '%s', without '%s'", w.substr(0, 400).c_str(), x.c_str()); }
  sim::count("errors-caught");
}
template <class F> void attempt(Thread& t, F&& f) {
  bool threw = true; const size_t n = t.flying.size();
  try { f(); threw = false; }
  catch (const Named& e) { caught(t, &e, K_NAMED); }
  catch (const std::runtime_error& e) { caught(t, &e, K_RUNTIME); }
  catch (const std::logic_error& e) { caught(t, &e, K_LOGIC); }
  catch (const Plain& p) { caught(t, nullptr, K_PLAIN); }
  catch (const Foreign& x) { NoPreempt np; if (t.flying.empty() || t.flying.back().k != K_FOREIGN || t.flying.back().foreign != x.n) sim::fail("wrong-error", "the wrong foreign exception arrived"); t.flying.pop_back(); if (sim::op(4) == 3) {} }
  if (!threw && t.flying.size() > n) sim::fail("lost-error", "an exception that was thrown never arrived");
}
void throw_foreign(Thread& t) { int n; { NoPreempt np; n = ++t.n; Pending p{K_FOREIGN, "", "", ""}; p.foreign = n; t.flying.push_back(p); } throw Foreign{n}; }
void Scope::guarded() { attempt(t, [&] { if (sim::op(2)) throw_foreign(t); else fail_some(t); }); }
void act(Thread& t, int depth) {
  int k = 1 + int(sim::op(3));
  while (k--) switch (sim::op(depth > 0 ? 7 : 4)) {
    case 0: fail_some(t); break;
    case 1: pass_some(t); break;
    case 2: throw_foreign(t); break;
    case 3: sim::yield(); break;
    case 4: { Scope s{t, depth, 0}; sim::yield(); act(t, depth - 1); break; }
    case 5: { attempt(t, [&] { act(t, depth - 1); }); break; }
    default: {                  // errors out of a handler
      bool in = false; attempt(t, [&] { try { act(t, depth - 1); } catch (const Foreign& x) { { NoPreempt np; if (t.flying.empty() || t.flying.back().foreign != x.n) sim::fail("wrong-error", "the wrong foreign exception arrived"); t.flying.pop_back(); } in = true; sim::yield(); fail_some(t); } }); (void)in;
    }
  }
}
void c21() {
  simpt::begin(); sim::set_backend(sim::Backend::Threads);
  static ErrBuf buf; std::cerr.rdbuf(&buf); std::cerr.clear(); err_broken = sim::draw(sim::FAULT, 16) == 15; err_ever_broken = err_broken;
  const int n = sim::op_range(1, 4), rounds = sim::op_range(1, 4);
  for (int i = 0; i < n; ++i) sim::spawn("thread", [rounds] {
    Thread t; sim::local(sim::LOCAL_USER) = &t;
    for (int r = 0; r < rounds; ++r) { attempt(t, [&] { act(t, 3); }); if (!t.flying.empty()) sim::fail("lost-error", "an exception that was thrown never arrived"); }
    sim::local(sim::LOCAL_USER) = nullptr;
  });
  sim::join_all();
}

// ---------------------------------------------------- C22: floating point
thread_local sigjmp_buf trap_jump; thread_local volatile sig_atomic_t trap_armed = 0;
void on_fpe(int, siginfo_t*, void*) { if (trap_armed) { trap_armed = 0; siglongjmp(trap_jump, 1); } signal(SIGFPE, SIG_DFL); }
const int EXC[] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT};
const char* EXN[] = {"FE_INVALID", "FE_DIVBYZERO", "FE_OVERFLOW", "FE_UNDERFLOW", "FE_INEXACT"};
std::string mask_name(int m) { std::string s; for (int i = 0; i < 5; ++i) if (m & EXC[i]) s += std::string(s.empty() ? "" : "|") + EXN[i]; return s.empty() ? "none" : s; }
int some_mask() { switch (sim::op(4)) { case 0: return EXC[sim::op(5)]; case 1: return FE_ALL_EXCEPT; case 2: return FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW; default: { int m = 0; for (int e : EXC) if (sim::op(2)) m |= e; return m; } } }
template <class T> __attribute__((noinline)) int compute(int which, volatile T& out) {
  volatile T one = 1, zero = 0, three = 3, big = std::numeric_limits<T>::max(), tiny = std::numeric_limits<T>::min(), two = 2;
  switch (which) {
    case 0: out = one + two; break; case 1: out = one / zero; break; case 2: out = zero / zero; break; case 3: out = big * big; break; case 4: out = tiny / three; break; case 5: out = one / three; break; case 6: out = big * two; break; default: out = tiny * tiny; break;
  }
  asm volatile("fwait"); return 0;
}
int raises(int which) { switch (which) { case 0: return 0; case 1: return FE_DIVBYZERO; case 2: return FE_INVALID; case 3: case 6: return FE_OVERFLOW | FE_INEXACT; case 4: case 7: return FE_UNDERFLOW | FE_INEXACT; default: return FE_INEXACT; } }
// 1: it trapped
int trapped(int which, int type) {
  NoPreempt np;
  if (sigsetjmp(trap_jump, 1) == 0) {
    trap_armed = 1;
    if (type == 0) { volatile double o; compute<double>(which, o); } else if (type == 1) { volatile float o; compute<float>(which, o); } else { volatile long double o; compute<long double>(which, o); }
    trap_armed = 0; return 0;
  }
  return 1;
}
// the description names exactly the exceptions that are enabled, whatever its layout
void check_description(const std::string& c, int on) {
  std::set<std::string> words, want; std::string w;
  for (char ch : c + " ") if (isalnum((unsigned char)ch) || ch == '_') w += ch; else { if (!w.empty()) words.insert(w); w.clear(); }
  for (int i = 0; i < 5; ++i) { if (on & EXC[i]) want.insert(EXN[i]); else if (words.count(EXN[i])) sim::fail("wrong-description", "the description '%s' names %s where %s is enabled", c.c_str(), EXN[i], mask_name(on).c_str()); }
  for (auto& x : want) if (!words.count(x)) sim::fail("wrong-description", "the description '%s' leaves out %s", c.c_str(), x.c_str());
  if ((on == 0) != (words.count("NONE") > 0) || words.count("OTHER")) sim::fail("wrong-description", "the description '%s' is wrong where %s is enabled", c.c_str(), mask_name(on).c_str());
}
void fp_thread() {
  fesetenv(FE_DFL_ENV);
  int on = 0; std::vector<int> saved;
  const int steps = sim::op_range(1, 25);
  for (int s = 0; s < steps; ++s) {
    const char* what = ""; int m = 0;
    switch (sim::op(8)) {
      case 0: case 1: m = some_mask(); what = "enable"; ekat::enable_fpes(m); on |= m; break;
      case 2: m = some_mask(); what = "disable"; ekat::disable_fpes(m); on &= ~m; break;
      case 3: what = "disable all"; saved.push_back(ekat::get_enabled_fpes()); ekat::disable_all_fpes(); if (saved.back() != on) sim::fail("wrong-mask", "the query says %s where %s is enabled", mask_name(saved.back()).c_str(), mask_name(on).c_str()); on = 0; break;
      case 4: if (saved.empty()) break; what = "restore"; m = saved.back(); saved.pop_back(); ekat::disable_all_fpes(); ekat::enable_fpes(m); on = m; break;
      case 5: { what = "describe"; NoPreempt np; check_description(ekat::fpe_config_string(), on); break; }
      default: {
        what = "compute"; const int w = int(sim::op(8)), ty = int(sim::op(3)); const bool expect = (raises(w) & on) != 0; sim::count(expect ? "operations-that-must-trap" : "operations-that-must-not-trap");
        if (bool(trapped(w, ty)) != expect) sim::fail(expect ? "no-trap" : "wrong-trap", "an operation (type %d) that raises %s %s where %s is enabled", ty, mask_name(raises(w)).c_str(), expect ? "did not trap" : "trapped", mask_name(on).c_str());
        if (expect) { fesetenv(FE_DFL_ENV); on = 0; }        // the program would have ended here
      }
    }
    sim::yield();
    int q = ekat::get_enabled_fpes();
    if (q != on) sim::fail("wrong-mask", "after %s(%s) the query says %s instead of %s", what, mask_name(m).c_str(), mask_name(q).c_str(), mask_name(on).c_str());
    // the hardware agrees with the query
    uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    if (int(~(mx >> 7) & FE_ALL_EXCEPT) != on || int(~cw & FE_ALL_EXCEPT) != on) sim::fail("wrong-mask", "after %s(%s) the processor traps %s (SSE) and %s (x87) instead of %s", what, mask_name(m).c_str(), mask_name(~(mx >> 7) & FE_ALL_EXCEPT).c_str(), mask_name(~cw & FE_ALL_EXCEPT).c_str(), mask_name(on).c_str());
    sim::count("queries");
  }
  fesetenv(FE_DFL_ENV);
}
void c22() {
  simpt::begin(); sim::set_backend(sim::Backend::Threads);
  struct sigaction sa{}; sa.sa_sigaction = on_fpe; sa.sa_flags = SA_SIGINFO; sigaction(SIGFPE, &sa, nullptr);
  const int n = sim::op_range(1, 3);
  for (int i = 0; i < n; ++i) sim::spawn("thread", fp_thread);
  sim::join_all();
}

// ------------------------------------------------------------ C25: factory
struct Product { int kind, arg; std::string text; virtual ~Product() = default; };
template <int K> struct Concrete : Product { Concrete(int a, const std::string& t) { kind = K; arg = a; text = t; } };
struct CreateFailed {};
int create_fails = 0;
using PtrS = std::shared_ptr<Product>; using PtrU = std::unique_ptr<Product>;
template <class P, int K> P make_c(const int a, const std::string& t) { sim::yield(); if (create_fails > 0 && sim::fault("creator-throws", 1, 6)) throw CreateFailed(); return P(new Concrete<K>(a, t)); }
template <class P, int... K> std::vector<P (*)(const int, const std::string&)> creators(std::integer_sequence<int, K...>) { return {&make_c<P, K>...}; }
using F1 = ekat::Factory<Product, std::string, PtrS, int, const std::string&>;
using F2 = ekat::Factory<Product, ekat::CaseInsensitiveString, PtrU, int, const std::string&>;
std::string up(const std::string& s, bool ci) { std::string r = s; if (ci) for (auto& c : r) c = char(toupper((unsigned char)c)); return r; }
const char* const KEYS[] = {"alpha", "Alpha", "ALPHA", "beta", "beTa", "b", "", "gamma ray", "Gamma Ray", "alphabet", "alph", "k_1", "K_1"};
template <class F, class Key, bool CI> struct Reg {
  std::map<std::string, int> m; using P = typename F::obj_ptr_type;
  static std::vector<typename F::creator_type> cs() { return creators<P>(std::make_integer_sequence<int, 6>()); }
  void check() { NoPreempt np; auto& f = F::instance(); if (f.register_size() != m.size()) sim::fail("wrong-size", "the factory says it has %zu products instead of %zu", f.register_size(), m.size()); for (auto k : KEYS) if (f.has_product(Key(k)) != (m.count(up(k, CI)) > 0)) sim::fail("wrong-answer", "has_product('%s') is %s", k, f.has_product(Key(k)) ? "true" : "false"); }
  void change() {
    std::string k; { NoPreempt np; k = KEYS[sim::op(13)]; } const int c = int(sim::op(6)); const uint32_t how = sim::op(3); bool threw = false, ok = false, fired;
    if (sim::op(16) == 15) { F::instance().clean_up(); m.clear(); check(); return; }
    { sim::AllocFaults af(1, 3, 4); try { ok = how == 0 ? F::instance().register_product(Key(k), cs_[size_t(c)]) : F::instance().register_product(Key(k), cs_[size_t(c)], how == 1); } catch (const std::bad_alloc&) { af.disarm(); threw = true; } fired = af.fired(); }
    NoPreempt np; const bool had = m.count(up(k, CI)), expect = !had || how == 1;
    if (threw) { if (!fired) sim::fail("spurious-error", "registering threw"); check(); return; }
    if (ok != expect) sim::fail("wrong-answer", "registering '%s' (%s, %s) returned %s", k.c_str(), had ? "already there" : "new", how == 1 ? "replacing" : "not replacing", ok ? "true" : "false");
    if (expect) m[up(k, CI)] = c; check(); sim::count("registrations");
  }
  void use(bool allocs) {
    std::string k, text; int a; { NoPreempt np; k = KEYS[sim::op(13)]; text = "text " + std::to_string(sim::op(1000)); a = sim::op_range(-5, 5); }
    bool threw = false, own = false, fired = false; P p{}; std::string what; const int a0 = a; Key key(k);
    { sim::AllocFaults af(allocs ? 1 : 0, 3, 4); if (!allocs) af.disarm(); try { p = F::instance().create(key, std::move(a), text); } catch (const CreateFailed&) { af.disarm(); own = true; } catch (const std::exception& e) { af.disarm(); threw = true; what = e.what(); } fired = af.fired(); }
    NoPreempt np; auto i = m.find(up(k, CI)); sim::count("creations");
    if (own && i == m.end()) sim::fail("wrong-product", "creating '%s', which is not registered, called a creator", k.c_str());
    if (threw && i != m.end() && !fired) sim::fail("spurious-error", "creating '%s', which is registered, threw %s", k.c_str(), what.substr(0, 200).c_str());
    if (threw && i == m.end() && !fired) {            // the message says what is registered: every name, and no other
      std::set<std::string> names; size_t at = what.find("registered product is:"), nl = at == std::string::npos ? at : what.find('\n', at);
      if (at != std::string::npos && !m.empty()) {
        std::string list = what.substr(at + 22, nl == std::string::npos ? nl : nl - at - 22) + ",", w;
        for (char ch : list) if (ch == ',') { size_t x = w.find_first_not_of(' '); names.insert(x == std::string::npos ? "" : up(w.substr(x, w.find_last_not_of(' ') - x + 1), CI)); w.clear(); } else w += ch;
        std::set<std::string> want; for (auto& e : m) want.insert(e.first);
        if (names != want) sim::fail("wrong-message", "the message for '%s', which is not registered, lists '%s' where %zu products are registered", k.c_str(), list.c_str(), want.size());
        sim::count("product-lists");
      } else if (!m.empty()) sim::fail("wrong-message", "the message for '%s', which is not registered, does not list the products: '%s'", k.c_str(), what.substr(0, 300).c_str());
    }
    if (!threw && !own) {
      if (i == m.end()) sim::fail("error-not-reported", "creating '%s', which is not registered, reported no error", k.c_str());
      if (!p || p->kind != i->second || p->arg != a0 || p->text != text) sim::fail("wrong-product", "creating '%s' gave product %d (%d, '%s') instead of %d (%d, '%s')", k.c_str(), p ? p->kind : -1, p ? p->arg : 0, p ? p->text.c_str() : "", i->second, a0, text.c_str());
    }
    check();
  }
  std::vector<typename F::creator_type> cs_ = cs();
};
void c25() {
  simpt::begin(); create_fails = int(sim::op(2));
  // the factories live as long as the program: each run starts from whatever state is left after a clean-up
  static Reg<F1, std::string, false> r1; static Reg<F2, ekat::CaseInsensitiveString, true> r2;
  F1::instance().clean_up(); F2::instance().clean_up(); r1.m.clear(); r2.m.clear();
  sim::spawn("register", [] { int n = sim::op_range(0, 25); while (n--) { switch (sim::op(4)) { case 0: r1.change(); break; case 1: r2.change(); break; case 2: r1.use(true); break; default: r2.use(true); } } });
  sim::join_all();
  const int n = sim::op_range(0, 4);
  for (int i = 0; i < n; ++i) sim::spawn("user", [] { int k = sim::op_range(1, 5); while (k--) { if (sim::op(2)) r1.use(false); else r2.use(false); } });
  sim::join_all();
  r1.check(); r2.check();
}
// The very first use of a factory, by several threads at once: one factory type per run is fresh.
template <int N> struct Tag { int v = N; virtual ~Tag() = default; };
template <int N> std::shared_ptr<Tag<N>> make_t() { return std::make_shared<Tag<N>>(); }
template <int N> void first_use() {
  using F = ekat::Factory<Tag<N>, std::string, std::shared_ptr<Tag<N>>>;
  const int n = sim::op_range(2, 4); static std::vector<F*> seen; seen.clear();
  for (int i = 0; i < n; ++i) sim::spawn("first", [] { F* f = &F::instance(); { NoPreempt np; seen.push_back(f); } std::string nm; { nm = F::name(); } NoPreempt np; if (nm != typeid(F).name()) sim::fail("wrong-name", "the factory's name reads '%s'", nm.substr(0, 100).c_str()); });
  sim::join_all();
  for (auto f : seen) if (f != seen[0]) sim::fail("two-factories", "two threads got different factories");
  F::instance().register_product("x", &make_t<N>); if (F::instance().create("x")->v != N) sim::fail("wrong-product", "wrong product");
}
template <int... N> std::vector<void (*)()> firsts(std::integer_sequence<int, N...>) { return {&first_use<N>...}; }
void c25_run() {
  static std::vector<void (*)()> fs = firsts(std::make_integer_sequence<int, 60>()); static size_t used = 0;
  if (sim::op(4) == 3 && used < fs.size()) { sim::count("first-uses"); simpt::begin(); fs[used++](); return; }
  c25();
}
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"misc", 1, nullptr, nullptr, {
  {"C21", c21, "EKAT_REQUIRE/ASSERT/ERROR macros, ekat::throw_exception, the C++ runtime's unwinder, real threads scheduled one at a time", "standard error (captured, fails on request)"},
  {"C22", c22, "ekat::enable_fpes, disable_fpes, queries; the processor's floating-point unit; real threads scheduled one at a time", "nothing"},
  {"C25", c25_run, "ekat::Factory, CaseInsensitiveString", "memory allocator (fails on request)"}}};
