// Parameter lists and YAML files over a simulated disk and failing memory.
#include "ekat_parameter_list.hpp"
#include "ekat_yaml.hpp"
#include "../sim/sim.hpp"
#include "../sim/sim_disk.hpp"
#include "../sim/pthread_shim.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>

namespace {
using ekat::ParameterList;
using sim::NoPreempt;

// A type whose copies may fail.
struct Fragile { int v = 0; static bool armed; static int countdown, fired; Fragile(int x = 0) : v(x) {} Fragile(const Fragile& o) : v(o.v) { maybe(); } Fragile& operator=(const Fragile& o) { maybe(); v = o.v; return *this; } static void maybe() { if (armed && countdown > 0 && --countdown == 0) { ++fired; throw std::runtime_error("copy failed"); } } };
bool Fragile::armed = false; int Fragile::countdown = 0, Fragile::fired = 0;

// --------------------------------------------------------------- the model
struct Val {
  enum K { INT, BOOL, DBL, STR, VINT, VCHAR, VDBL, VSTR, EMPTY, FLOAT, FRAGILE, NK } k = INT;
  int i = 0; bool b = false; double d = 0; std::string s; std::vector<int> vi; std::vector<char> vc; std::vector<double> vd; std::vector<std::string> vs; float f = 0;
};
const char* KN[] = {"int", "bool", "double", "string", "vector of int", "vector of char", "vector of double", "vector of string", "empty sequence", "float", "fragile"};
struct Node { std::string name; std::map<std::string, Val> p; std::map<std::string, Node> s; };
bool close14(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
bool eqd(double a, double b, bool text) { return text ? close14(a, b) : memcmp(&a, &b, 8) == 0; }
struct Diff { std::string at; };
template <class T> const T* peek(const ParameterList& l, const std::string& n) { return l.isType<T>(n) ? &l.get<T>(n) : nullptr; }
// Does the list hold this value under this name? text: it went through a file.
bool holds(const ParameterList& l, const std::string& n, const Val& v, bool text) {
  if (!l.isParameter(n)) return false;
  switch (v.k) {
    case Val::INT: { auto p = peek<int>(l, n); return p && *p == v.i; }
    case Val::BOOL: { auto p = peek<bool>(l, n); return p && *p == v.b; }
    case Val::DBL: { auto p = peek<double>(l, n); return p && eqd(*p, v.d, text); }
    case Val::STR: { auto p = peek<std::string>(l, n); return p && *p == v.s; }
    case Val::VINT: { auto p = peek<std::vector<int>>(l, n); return p && *p == v.vi; }
    case Val::VCHAR: { auto p = peek<std::vector<char>>(l, n); return p && *p == v.vc; }
    case Val::VDBL: { auto p = peek<std::vector<double>>(l, n); if (!p || p->size() != v.vd.size()) return false; for (size_t i = 0; i < v.vd.size(); ++i) if (!eqd((*p)[i], v.vd[i], text)) return false; return true; }
    case Val::VSTR: { auto p = peek<std::vector<std::string>>(l, n); return p && *p == v.vs; }
    case Val::EMPTY: return l.isType<ParameterList::EmptySeq>(n);
    case Val::FLOAT: { auto p = peek<float>(l, n); return p && memcmp(p, &v.f, 4) == 0; }
    case Val::FRAGILE: { auto p = peek<Fragile>(l, n); return p && p->v == v.i; }
    default: return false;
  }
}
std::string describe(const ParameterList& l, const std::string& n) {
  std::string o; 
  if (!l.isParameter(n)) return "absent";
  if (auto p = peek<int>(l, n)) return "int " + std::to_string(*p);
  if (auto p = peek<bool>(l, n)) return *p ? "bool true" : "bool false";
  if (auto p = peek<double>(l, n)) { char b[40]; snprintf(b, sizeof b, "double %.17g", *p); return b; }
  if (auto p = peek<std::string>(l, n)) return "string '" + p->substr(0, 60) + "'";
  if (auto p = peek<std::vector<int>>(l, n)) { o = "ints"; for (int x : *p) o += " " + std::to_string(x); return o.substr(0, 80); }
  if (auto p = peek<std::vector<char>>(l, n)) { o = "chars"; for (int x : *p) o += " " + std::to_string(x); return o.substr(0, 80); }
  if (auto p = peek<std::vector<double>>(l, n)) { o = "doubles"; for (double x : *p) o += " " + std::to_string(x); return o.substr(0, 80); }
  if (auto p = peek<std::vector<std::string>>(l, n)) { o = "strings"; for (auto& x : *p) o += " '" + x + "'"; return o.substr(0, 80); }
  if (auto p = peek<Fragile>(l, n)) return "fragile " + std::to_string(p->v);
  if (l.isType<ParameterList::EmptySeq>(n)) return "empty sequence";
  return "something else";
}
std::string describe(const Val& v) { ParameterList l; switch (v.k) { case Val::INT: l.set("x", v.i); break; case Val::BOOL: l.set("x", v.b); break; case Val::DBL: l.set("x", v.d); break; case Val::STR: l.set("x", v.s); break; case Val::VINT: l.set("x", v.vi); break; case Val::VCHAR: l.set("x", v.vc); break; case Val::VDBL: l.set("x", v.vd); break; case Val::VSTR: l.set("x", v.vs); break; case Val::FRAGILE: return "fragile " + std::to_string(v.i); default: return KN[v.k]; } return describe(l, "x"); }
template <class M> std::string names(const M& m) { std::string s; for (auto& x : m) s += " " + x.first; return s; }
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += " " + x; return s; }
// The list is exactly this; otherwise what differs.
bool same(const ParameterList& l, const Node& n, bool text, std::string& why, const std::string& at = "") {
  std::vector<std::string> a, b; for (auto& x : n.p) a.push_back(x.first); for (auto& x : n.s) b.push_back(x.first);
  auto pn = l.param_names(), sn = l.sublist_names(); std::sort(pn.begin(), pn.end()); std::sort(sn.begin(), sn.end());
  if (pn != a) { why = "list '" + at + "' has parameters" + join(pn) + " instead of" + join(a); return false; }
  if (sn != b) { why = "list '" + at + "' has sublists" + join(sn) + " instead of" + join(b); return false; }
  if (l.name() != n.name) { why = "list '" + at + "' is called '" + l.name() + "' instead of '" + n.name + "'"; return false; }
  for (auto& x : n.p) if (!holds(l, x.first, x.second, text)) { why = "parameter '" + at + "/" + x.first + "' is " + describe(l, x.first) + " instead of " + describe(x.second); return false; }
  for (auto& x : n.s) { if (!l.isSublist(x.first)) { why = "no sublist " + x.first; return false; } if (!same(l.sublist(x.first), x.second, text, why, at + "/" + x.first)) return false; }
  return true;
}
// Every entry of the list is as in the first or as in the second; nothing else is there, and what is in both is there.
// (for a copy that failed half way)
bool between(const ParameterList& l, const Node* o, const Node* n, std::string& why, const std::string& at = "") {
  for (auto& k : l.param_names()) {
    const Val *a = nullptr, *b = nullptr; if (o && o->p.count(k)) a = &o->p.at(k); if (n && n->p.count(k)) b = &n->p.at(k);
    if (!(a && holds(l, k, *a, false)) && !(b && holds(l, k, *b, false))) { why = "parameter '" + at + "/" + k + "' is " + describe(l, k) + ", neither what it was nor what it was to become"; return false; }
  }
  for (auto& k : l.sublist_names()) {
    const Node *a = nullptr, *b = nullptr; if (o && o->s.count(k)) a = &o->s.at(k); if (n && n->s.count(k)) b = &n->s.at(k);
    if (!a && !b) { why = "sublist '" + at + "/" + k + "' from nowhere"; return false; }
    if (!a) { std::string w; if (!same(l.sublist(k), *b, false, w, at + "/" + k)) { why = "new sublist incomplete: " + w; return false; } continue; }
    if (!between(l.sublist(k), a, b, why, at + "/" + k)) return false;
  }
  if (o) { for (auto& x : o->p) if (!l.isParameter(x.first)) { why = "parameter '" + at + "/" + x.first + "' vanished"; return false; } for (auto& x : o->s) if (!l.isSublist(x.first)) { why = "sublist '" + at + "/" + x.first + "' vanished"; return false; } }
  return true;
}
// After an assignment or import: every entry of n is there; entries only in o are unchanged or (if may_drop) gone.
void merge(Node& o, const Node& n) { for (auto& x : n.p) o.p[x.first] = x.second; for (auto& x : n.s) { auto i = o.s.find(x.first); if (i == o.s.end()) o.s[x.first] = x.second; else { i->second.name = x.second.name; merge(i->second, x.second); } } }
bool assigned(const ParameterList& l, const Node& o, const Node& n, bool keep, bool text, std::string& why, const std::string& at = "") {
  for (auto& x : n.p) if (!holds(l, x.first, x.second, text)) { why = "parameter '" + at + "/" + x.first + "' is " + describe(l, x.first) + " instead of " + describe(x.second); return false; }
  for (auto& k : l.param_names()) if (!n.p.count(k) && (!o.p.count(k) || !holds(l, k, o.p.at(k), false))) { why = "parameter '" + at + "/" + k + "' is " + describe(l, k) + ", which was not in the source and is not what it was"; return false; }
  if (keep) for (auto& x : o.p) if (!l.isParameter(x.first)) { why = "parameter '" + at + "/" + x.first + "' vanished"; return false; }
  if (keep) for (auto& x : o.s) if (!l.isSublist(x.first)) { why = "sublist '" + at + "/" + x.first + "' vanished"; return false; }
  for (auto& x : n.s) { if (!l.isSublist(x.first)) { why = "sublist '" + at + "/" + x.first + "' is missing"; return false; } static const Node none; auto i = o.s.find(x.first); if (!assigned(l.sublist(x.first), i == o.s.end() ? none : i->second, x.second, false, text, why, at + "/" + x.first)) return false; }
  for (auto& k : l.sublist_names()) if (!n.s.count(k)) { if (!o.s.count(k)) { why = "sublist '" + at + "/" + k + "' from nowhere"; return false; } std::string w; if (!same(l.sublist(k), o.s.at(k), false, w, at + "/" + k)) { why = w; return false; } }
  return true;
}
// what the list holds now, as a model (for choices the statement leaves open)
Val value_of(const ParameterList& l, const std::string& n) {
  Val v;
  if (auto p = peek<int>(l, n)) { v.k = Val::INT; v.i = *p; } else if (auto p = peek<bool>(l, n)) { v.k = Val::BOOL; v.b = *p; } else if (auto p = peek<double>(l, n)) { v.k = Val::DBL; v.d = *p; }
  else if (auto p = peek<std::string>(l, n)) { v.k = Val::STR; v.s = *p; } else if (auto p = peek<std::vector<int>>(l, n)) { v.k = Val::VINT; v.vi = *p; } else if (auto p = peek<std::vector<char>>(l, n)) { v.k = Val::VCHAR; v.vc = *p; }
  else if (auto p = peek<std::vector<double>>(l, n)) { v.k = Val::VDBL; v.vd = *p; } else if (auto p = peek<std::vector<std::string>>(l, n)) { v.k = Val::VSTR; v.vs = *p; } else if (auto p = peek<float>(l, n)) { v.k = Val::FLOAT; v.f = *p; }
  else if (auto p = peek<Fragile>(l, n)) { v.k = Val::FRAGILE; v.i = p->v; } else if (l.isType<ParameterList::EmptySeq>(n)) v.k = Val::EMPTY; else sim::fail("unknown-entry", "parameter '%s' holds something that was never put there", n.c_str());
  return v;
}
Node node_of(const ParameterList& l) { Node n; n.name = l.name(); for (auto& k : l.param_names()) n.p[k] = value_of(l, k); for (auto& k : l.sublist_names()) n.s[k] = node_of(l.sublist(k)); return n; }

// -------------------------------------------------------------- generation
int odd_names = 0;               // 1: unusual names, 2: also names that need quotes in a file
std::string some_string(bool lines);
std::string word(uint32_t n = 6) { static const char* w[] = {"alpha", "b", "Gamma", "d e", "eps_1", "zeta-2", "Eta.3", "th", "iota", "k9", "Lambda list", "mu", "nu", "xi", "om", "pi"}; 
  if (n >= 16 && odd_names && sim::op(24) == 23) switch (sim::op(odd_names == 2 ? 6u : 4u)) {
    case 0: { static const char* o[] = {"Alpha", "ALPHA", "alph", "alphab", "B", "eps_1.", "eps_10", "k9 k9", "a.b.c", "x/y/z", "_", "p1"}; return o[sim::op(12)]; }
    case 1: return "n" + std::to_string(sim::op(400));
    case 2: { std::string r = "L"; int k = sim::op_range(30, 300); while (k--) r += "abcdefghijklmnopqrstuvwxyz_0123456789"[sim::op(37)]; return r; }
    case 3: return std::string(1, char('a' + sim::op(26)));
    default: return some_string(false);
  }
  return n > 16 ? "n" + std::to_string(sim::op(n)) : w[sim::op(n)];
}
double some_double() {
  switch (sim::op(8)) {
    case 0: return double(sim::op_range(-100, 100)); case 1: return sim::op_range(-1000, 1000) / 8.0; case 2: return sim::op_unit(); case 3: return std::pow(10.0, sim::op_range(-30, 30)); case 4: return (sim::op_unit() - 0.5) * std::pow(10.0, sim::op_range(-40, 40));
    case 5: return std::ldexp(1.0, sim::op_range(-100, 100)); case 6: { static const double s[] = {0.0, 1e100, -1e-100, 123456789.0, 1e9, 2147483648.0, -2147483649.0, 0.1, 1e14, 1e15, 123456789012345.0, 1.0e-5, 100000.0, 1e6}; return s[sim::op(14)]; }
    default: return sim::op_range(-99, 99) * std::pow(10.0, sim::op_range(-12, 12));
  }
}
int some_int() { static const int s[] = {0, 1, -1, 2147483647, -2147483647 - 1, 1000000}; return sim::op(4) ? sim::op_range(-1000, 1000) : s[sim::op(6)]; }
extern const char* const led[];
std::string some_string(bool lines) {
  static const char* s[] = {"text", "a b", "", "5", "true", "1.5", "a: b", "# no", "- x", "null", "~", "'q'", "\"dq\"", "{a}", "[b]", "!t", "&a", "*a", "%x", "@x", "`x", "a #b", "yes", "0x10", "1e5", "-", "---", "...", "?", "True", "-5", "1,2", "tab\there", "back\\slash", " lead", "trail ", "key:", "inf", "FALSE", "+5", "3.", "--5", "-", "1_000", "a,b", ": x", "?q"};
  static const char* m[] = {"a\nb\n", "a\nb", "a\n\nb\n", "\n", "a\n\n", " a\nb\n", "a\n b\n", "\na\n", "x: 1\ny: 2\n", "# c\nd\n", "a\nb\n\n\n", "tr \nx\n"};
  if (lines && sim::op(6) == 5) return m[sim::op(12)];
  if (sim::op(8) == 7) return led[sim::op(11)];
  if (sim::op(3)) { std::string r; int n = sim::op(150) == 149 ? sim::op_range(100, 1500) : sim::op_range(1, sim::op(4) == 3 ? 90 : 12); for (int i = 0; i < n; ++i) r += "abcdefghijklmnop _-.XYZ0123"[sim::op(27)]; return r; }
  return s[sim::op(45)];
}
Val some_value(bool yaml) {
  Val v; v.k = Val::K(sim::op(yaml ? 9 : 11)); int n = sim::op(200) == 199 ? sim::op_range(50, 400) : sim::op_range(1, sim::op(5) == 4 ? 40 : 5);
  switch (v.k) {
    case Val::INT: case Val::FRAGILE: v.i = some_int(); break; case Val::BOOL: v.b = sim::op(2); break; case Val::DBL: v.d = some_double(); break; case Val::STR: v.s = some_string(true); break; case Val::FLOAT: v.f = float(some_double()); break;
    case Val::VINT: while (n--) v.vi.push_back(some_int()); break; case Val::VCHAR: while (n--) v.vc.push_back(char(sim::op(2))); break; case Val::VDBL: while (n--) v.vd.push_back(some_double()); break; case Val::VSTR: while (n--) v.vs.push_back(some_string(true)); break; default: break;
  }
  return v;
}
void put(ParameterList& l, const std::string& n, const Val& v) {
  switch (v.k) {
    case Val::INT: l.set(n, v.i); break; case Val::BOOL: l.set(n, v.b); break; case Val::DBL: l.set(n, v.d); break; case Val::STR: l.set(n, v.s); break; case Val::VINT: l.set(n, v.vi); break; case Val::VCHAR: l.set(n, v.vc); break;
    case Val::VDBL: l.set(n, v.vd); break; case Val::VSTR: l.set(n, v.vs); break; case Val::EMPTY: l.set(n, ParameterList::EmptySeq()); break; case Val::FLOAT: l.set(n, v.f); break; case Val::FRAGILE: l.set(n, Fragile(v.i)); break; default: break;
  }
}
Node some_node(const std::string& name, int depth, bool yaml, int most) {
  Node n; n.name = name; int k = int(sim::op(uint32_t(most + 1)));
  const uint32_t vocabulary = most > 40 ? 2000 : 16;
  while (k--) n.p[word(vocabulary)] = some_value(yaml);
  if (depth > 0) { k = depth > 3 ? 1 : int(sim::op(3)); while (k--) { std::string w = word(vocabulary); if (n.p.count(w)) continue; n.s[w] = some_node(w, depth - 1, yaml, most); } }
  return n;
}
void fill(ParameterList& l, const Node& n) { for (auto& x : n.p) put(l, x.first, x.second); for (auto& x : n.s) fill(l.sublist(x.first), x.second); }

// ------------------------------------------------------------ C17: writing
struct Bad {};
void writer(int id, bool faults, bool allocs) {
  const std::string file = (sim::op(4) == 3 ? "sd_dir/out" : "sd_out") + std::to_string(id) + ".yaml";
  const int rounds = sim::op_range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    Node m; auto l = std::make_unique<ParameterList>("top"); bool unsupported = false;
    { NoPreempt np; const bool huge = sim::op(300) == 299; m = some_node("top", sim::op(40) == 39 ? sim::op_range(4, 20) : huge ? 1 : 3, true, huge ? 120 : sim::op(4) == 3 ? 30 : 6); fill(*l, m); if (sim::op(12) == 11) { unsupported = true; if (sim::op(2)) l->set("unsup", 1.5f); else l->sublist("unsub").set("unsup", Bad{}); } }
    const uint64_t failed = simdisk::failed(); bool threw = false, fired = false; std::string what;
    {
      sim::AllocFaults af(allocs ? 1 : 0, 3, sim::draw(sim::FAULT, 2) ? 40u : 600u); if (!allocs) af.disarm();
      try { ekat::write_yaml_file(file, *l); } catch (const std::exception& e) { af.disarm(); threw = true; what = e.what(); }
      fired = af.fired(); af.disarm();
    }
    NoPreempt np; simdisk::NoFaults nf; std::string why;
    sim::count(threw ? "writes-reported-failed" : "writes-returned");
    Node before = m; if (!unsupported && !same(*l, m, false, why)) sim::fail("source-changed", "writing changed the list: %s", why.c_str());
    if (simdisk::any_open() && faults) sim::fail("file-left-open", "the file is still open after writing it");
    if (threw) { if (!unsupported && !fired && simdisk::failed() == failed) sim::fail("spurious-error", "writing failed though nothing went wrong: %s", what.substr(0, 300).c_str()); continue; }
    if (unsupported) sim::fail("error-not-reported", "a list with an unsupported type was written without an error");
    ParameterList back("top");
    try { ekat::parse_yaml_file(file, back); } catch (const std::exception& e) { sim::fail(simdisk::failed() != failed ? "incomplete-file" : "unreadable-file", "writing returned normally%s but the file cannot be read: %s", simdisk::failed() != failed ? " though the disk failed" : "", e.what()); }
    if (!same(back, m, true, why)) sim::fail(simdisk::failed() != failed ? "incomplete-file" : "not-equal", "writing returned normally%s but what is read back differs: %s\n%s", simdisk::failed() != failed ? " though the disk failed" : "", why.c_str(), simdisk::content(file).substr(0, 1500).c_str());
    sim::count("lists-compared");
  }
}
void c17() {
  sim::set_step_cap(100000000);
  odd_names = 2;
  simdisk::Config c; const int kind = int(sim::op(4));
  if (kind == 1) { c.den = 20; c.slow = 2; c.split = 4; }
  if (kind >= 2) { c.den = 20; c.slow = 1; c.split = 4; const uint32_t q = sim::draw(sim::FAULT, 5); c.write = q == 0 || q == 4 ? 5 : 0; c.full = q == 1 || q == 4 ? 4 : 0; c.open = q == 2 || q == 4 ? 4 : 0; c.close = q == 3 || q == 4 ? 4 : 0; c.close_loses = true; }
  simdisk::begin(c); simpt::begin(); Fragile::armed = false;
  mkdir("sd_dir", 0755);
  const int n = kind <= 1 ? sim::op_range(1, 2) : 1; const bool allocs = kind == 3 || (kind == 0 && n == 1 && sim::op(3) == 2);
  for (int i = 0; i < n; ++i) sim::spawn("writer", [=] { writer(i, kind >= 2, allocs); });
  sim::join_all(); simdisk::end();
}

// ------------------------------------------------------------ C18: reading
// A text for a model, in the forms YAML allows.
std::string quoted(const std::string& s) {
  std::string o = "\""; for (char ch : s) { if (ch == '"') o += "\\\""; else if (ch == '\\') o += "\\\\"; else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else o += ch; } return o + "\"";
}
std::string single(const std::string& s) { std::string o = "'"; for (char ch : s) { o += ch; if (ch == '\'') o += ch; } return o + "'"; }
const char* const led[] = {"2019-01-01", "1.5.2", "5 apples", "12h", "3-4", "1e5x", "7.5 K", "-3 to 4", "1:2", "00:30:00", "-1.5-"};   // strings that begin like numbers
bool plain(const std::string& s) { for (auto l : led) if (s == l) return true; if (s.empty() || !isalpha((unsigned char)s[0])) return false; for (char ch : s) if (!isalnum((unsigned char)ch) && ch != '_' && ch != '-' && ch != '.') return false; std::string t; for (char ch : s) t += char(tolower(ch)); return t != "true" && t != "false" && t != "null" && t != "nan" && t != "inf" && t != "infinity" && t != "nil"; }
std::string text_double(double& d, bool seq) {
  char b[60]; 
  switch (sim::op(seq ? 3 : 4)) { case 0: snprintf(b, sizeof b, "%.17g", d); break; case 1: snprintf(b, sizeof b, "%.6e", d); break; case 2: snprintf(b, sizeof b, "%.3f", std::fabs(d) < 1e15 ? d : (d = 2.25)); break; default: snprintf(b, sizeof b, "!!float %.17g", d); return d = strtod(b + 8, nullptr), b; }
  std::string s = b; if (s.find_first_of(".e") == std::string::npos) s += sim::op(2) ? ".0" : "."; d = strtod(s.c_str(), nullptr); return s;
}
std::string text_bool(bool v) { static const char* t[] = {"true", "True", "TRUE", "tRuE"}; static const char* f[] = {"false", "False", "FALSE", "fAlSe"}; return (v ? t : f)[sim::op(4)]; }
std::string text_string(const std::string& s, bool flow) {
  switch (sim::op(3)) { case 0: if (plain(s)) return s; return quoted(s); case 1: if (s.find('\n') == std::string::npos) return single(s); return quoted(s); default: (void)flow; return quoted(s); }
}
std::string text_scalar(Val& v, bool flow) {
  switch (v.k) {
    case Val::INT: return sim::op(5) == 4 ? "!!int " + std::to_string(v.i) : std::to_string(v.i); case Val::BOOL: return sim::op(5) == 4 ? "!!bool " + text_bool(v.b) : text_bool(v.b); case Val::DBL: return text_double(v.d, false);
    default: if (sim::op(6) == 5 && plain(v.s)) return "!!str " + v.s; if (sim::op(12) == 11 && !flow) { v.s = std::to_string(some_int()); return "!!str " + v.s; } return text_string(v.s, flow);
  }
}
std::vector<std::string> items(Val& v) {
  std::vector<std::string> o;
  for (int x : v.vi) o.push_back(std::to_string(x)); for (char x : v.vc) o.push_back(text_bool(x));
  // a sequence takes the narrowest type that fits all of it, wherever the item that decides it is
  const bool mixed = sim::op(4) == 3; const size_t nd = v.vd.size(), ns = v.vs.size(), dd = nd ? sim::op(uint32_t(nd)) : 0, ds = ns ? sim::op(uint32_t(ns)) : 0;
  for (size_t i = 0; i < nd; ++i) { double& x = v.vd[i]; if (mixed && i != dd) { const int k = some_int(); x = k; o.push_back(std::to_string(k)); } else o.push_back(text_double(x, true)); }
  const uint32_t like = sim::op(4);
  for (size_t i = 0; i < ns; ++i) {
    auto& x = v.vs[i]; if (!mixed || i == ds) { o.push_back(text_string(x, true)); continue; }
    double d = some_double(); x = like == 0 ? std::to_string(some_int()) : like == 1 ? text_double(d, true) : like == 2 ? text_bool(sim::op(2)) : sim::op(2) ? std::to_string(some_int()) : text_bool(sim::op(2)); o.push_back(x);
  }
  if (mixed && (nd > 1 || ns > 1)) sim::count("sequences of mixed texts");
  return o;
}
std::string noise(const std::string& ind) { return sim::op(8) == 7 ? (sim::op(2) ? ind + "# a: comment\n" : std::string("\n")) : std::string(); }
std::string key(const std::string& k) { switch (sim::op(4)) { case 1: return quoted(k); case 2: return single(k); default: return k; } }
std::string flow_map(Node& n);
std::string seq_flow(Val& v) { std::string o = "["; bool first = true; for (auto& x : items(v)) { if (!first) o += sim::op(5) == 4 ? " , " : ", "; first = false; o += x; } return o + "]"; }
std::string render(Node& n, const std::string& ind) {
  std::vector<std::pair<bool, std::string>> order; for (auto& x : n.p) order.push_back({true, x.first}); for (auto& x : n.s) order.push_back({false, x.first});
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[sim::op(uint32_t(i))]);
  std::string o;
  for (auto& e : order) {
    o += noise(ind) + ind + key(e.second) + (sim::op(8) == 7 ? " :" : ":");
    if (!e.first) { Node& s = n.s[e.second]; if (s.p.empty() && s.s.empty()) o += " {}\n"; else if (sim::op(3) == 2) o += " " + flow_map(s) + "\n"; else o += "\n" + render(s, ind + (sim::op(2) ? "  " : "    ")); continue; }
    Val& v = n.p[e.second];
    switch (v.k) {
      case Val::EMPTY: o += " []\n"; break;
      case Val::INT: case Val::BOOL: case Val::DBL: o += " " + text_scalar(v, false) + (sim::op(8) == 7 ? "  # c" : "") + "\n"; break;
      case Val::STR: if (v.s.size() > 1 && v.s.back() == '\n' && v.s[v.s.size() - 2] != '\n' && v.s[0] != ' ' && v.s[0] != '\n' && sim::op(2)) { o += " |\n"; size_t a = 0; while (a < v.s.size()) { size_t b = v.s.find('\n', a); if (b > a) o += ind + "   " + v.s.substr(a, b - a); o += "\n"; a = b + 1; } } else o += " " + text_scalar(v, false) + "\n"; break;
      default: if (sim::op(2)) o += " " + seq_flow(v) + "\n"; else { o += "\n"; for (auto& x : items(v)) o += ind + "  - " + x + "\n" + noise(ind + "  "); }
    }
  }
  return o;
}
std::string flow_map(Node& n) {
  std::string o = "{"; bool first = true;
  for (auto& x : n.p) { if (!first) o += ", "; first = false; o += key(x.first) + ": "; Val& v = x.second; if (v.k == Val::EMPTY) o += "[]"; else if (v.k <= Val::STR) o += text_scalar(v, true); else o += seq_flow(v); }
  for (auto& x : n.s) { if (!first) o += ", "; first = false; o += key(x.first) + ": " + (x.second.p.empty() && x.second.s.empty() ? std::string("{}") : flow_map(x.second)); }
  return o + "}";
}
// element types are told from the texts: what the sequence becomes
void settle(Node& n) {
  for (auto& x : n.p) { Val& v = x.second; if (v.k >= Val::VINT && v.k <= Val::VSTR && v.vi.empty() && v.vc.empty() && v.vd.empty() && v.vs.empty()) v.k = Val::EMPTY; }
  for (auto& x : n.s) settle(x.second);
}
enum ReadMode { R_PLAIN, R_DISK, R_MEMORY, R_MISSING, R_CUT, R_DAMAGED, R_UNSUPPORTED, R_NMODES };
void reader(int id, int mode) {
  const std::string file = "sd_in" + std::to_string(id) + ".yaml";
  const int rounds = sim::op_range(1, 3);
  static const char* const TN[] = {"params", "params", "", "top level", "alpha"}; const std::string tn = TN[sim::op(5)];
  ParameterList target(tn); Node pre; pre.name = tn;
  for (int r = 0; r < rounds; ++r) {
    Node m; std::string text; 
    {
      NoPreempt np; const bool huge = sim::op(300) == 299; m = some_node(tn, sim::op(40) == 39 ? sim::op_range(4, 20) : huge ? 1 : 3, true, huge ? 120 : sim::op(4) == 3 ? 30 : 6); settle(m);
      text = (sim::op(2) ? "%YAML 1.2\n---\n" : sim::op(2) ? "---\n" : "") + render(m, "") + (sim::op(3) == 2 ? "...\n" : "");
      if (m.p.empty() && m.s.empty()) text = "{}\n";
      if (mode == R_CUT) text.resize(sim::draw(sim::FAULT, uint32_t(text.size()))), sim::fault_count("file-cut");
      if (mode == R_DAMAGED) { int k = 1 + int(sim::draw(sim::FAULT, 4)); while (k--) { text[sim::draw(sim::FAULT, uint32_t(text.size()))] = char(sim::draw(sim::FAULT, 3) ? "{}[]:-#'\"\n \t&*!|>%@,?~"[sim::draw(sim::FAULT, 22)] : char(sim::draw(sim::FAULT, 256))); } sim::fault_count("file-damaged"); }
      if (mode == R_UNSUPPORTED) { static const char* u[] = {"bad: !!foo 1\n", "bad: !!int x\n", "bad: !!bool 3\n", "bad: 99999999999999\n", "bad: [{a: 1}, 2]\n", "bad: [[1, 2], [3]]\n", "bad: !!float abc\n", "sub: {bad: !!set x}\n", "sub:\n  x: 1\n  bad: !!int 1.5\n", "bad: [1, 99999999999999, 3]\n", "bad: -99999999999999\n"}; std::string b = u[sim::op(11)]; sim::fault_count("unsupported-content");
        if (text[0] == '{') text = b; else if (text.size() > 4 && text.compare(text.size() - 4, 4, "...\n") == 0) text.insert(text.size() - 4, b); else text += b; if (sim::op(6) == 5) text = sim::op(2) ? "- a\n- b\n" : "just text\n"; }
      if (mode == R_MISSING) sim::fault_count("file-missing"); else simdisk::put(file, text);
      if (sim::op(3) == 0) { target.~ParameterList(); new (&target) ParameterList(tn); pre = Node(); pre.name = tn; }
    }
    const uint64_t failed = simdisk::failed(); bool threw = false, fired = false; std::string what;
    {
      sim::AllocFaults af(mode == R_MEMORY ? 1 : 0, 1, sim::draw(sim::FAULT, 2) ? 60u : 2500u); if (mode != R_MEMORY) af.disarm();
      try { ekat::parse_yaml_file(file, target); } catch (const std::exception& e) { af.disarm(); threw = true; what = e.what(); }
      fired = af.fired(); af.disarm();
    }
    NoPreempt np; std::string why; sim::count(threw ? "reads-reported-failed" : "reads-returned");
    if (simdisk::any_open() && mode >= R_MEMORY) sim::fail("file-left-open", "the file is still open after reading it");
    if (threw) {
      if ((mode == R_PLAIN || (mode == R_DISK && simdisk::failed() == failed) || (mode == R_MEMORY && !fired))) sim::fail("spurious-error", "reading failed though nothing was wrong with the file: %s\n%s", what.c_str(), text.substr(0, 1500).c_str());
      if (!same(target, pre, false, why)) sim::fail("target-changed", "reading failed (%s) but changed the list: %s", what.substr(0, 200).c_str(), why.c_str());
      sim::count("failed-reads-checked"); continue;
    }
    if (mode == R_MISSING || mode == R_UNSUPPORTED) sim::fail("error-not-reported", "reading %s reported no error:\n%s", mode == R_MISSING ? "a file that does not exist" : "unsupported content", text.substr(0, 600).c_str());
    if (mode == R_CUT || mode == R_DAMAGED) { pre = node_of(target); continue; }
    if (target.name() != tn) sim::fail("renamed", "reading renamed the list to '%s'", target.name().c_str());
    const bool fresh = pre.p.empty() && pre.s.empty();
    if (fresh ? !same(target, m, true, why) : !assigned(target, pre, m, false, true, why)) sim::fail("wrong-content", "what was read differs from the file%s: %s\n%s", simdisk::failed() != failed ? " (the disk failed meanwhile)" : "", why.c_str(), text.substr(0, 1500).c_str());
    pre = node_of(target); sim::count("lists-compared");
  }
}
void c18() {
  sim::set_step_cap(100000000);
  odd_names = 1;
  const int mode = int(sim::op(R_NMODES)); simdisk::Config c;
  if (mode == R_PLAIN && sim::op(2)) { c.den = 20; c.slow = 2; c.split = 8; }
  if (mode == R_DISK) { c.den = 20; c.slow = 1; c.split = 10; c.read = 5; c.open = sim::op(3) == 2 ? 5 : 0; }
  simdisk::begin(c); simpt::begin(); Fragile::armed = false;
  const int n = mode == R_PLAIN ? sim::op_range(1, 2) : 1;
  for (int i = 0; i < n; ++i) sim::spawn("reader", [=] { reader(i, mode); });
  sim::join_all(); simdisk::end();
}

// ---------------------------------------------------------- C20: histories
struct Lists { std::vector<std::unique_ptr<ParameterList>> l; std::vector<Node> m; };
// walk to some (sub)list
void descend(ParameterList*& l, Node*& m) { while (!m->s.empty() && sim::op(3) == 2) { auto i = m->s.begin(); std::advance(i, sim::op(uint32_t(m->s.size()))); l = &l->sublist(i->first); m = &i->second; } }
bool holds_node(const Node& a, const Node* b) { for (auto& x : a.s) if (&x.second == b || holds_node(x.second, b)) return true; return false; }
template <class F> bool attempt(bool faults, bool& fired, std::string& what, F&& f) {
  bool threw = false; const int f0 = Fragile::fired; const bool alloc = faults && sim::draw(sim::FAULT, 2);
  Fragile::armed = faults; Fragile::countdown = faults ? int(sim::draw(sim::FAULT, 6)) : 0;
  {
    sim::AllocFaults af(alloc ? 1 : 0, 2, sim::draw(sim::FAULT, 3) ? 6u : 40u); if (!alloc) af.disarm();
    try { f(); } catch (const std::exception& e) { af.disarm(); threw = true; what = e.what(); }
    fired = af.fired(); af.disarm();
  }
  Fragile::armed = false; if (Fragile::fired != f0) { fired = true; sim::fault_count("copy-fails"); }
  return threw;
}
template <class T> bool is(const Val& v) { switch (v.k) { case Val::INT: return std::is_same<T, int>::value; case Val::BOOL: return std::is_same<T, bool>::value; case Val::DBL: return std::is_same<T, double>::value; case Val::STR: return std::is_same<T, std::string>::value; case Val::VINT: return std::is_same<T, std::vector<int>>::value; case Val::VCHAR: return std::is_same<T, std::vector<char>>::value; case Val::VDBL: return std::is_same<T, std::vector<double>>::value; case Val::VSTR: return std::is_same<T, std::vector<std::string>>::value; case Val::EMPTY: return std::is_same<T, ParameterList::EmptySeq>::value; case Val::FLOAT: return std::is_same<T, float>::value; default: return std::is_same<T, Fragile>::value; } }
template <class T> struct IsVec { static constexpr bool v = false; };
template <class T> struct IsVec<std::vector<T>> { static constexpr bool v = true; };
template <class T> Val empty_vec() { Val v; v.k = std::is_same<T, std::vector<int>>::value ? Val::VINT : std::is_same<T, std::vector<char>>::value ? Val::VCHAR : std::is_same<T, std::vector<double>>::value ? Val::VDBL : Val::VSTR; return v; }
template <class T> T val(const Val& v) { if constexpr (std::is_same<T, int>::value) return v.i; else if constexpr (std::is_same<T, bool>::value) return v.b; else if constexpr (std::is_same<T, double>::value) return v.d; else if constexpr (std::is_same<T, std::string>::value) return v.s; else if constexpr (std::is_same<T, std::vector<int>>::value) return v.vi; else if constexpr (std::is_same<T, std::vector<char>>::value) return v.vc; else if constexpr (std::is_same<T, std::vector<double>>::value) return v.vd; else if constexpr (std::is_same<T, std::vector<std::string>>::value) return v.vs; else if constexpr (std::is_same<T, float>::value) return v.f; else if constexpr (std::is_same<T, Fragile>::value) return Fragile(v.i); else return T(); }
template <class T> void get_op(ParameterList& l, Node& m, const std::string& n, bool faults, int how) {
  // 0: const get, 1: get, 2: get with a default, 3: get and change through the reference
  bool fired; std::string what, why; Val def = some_value(false); for (int i = 0; i < 20 && !is<T>(def); ++i) def = some_value(false); if (!is<T>(def)) { def = Val(); }
  const bool have_def = is<T>(def); if (how == 2 && !have_def) how = 1;
  const bool present = m.p.count(n); const bool fits = present && (is<T>(m.p.at(n)) || (IsVec<T>::v && m.p.at(n).k == Val::EMPTY));
  bool ok = true; const bool from_empty = present && IsVec<T>::v && m.p.at(n).k == Val::EMPTY;
  Val nv = some_value(false); for (int i = 0; i < 20 && !is<T>(nv); ++i) nv = some_value(false);
  T d{}; T next{}; if (have_def) d = val<T>(def); if (is<T>(nv)) next = val<T>(nv); else if (how == 3) how = 1;
  const T* got = nullptr;
  bool threw = attempt(faults, fired, what, [&] {
    if (how == 0) got = &static_cast<const ParameterList&>(l).get<T>(n);
    else if (how == 2) got = &l.get<T>(n, d);
    else got = &l.get<T>(n);
  });
  if (threw) {
    if (!fired && (fits || (how == 2 && !present))) sim::fail("spurious-error", "getting parameter '%s' threw though it is there with that type: %s", n.c_str(), what.c_str());
    return;
  }
  if (!present && how != 2) sim::fail("missing-not-reported", "getting parameter '%s', which is not there, reported no error", n.c_str());
  if (present && !fits) sim::fail("wrong-type-not-reported", "getting parameter '%s' (%s) as another type reported no error", n.c_str(), KN[m.p.at(n).k]);
  if (!present) m.p[n] = def; else if (from_empty && how != 0) m.p[n] = empty_vec<T>();
  if (!from_empty || how != 0) ok = holds(l, n, m.p.at(n), false) && got == &static_cast<const ParameterList&>(l).get<T>(n);
  else if constexpr (IsVec<T>::v) ok = got->empty();
  if (!ok) sim::fail("wrong-value", "getting parameter '%s' gave %s instead of %s", n.c_str(), describe(l, n).c_str(), describe(m.p.at(n)).c_str());
  if (how == 3) { const_cast<T&>(*got) = next; m.p[n] = nv; }
}
void get_any(ParameterList& l, Node& m, const std::string& n, int k, bool faults, int how) {
  switch (k) {
    case 0: get_op<int>(l, m, n, faults, how); break; case 1: get_op<bool>(l, m, n, faults, how); break; case 2: get_op<double>(l, m, n, faults, how); break; case 3: get_op<std::string>(l, m, n, faults, how); break; case 4: get_op<std::vector<int>>(l, m, n, faults, how); break;
    case 5: get_op<std::vector<char>>(l, m, n, faults, how); break; case 6: get_op<std::vector<double>>(l, m, n, faults, how); break; case 7: get_op<std::vector<std::string>>(l, m, n, faults, how); break; case 9: get_op<float>(l, m, n, faults, how); break; case 10: get_op<Fragile>(l, m, n, faults, how); break; default: break;
  }
}
void history() {
  const bool faults = sim::op(3) != 0; const int steps = sim::op(100) == 99 ? sim::op_range(60, 120) : sim::op_range(3, 40);
  Lists L; for (int i = 0; i < 1 + int(sim::op(3)); ++i) { std::string nm = "list" + std::to_string(i); L.l.push_back(std::make_unique<ParameterList>(nm)); Node n; n.name = nm; L.m.push_back(n); }
  std::string why, what; bool fired = false;
  for (int st = 0; st < steps; ++st) {
    const size_t q = sim::op(uint32_t(L.l.size())); ParameterList* l = L.l[q].get(); Node* m = &L.m[q];
    descend(l, m);
    const std::string n = word(sim::op(4) ? 6 : 16); Node old = L.m[q]; const uint32_t kind = sim::op(12); bool threw = false, partial = false; Node goal;
    switch (kind) {
      case 0: case 1: case 2: { Val v = some_value(false); threw = attempt(faults, fired, what, [&] { put(*l, n, v); }); if (!threw) m->p[n] = v; else if (!fired) sim::fail("spurious-error", "setting a parameter threw: %s", what.c_str()); break; }
      case 3: case 4: { int how = int(sim::op(4)); int k = m->p.count(n) && sim::op(3) ? int(m->p[n].k) : int(sim::op(11)); if (m->p.count(n) && m->p[n].k == Val::EMPTY && sim::op(2)) k = 4 + int(sim::op(4)); get_any(*l, *m, n, k, faults, how); break; }
      case 5: { threw = attempt(faults, fired, what, [&] { l->sublist(n); }); if (threw && !fired) sim::fail("spurious-error", "sublist() threw: %s", what.c_str()); if (!threw && !m->s.count(n)) { Node s; s.name = n; m->s[n] = s; } break; }
      case 6: { threw = attempt(faults, fired, what, [&] { static_cast<const ParameterList*>(l)->sublist(n); }); if (!threw && !m->s.count(n)) sim::fail("missing-not-reported", "looking up a sublist that is not there reported no error"); if (threw && !fired && m->s.count(n)) sim::fail("spurious-error", "looking up sublist '%s' threw: %s", n.c_str(), what.c_str()); break; }
      case 7: case 8: {             // import, or assignment
        size_t o = sim::op(uint32_t(L.l.size())); ParameterList* sl = L.l[o].get(); Node* sm = &L.m[o]; descend(sl, sm); if (sl == l) break;
        const bool within = holds_node(*m, sm) || holds_node(*sm, m);      // one is a sublist of the other: what counts is what the source was
        if (within) sim::count("copies within one list");
        const Node src = *sm, before = *m; const bool asg = kind == 8;
        threw = attempt(faults, fired, what, [&] { if (asg) *l = *sl; else l->import(*sl); });
        std::string w;
        if (threw) { if (!fired) sim::fail("spurious-error", "copying a list threw: %s", what.c_str()); if (!between(*l, &before, &src, w)) sim::fail("half-done", "a copy that failed left an entry damaged: %s", w.c_str()); partial = true; }
        else if (!assigned(*l, before, src, !asg, false, w)) sim::fail("wrong-copy", "%s: %s", asg ? "assignment" : "import", w.c_str());
        if (!threw && asg && l->name() != src.name) sim::fail("wrong-copy", "assignment did not copy the name");
        if (!within && !same(*sl, src, false, w)) sim::fail("source-changed", "copying changed the source: %s", w.c_str());
        *m = node_of(*l); break;
      }
      case 9: {                     // copy construction
        std::unique_ptr<ParameterList> c; const Node src = *m; threw = attempt(faults, fired, what, [&] { c = std::make_unique<ParameterList>(*l); }); std::string w;
        if (threw) { if (!fired) sim::fail("spurious-error", "copying a list threw: %s", what.c_str()); break; }
        if (!same(*c, src, false, w)) sim::fail("wrong-copy", "a copy differs: %s", w.c_str());
        c->set("only in the copy", 1); c->sublist("only there").set("x", 2);          // the copy is its own
        if (sim::op(2)) { L.l[q] = std::move(c); Node k = src; Val one; one.i = 1; k.p["only in the copy"] = one; const bool had = k.s.count("only there"); Node& s = k.s["only there"]; if (!had) s.name = "only there"; Val two; two.i = 2; s.p["x"] = two; L.m[q] = k; old = k; }
        break;
      }
      case 10: {                    // a value from the list itself, set in it
        if (m->p.empty()) break; auto i = m->p.begin(); std::advance(i, sim::op(uint32_t(m->p.size()))); if (i->second.k != Val::STR) break; const std::string from = i->first;
        threw = attempt(faults, fired, what, [&] { l->set<std::string>(n, l->get<std::string>(from)); }); if (!threw) { Val v = i->second; m->p[n] = v; } else if (!fired) sim::fail("spurious-error", "set threw: %s", what.c_str()); break;
      }
      default: {                    // queries
        std::ostringstream os; threw = attempt(false, fired, what, [&] { l->print(os); });
        if (threw) sim::fail("spurious-error", "print threw: %s", what.c_str());
        for (auto& x : m->p) { size_t c = 0, a = 0; const std::string pat = "\n " + x.first + ": "; while ((a = os.str().find(pat, a)) != std::string::npos) { ++c; ++a; } if (c < 1) sim::fail("not-printed", "print does not show parameter '%s'", x.first.c_str()); }
        bool t2 = attempt(false, fired, what, [&] { l->isType<int>("not there"); }); if (!t2) sim::fail("missing-not-reported", "asking for the type of a missing parameter reported no error");
        if (l->isParameter(n) != (m->p.count(n) > 0) || l->isSublist(n) != (m->s.count(n) > 0)) sim::fail("wrong-answer", "presence of '%s' is answered wrongly", n.c_str());
      }
    }
    sim::count("operations"); if (threw) sim::count("operations-failed");
    for (size_t k = 0; k < L.l.size(); ++k) if (!same(*L.l[k], L.m[k], false, why)) sim::fail(threw ? "failed-operation-left-traces" : "wrong-state", "after step %d (operation %u%s): %s", st, kind, threw ? ", which failed" : "", why.c_str());
    if (threw && !partial && kind < 6 && kind != 3 && kind != 4 && !same(*L.l[q], old, false, why)) sim::fail("failed-operation-left-traces", "operation %u failed: %s", kind, why.c_str());
  }
}
void c20() { sim::set_step_cap(100000000); odd_names = 2; simpt::begin(); const int n = sim::op(4) == 3 ? 2 : 1; Fragile::armed = false; (void)n; sim::spawn("history", [] { history(); }); sim::join_all(); }
const char* REAL = "ekat::ParameterList, ekat YAML reader and writer, yaml-cpp, iostreams";
const char* STUB = "disk (in memory, below iostreams), memory allocator (fails on request), clock";
}
namespace sim { extern HarnessDef harness; }
sim::HarnessDef sim::harness = {"params", 1, nullptr, nullptr, {{"C17", c17, REAL, STUB}, {"C18", c18, REAL, STUB}, {"C20", c20, REAL, STUB}}};
