// Command line parsing: generated argument specifications and argv lines against a reference parser.
#include <algorithm>
#include <climits>
#include <iostream>
#include <memory>
#include <regex>
#include <pbt.hpp>
#include <ecl/command_line.hpp>
#include <ecl/command_line/docbook_output.hpp>
using namespace ecl;
using std::string; using std::vector;

namespace {
enum Kind { Sw, MSw, Val, Mul, UVal, UMul };
enum Ty { TInt, TDbl, TStr, TChr, TUns, TLong, NTY };
const char* tyname[] = {"int", "double", "string", "char", "unsigned", "long"};

struct A {
  Kind k = Sw; Ty t = TInt; string flag, name, desc; bool req = false, dflt = false; int init = 0;
  string def;                 // default value, textual
  vector<string> allowed;     // constraint (canonical texts) if any
  bool ctor_adds = false; int group = -1;
  bool labelled() const { return k != UVal && k != UMul; }
  bool valued() const { return k != Sw && k != MSw; }
  string tdesc() const { if (allowed.empty()) return tyname[t]; string r; for (auto& a : allowed) r += (r.empty() ? "" : "|") + a; return r; }
  string id() const { return (flag.empty() ? "" : "-" + flag + " ") + "(--" + name + ")"; }
};
const char* NOARG = "\001";
struct Spec { vector<A> a; int groups = 0; char delim = ' '; string message, version, prog; bool help = true; };

// ---- values: canonical text of a value of type t, "" with ok=false when the text is not exactly one value
template <typename T> string canon(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
bool is_space(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
// reference reading of an argument's text
bool read_value(Ty t, const string& in, string& out) {
  if (t == TStr) { out = in; return true; }
  size_t i = 0; while (i < in.size() && is_space(in[i])) ++i;
  string s = in.substr(i);
  if (s.empty()) return false;
  if (t == TChr) { if (s.size() != 1) return false; out = s; return true; }
  size_t p = 0; if (s[p] == '+' || s[p] == '-') ++p;
  if (t == TDbl) {
    size_t d = 0; while (p < s.size() && isdigit((unsigned char)s[p])) ++p, ++d;
    if (p < s.size() && s[p] == '.') { ++p; while (p < s.size() && isdigit((unsigned char)s[p])) ++p, ++d; }
    if (!d) return false;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; size_t e = 0; while (p < s.size() && isdigit((unsigned char)s[p])) ++p, ++e; if (!e) return false; }
    if (p != s.size()) return false;
    double v = strtod(s.c_str(), 0); if (std::isinf(v)) return false;
    out = canon(v); return true;
  }
  bool neg = s[0] == '-'; size_t d = 0; __int128 v = 0; 
  while (p < s.size() && isdigit((unsigned char)s[p])) { if (v < ((__int128)1 << 100)) v = v * 10 + (s[p] - '0'); ++p; ++d; }
  if (!d || p != s.size()) return false;
  if (neg) v = -v;
  ASSUME(!(neg && t == TUns));  // the standard stream wraps these; not judged
  __int128 lo = t == TInt ? INT_MIN : t == TLong ? LONG_MIN : 0, hi = t == TInt ? INT_MAX : t == TLong ? LONG_MAX : UINT_MAX;
  if (v < lo || v > hi) return false;
  if (t == TUns) out = canon((unsigned)v); else out = canon((long)v);
  return true;
}

// ---- reference parser ----
struct Out {
  enum K { Ok, Error, Help, Version } k = Ok;
  string err_arg, err_word, err_val; bool check_arg = true;
  vector<vector<string>> vals; vector<bool> set;   // per argument
  bool combined_in_group = false, used_ignore = false;
};
struct Model {
  const Spec& sp; Out o; vector<bool> already, lost; bool ignoring = false; vector<int> order; bool builtin_set[3];
  explicit Model(const Spec& s) : sp(s) {}
  struct Stop {};
  void err(const string& arg, const string& word, const string& val = "") { o.k = Out::Error; o.err_arg = arg; o.err_word = word; o.err_val = val; throw Stop(); }
  void take(int i, const string& text) {
    const A& a = sp.a[i]; string v;
    if (!read_value(a.t, text, v)) err(a.id(), "*value", text);
    if (a.k == Val || a.k == UVal) o.vals[i].assign(1, v); else o.vals[i].push_back(v);
    if (!a.allowed.empty() && std::find(a.allowed.begin(), a.allowed.end(), v) == a.allowed.end()) err(a.id(), "constraint", text);
  }
  void matched(int i) {
    const A& a = sp.a[i]; if (a.group < 0) return;
    for (size_t j = 0; j < sp.a.size(); ++j) if (sp.a[j].group == a.group && (int)j != i) { if (already[j] && !lost[j]) err(sp.a[j].id(), "exclusive"); }
    for (size_t j = 0; j < sp.a.size(); ++j) if (sp.a[j].group == a.group && (int)j != i) { already[j] = true; lost[j] = true; }
  }
  // every required argument, and one member of every group
  bool complete() { for (size_t i = 0; i < sp.a.size(); ++i) { const A& a = sp.a[i]; if (a.group < 0) { if (a.req && !already[i]) return false; continue; } bool any = false; for (size_t j = 0; j < sp.a.size(); ++j) any |= sp.a[j].group == a.group && already[j] && !lost[j]; if (!any) return false; } return true; }
  // one combined group "-abc": every switch in it takes effect in registration order
  Out run(const vector<string>& argv) {
    size_t n = sp.a.size(); already.assign(n, false); lost.assign(n, false); o.vals.resize(n); memset(builtin_set, 0, sizeof builtin_set);
    for (size_t i = 0; i < n; ++i) { const A& a = sp.a[i]; if (a.valued()) { if (a.k == Val || a.k == UVal) o.vals[i].assign(1, a.def); } else o.vals[i].assign(1, a.k == Sw ? (a.dflt ? "1" : "0") : canon(a.init)); }
    for (int i = (int)n - 1; i >= 0; --i) if (sp.a[i].labelled()) order.push_back(i);
    try {
      for (size_t p = 0; p < argv.size(); ++p) step(argv, p);
      if (!complete()) err(NOARG, "missing");
    } catch (Stop&) {}
    o.set.resize(n); for (size_t i = 0; i < n; ++i) o.set[i] = already[i] && !lost[i];
    return o;
  }
  void toggle(int i) { o.vals[i][0] = o.vals[i][0] == "1" ? "0" : "1"; }
  void step(const vector<string>& argv, size_t& p) {
    string cur = argv[p];
    bool combined = false, consumed = false;
    if (!ignoring) {
      for (int i : order) {
        const A& a = sp.a[i];
        bool exact = !consumed && ((!a.flag.empty() && cur == "-" + a.flag) || cur == "--" + a.name);
        if (!a.valued()) {
          if (exact && !combined) {
            if (a.k == Sw) { if (already[i]) err(a.id(), "already set"); toggle(i); } else o.vals[i][0] = canon(atoi(o.vals[i][0].c_str()) + 1);
            already[i] = true; matched(i); return;
          }
          if (cur.size() > 1 && cur[0] == '-' && cur[1] != '-' && !a.flag.empty() && a.flag != "-" && argv[p].find(sp.delim) == string::npos) {
            int hits = (int)std::count(cur.begin() + 1, cur.end(), a.flag[0]);
            if (!hits) continue;
            combined = true; if (a.group >= 0) o.combined_in_group = true;
            if (a.k == Sw) { if (already[i] || hits > 1) err(a.id(), "already set"); toggle(i); } else o.vals[i][0] = canon(atoi(o.vals[i][0].c_str()) + hits);
            already[i] = true; matched(i); cur.erase(std::remove(cur.begin() + 1, cur.end(), a.flag[0]), cur.end()); consumed = true;
          }
          continue;
        }
        if (combined) continue;
        string f = cur, v; size_t d = f.find(sp.delim);
        if (d != string::npos && d > 1) { v = f.substr(d + 1); f = f.substr(0, d); }
        if (!((!a.flag.empty() && f == "-" + a.flag) || f == "--" + a.name)) continue;
        if (a.k == Val && already[i]) err(a.id(), "already set");
        if (v.empty()) {
          if (sp.delim != ' ') err(a.id(), "delimiter");
          if (++p >= argv.size()) err(a.id(), "Missing a value");
          v = argv[p];
        }
        take(i, v); already[i] = true; matched(i); return;
      }
      if (sp.help && !(combined && cur == "--")) {  // built-in switches come last
        bool h = cur == "--help" || (cur.size() > 1 && cur[0] == '-' && cur[1] != '-' && argv[p].find(sp.delim) == string::npos && cur.find('h', 1) != string::npos);
        if (h && cur != "-h" && std::count(cur.begin(), cur.end(), 'h') > 1 && cur != "--help") err("-h (--help)", "already set");
        if (h) { o.k = Out::Help; throw Stop(); }
        if (cur == "--version") { o.k = Out::Version; throw Stop(); }
      }
      if (!combined && (cur == "--" || cur == "--ignore_rest")) { ignoring = true; o.used_ignore = true; return; }
    }
    if (combined) { if (cur == "-") return; o.check_arg = false; err(cur, "find match"); }
    for (size_t i = 0; i < sp.a.size(); ++i) {
      const A& a = sp.a[i]; if (a.labelled()) continue;
      if (a.k == UVal && already[i]) continue;
      take((int)i, argv[p]); already[i] = true; matched((int)i); return;
    }
    if (cur == "-") return;
    if (ignoring) return;
    err(cur, "find match");
  }
};

// ---- generators ----
const char* FLAGS = "abcdefgijklmnopqrstuvwxyzABCXYZ0123456789+_#@";
string gen_value(pbt::Src& s, Ty t, bool wild = true) {
  switch (t) {
    case TInt: return canon(s.integer<int>());
    case TLong: return canon(s.integer<long>());
    case TUns: return canon(s.integer<unsigned>());
    case TDbl: switch (s.below(4)) { case 0: return canon(s.real(1000)); case 1: return canon(s.centred(-99, 99)) + "." + canon(s.below(1000)); case 2: return canon(s.real(10)) + (s.coin() ? "e" : "E") + canon(s.centred(-30, 30)); default: return (s.coin() ? "." : "+.") + canon(s.below(100)); }
    case TChr: return string(1, "abcXYZ019.,+/"[s.below(13)]);
    default: {
      if (!wild) return s.str("abcxyz019", 1, 8);
      switch (s.below(5)) { case 0: return s.str("abcxyz", 1, 5); case 1: return s.str("ab *=:,|.-/", 1, 10); case 2: return "a" + s.str(" -=*", 0, 4) + "b"; case 3: return s.str("abcdefghijklmnopqrstuvwxyz0123456789_/.*", 1, 60); default: return canon(s.centred(-99, 99)); }
    }
  }
}
string canon_of(Ty t, const string& v) { string r; if (!read_value(t, v, r)) r = t == TStr ? v : "0"; return r; }
string gen_words(pbt::Src& s, int lo, int hi, bool longw = false) { string r; int n = s.len(lo, hi); for (int i = 0; i < n; ++i) { if (i) r += s.coin(1, 8) ? ", " : s.coin(1, 10) ? "  " : " "; r += (longw && s.coin(1, 6)) ? (s.coin() ? s.str("abcdefgh/|.,", 20, 110) : string(s.of<const char*>({"", ",", "|", "ab,", "cd|"})) + s.str("abcdefgh", 50, 170)) : s.str("abcdefghijklmnop.()'", 1, 12); } return r; }

struct Opt { int maxargs = 5; bool groups = false, optional_unl = false, longtext = false; int group_odds = 3; };
Spec gen_spec(pbt::Src& s, const Opt& op) {
  Spec sp; sp.delim = s.of<char>({' ', ' ', '=', ':'}); sp.prog = s.coin(1, 6) ? s.str("abc/xyz_", 1, s.coin() ? 60 : 160) : "prog"; sp.version = s.str("0123456789.", 1, 6); sp.help = !s.coin(1, 8);
  sp.message = op.longtext ? gen_words(s, 0, 40, true) : gen_words(s, 0, 6);
  int nl = s.len(op.groups ? 2 : 0, op.maxargs); string used; vector<string> names;
  for (int i = 0; i < nl; ++i) {
    A a; a.k = s.of<Kind>({Val, Sw, Val, Mul, MSw, Sw}); a.t = (Ty)s.below(NTY);
    if (!s.coin(1, 6)) { char f = FLAGS[s.below(strlen(FLAGS))]; if (used.find(f) == string::npos) { used += f; a.flag = string(1, f); } }
    do { a.name = s.coin(1, 3) && !names.empty() ? names[s.below(names.size())] + s.str("abc", 1, 2) : s.str("abcdefghijklmnopqrstuvwxyz_0123456789=", 2, 9); while (a.name.find('=') != string::npos) a.name.erase(a.name.find('='), 1); if (a.name.empty()) a.name = "n" + canon(i); }
    while (std::find(names.begin(), names.end(), a.name) != names.end() || a.name == "help" || a.name == "version" || a.name == "ignore_rest");
    names.push_back(a.name);
    a.desc = "d" + canon(i) + " " + (op.longtext ? gen_words(s, 0, 25, true) : gen_words(s, 0, 3));
    a.req = a.valued() && s.coin(1, 4); a.dflt = s.coin(1, 3); a.init = s.coin(1, 4) ? (int)s.below(5) : 0; a.ctor_adds = s.coin();
    a.def = canon_of(a.t, gen_value(s, a.t));
    if (a.valued() && s.coin(1, 5)) { int k = (int)s.range(1, 4); for (int j = 0; j < k; ++j) { string v = canon_of(a.t, gen_value(s, a.t, false)); if (a.t != TDbl || (v.size() < 6 && v.find_first_of(".e") == string::npos)) a.allowed.push_back(v); } }
    sp.a.push_back(a);
  }
  if (op.groups && nl >= 2) {
    sp.groups = 1 + (nl >= 4 && s.coin(1, 3)); int i = 0;
    for (int g = 0; g < sp.groups; ++g) { int left = nl - i - 2 * (sp.groups - 1 - g); int n = (int)s.range(2, std::max(2, std::min(4, left))); for (int j = 0; j < n && i < nl; ++j, ++i) { sp.a[i].group = g; sp.a[i].req = false; } if (s.coin(1, 3) && nl - i > 2 * (sp.groups - 1 - g)) ++i; }
    // a group needs two members
    for (int g = 0; g < sp.groups; ++g) { int n = 0; for (auto& a : sp.a) n += a.group == g; if (n < 2) for (auto& a : sp.a) if (a.group == g) a.group = -1; }
  }
  int nu = (int)s.below(4);
  for (int i = 0; i < nu; ++i) {
    A a; a.k = UVal; a.t = (Ty)s.below(NTY); a.name = "u" + canon(i) + s.str("abc", 0, 3); a.desc = "ud" + canon(i) + (op.longtext ? " " + gen_words(s, 0, 20, true) : ""); a.ctor_adds = s.coin();
    a.req = true; if (i == nu - 1) { if (s.coin()) { a.k = UMul; a.req = s.coin(); } else if (op.optional_unl && s.coin()) a.req = false; }
    a.def = canon_of(a.t, gen_value(s, a.t)); if (s.coin(1, 6)) { string v = canon_of(a.t, gen_value(s, a.t, false)); if (a.t != TDbl || (v.size() < 6 && v.find_first_of(".e") == string::npos)) a.allowed.push_back(v); }
    bool dup = std::find(names.begin(), names.end(), a.name) != names.end(); if (dup) continue; names.push_back(a.name);
    sp.a.push_back(a);
  }
  return sp;
}

string good_value(pbt::Src& s, const A& a) { return a.allowed.empty() ? gen_value(s, a.t) : a.allowed[s.below(a.allowed.size())]; }
// argv tokens giving one labelled argument a value
void emit(pbt::Src& s, const Spec& sp, const A& a, const string& v, vector<string>& out) {
  string nm = (!a.flag.empty() && s.coin()) ? "-" + a.flag : "--" + a.name;
  if (!a.valued()) { out.push_back(nm); return; }
  if (sp.delim != ' ') out.push_back(nm + sp.delim + v);
  else if (s.coin(1, 6) && !v.empty()) out.push_back(nm + " " + v);
  else { out.push_back(nm); out.push_back(v); }
}
string describe(const Spec& sp) {
  std::ostringstream o; o << "delim='" << sp.delim << "' help=" << sp.help;
  for (auto& a : sp.a) { static const char* kn[] = {"switch", "multiswitch", "value", "multi", "uvalue", "umulti"}; o << "; " << kn[a.k] << " -" << a.flag << " --" << a.name; if (a.valued()) o << " <" << a.tdesc() << "> def=" << pbt::quote(a.def); if (a.req) o << " req"; if (a.group >= 0) o << " xor" << a.group; }
  return o.str();
}
string join(const vector<string>& v) { string r; for (auto& x : v) r += " " + pbt::quote(x); return r; }

// ---- the real thing ----
struct Failed { string arg, text; };
struct Asked { bool help; };
struct RecOutput : CmdLineOutput {
  virtual void usage(CmdLineInterface&) { throw Asked{true}; }
  virtual void version(CmdLineInterface&) { throw Asked{false}; }
  virtual void failure(CmdLineInterface&, ArgException& e) { throw Failed{e.argId(), e.error()}; }
};
struct Count : Visitor { int n = 0; virtual void visit() { ++n; } };
struct RArg { std::shared_ptr<Count> seen = std::make_shared<Count>(); std::unique_ptr<Arg> p; std::unique_ptr<void, void (*)(void*)> cons; std::function<vector<string>()> get; RArg() : cons(0, [](void*) {}) {} };
template <typename T> T parse_def(const string& d) { std::istringstream is(d); T v = T(); is >> v; return v; }
template <> string parse_def<string>(const string& d) { return d; }
template <typename T> RArg make_valued(const A& a, CmdLine& cmd, bool adds) {
  RArg r; T def = parse_def<T>(a.def); Constraint<T>* c = 0;
  if (!a.allowed.empty()) { vector<T> al; for (auto& x : a.allowed) al.push_back(parse_def<T>(x)); c = new ValuesConstraint<T>(al); r.cons = std::unique_ptr<void, void (*)(void*)>(c, [](void* q) { delete (ValuesConstraint<T>*)q; }); }
  if (a.k == Val) { ValueArg<T>* v = c ? (adds ? new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, c, cmd, r.seen.get()) : new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, c, r.seen.get())) : (adds ? new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, a.tdesc(), cmd, r.seen.get()) : new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, a.tdesc(), r.seen.get())); r.p.reset(v); r.get = [v]() { return vector<string>(1, canon(v->getValue())); }; }
  else if (a.k == UVal) { UnlabeledValueArg<T>* v = c ? (adds ? new UnlabeledValueArg<T>(a.name, a.desc, a.req, def, c, cmd) : new UnlabeledValueArg<T>(a.name, a.desc, a.req, def, c)) : (adds ? new UnlabeledValueArg<T>(a.name, a.desc, a.req, def, a.tdesc(), cmd) : new UnlabeledValueArg<T>(a.name, a.desc, a.req, def, a.tdesc())); r.p.reset(v); r.get = [v]() { return vector<string>(1, canon(v->getValue())); }; }
  else if (a.k == Mul) { MultiArg<T>* v = c ? (adds ? new MultiArg<T>(a.flag, a.name, a.desc, a.req, c, cmd, r.seen.get()) : new MultiArg<T>(a.flag, a.name, a.desc, a.req, c, r.seen.get())) : (adds ? new MultiArg<T>(a.flag, a.name, a.desc, a.req, a.tdesc(), cmd, r.seen.get()) : new MultiArg<T>(a.flag, a.name, a.desc, a.req, a.tdesc(), r.seen.get())); r.p.reset(v); r.get = [v]() { vector<string> o; for (auto& x : v->getValue()) o.push_back(canon(x)); return o; }; }
  else { UnlabeledMultiArg<T>* v = c ? (adds ? new UnlabeledMultiArg<T>(a.name, a.desc, a.req, c, cmd) : new UnlabeledMultiArg<T>(a.name, a.desc, a.req, c)) : (adds ? new UnlabeledMultiArg<T>(a.name, a.desc, a.req, a.tdesc(), cmd) : new UnlabeledMultiArg<T>(a.name, a.desc, a.req, a.tdesc())); r.p.reset(v); r.get = [v]() { vector<string> o; for (auto& x : v->getValue()) o.push_back(canon(x)); return o; }; }
  if (!adds) cmd.add(r.p.get());
  return r;
}
RArg make_arg(const A& a, CmdLine& cmd, bool in_group) {
  bool adds = a.ctor_adds && !in_group; RArg r;
  if (a.k == Sw) { SwitchArg* v = adds ? new SwitchArg(a.flag, a.name, a.desc, cmd, a.dflt, r.seen.get()) : new SwitchArg(a.flag, a.name, a.desc, a.dflt, r.seen.get()); r.p.reset(v); r.get = [v]() { return vector<string>(1, v->getValue() ? "1" : "0"); }; if (!adds && !in_group) cmd.add(*v); return r; }
  if (a.k == MSw) { MultiSwitchArg* v = adds ? new MultiSwitchArg(a.flag, a.name, a.desc, cmd, a.init, r.seen.get()) : new MultiSwitchArg(a.flag, a.name, a.desc, a.init, r.seen.get()); r.p.reset(v); r.get = [v]() { return vector<string>(1, canon(v->getValue())); }; if (!adds && !in_group) cmd.add(v); return r; }
  if (!in_group) switch (a.t) { case TInt: return make_valued<int>(a, cmd, adds); case TDbl: return make_valued<double>(a, cmd, adds); case TStr: return make_valued<string>(a, cmd, adds); case TChr: return make_valued<char>(a, cmd, adds); case TUns: return make_valued<unsigned>(a, cmd, adds); default: return make_valued<long>(a, cmd, adds); }
  return r;
}
struct Real {
  CmdLine cmd; vector<RArg> args; RecOutput rec;
  Real(const Spec& sp, bool own_output) : cmd(sp.message, sp.delim, sp.version, sp.help) {
    if (own_output) { CmdLineOutput* old = cmd.getOutput(); cmd.setOutput(&rec); delete old; }
    for (size_t i = 0; i < sp.a.size(); ++i) {
      const A& a = sp.a[i];
      if (a.group < 0) { args.push_back(make_arg(a, cmd, false)); continue; }
      if (i && sp.a[i - 1].group == a.group) continue;
      vector<Arg*> members;
      for (size_t j = i; j < sp.a.size() && sp.a[j].group == a.group; ++j) { args.push_back(member(sp.a[j])); members.push_back(args.back().p.get()); }
      if (members.size() == 2 && a.ctor_adds) cmd.xorAdd(*members[0], *members[1]); else cmd.xorAdd(members);
    }
  }
  template <typename T> RArg member_t(const A& a) {
    RArg r; T def = parse_def<T>(a.def); Constraint<T>* c = 0;
    if (!a.allowed.empty()) { vector<T> al; for (auto& x : a.allowed) al.push_back(parse_def<T>(x)); c = new ValuesConstraint<T>(al); r.cons = std::unique_ptr<void, void (*)(void*)>(c, [](void* q) { delete (ValuesConstraint<T>*)q; }); }
    if (a.k == Val) { ValueArg<T>* v = c ? new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, c, r.seen.get()) : new ValueArg<T>(a.flag, a.name, a.desc, a.req, def, a.tdesc(), r.seen.get()); r.p.reset(v); r.get = [v]() { return vector<string>(1, canon(v->getValue())); }; }
    else { MultiArg<T>* v = c ? new MultiArg<T>(a.flag, a.name, a.desc, a.req, c, r.seen.get()) : new MultiArg<T>(a.flag, a.name, a.desc, a.req, a.tdesc(), r.seen.get()); r.p.reset(v); r.get = [v]() { vector<string> o; for (auto& x : v->getValue()) o.push_back(canon(x)); return o; }; }
    return r;
  }
  RArg member(const A& a) {
    if (!a.valued()) return make_arg(a, cmd, true);
    switch (a.t) { case TInt: return member_t<int>(a); case TDbl: return member_t<double>(a); case TStr: return member_t<string>(a); case TChr: return member_t<char>(a); case TUns: return member_t<unsigned>(a); default: return member_t<long>(a); }
  }
};
string toks(const vector<string>& v) { string r; for (auto& x : v) r += pbt::quote(x) + ","; return r; }
string values_text(const vector<vector<string>>& v, const vector<bool>& set) { string r; for (size_t i = 0; i < v.size(); ++i) r += (set[i] ? "!" : "?") + toks(v[i]) + ";"; return r; }

struct Argv { vector<string> store; vector<char*> p; Argv(const string& prog, const vector<string>& a) { store.push_back(prog); store.insert(store.end(), a.begin(), a.end()); for (auto& x : store) p.push_back(&x[0]); p.push_back(0); } int argc() { return (int)store.size(); } char** argv() { return p.data(); } };

bool word_ok(const Out& m, const string& text) {
  if (m.err_word == "*value") return text.find("Couldn't read") != string::npos || text.find("More than one valid value") != string::npos;
  return text.find(m.err_word) != string::npos;
}
void compare_with(Real& r, const Spec& sp, const Out& m, const vector<string>& argv, const string& ctx) {
    Argv av(sp.prog, argv); Out::K got = Out::Ok; Failed f;
    try { r.cmd.parse(av.argc(), av.argv()); } catch (Failed& x) { got = Out::Error; f = x; } catch (Asked& a) { got = a.help ? Out::Help : Out::Version; }
    OptionalUnlabeledTracker::alreadyOptional() = false;
    static const char* kn[] = {"accept", "reject", "help", "version"};
    if (got != m.k) FAIL("the line must be answered with: " << kn[m.k] << (m.k == Out::Error ? " (" + m.err_word + ", " + m.err_arg + ")" : "") << "; got " << kn[got] << " " << f.arg << " " << f.text << " | " << ctx);
    if (got == Out::Error) {
      if (m.check_arg) { string want = m.err_arg == NOARG ? " " : "Argument: " + m.err_arg; CHECK(f.arg == want, "diagnostic names '" << f.arg << "' not '" << want << "' (" << f.text << ") | " << ctx); }
      CHECK(word_ok(m, f.text), "diagnostic '" << f.text << "' for a case of '" << m.err_word << "' | " << ctx);
      if (!m.err_val.empty()) CHECK(f.text.find("'" + m.err_val + "'") != string::npos, "diagnostic '" << f.text << "' does not quote " << m.err_val << " | " << ctx);
    }
    if (got == Out::Ok) {
      for (size_t i = 0; i < sp.a.size(); ++i) {
        vector<string> v = r.args[i].get();
        CHECK(v == m.vals[i], "argument " << sp.a[i].id() << " delivered " << toks(v) << " expected " << toks(m.vals[i]) << " | " << ctx);
        CHECK(r.args[i].p->isSet() == m.set[i], "argument " << sp.a[i].id() << " isSet()=" << r.args[i].p->isSet() << " | " << ctx);
        const A& a = sp.a[i]; int seen = r.args[i].seen->n; if (!a.labelled()) continue;
        if (a.k == MSw) { int times = atoi(v[0].c_str()) - a.init; CHECK((seen > 0) == m.set[i] && seen <= times, "the visitor of " << a.id() << " was called " << seen << " times for " << times << " occurrences | " << ctx); }
        else { int times = a.k == Mul ? (int)m.vals[i].size() : m.set[i]; CHECK(seen == times, "the visitor of " << a.id() << " was called " << seen << " times for " << times << " occurrences | " << ctx); }
      }
    }
    bool dashes = false; for (auto& x : argv) dashes |= x == "--" || x == "--ignore_rest";
    CHECK(dashes || !Arg::ignoreRest(), "labelled arguments are being ignored without having been asked for | " << ctx);
}
void compare(const Spec& sp, const Out& m, const vector<string>& argv, bool forked) {
  string ctx = describe(sp) + " | argv:" + join(argv);
  if (!forked) { Real r(sp, true); compare_with(r, sp, m, argv, ctx); return; }
  struct Res { int done; char text[60000]; }; Res* res = pbt::shared<Res>();
  pbt::Sand sd = pbt::sandbox([&]() { Real r(sp, false); Argv av(sp.prog, argv); r.cmd.parse(av.argc(), av.argv()); vector<vector<string>> v; vector<bool> st; for (auto& a : r.args) { v.push_back(a.get()); st.push_back(a.p->isSet()); } snprintf(res->text, sizeof res->text, "%s", values_text(v, st).c_str()); res->done = 1; return 42; });
  bool done = res->done; string text = res->text; pbt::unshare_mem(res);
  CHECK(!sd.sig && sd.code != 99 && !(sd.code >= 96 && sd.code < 99), "crashed: signal " << sd.sig << " code " << sd.code << " " << sd.err.substr(0, 1500) << " | " << ctx);
  if (m.k == Out::Ok) { CHECK(done && sd.code == 42, "a valid line was not accepted: exit " << sd.code << " " << sd.err.substr(0, 600) << " | " << ctx); CHECK(text == values_text(m.vals, m.set), "delivered " << text << " expected " << values_text(m.vals, m.set) << " | " << ctx); CHECK(sd.err.empty() && sd.out.empty(), "output on success: " << sd.out << sd.err); }
  else if (m.k == Out::Error) {
    CHECK(!done && sd.code == 1, "an invalid line (" << m.err_word << ") must end the program with status 1; got " << sd.code << " done " << done << " | " << ctx);
    CHECK(sd.err.find("PARSE ERROR:") != string::npos && word_ok(m, sd.err), "diagnostic: " << sd.err << " | " << ctx);
    if (m.check_arg && m.err_arg != NOARG) CHECK(sd.err.find(m.err_arg) != string::npos, "the diagnostic does not name " << m.err_arg << ": " << sd.err << " | " << ctx);
  } else { CHECK(!done && sd.code == 0, "a request for " << (m.k == Out::Help ? "help" : "version") << " must end the program with status 0, got " << sd.code << " " << sd.err << " | " << ctx);
    CHECK(sd.out.find(m.k == Out::Help ? "USAGE:" : "version:") != string::npos, "output was " << sd.out << " | " << ctx); }
}

// valid line: every required argument once, optional ones sometimes, xor groups by exactly one member
vector<string> valid_line(pbt::Src& s, const Spec& sp, bool& ignore) {
  vector<vector<string>> pieces; string comb;
  vector<int> chosen(sp.groups, -1);
  for (int g = 0; g < sp.groups; ++g) { vector<int> mem; for (size_t i = 0; i < sp.a.size(); ++i) if (sp.a[i].group == g) mem.push_back((int)i); if (!mem.empty()) chosen[g] = mem[s.below(mem.size())]; }
  for (size_t i = 0; i < sp.a.size(); ++i) {
    const A& a = sp.a[i]; if (!a.labelled()) continue;
    if (a.group >= 0) { if (chosen[a.group] != (int)i) continue; } else if (!a.req && s.coin()) continue;
    if (!a.valued() && !a.flag.empty() && s.coin()) { int k = a.k == MSw ? (int)s.range(1, 3) : 1; comb += string(k, a.flag[0]); continue; }
    int reps = (a.k == Mul || a.k == MSw) ? (int)s.range(1, 3) : 1;
    for (int r = 0; r < reps; ++r) { vector<string> t; emit(s, sp, a, a.valued() ? good_value(s, a) : "", t); pieces.push_back(t); }
  }
  if (!comb.empty()) { for (size_t i = comb.size(); i > 1; --i) std::swap(comb[i - 1], comb[s.below(i)]); size_t cut = s.coin(1, 4) ? s.below(comb.size()) : 0; if (cut) { bool ms = true; (void)ms; pieces.push_back({"-" + comb.substr(0, cut)}); } pieces.push_back({"-" + comb.substr(cut)}); }
  for (size_t i = pieces.size(); i > 1; --i) std::swap(pieces[i - 1], pieces[s.below(i)]);
  // unlabelled values in order, at arbitrary places
  vector<string> unl; for (auto& a : sp.a) { if (a.labelled()) continue; if (a.k == UMul) { int k = (int)s.range(a.req ? 1 : 0, 4); while (k--) unl.push_back(good_value(s, a)); } else if (a.req || s.coin()) unl.push_back(good_value(s, a)); }
  vector<string> out; size_t u = 0; bool dashes = false; for (auto& v : unl) if (!v.empty() && v[0] == '-') dashes = true;
  ignore = s.coin(1, 10);
  if (dashes && !ignore) ignore = true;  // values that look like flags belong after "--"
  for (auto& pc : pieces) { while (u < unl.size() && s.coin(1, 3) && !(ignore && !unl[u].empty() && unl[u][0] == '-')) out.push_back(unl[u++]); out.insert(out.end(), pc.begin(), pc.end()); }
  if (ignore) { while (u < unl.size() && s.coin() && unl[u][0] != '-') out.push_back(unl[u++]); out.push_back(s.coin() ? "--" : "--ignore_rest"); }
  while (u < unl.size()) out.push_back(unl[u++]);
  return out;
}
// lines whose meaning the documentation leaves open are not judged
bool judged(const Spec& sp, const vector<string>& argv) {
  for (auto& x : argv) { if (x.size() > 1 && x[0] == '-' && x[1] != '-' && x.find('\0') != string::npos) return false; (void)sp; }
  return true;
}
void mutate(pbt::Src& s, const Spec& sp, vector<string>& v, pbt::Ctx& c) {
  int n = (int)s.range(1, 2);
  while (n--) switch (s.below(13)) {
    case 0: if (!v.empty()) { c.label("drop"); v.erase(v.begin() + s.below(v.size())); } break;
    case 1: if (!v.empty()) { c.label("duplicate"); size_t i = s.below(v.size()); string t = v[i]; v.insert(v.begin() + s.below(v.size() + 1), t); } break;
    case 2: c.label("unknown long"); v.insert(v.begin() + s.below(v.size() + 1), "--" + s.str("abcdefxyz_", 1, 6)); break;
    case 3: c.label("unknown flag"); v.insert(v.begin() + s.below(v.size() + 1), "-" + s.str("abcdefgijkXYZQ", 1, 3)); break;
    case 4: if (v.size() > 1) { c.label("swap"); size_t i = s.below(v.size()), j = s.below(v.size()); std::swap(v[i], v[j]); } break;
    case 5: if (!v.empty()) { c.label("append char"); v[s.below(v.size())] += s.of<char>({'x', ' ', '1', '.', '-', '*', '=', 'e'}); } break;
    case 6: if (!v.empty()) { c.label("truncate"); string& t = v[s.below(v.size())]; if (!t.empty()) t.erase(t.size() - 1); } break;
    case 7: if (!v.empty()) { c.label("other value"); string& t = v[s.below(v.size())]; size_t d = t.find(sp.delim); string nv = s.of<const char*>({"abc", "1 2", "99999999999999999999999", "1.5", "", " 7", "7 ", "0x10", "1e400", "-", "--", "1,2", "nan", "+", "2147483648", "-2147483649", "3-4"}); if (d != string::npos && d > 1 && t[0] == '-') t = t.substr(0, d + 1) + nv; else t = nv; } break;
    case 8: { c.label("extra positional"); v.push_back(s.coin() ? "extra" : "7"); break; }
    case 9: if (!v.empty()) { c.label("chop"); v.pop_back(); } break;
    case 10: { vector<const A*> l; for (auto& a : sp.a) if (a.labelled()) l.push_back(&a); if (!l.empty()) { c.label("repeat argument"); const A& a = *l[s.below(l.size())]; vector<string> t; emit(s, sp, a, a.valued() ? good_value(s, a) : "", t); v.insert(v.begin() + s.below(v.size() + 1), t.begin(), t.end()); } break; }
    case 11: if (s.coin(1, 3)) { c.label("help/version"); v.insert(v.begin() + s.below(v.size() + 1), s.of<const char*>({"-h", "--help", "--version"})); } break;
    case 12: { c.label("dashes"); v.insert(v.begin() + s.below(v.size() + 1), s.of<const char*>({"--", "-", "--ignore_rest"})); break; }
  }
}
bool needs_fork(const Spec& sp, const vector<string>& argv) {
  for (auto& x : argv) if (x == "--" || x == "--ignore_rest") return true;
  (void)sp; return false;
}
void judge(pbt::Ctx& c, pbt::Src& s, const Spec& sp, const vector<string>& argv) {
  ASSUME(judged(sp, argv));
  Model m(sp); Out o = m.run(argv);
  NOTE(describe(sp)); NOTE("argv:" << join(argv)); 
  c.label(o.combined_in_group, "group member inside combined switches");
  static const char* kn[] = {"accepted", "rejected", "help", "version"}; c.label(kn[o.k]); NOTE("expected: " << kn[o.k] << " " << o.err_word << " " << values_text(o.vals, o.set));
  bool f = needs_fork(sp, argv) || s.coin(1, 25); c.label(f, "whole program in a child");
  compare(sp, o, argv, f);
  c.nontrivial(!argv.empty() && !sp.a.empty());
}
}  // namespace

PBT(cmd_valid_lines, 4, "at least one argument is specified and the line is not empty") {
  Opt op; op.maxargs = (int)s.range(1, 8); op.groups = s.coin(1, 5); op.optional_unl = s.coin();
  Spec sp = gen_spec(s, op); bool ign; vector<string> v = valid_line(s, sp, ign); c.label(ign, "with --");
  judge(c, s, sp, v);
}
PBT(cmd_faulty_lines, 6, "at least one argument is specified and the line is not empty") {
  Opt op; op.maxargs = (int)s.range(1, 6); op.groups = s.coin(1, 6); op.optional_unl = s.coin();
  Spec sp = gen_spec(s, op); bool ign; vector<string> v = valid_line(s, sp, ign); mutate(s, sp, v, c);
  judge(c, s, sp, v);
}
// several command lines in one program: each is parsed with its own settings, whatever the others were given
PBT(cmd_several_lines, 2, "two command lines with arguments are set up in one program and both are parsed") {
  size_t n = 2 + s.below(2); vector<Spec> sp(n); vector<vector<string>> v(n); vector<Out> o(n); bool any = true, dashes = false; vector<size_t> order;
  for (size_t i = 0; i < n; ++i) { Opt op; op.maxargs = (int)s.range(1, 4); op.groups = s.coin(1, 6); op.optional_unl = s.coin(); sp[i] = gen_spec(s, op); bool ign; v[i] = valid_line(s, sp[i], ign); dashes |= ign; if (s.coin(1, 3)) mutate(s, sp[i], v[i], c); ASSUME(judged(sp[i], v[i])); Model m(sp[i]); o[i] = m.run(v[i]); any &= !v[i].empty(); NOTE(describe(sp[i]) << " argv:" << join(v[i])); order.push_back(i); }
  for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[s.below(i)]); bool first = s.coin(); c.label(first, "all set up before the first is parsed"); c.label(dashes, "one of them with --"); { string t; for (size_t i : order) t += " " + canon((int)i + 1); NOTE("parsed in the order" << t); }
  struct Res { int done; char text[8000]; }; Res* res = pbt::shared<Res>();
  pbt::Sand sd = pbt::sandbox([&]() { try { vector<std::unique_ptr<Real>> r(n); auto make = [&](size_t i) { r[i].reset(new Real(sp[i], true)); OptionalUnlabeledTracker::alreadyOptional() = false; };
    if (first) for (size_t i = 0; i < n; ++i) make(i);
    for (size_t i : order) { if (!first) make(i); compare_with(*r[i], sp[i], o[i], v[i], "command line " + canon((int)i + 1) + ": " + describe(sp[i]) + " | argv:" + join(v[i])); }
    } catch (pbt::Fail& f) { snprintf(res->text, sizeof res->text, "%s", f.msg.c_str()); } res->done = 1; return 42; });
  bool done = res->done; string text = res->text; pbt::unshare_mem(res);
  CHECK(done && sd.code == 42, "crashed: signal " << sd.sig << " code " << sd.code << " " << sd.err.substr(0, 1500)); CHECK(text.empty(), "with several command lines in the program " << text);
  c.nontrivial(any);
}
// what an error says stays what it said while other errors come and go
PBT(cmd_errors, 1, "at least two errors with different messages are alive at the same time") {
  struct E { string text, id; int kind; std::unique_ptr<ArgException> p; const char* w; }; size_t n = s.len(1, 6); vector<E> es(n); bool distinct = false;
  auto what = [](const E& e) { return (e.kind < 4 ? e.id : string("undefined")) + " -- " + (e.kind < 4 ? e.text : string("undefined exception")); };
  for (size_t i = 0; i < n; ++i) { E& e = es[i]; e.text = s.str("abc d'", 0, 40); e.id = s.str("-ab ()", 0, 30); e.kind = (int)s.below(5); switch (e.kind) { case 0: e.p.reset(new ArgParseException(e.text, e.id)); break; case 1: e.p.reset(new CmdLineParseException(e.text, e.id)); break; case 2: e.p.reset(new SpecificationException(e.text, e.id)); break; case 3: e.p.reset(new ArgException(e.text, e.id)); break; default: e.p.reset(new ArgException()); }
    if (s.coin(1, 3)) { ArgException* q = new ArgException(*e.p); e.p.reset(q); c.label("copied"); } if (i && s.coin(1, 4)) { *e.p = *es[0].p; e.text = es[0].text; e.id = es[0].id; e.kind = es[0].kind; c.label("assigned"); }
    const std::exception& base = *e.p; e.w = base.what(); distinct |= i && what(e) != what(es[0]); NOTE("kind " << e.kind << " " << pbt::quote(e.id) << " " << pbt::quote(e.text)); }
  for (size_t i = 0; i < n; ++i) { E& e = es[i]; CHECK(string(e.w) == what(e), "error " << i + 1 << " of " << n << " said " << pbt::quote(e.w) << " after the others were made, expected " << pbt::quote(what(e)));
    CHECK(string(e.p->what()) == what(e) && e.p->error() == (e.kind < 4 ? e.text : "undefined exception"), "error " << i + 1 << " says " << pbt::quote(e.p->what()) << " and " << pbt::quote(e.p->error())); string id = e.kind < 4 && e.id != "undefined" ? "Argument: " + e.id : " "; CHECK(e.p->argId() == id, "error " << i + 1 << " names " << pbt::quote(e.p->argId()) << " expected " << pbt::quote(id)); }
  c.nontrivial(distinct);
}
PBT(cmd_exclusive_groups, 6, "the specification has at least one exclusive group") {
  Opt op; op.maxargs = (int)s.range(2, 7); op.groups = true; op.optional_unl = s.coin();
  Spec sp = gen_spec(s, op); bool ign; vector<string> v = valid_line(s, sp, ign);
  vector<int> mem; for (size_t i = 0; i < sp.a.size(); ++i) if (sp.a[i].group >= 0) mem.push_back((int)i);
  switch (s.below(5)) {
    case 0: c.label("one member each"); break;
    case 3: { // one group named again, another group or a required argument left out
      vector<string> w; const A& d = sp.a[s.below(sp.a.size())]; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "-" + d.flag || v[i] == "--" + d.name) { if (d.valued()) ++i; continue; } if (v[i].find("--" + d.name + sp.delim) == 0 || (!d.flag.empty() && v[i].find("-" + d.flag + sp.delim) == 0)) continue; w.push_back(v[i]); } v = w;
      const A& a = sp.a[mem[s.below(mem.size())]]; for (int k = 1 + (int)s.below(2); k; --k) { vector<string> t; emit(s, sp, a, a.valued() ? good_value(s, a) : "", t); v.insert(v.begin() + s.below(v.size() + 1), t.begin(), t.end()); } c.label("one left out and another repeated"); break; }
    case 1: { c.label("another member added"); const A& a = sp.a[mem[s.below(mem.size())]]; vector<string> t; emit(s, sp, a, a.valued() ? good_value(s, a) : "", t); v.insert(v.begin() + s.below(v.size() + 1), t.begin(), t.end()); break; }
    case 2: { c.label("members removed"); const A& a = sp.a[mem[s.below(mem.size())]]; vector<string> w; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "-" + a.flag || v[i] == "--" + a.name) { if (a.valued()) ++i; continue; } if (v[i].find("--" + a.name + sp.delim) == 0 || (!a.flag.empty() && v[i].find("-" + a.flag + sp.delim) == 0)) continue; w.push_back(v[i]); } v = w; break; }
    default: mutate(s, sp, v, c);
  }
  judge(c, s, sp, v);
}

// ---- help and version output ----
namespace {
string strip_ws(const string& t) { string r; for (char ch : t) if (!is_space(ch)) r += ch; return r; }
vector<string> words(const string& t) { vector<string> r; string w; for (char ch : t) { if (is_space(ch) || ch == ',' || ch == '|') { if (!w.empty()) r.push_back(w); w.clear(); if (ch == ',' || ch == '|') r.push_back(string(1, ch)); } else w += ch; } if (!w.empty()) r.push_back(w); return r; }
bool required_now(const A& a) { return a.req || a.group >= 0; }
string short_id(const Spec& sp, const A& a) {
  if (a.k == UVal) return "<" + a.tdesc() + ">"; if (a.k == UMul) return "<" + a.tdesc() + "> ...";
  string id = a.flag.empty() ? "--" + a.name : "-" + a.flag; if (a.valued()) id += string(1, sp.delim) + "<" + a.tdesc() + ">"; if (!required_now(a)) id = "[" + id + "]";
  if (a.k == Mul) id += " ... "; if (a.k == MSw) id += " ... val"; return id;
}
string long_id(const A& a) {
  if (a.k == UVal) return "<" + a.tdesc() + ">"; if (a.k == UMul) return "<" + a.tdesc() + ">  (accepted multiple times)";
  string v = a.valued() ? " <" + a.tdesc() + ">" : "", id; if (!a.flag.empty()) id = "-" + a.flag + v + ",  "; id += "--" + a.name + v;
  if (a.k == Mul) id += "  (accepted multiple times)"; if (a.k == MSw) id += "  (accepted multiple times) val"; return id;
}
string description(const A& a) { return (a.group >= 0 ? "(OR required)  " : a.req ? "(required)  " : "") + a.desc; }
vector<A> builtins(const Spec& sp) {  // in listing order
  vector<A> r; A ig; ig.k = Sw; ig.flag = "-"; ig.name = "ignore_rest"; ig.desc = "Ignores the rest of the labeled arguments following this flag."; A h; h.k = Sw; h.flag = "h"; h.name = "help"; h.desc = "Displays usage information and exits."; A v; v.k = Sw; v.name = "version"; v.desc = "Displays version information and exits.";
  r.push_back(ig); if (sp.help) { r.push_back(v); r.push_back(h); } return r;
}
vector<A> listing(const Spec& sp) { vector<A> r; for (int i = (int)sp.a.size() - 1; i >= 0; --i) if (sp.a[i].labelled()) r.push_back(sp.a[i]); for (auto& b : builtins(sp)) r.push_back(b); for (auto& a : sp.a) if (!a.labelled()) r.push_back(a); return r; }
string expected_short(const Spec& sp) {
  string r = sp.prog + " ";
  for (int g = 0; g < sp.groups; ++g) { bool any = false; string t = " {"; for (auto& a : sp.a) if (a.group == g) { t += short_id(sp, a) + "|"; any = true; } if (any) { t[t.size() - 1] = '}'; r += t; } }
  for (auto& a : listing(sp)) if (a.group < 0) r += " " + short_id(sp, a);
  return r;
}
string expected_help(const Spec& sp) {
  string r = "USAGE: \n" + expected_short(sp) + "\nWhere: \n";
  for (int g = 0; g < sp.groups; ++g) { bool first = true; for (auto& a : sp.a) if (a.group == g) { if (!first) r += "\n-- OR --\n"; first = false; r += long_id(a) + "\n" + description(a) + "\n"; } }
  for (auto& a : listing(sp)) if (a.group < 0) r += long_id(a) + "\n" + description(a) + "\n";
  return r + "\n" + sp.message;
}
struct Capture { std::ostringstream o; std::streambuf* old; std::ostream& st; explicit Capture(std::ostream& x) : st(x) { old = st.rdbuf(o.rdbuf()); } ~Capture() { st.rdbuf(old); } };
void check_wrapping(const string& out, const string& what, const Spec& sp) {
  // every line keeps within the width, and starts at one of the indents (headings, texts, descriptions, OR, continued usage)
  size_t cont = 3 + std::min<size_t>(sp.prog.size() + 2, 37);
  std::istringstream is(out); string line; size_t last = 0; while (std::getline(is, line)) { CHECK(line.size() <= 75, what << ": a line of " << line.size() << " columns: " << line); size_t before = last, in = line.find_first_not_of(' '); if (in == string::npos) continue; CHECK(in == 0 || in == 3 || in == 5 || in == 9 || (in == 6 && before != 5) || in == cont, what << ": a line starts with " << in << " spaces: '" << line << "'"); last = in; }
}
void check_text(const string& got, const string& want, const string& what) {
  CHECK(strip_ws(got) == strip_ws(want), what << ": text lost, invented or reordered.\ngot:\n" << got << "\nexpected words:\n" << want);
  bool small = true; for (auto& w : words(want)) if (w.size() > 30) small = false;
  if (small) CHECK(words(got) == words(want), what << ": a word that fits on a line was broken:\n" << got);
}
}  // namespace

PBT(cmd_help_text, 4, "the specification has at least one argument") {
  Opt op; op.maxargs = (int)s.range(1, 7); op.groups = s.coin(1, 3); op.optional_unl = true; op.longtext = s.coin(3, 4);
  Spec sp = gen_spec(s, op); NOTE(describe(sp) << " message: " << pbt::quote(sp.message));
  string out; { Real r(sp, false); OptionalUnlabeledTracker::alreadyOptional() = false; r.cmd.getProgramName() = sp.prog; Capture cap(std::cout); StdOutput so; so.usage(r.cmd); out = cap.o.str(); }
  check_text(out, expected_help(sp), "usage"); check_wrapping(out, "usage", sp);
  string err; { Real r(sp, false); OptionalUnlabeledTracker::alreadyOptional() = false; r.cmd.getProgramName() = sp.prog; Capture cap(std::cerr); Capture cap2(std::cout); StdOutput so; CmdLineParseException e("some problem", "-x (--xyz)"); so.failure(r.cmd, e); err = cap.o.str(); if (!sp.help) err += cap2.o.str(); }
  string want = "PARSE ERROR: Argument: -x (--xyz)\nsome problem\n\n"; want += sp.help ? "Brief USAGE: \n" + expected_short(sp) + "\nFor complete USAGE and HELP type: \n" + sp.prog + " --help" : expected_help(sp);
  check_text(err, want, "failure"); 
  c.label(out.size() > 2000, "long help"); c.label(sp.groups > 0, "with exclusive groups");
  c.nontrivial(!sp.a.empty());
}
PBT(cmd_help_exit, 1, "the line asks for help or version") {
  Opt op; op.maxargs = (int)s.range(0, 5); op.groups = s.coin(1, 4); op.longtext = s.coin(); Spec sp = gen_spec(s, op); sp.help = true;
  bool ign; vector<string> v = valid_line(s, sp, ign); bool h = s.coin(2, 3); string tok = h ? (s.coin() ? "--help" : "-h") : "--version"; v.insert(v.begin() + (s.coin() ? 0 : s.below(v.size() + 1)), tok);
  Model m(sp); Out o = m.run(v); ASSUME(o.k == Out::Help || o.k == Out::Version); NOTE(describe(sp) << " argv:" << join(v));
  pbt::Sand sd = pbt::sandbox([&]() { Real r(sp, false); Argv av(sp.prog, v); r.cmd.parse(av.argc(), av.argv()); return 42; });
  CHECK(sd.sig == 0 && sd.code == 0, "help/version must end the program with status 0: signal " << sd.sig << " code " << sd.code << " " << sd.err.substr(0, 800));
  CHECK(sd.err.empty(), "unexpected diagnostics " << sd.err);
  check_text(sd.out, o.k == Out::Help ? expected_help(sp) : sp.prog + "  version: " + sp.version, "printed"); if (o.k == Out::Help) check_wrapping(sd.out, "help", sp);
  c.label(o.k == Out::Help, "help"); c.label(o.k == Out::Version, "version"); c.nontrivial();
}
PBT(cmd_docbook, 1, "the specification has at least one argument") {
  Opt op; op.maxargs = (int)s.range(1, 7); op.groups = s.coin(); op.optional_unl = true; op.longtext = s.coin(1, 3); Spec sp = gen_spec(s, op); NOTE(describe(sp)); string out, ver, err;
  for (auto& a : sp.a) if (s.coin(1, 4)) a.desc += s.of<const char*>({" a<b", " <x>", " c>d>", " [0,1]"});
  { Real r(sp, false); OptionalUnlabeledTracker::alreadyOptional() = false; r.cmd.getProgramName() = sp.prog; DocBookOutput d; { Capture cap(std::cout); d.usage(r.cmd); out = cap.o.str(); } { Capture cap(std::cout); d.version(r.cmd); ver = cap.o.str(); } { Capture cap(std::cout); Capture c2(std::cerr); CmdLineParseException e("some problem", "-x (--xyz)"); d.failure(r.cmd, e); err = cap.o.str() + c2.o.str(); } }
  auto esc = [](string t, bool brackets) { string r; for (char ch : t) { if (ch == '<') r += "&lt;"; else if (ch == '>') r += "&gt;"; else if (brackets && (ch == '[' || ch == ']')) continue; else r += ch; } return r; };
  auto synopsis = [&](const A& a) { return "<arg choice='" + string(required_now(a) ? "req" : "opt") + "' repeat='" + (a.k == Mul || a.k == UMul ? "repeat" : "norepeat") + "'>" + esc(short_id(sp, a), true) + "</arg>"; };
  auto option = [&](const A& a) { return "<simplelist>\n<member>\n" + esc(long_id(a), true) + "\n</member>\n<member>\n" + esc(description(a), false) + "\n</member>\n</simplelist>"; };
  vector<string> want; size_t ors = 0, args = 0;
  want.push_back("<command>" + sp.prog + "</command>");
  for (int g = 0; g < sp.groups; ++g) { vector<string> m; for (auto& a : sp.a) if (a.group == g) m.push_back(synopsis(a)); if (m.empty()) continue; want.push_back("<group choice='req'>"); for (auto& x : m) want.push_back(x); want.push_back("</group>"); }
  for (auto& a : listing(sp)) if (a.group < 0) want.push_back(synopsis(a));
  want.push_back("</cmdsynopsis>"); want.push_back("<para>\n" + sp.message + "\n</para>"); want.push_back("<title>Options</title>");
  for (int g = 0; g < sp.groups; ++g) { vector<string> m; for (auto& a : sp.a) if (a.group == g) m.push_back(option(a)); if (m.empty()) continue; want.push_back("<itemizedlist>"); for (size_t i = 0; i < m.size(); ++i) { if (i) { want.push_back("OR"); ++ors; } want.push_back(m[i]); } want.push_back("</itemizedlist>"); }
  for (auto& a : listing(sp)) { ++args; if (a.group < 0) want.push_back(option(a)); }
  want.push_back("<para>\n" + sp.version + "\n</para>");
  size_t at = 0; for (auto& w : want) { size_t p = out.find(w, at); CHECK(p != string::npos, "DocBook lacks, or has in another place, " << w << " in\n" << out); at = p + w.size(); }
  auto count = [&](const string& w) { size_t n = 0; for (size_t p = out.find(w); p != string::npos; p = out.find(w, p + 1)) ++n; return n; };
  CHECK(count("<arg ") == args && count("<simplelist>") == args, "DocBook lists " << count("<arg ") << " / " << count("<simplelist>") << " arguments instead of " << args);
  CHECK(count("<listitem>OR</listitem>") == ors, "DocBook separates the alternatives " << count("<listitem>OR</listitem>") << " times instead of " << ors << "\n" << out);
  CHECK(strip_ws(ver) == strip_ws(sp.version), "DocBook version is " << ver); CHECK(err.find("some problem") != string::npos && err.find("-x (--xyz)") != string::npos, "DocBook failure says " << err);
  c.label(sp.groups > 0, "with exclusive groups"); c.nontrivial(!sp.a.empty());
}

// ---- specification errors ----
PBT(cmd_specification, 1, "every case: a flag, name and a set of earlier arguments") {
  // a pool of arguments added one after the other; each must be accepted or refused exactly as documented
  CmdLine cmd("m", ' ', "1", s.coin()); bool help = cmd.hasHelpAndVersion();
  struct E { string flag, name; bool unl; string desc; }; vector<E> have; have.push_back({"-", "ignore_rest", false, "Ignores the rest of the labeled arguments following this flag."}); if (help) { have.push_back({"h", "help", false, "Displays usage information and exits."}); have.push_back({"", "version", false, "Displays version information and exits."}); }
  vector<std::unique_ptr<Arg>> keep; int n = (int)s.range(1, 6); bool refused = false, optional = false;
  OptionalUnlabeledTracker::alreadyOptional() = false;
  for (int i = 0; i < n; ++i) {
    bool unl = s.coin(1, 4); string flag = unl ? "" : s.coin(1, 8) ? s.str("ab- h", 2, 3) : s.str("abch- ", 0, 1), name = s.coin(1, 4) ? s.of<const char*>({"help", "version", "ignore_rest", "a", "b", "alpha", "be ta", "al-pha", "--x", " ", "h"}) : s.str("abc- _", 1, 4), desc = "d" + canon(s.below(4)); bool req = s.coin(3, 4);
    bool bad = false; string why;
    if (flag.size() > 1) bad = true, why = "long flag";
    if (!bad && name != "ignore_rest" && (flag == "-" || flag == " ")) bad = true, why = "flag";
    if (!bad && (name.find('-') != string::npos || name.find(' ') != string::npos)) bad = true, why = "name";
    if (!bad && unl && optional) bad = true, why = "after optional";
    bool registers = !bad;
    bool many = unl && s.coin(1, 3); if (!bad && unl && !many && !req) optional = true;
    if (!bad) for (auto& e : have) { if (unl ? (e.name == name || e.desc == desc) : ((!flag.empty() && flag == e.flag) || name == e.name)) { bad = true; why = "duplicate"; } }
    NOTE((many ? "unlabelled many " : unl ? "unlabelled " : "flag ") << pbt::quote(flag) << " name " << pbt::quote(name) << " desc " << desc << " req " << req << " -> " << (bad ? why : "accepted"));
    bool threw = false; string msg; int kind = (int)s.below(3);
    try {
      Arg* a; if (many) a = new UnlabeledMultiArg<int>(name, desc, req, "int"); else if (unl) a = new UnlabeledValueArg<int>(name, desc, req, 0, "int"); else if (kind == 0) a = new SwitchArg(flag, name, desc, false); else if (kind == 1) a = new ValueArg<string>(flag, name, desc, req, "x", "string"); else a = new MultiArg<double>(flag, name, desc, req, "double");
      keep.push_back(std::unique_ptr<Arg>(a)); cmd.add(a);
    } catch (SpecificationException& e) { threw = true; msg = e.error() + " / " + e.argId(); }
    CHECK(threw == bad, (bad ? "accepted although it must be refused (" + why + ")" : "refused: " + msg) << " flag " << pbt::quote(flag) << " name " << pbt::quote(name) << (unl ? " unlabelled" : ""));
    if (threw) CHECK(msg.find(name) != string::npos || why == "after optional" || why == "duplicate", "the error '" << msg << "' does not name the argument " << name);
    refused = refused || bad; c.label(bad, bad ? (why == "duplicate" ? "duplicate" : "malformed") : "");
    if (!bad) { string full = (req && (unl || kind)) ? "(required)  " + desc : desc; have.push_back({flag, name, unl, full}); }
    (void)registers;
  }
  OptionalUnlabeledTracker::alreadyOptional() = false;
  CHECK(cmd.getArgList().size() == have.size(), "a refused argument stayed registered: " << cmd.getArgList().size() << " vs " << have.size());
  c.label(!refused, "all accepted"); c.nontrivial();
}
PBT_MAIN
