// Headers, compile time concept checks, type traits and limits: generated programs are
// handed to the compilers, with a prediction whether they are accepted.
#include "pbt.hpp"
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string dir() { const char* d = getenv("PBT_SCRATCH"); return d ? d : "/tmp"; }
static std::string includes() { const char* d = getenv("PBT_INCLUDES"); return d ? d : ""; }
static std::string num(long v) { return std::to_string(v); }
static std::string replaced(std::string t, const std::string& a, const std::string& b) { for (size_t p = 0; (p = t.find(a, p)) != std::string::npos; p += b.size()) t.replace(p, a.size(), b); return t; }

struct Verdict { bool ok; std::string out; };
// runs one command of the shell; a compiler that was killed or ran out of time decides nothing
static Verdict run(const std::string& command) {
  std::string log = dir() + "/prog.log";
  int rc = system(("cd " + dir() + " && timeout -k 5 100 " + command + " >" + log + " 2>&1").c_str());
  std::ifstream f(log); std::stringstream t; t << f.rdbuf(); std::string out = t.str();
  if (rc == -1 || !WIFEXITED(rc) || WEXITSTATUS(rc) > 100 || out.find("Killed signal") != std::string::npos || out.find("internal compiler error") != std::string::npos || out.find("PLEASE submit a bug report") != std::string::npos || out.find("No space left") != std::string::npos || out.find("out of memory") != std::string::npos || out.find("cannot allocate") != std::string::npos) throw pbt::Discard();
  return {WEXITSTATUS(rc) == 0, out};
}
static void put(const std::string& name, const std::string& text) { std::ofstream f(dir() + "/" + name); f << text; if (!f.flush()) throw pbt::Discard(); }
static Verdict compiles(const std::string& text, const std::string& flags) {
  put("prog.cpp", text); return run(flags + " -w -fsyntax-only " + includes() + " prog.cpp");
}
static std::string first_error(const std::string& out) {
  size_t p = out.find("error"); if (p == std::string::npos) return out.substr(0, 400);
  size_t b = out.rfind('\n', p); return out.substr(b == std::string::npos ? 0 : b + 1, 500);
}
static std::string a_compiler(pbt::Src& s) {
  std::string cc = s.coin(3, 4) ? "g++" : "clang++";
  return cc + " -std=" + s.pick(std::vector<std::string>{"c++14", "c++14", "c++11", "c++17", "c++20", "gnu++14"});
}

/* -------------------------------------------------------------------------------------------------- concepts */
// one member a concept asks for: ways of providing it, and ways that do not provide it
struct Need { std::string name; std::vector<std::string> good, bad; };
typedef std::vector<std::string> L;
static Need function(const std::string& name, const std::string& result, bool result_used, const std::string& params, const L& wrong) {
  Need n; n.name = name; std::string f = name + "(" + params + ")", more = name + "(" + params + (params.empty() ? "" : ", ") + "int extra = 3)";
  n.good = {result + " " + f + ";", result + " " + more + ";", "static " + result + " " + f + ";", "virtual " + result + " " + f + ";", result + " " + f + " const;", result + " " + f + " noexcept;", "inline " + result + " " + f + " { typedef " + result + " R; return R(); }"};
  if (params.empty()) n.good.push_back("template <typename Z = int> " + result + " " + f + ";");
  if (result != "void" && !result_used) { n.good.push_back("void " + f + ";"); }
  if (result_used) { if (result == "long" || result == "unsigned int") { n.good.push_back("int " + f + ";"); n.good.push_back("short " + f + ";"); } n.bad.push_back("void " + f + ";"); n.bad.push_back("Strange " + f + ";"); }
  n.bad.push_back("");
  n.bad.push_back("private: " + result + " " + f + "; public:");
  n.bad.push_back("protected: " + result + " " + f + "; public:");
  n.bad.push_back(result + " " + f + " = delete;");
  n.bad.push_back(result + " " + name + "_(" + params + ");");
  n.bad.push_back(result + " " + name + "(" + params + (params.empty() ? "" : ", ") + "Strange);");
  for (auto& w : wrong) n.bad.push_back(w);
  return n;
}
struct Model { std::string text; bool accepted; std::string fault; };
// the overloads by which single bytes and buffers of bytes travel; predicts for every byte type whether the call is possible
static bool byte_overloads(pbt::Src& s, const L& wanted, bool in, std::string& text, bool spoil) {
  const L all = {"char", "signed char", "unsigned char"}; bool ok = true;
  std::string f = in ? "read" : "write", back = s.pick(L{"long", "long", "int"});
  auto needed = [&](const std::string& t) { return std::find(wanted.begin(), wanted.end(), t) != wanted.end(); };
  std::string bad_t = spoil ? s.pick(wanted) : ""; bool bad_single = spoil && s.coin(); int how = (int)s.below(4);
  if (!spoil && s.coin(1, 4)) {   // templates
    text += "template <typename B> " + back + " " + f + (in ? "(B& b); " : s.coin() ? "(B b); " : "(const B& b); ");
    text += "template <typename B> " + back + " " + f + "(" + (in ? "" : "const ") + "B* b, unsigned long n);\n"; return true;
  }
  // single bytes
  std::set<std::string> single;
  for (auto& t : all) {
    bool there = needed(t) || s.coin(1, 3); std::string r = back;
    if (spoil && bad_single && t == bad_t) { if (how == 0) there = false; else if (how == 1) r = "void"; else if (how == 2) r = "private: " + back; else r = "Strange"; if (how != 0) ok = false; }
    if (!there) continue;
    single.insert(t); text += r + " " + f + "(" + (in ? t + "& b" : s.coin() ? t + " b" : "const " + t + "& b") + ");" + (how == 2 && spoil && bad_single && t == bad_t ? " public:" : "") + "\n";
  }
  for (auto& t : wanted) if (!single.count(t)) { if (in) ok = false; else if (single.size() != 1) ok = false; }   // a value converts to the only overload there is, a reference does not
  // buffers
  for (auto& t : all) {
    bool there = needed(t) || s.coin(1, 3); std::string r = back, p = std::string(in ? "" : "const ") + t + "* b, " + s.pick(L{"unsigned long", "int", "const unsigned long&", "long"}) + " n";
    if (!in && s.coin(1, 6)) p = t + "* b, unsigned int n, bool more = false";
    if (spoil && !bad_single && t == bad_t) { if (how == 0) there = false; else if (how == 1) r = "void"; else if (how == 2) p = t + "* b"; else p = "const Strange* b, int n"; ok = false; }
    if (there) text += r + " " + f + "(" + p + ");\n";
  }
  return ok;
}
enum { CONTAINER, DYNAMIC, UBYTES, SBYTES, BYTES, ICHAR, OCHAR, IOCHAR, IBYTE, OBYTE, IOBYTE, STREAM, NULLARY, BLUEPRINT, CONCEPTS };
static const char* const CONCEPT[CONCEPTS] = {"ContainerConcept", "DynamicContainerConcept", "UnsignedByteContainerConcept", "SignedByteContainerConcept", "ByteContainerConcept", "InputCharDeviceConcept", "OutputCharDeviceConcept", "InputOutputCharDeviceConcept", "InputByteDeviceConcept", "OutputByteDeviceConcept", "InputOutputByteDeviceConcept", "StreamConcept", "NullaryFunctionConcept", "BluePrintConcept"};

static Model model(pbt::Src& s, int concept_, const std::string& name, bool spoil) {
  Model m; m.accepted = true; std::string body, before, after; std::vector<Need> needs;
  bool special = false;   // the fault is put by the code below
  if (concept_ <= BYTES) {
    std::string element = s.pick(L{"int", "char", "signed char", "unsigned char", "double", "Strange", "short", "unsigned", "const char*"});
    bool in = false;
    if (concept_ == UBYTES || concept_ == SBYTES || concept_ == BYTES) {
      L fit = concept_ == UBYTES ? L{"unsigned char"} : concept_ == SBYTES ? L{"signed char"} : L{"char", "signed char", "unsigned char"};
      fit.push_back((char)-1 < 0 ? (concept_ == SBYTES ? "char" : fit[0]) : (concept_ == UBYTES ? "char" : fit[0]));
      special = spoil && s.coin();
      if (special) { in = true; L no = {"int", "short", "unsigned short", "double", "Strange", "bool", "wchar_t", "char*", "const void*"}; if (concept_ == UBYTES) no.push_back("signed char"), no.push_back("signed char"); if (concept_ == SBYTES) no.push_back("unsigned char"), no.push_back("unsigned char"); element = s.pick(no); m.fault = "value_type " + element; }
      else element = s.pick(fit);
      m.accepted = !in;
    }
    Need v; v.name = "value_type"; v.good = {"typedef " + element + " value_type;", "using value_type = " + element + ";"}; v.bad = {"", "private: typedef " + element + " value_type; public:", "int value_type;"};
    if (concept_ >= UBYTES) needs.push_back(v); else if (s.coin()) body += v.good[0] + "\n";
    bool cls = s.coin(1, 3); if (cls) before += "struct " + name + "It { " + element + "* p; };\n";
    std::string it = cls ? name + "It" : element + "*";
    Need i; i.name = "iterator"; i.good = {"typedef " + it + " iterator;", "using iterator = " + it + ";"}; if (cls) i.good.push_back("class iterator : public " + it + " {};");
    std::string plain = i.good[0]; i.bad = {"private: " + plain + " public:", "void iterator();"};
    needs.push_back(i);
    bool own = false; (void)own;
    Need b = function("begin", "iterator", true, "", {it == "Strange*" ? "int* begin();" : "Strange* begin();", "iterator begin(int);"}), e = function("end", "iterator", true, "", {"const Strange** end();"});
    for (Need* q : {&b, &e}) { q->good.push_back("iterator& " + q->name + "();"); }
    needs.push_back(b); needs.push_back(e); needs.push_back(function("size", "unsigned int", true, "", {"static const char* size;"}));
    needs.back().good.push_back("unsigned long size() const;");
    if (concept_ == DYNAMIC) { Need r = function("resize", "void", false, "unsigned int n", {"void resize();", "void resize(Strange*);"}); r.good.push_back("bool resize(long n);"); r.good.push_back("template <typename N> int resize(const N& n);"); needs.push_back(r); }
  } else if (concept_ <= IOBYTE) {
    bool io = concept_ == IOCHAR || concept_ == IOBYTE, in = concept_ == ICHAR || concept_ == IBYTE || io, out = concept_ == OCHAR || concept_ == OBYTE || io, bytes = concept_ >= IBYTE;
    Need o = function(bytes ? "isOpen" : "open", "bool", true, "", {"bool Open();"}); o.good.push_back(std::string("int ") + o.name + "();");
    if (concept_ == IOCHAR) body += o.good[0] + "\n"; else needs.push_back(o);   // what of a model without open() is not said there
    if (out) needs.push_back(function("flush", "void", false, "", {"void flush(int);"}));
    L wanted = bytes ? L{"char", "signed char", "unsigned char"} : L{"char"};
    special = spoil && s.coin(2, 3); bool bad_in = special && in && (!out || s.coin()), bad_out = special && !bad_in;
    if (in) m.accepted &= byte_overloads(s, wanted, true, body, bad_in);
    if (out) m.accepted &= byte_overloads(s, wanted, false, body, bad_out);
    if (special) m.fault = bad_in ? "read" : "write";
  } else if (concept_ == STREAM) {
    needs.push_back(function("flush", "void", false, "", {"void flush(int);"}));
    Need o; o.name = "operator<<"; std::string self = s.coin() ? name + "& " : "void ";
    std::string ret = self == "void " ? "" : "";
    o.good = {self + "operator<<(char c);", self + "operator<<(const char& c);", "template <typename T> " + self + "operator<<(const T& t);", self + "operator<<(int i); ", self + "operator<<(char c) const;", "friend " + self + "operator<<(" + name + "& o, char c);", "template <typename T> friend " + self + "operator<<(" + name + "& o, const T& c);"};
    o.bad = {"", "private: " + self + "operator<<(char c); public:", self + "operator<<(char c) = delete;", self + "operator<<(const char* c);", self + "operator<<(Strange c);", self + "operator<<(char& c);", self + "put(char c);", self + "operator>>(char c);"};
    needs.push_back(o);
  } else if (concept_ == NULLARY) {
    std::string r = s.pick(L{"void", "int", "Strange", "const char*"});
    Need t; t.name = "result_type"; t.good = {"typedef " + r + " result_type;", "using result_type = " + r + ";"}; t.bad = {"", "private: typedef " + r + " result_type; public:", "int result_type;"};
    Need c; c.name = "operator()"; c.good = {r + " operator()();", r + " operator()() const;", r + " operator()(int x = 2);", "virtual " + r + " operator()();", "template <typename T = int> " + r + " operator()();", r + " operator()(); " + r + " operator()(int);"};
    c.bad = {"", "private: " + r + " operator()(); public:", r + " operator()() = delete;", r + " operator()(int x);", r + " call();", r + " operator()(Strange&);"};
    needs.push_back(t); needs.push_back(c);
  } else {
    std::string b = s.pick(L{"int", "Strange", "double", name + "Base"}); before += "struct " + name + "Base { int q; };\n";
    Need t; t.name = "base_type"; t.good = {"typedef " + b + " base_type;", "using base_type = " + b + ";"}; t.bad = {"", "private: typedef " + b + " base_type; public:", "int base_type;", "typedef const " + b + " base_type;"};
    Need i = function("instantiate", "base_type", true, "", {"base_type instantiate(int);", "Other instantiate();"}); i.good.push_back("const base_type& instantiate();");
    for (auto& w : i.bad) w = replaced(w, "Strange instantiate", "Other instantiate");
    i.bad.erase(std::remove(i.bad.begin(), i.bad.end(), std::string("Other instantiate();")), i.bad.end()); i.bad.push_back("Other instantiate();");
    Need a = function("apply", "void", false, "base_type& target", {"void apply();", "void apply(base_type* target);", "void apply(base_type&& target);"}); a.good.push_back("void apply(const base_type& target);"); a.good.push_back("void apply(base_type target);"); a.good.push_back("template <typename T> int apply(T& target);");
    needs.push_back(t); needs.push_back(i); needs.push_back(a);
  }
  // one need may be left unsatisfied
  size_t bad = spoil && !special ? s.below(needs.size()) : needs.size(); bool construct = spoil && !special && s.coin(1, 12);
  if (construct) bad = needs.size();
  std::string head, members;
  for (size_t i = 0; i < needs.size(); ++i) {
    std::string d = s.pick(i == bad ? needs[i].bad : needs[i].good); if (i == bad) { m.accepted = false; m.fault = needs[i].name + " as `" + d + "`"; }
    (needs[i].name == "value_type" || needs[i].name == "iterator" || needs[i].name == "result_type" || needs[i].name == "base_type" ? head : members) += d + "\n";
  }
  // names that declarations rely on must stay declared
  if (bad < needs.size()) { if (needs[bad].name == "iterator" && m.fault.find("void iterator") != std::string::npos) members = replaced(members, "iterator", "int*"); if (needs[bad].name == "iterator" && members.find("int*()") != std::string::npos) members = replaced(members, "int*()", "iterator()");
    if (needs[bad].name == "base_type" && head.find("typedef") == std::string::npos) members = replaced(members, "base_type", "int"); }
  members = head + body + members;
  std::string ctor = construct ? s.pick(L{"private: ~NAME(); public:", "~NAME() = delete;", "virtual void nothing() = 0;"}) : s.pick(L{"", "", "NAME(); ", "NAME(int, int);", "NAME() = delete; ", "virtual ~NAME(); ", "NAME(const NAME&) = delete; ", "int field; Strange* more;"});
  if (construct) { m.accepted = false; m.fault = ctor; }
  if (concept_ == BLUEPRINT && before.empty()) {}
  int form = (int)s.below(4); std::string text;
  if (members.find("friend") != std::string::npos) form = 0;
  if (form == 1) { members = replaced(members, name + "& ", name + "Parent& "); text = "class " + name + "Parent { public:\n" + members + "};\n" + (s.coin() ? "class NAME : public NAMEParent" : "struct NAME : NAMEParent") + " { public: " + replaced(ctor, "~NAME()", "~NAME()") + " };\n"; }
  else if (form == 2) { text = "template <typename TA, int TN> class NAMEOf { public: " + replaced(replaced(ctor, "~NAME", "~NAMEOf"), "NAME(", "NAMEOf(") + "\n" + members + " TA* unused; };\ntypedef NAMEOf<int, 3> NAME;\n"; text = replaced(replaced(text, "const NAME&", "const NAMEOf&"), "NAMEOfOf", "NAMEOf"); if (text.find(name + "&") != std::string::npos) text = replaced(text, name + "& ", "NAMEOf& "); }
  else text = std::string(form == 3 ? "struct NAME" : "class NAME") + " { public: " + ctor + "\n" + members + "};\n";
  m.text = before + replaced(text, "NAME", name) + after;
  return m;
}
static std::string use(pbt::Src& s, const L& checks) {   // where the checks stand
  std::string t; int form = (int)s.below(4);
  std::string lines; for (auto& c : checks) lines += "#ifndef UNCHECKED\n  ecl_compile_time_concept_check(" + c + ");\n#endif\n";
  if (form == 0) t = "void function() {\n" + lines + "}\n";
  else if (form == 1) t = "class User { public: User() {}\n" + lines + "};\nUser user;\n";
  else if (form == 2) t = "template <typename T> struct User {\n User() {\n" + lines + "} };\nUser<int> user;\n";
  else t = lines;
  return "int main() { return 0; }\n" + t;
}
static const char* const PRELUDE = "#include <ecl/concepts.hpp>\n#include <ecl/config/macros.hpp>\nstruct Strange { int inside; };\nstruct Other { char* inside; };\n";
PBT_T(concept_models, 9, 200, "one model lacks something") {
  size_t n = 1 + s.below(6); bool spoil = s.coin(2, 3); size_t which = s.below(n); std::string text = PRELUDE; L checks; bool accepted = true; std::string fault;
  bool space = s.coin(1, 3); if (space) text += "namespace models {\n";
  int only = s.coin(1, 2) ? (int)s.below(CONCEPTS) : -1;
  for (size_t i = 0; i < n; ++i) {
    int k = only >= 0 ? only : (int)s.below(CONCEPTS); std::string name = "M" + num((long)i); Model m = model(s, k, name, spoil && i == which); text += m.text;
    checks.push_back(std::string(s.coin() ? "ecl::" : "::ecl::") + CONCEPT[k] + "< " + (space ? "models::" : "") + name + " >");
    if (!m.accepted) { accepted = false; fault = std::string(CONCEPT[k]) + ": " + m.fault; }
  }
  if (space) text += "}\n";
  text += use(s, checks); std::string cc = a_compiler(s);
  NOTE(cc << (accepted ? ": every model is complete" : ": at fault is " + fault)); NOTE(text);
  c.nontrivial(!accepted); c.label(!accepted, "refused"); c.label(accepted, "accepted");
  Verdict v = compiles(text, cc);
  CHECK(v.ok || !accepted, "complete models are refused: " << first_error(v.out));
  CHECK(!v.ok || accepted, "a model is accepted that should be refused for " << fault);
  if (!v.ok) { Verdict u = compiles(text, cc + " -DUNCHECKED"); CHECK(u.ok, "the program does not compile even without its check: " << first_error(u.out)); }
}
/* ---------------------------------------------------------------------------------------- types of the library */
struct Known { const char *header, *type; std::set<int> fits, fails; };
static const std::vector<Known>& library() {
  static const std::vector<Known> k = {
    {"ecl/devices.hpp", "ecl::OFile", {OCHAR}, {ICHAR, IOCHAR, CONTAINER, STREAM, NULLARY}},
    {"ecl/devices.hpp", "ecl::String", {}, {NULLARY, CONTAINER}},
    {"ecl/devices/console.hpp", "ecl::OConsole", {OCHAR}, {ICHAR, IOCHAR, CONTAINER}},
    {"ecl/devices/console.hpp", "ecl::EConsole", {OCHAR}, {ICHAR}},
    {"ecl/devices/console.hpp", "ecl::IConsole", {ICHAR}, {OCHAR, IOCHAR}},
    {"ecl/streams.hpp", "ecl::OConsoleStream", {STREAM}, {ICHAR, CONTAINER, NULLARY}},
    {"ecl/streams.hpp", "ecl::StringStream", {STREAM}, {CONTAINER, NULLARY}},
    {"ecl/streams.hpp", "ecl::OFileStream", {STREAM}, {CONTAINER, BLUEPRINT}},
    {"ecl/streams.hpp", "ecl::IConsoleStream", {}, {STREAM}},
    {"ecl/containers.hpp", "ecl::Array<unsigned char>", {CONTAINER, DYNAMIC, UBYTES, BYTES}, {SBYTES, STREAM, NULLARY, OCHAR}},
    {"ecl/containers.hpp", "ecl::Array<signed char>", {CONTAINER, DYNAMIC, SBYTES, BYTES}, {UBYTES, BLUEPRINT}},
    {"ecl/containers.hpp", "ecl::Array<double>", {CONTAINER, DYNAMIC}, {UBYTES, SBYTES, BYTES}},
    {"ecl/containers.hpp", "FixedChars", {CONTAINER, BYTES, SBYTES}, {DYNAMIC, UBYTES}},
    {"ecl/containers.hpp", "FixedInts", {CONTAINER}, {DYNAMIC, UBYTES, SBYTES, BYTES}},
    {"ecl/containers.hpp", "ecl::PushAndPop<unsigned char>", {CONTAINER, DYNAMIC}, {NULLARY, STREAM}},
    {"ecl/containers.hpp", "ecl::Stencil<ecl::Array<unsigned char> >", {CONTAINER, UBYTES, BYTES}, {DYNAMIC, SBYTES}},
    {"vector", "std::vector<int>", {CONTAINER, DYNAMIC}, {UBYTES, SBYTES, BYTES, STREAM}},
    {"vector", "std::vector<unsigned char>", {CONTAINER, DYNAMIC, UBYTES, BYTES}, {SBYTES}},
    {"string", "std::string", {CONTAINER, DYNAMIC, BYTES}, {STREAM, NULLARY}},
    {"list", "std::list<char>", {CONTAINER, DYNAMIC, BYTES}, {NULLARY}},
    {"sstream", "std::ostringstream", {STREAM}, {CONTAINER, NULLARY, OCHAR}},
    {"iostream", "std::ostream", {STREAM}, {DYNAMIC}},
    {"fstream", "std::ifstream", {}, {STREAM}},
    {"ecl/utilities/function_objects.hpp", "Bound", {NULLARY}, {STREAM, CONTAINER, BLUEPRINT}},
    {"ecl/utilities/function_objects.hpp", "Member", {NULLARY}, {STREAM, BLUEPRINT}},
    {"ecl/geometry.hpp", "Blue", {BLUEPRINT}, {CONTAINER, NULLARY}},
    {"ecl/containers.hpp", "ecl::blueprints::ConstantArray<int>", {}, {CONTAINER, NULLARY, STREAM}},
  };
  return k;
}
static const char* const TYPES = "typedef ecl::Array<char, 5> FixedChars;\ntypedef ecl::Array<int, 3> FixedInts;\n";
PBT_T(concept_library, 2, 300, "a type is refused") {
  const Known& k = s.pick(library()); std::string cc = a_compiler(s);
  std::string text = std::string("#include <") + k.header + ">\n" + PRELUDE;
  if (std::string(k.type).find("Fixed") == 0) text += TYPES;
  if (std::string(k.type) == "Bound") text += "typedef ecl::BoundUnaryFreeFunction<int, double> Bound;\n";
  if (std::string(k.type) == "Member") text += "struct Q { int f(); };\ntypedef ecl::BoundNullaryMemberFunction<Q, int> Member;\n";
  if (std::string(k.type) == "Blue") text += "typedef ecl::blueprints::CubicDerivativeInterpolation Blue;\n";
  L checks; bool accepted = true; std::string fault; bool spoil = s.coin() && !k.fails.empty();
  for (int q : k.fits) if (s.coin(2, 3)) checks.push_back(std::string("ecl::") + CONCEPT[q] + "< " + k.type + " >");
  if (spoil) { std::vector<int> f(k.fails.begin(), k.fails.end()); int q = s.pick(f); accepted = false; fault = CONCEPT[q]; checks.insert(checks.begin() + (long)s.below(checks.size() + 1), std::string("ecl::") + CONCEPT[q] + "< " + k.type + " >"); }
  text += use(s, checks); NOTE(cc << " " << k.type << (accepted ? "" : " not " + fault)); NOTE(text); c.nontrivial(!accepted);
  Verdict v = compiles(text, cc);
  CHECK(v.ok || !accepted, k.type << " is refused: " << first_error(v.out));
  CHECK(!v.ok || accepted, k.type << " is accepted as " << fault);
  if (!v.ok) { Verdict u = compiles(text, cc + " -DUNCHECKED"); CHECK(u.ok, "the program does not compile even without its check: " << first_error(u.out)); }
}

/* ------------------------------------------------------------------- where the library asks for a concept itself */
// A part of the library that names a concept for its argument, a model of it, and members which can be left out of
// the model without that the part would notice by itself. The same program with the checks taken out shows that the
// refusal is due to them and to nothing else.
struct Site { const char *name, *headers, *model; std::vector<std::pair<const char*, const char*> > faults; const char* use; };
static const char* const SINK = "struct MODEL { MODEL& operator<<(const std::string& s); MODEL& operator<<(int i); MODEL& operator<<(unsigned i); MODEL& operator<<(unsigned long i); MODEL& operator<<(double d);\n MODEL& operator<<(const char* s);\n MODEL& operator<<(char c);\n MODEL& flush(); };\n";
static const std::vector<std::pair<const char*, const char*> > NO_SINK = {{" MODEL& operator<<(char c);", " MODEL& operator<<(char c) = delete;"}, {" MODEL& operator<<(char c);", " private: MODEL& operator<<(char c); public:"}};
static const char* const BYTES_MODEL = "struct MODEL { typedef unsigned char value_type; typedef unsigned char* iterator; typedef const unsigned char* const_iterator;\n iterator begin(); const_iterator begin() const;\n iterator end(); const_iterator end() const;\n unsigned long size() const; value_type& operator[](unsigned long); const value_type& operator[](unsigned long) const; };\n";
static const std::vector<std::pair<const char*, const char*> > NO_BYTES = {{"typedef unsigned char value_type", "typedef int value_type"}, {"typedef unsigned char value_type", "typedef unsigned short value_type"}, {"typedef unsigned char value_type", "typedef double value_type"}, {"iterator begin(); const_iterator begin() const;", ""}, {"iterator end(); const_iterator end() const;", ""}, {"typedef unsigned char* iterator;", ""}, {"iterator end(); const_iterator end() const;", "private: iterator end(); const_iterator end() const; public:"}};
static const char* const BLUE = "struct MODEL : public ecl::blueprints::ArrayBluePrint<MODEL> { typedef ecl::Array<int SIZE> base_type;\n base_type instantiate();\n template <typename A> void apply(A& a) const { a[0] = 1; } };\n";
static const std::vector<std::pair<const char*, const char*> > NO_BLUE = {{"base_type instantiate();", ""}, {"typedef ecl::Array<int SIZE> base_type;\n base_type instantiate();", "int instantiate();"}, {"base_type instantiate();", "base_type instantiate(int);"}, {"base_type instantiate();", "private: base_type instantiate(); public:"}, {"base_type instantiate();", "Strange instantiate();"}};
static const char* const DEVICE = "struct MODEL { bool open(); bool isOpen();\n long read(char& c);\n long read(char* s, unsigned long n);\n long write(char c);\n long write(const char* s, unsigned long n);\n void flush();\n };\n";
static const std::vector<Site>& sites() {
  static const std::vector<Site> k = {
    {"printing of a polynomial", "ecl/geometry.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::CubicPolynomial& p) { m << p; }\n"},
    {"printing of a cubic spline", "ecl/geometry.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::CubicSpline& p) { m << p; }\n"},
    {"printing of a smooth linear spline", "ecl/geometry.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::SmoothLinearSpline& p) { m << p; }\n"},
    {"printing of a tension function", "ecl/geometry.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::TensionFunction& p) { m << p; }\n"},
    {"printing of a tension spline", "ecl/geometry.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::TensionSpline& p) { m << p; }\n"},
    {"printing of a trajectory", "ecl/manipulators.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::Trajectory<ecl::JointAngles>& p) { m << p; }\n"},
    {"printing of a fixed array", "ecl/containers.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::Array<int, 4>& p) { m << p; }\n"},
    {"printing of a stencil", "ecl/containers.hpp", SINK, NO_SINK, "void f(MODEL& m, ecl::Stencil<ecl::Array<double> >& p) { m << p; }\n"},
    {"writing bytes to a file", "ecl/devices.hpp", BYTES_MODEL, NO_BYTES, "long f(const MODEL& m, ecl::OFile& o) { return o.write(m); }\n"},
    {"a stencil over iterators", "ecl/containers.hpp", "struct MODEL { typedef int value_type; typedef int* iterator; typedef const int* const_iterator; typedef int& reference; typedef const int& const_reference;\n iterator begin(); const_iterator begin() const; iterator end(); const_iterator end() const;\n unsigned long size() const; };\n",
      {{"unsigned long size() const;", ""}, {"unsigned long size() const;", "unsigned long size(int) const;"}, {"unsigned long size() const;", "const char* size() const;"}}, "void f(MODEL& m) { ecl::Stencil<MODEL> s(m, m.begin(), m.end()); }\n"},
    {"a stencil over indices", "ecl/containers.hpp", "struct MODEL { typedef int value_type; typedef int* iterator; typedef const int* const_iterator; typedef int& reference; typedef const int& const_reference;\n iterator begin(); const_iterator begin() const; iterator end(); const_iterator end() const;\n unsigned long size() const; };\n",
      {{"unsigned long size() const;", ""}, {"unsigned long size() const;", "void size() const;"}, {"unsigned long size() const;", "private: unsigned long size() const; public:"}}, "void f(MODEL& m) { ecl::Stencil<MODEL> s(m, 1, 2); }\n"},
    {"a fixed array from a blueprint", "ecl/containers.hpp", BLUE, NO_BLUE, "void f(const MODEL& m) { ecl::Array<int, 3> a(m); }\n"},
    {"a fixed array assigned from a blueprint", "ecl/containers.hpp", BLUE, NO_BLUE, "void f(const MODEL& m) { ecl::Array<int, 3> a; a = m; }\n"},
    {"a dynamic array from a blueprint", "ecl/containers.hpp", BLUE, NO_BLUE, "void f(const MODEL& m) { ecl::Array<int> a(m); }\n"},
    {"a dynamic array assigned from a blueprint", "ecl/containers.hpp", BLUE, NO_BLUE, "void f(const MODEL& m) { ecl::Array<int> a(3); a = m; }\n"},
    {"the base of blueprints", "ecl/utilities.hpp", "struct MODEL : public ecl::BluePrint<MODEL> { typedef Strange base_type;\n base_type instantiate();\n void apply(base_type& b) const; };\n",
      {{"base_type instantiate();", ""}, {"void apply(base_type& b) const;", ""}, {"typedef Strange base_type;\n base_type instantiate();\n void apply(base_type& b) const;", "Strange instantiate(); void apply(Strange& b) const;"}, {"base_type instantiate();", "void instantiate();"}, {"void apply(base_type& b) const;", "void apply(base_type* b) const;"}, {"void apply(base_type& b) const;", "private: void apply(base_type& b) const; public:"}}, "void f() { MODEL m; }\n"},
    {"a stream over a source", "ecl/streams.hpp", DEVICE, {{"bool open(); ", ""}, {"long read(char& c);", ""}, {"long read(char* s, unsigned long n);", ""}, {"long read(char* s, unsigned long n);", "long read(char* s);"}, {"bool open();", "void open();"}, {"bool open();", "private: bool open(); public:"}}, "template <> class ecl::is_source<MODEL> : public ecl::True {};\nvoid f() { ecl::TextStream<MODEL> stream; }\n"},
    {"a stream over a sink", "ecl/streams.hpp", DEVICE, {{"bool open(); ", ""}, {"long write(char c);", ""}, {"long write(const char* s, unsigned long n);", ""}, {"void flush();", ""}, {"void flush();", "void flush(int);"}, {"bool open();", "void open();"}, {"long write(const char* s, unsigned long n);", "long write(const char* s);"}}, "template <> class ecl::is_sink<MODEL> : public ecl::True {};\nvoid f() { ecl::TextStream<MODEL> stream; }\n"},
    {"a stream over a source and sink", "ecl/streams.hpp", DEVICE, {{"bool open(); ", ""}, {"long write(char c);", ""}, {"long read(char* s, unsigned long n);", ""}, {"void flush();", ""}, {"long read(char& c);", "long get(char& c);"}, {"long write(const char* s, unsigned long n);", ""}}, "template <> class ecl::is_source<MODEL> : public ecl::True {};\ntemplate <> class ecl::is_sink<MODEL> : public ecl::True {};\nvoid f() { ecl::TextStream<MODEL> stream; }\n"},
    {"a manipulator of a stream", "ecl/streams.hpp", DEVICE, {{"bool open(); ", ""}, {"long write(char c);", ""}, {"long write(const char* s, unsigned long n);", ""}, {"void flush();", ""}}, "struct Action : public ecl::Manipulator<Action> { template <typename S> void action(S& s) { s.device(); } };\nvoid f(ecl::interfaces::OutputTextStream<MODEL, true>& stream, Action& a) { a.insert(stream); }\n"},
  };
  return k;
}
PBT_T(concept_sites, 4, 300, "the library is given something that is no model") {
  size_t n = s.coin(1, 4) ? 1 : 2 + s.below(7); bool spoil = s.coin(5, 6); std::string cc = a_compiler(s), stem = s.pick(L{"Model", "M", "some_model"});
  struct One { std::string name, site, what, header, text; }; std::vector<One> all; std::set<std::string> headers;
  for (size_t i = 0; i < n; ++i) {
    const Site& k = s.pick(sites()); One o; o.name = stem + "_" + num((long)i) + "_"; o.site = k.name; o.header = k.headers; o.what = "nothing"; std::string model = k.model, use = k.use;
    if (spoil) { auto& q = s.pick(k.faults); o.what = std::string("`") + q.second + "` for `" + q.first + "`"; if (model.find(q.first) == std::string::npos) throw pbt::Discard(); model = replaced(model, q.first, q.second); }
    model = replaced(model, "int SIZE", use.find("ecl::Array<int, 3>") != std::string::npos ? "int, 3" : "int");
    if (s.coin(1, 3) && use.find("template <>") == std::string::npos && use.find("struct Action") != 0) use = "template <typename Any> struct Inside" + num((long)i) + " { static " + replaced(use, "f(", "g(") + "};\ntemplate struct Inside" + num((long)i) + "<int>;\n";
    use = replaced(use, "Action", "Action" + num((long)i)); use = replaced(use, " f(", " f" + num((long)i) + "(");
    o.text = replaced(model + use, "MODEL", o.name); all.push_back(o); headers.insert(k.headers);
  }
  std::string defs = s.coin(1, 3) ? "#define ECL_MEM_CHECK_ARRAYS\n" : ""; if (s.coin(1, 4)) defs += "#define NDEBUG\n"; else if (s.coin(1, 3)) defs += "#define ECL_NDEBUG\n";
  std::string start = defs + "#include <ecl/concepts.hpp>\n#ifdef UNCHECKED\n#undef ecl_compile_time_concept_check\n#define ecl_compile_time_concept_check(...) enum { ecl_concept_check_name(__LINE__) = 0 }\n#endif\n";
  auto program = [&](const std::vector<One>& some) {
    std::string t = start, used; for (auto& o : some) if (used.find(o.header) == std::string::npos) { used += o.header; t += "#include <" + o.header + ">\n"; }
    t += "struct Strange { int inside; };\n"; for (auto& o : some) t += o.text; return t + "int main() { return 0; }\n";
  };
  NOTE(cc); for (auto& o : all) NOTE(o.name << ": " << o.site << ", at fault is " << o.what); NOTE(program(all)); c.nontrivial(spoil); c.label(spoil, "refused"); c.label(!spoil, "accepted"); c.label(spoil && n > 1, "several refused in one program");
  Verdict v = compiles(program(all), cc + (cc[0] == 'c' ? " -ferror-limit=0" : " -fmax-errors=0"));
  if (!spoil) { CHECK(v.ok, "complete models are refused: " << first_error(v.out)); return; }
  // a model the compiler does not speak of is compiled by itself
  std::string lines; { std::istringstream in(v.out); std::string l; while (std::getline(in, l)) if (l.find("CONCEPT_CHECK") != std::string::npos || l.find("error") != std::string::npos) lines += l + "\n"; }
  for (auto& o : all) {
    if (!v.ok && n > 1 && lines.find(o.name) != std::string::npos) continue;
    Verdict w = n > 1 ? compiles(program({o}), cc) : v;
    CHECK(!w.ok, o.site << ": accepted, although the model has " << o.what);
  }
  if (n == 1) { Verdict u = compiles(program(all), cc + " -DUNCHECKED"); c.label(u.ok, "the check alone refuses it"); }
}

/* --------------------------------------------------------------------------------------------------- headers */
static const L UMBRELLAS = {
  "ecl/command_line.hpp", "ecl/concepts.hpp", "ecl/containers.hpp", "ecl/converters.hpp", "ecl/devices.hpp", "ecl/exceptions.hpp",
  "ecl/filesystem.hpp", "ecl/formatters.hpp", "ecl/geometry.hpp", "ecl/ipc.hpp", "ecl/linear_algebra.hpp", "ecl/manipulators.hpp",
  "ecl/math.hpp", "ecl/mobile_robot.hpp", "ecl/mpl.hpp", "ecl/sigslots.hpp", "ecl/statistics.hpp", "ecl/streams.hpp",
  "ecl/threads.hpp", "ecl/time.hpp", "ecl/type_traits.hpp", "ecl/utilities.hpp",
};
static const L HEADERS = {
  "ecl/command_line/arg.hpp", "ecl/command_line/arg_exception.hpp", "ecl/command_line/cmd_line.hpp", "ecl/command_line/cmd_line_interface.hpp", "ecl/command_line/cmd_line_output.hpp",
  "ecl/command_line/constraint.hpp", "ecl/command_line/docbook_output.hpp", "ecl/command_line/help_visitor.hpp", "ecl/command_line/ignore_rest_visitor.hpp", "ecl/command_line/multi_arg.hpp",
  "ecl/command_line/multi_switch_arg.hpp", "ecl/command_line/std_output.hpp", "ecl/command_line/switch_arg.hpp", "ecl/command_line/unlabeled_multi_arg.hpp", "ecl/command_line/unlabeled_value_arg.hpp",
  "ecl/command_line/value_arg.hpp", "ecl/command_line/values_constraint.hpp", "ecl/command_line/version_visitor.hpp", "ecl/command_line/visitor.hpp", "ecl/command_line/xor_handler.hpp",
  "ecl/concepts/blueprints.hpp", "ecl/concepts/containers.hpp", "ecl/concepts/devices.hpp", "ecl/concepts/macros.hpp", "ecl/concepts/nullary_function.hpp",
  "ecl/concepts/streams.hpp", "ecl/containers/array.hpp", "ecl/containers/array/converters.hpp", "ecl/containers/array/formatters.hpp", "ecl/containers/common/formatters.hpp",
  "ecl/containers/converters.hpp", "ecl/containers/definitions.hpp", "ecl/containers/fifo.hpp", "ecl/containers/initialiser.hpp", "ecl/containers/push_and_pop.hpp",
  "ecl/containers/push_and_pop/formatters.hpp", "ecl/containers/push_and_pop/push_and_pop_dynamic.hpp", "ecl/containers/push_and_pop/push_and_pop_fixed.hpp", "ecl/containers/stencil.hpp", "ecl/containers/stencil/converters.hpp",
  "ecl/containers/stencil/formatters.hpp", "ecl/containers/stencil/specialisations.hpp", "ecl/containers/stencil/stencil.hpp", "ecl/converters/char.hpp", "ecl/converters/char_strings.hpp",
  "ecl/converters/converter.hpp", "ecl/converters/from_byte_array.hpp", "ecl/converters/integers.hpp", "ecl/converters/string.hpp", "ecl/converters/to_byte_array.hpp",
  "ecl/devices/console.hpp", "ecl/devices/macros.hpp", "ecl/devices/modes.hpp", "ecl/devices/ofile.hpp", "ecl/devices/ofile_pos.hpp",
  "ecl/devices/serial.hpp", "ecl/devices/serial_parameters.hpp", "ecl/devices/serial_pos.hpp", "ecl/devices/shared_file.hpp", "ecl/devices/socket.hpp",
  "ecl/devices/socket_client_pos.hpp", "ecl/devices/socket_connection_status.hpp", "ecl/devices/socket_server_pos.hpp", "ecl/devices/string.hpp", "ecl/devices/traits.hpp",
  "ecl/exceptions/data_exception.hpp", "ecl/exceptions/exception.hpp", "ecl/exceptions/macros.hpp", "ecl/exceptions/posix_error_handler.hpp", "ecl/exceptions/standard_exception.hpp",
  "ecl/filesystem/macros.hpp", "ecl/filesystem/realpath.hpp", "ecl/formatters/common.hpp", "ecl/formatters/floats.hpp", "ecl/formatters/macros.hpp",
  "ecl/formatters/number.hpp", "ecl/formatters/strings.hpp", "ecl/geometry/angle.hpp", "ecl/geometry/cartesian_point.hpp", "ecl/geometry/cubic_spline.hpp",
  "ecl/geometry/function_math.hpp", "ecl/geometry/homogeneous_point.hpp", "ecl/geometry/legacy_pose2d.hpp", "ecl/geometry/legacy_pose3d.hpp", "ecl/geometry/linear_segment.hpp",
  "ecl/geometry/macros.hpp", "ecl/geometry/odometry.hpp", "ecl/geometry/odometry_helper.hpp", "ecl/geometry/odometry_typedefs.hpp", "ecl/geometry/pascals_triangle.hpp",
  "ecl/geometry/polynomial.hpp", "ecl/geometry/pose2d.hpp", "ecl/geometry/smooth_linear_spline.hpp", "ecl/geometry/spline_function.hpp", "ecl/geometry/tension_function.hpp",
  "ecl/geometry/tension_spline.hpp", "ecl/ipc/semaphore.hpp", "ecl/ipc/semaphore_pos.hpp", "ecl/ipc/shared_memory.hpp", "ecl/ipc/shared_memory_pos.hpp",
  "ecl/linear_algebra/eigen.hpp", "ecl/linear_algebra/eigen/formatters.hpp", "ecl/linear_algebra/eigen/unsupported/nonlinear_optimization.hpp", "ecl/linear_algebra/sophus.hpp", "ecl/linear_algebra/sophus/formatters.hpp",
  "ecl/linear_algebra/sophus/helpers.hpp", "ecl/linear_algebra/sophus/interpolators.hpp", "ecl/manipulators/trajectory.hpp", "ecl/manipulators/types.hpp", "ecl/manipulators/waypoint.hpp",
  "ecl/math/constants.hpp", "ecl/math/fuzzy.hpp", "ecl/math/norms.hpp", "ecl/math/simple.hpp", "ecl/mobile_robot/differential_drive.hpp",
  "ecl/mobile_robot/kinematics/differential_drive.hpp", "ecl/mobile_robot/macros.hpp", "ecl/mpl/bool.hpp", "ecl/mpl/converters.hpp", "ecl/mpl/enable_if.hpp",
  "ecl/mpl/failed_object.hpp", "ecl/mpl/if.hpp", "ecl/sigslots/macros.hpp", "ecl/sigslots/manager.hpp", "ecl/sigslots/signal.hpp",
  "ecl/sigslots/sigslot.hpp", "ecl/sigslots/slot.hpp", "ecl/sigslots/topic.hpp", "ecl/statistics/covariance_ellipsoid.hpp", "ecl/statistics/cumulative_statistics.hpp",
  "ecl/streams/console_streams.hpp", "ecl/streams/file_streams.hpp", "ecl/streams/log_stream.hpp", "ecl/streams/macros.hpp", "ecl/streams/manipulators.hpp",
  "ecl/streams/manipulators/clear_screen.hpp", "ecl/streams/manipulators/end_of_line.hpp", "ecl/streams/manipulators/manipulator.hpp", "ecl/streams/serial_stream.hpp", "ecl/streams/shared_file_stream.hpp",
  "ecl/streams/socket_streams.hpp", "ecl/streams/string_stream.hpp", "ecl/streams/text_stream.hpp", "ecl/streams/text_streams/base_text_stream.hpp", "ecl/streams/text_streams/input_text_stream.hpp",
  "ecl/threads/macros.hpp", "ecl/threads/mutex.hpp", "ecl/threads/mutex_pos.hpp", "ecl/threads/priority.hpp", "ecl/threads/priority_common.hpp",
  "ecl/threads/priority_pos.hpp", "ecl/threads/thread.hpp", "ecl/threads/thread_exceptions_pos.hpp", "ecl/threads/thread_pos.hpp", "ecl/threads/threadable.hpp",
  "ecl/time/cpuwatch.hpp", "ecl/time/cpuwatch_rt.hpp", "ecl/time/duration.hpp", "ecl/time/frequency.hpp", "ecl/time/macros.hpp",
  "ecl/time/random_number_generator.hpp", "ecl/time/sleep.hpp", "ecl/time/sleep_pos.hpp", "ecl/time/snooze.hpp", "ecl/time/snooze_pos.hpp",
  "ecl/time/stopwatch.hpp", "ecl/time/time_data.hpp", "ecl/time/timestamp.hpp", "ecl/time/timestamp_base.hpp", "ecl/time/timestamp_pos.hpp",
  "ecl/type_traits/fundamental_types.hpp", "ecl/type_traits/macros.hpp", "ecl/type_traits/numeric_limits.hpp", "ecl/type_traits/traits.hpp", "ecl/utilities/blueprints.hpp",
  "ecl/utilities/flags.hpp", "ecl/utilities/function_objects.hpp", "ecl/utilities/parameter.hpp", "ecl/utilities/references.hpp", "ecl/utilities/singleton.hpp",
  "ecl/utilities/void.hpp",
};
static const L INSTANCES = {
  "ecl/containers.hpp|ecl::Array<int,3>", "ecl/containers.hpp|ecl::Array<int>", "ecl/containers.hpp|ecl::Array<unsigned char,3>",
  "ecl/containers.hpp|ecl::Array<char>", "ecl/containers.hpp|ecl::Array<std::string,4>", "ecl/containers.hpp|ecl::Array<std::string>",
  "ecl/containers.hpp|ecl::Array<double>", "ecl/containers.hpp|ecl::Array<Q>", "ecl/containers.hpp|ecl::Array<Q,2>",
  "ecl/containers.hpp|ecl::PushAndPop<int,3>", "ecl/containers.hpp|ecl::PushAndPop<int>", "ecl/containers.hpp|ecl::PushAndPop<Q,3>",
  "ecl/containers.hpp|ecl::PushAndPop<Q>", "ecl/containers.hpp|ecl::FiFo<int>", "ecl/containers.hpp|ecl::FiFo<Q>",
  "ecl/containers.hpp|ecl::FiFo<std::string>", "ecl/containers.hpp|ecl::Stencil<ecl::Array<int,3> >", "ecl/containers.hpp|ecl::Stencil<ecl::Array<Q> >",
  "ecl/containers.hpp|ecl::Stencil<ecl::Array<unsigned char> >", "ecl/containers.hpp|ecl::Stencil<std::vector<int> >", "ecl/containers.hpp|ecl::blueprints::ConstantArray<int,3>",
  "ecl/containers.hpp|ecl::blueprints::ConstantDynamicArray<int>", "ecl/utilities.hpp|ecl::Flags<E>", "ecl/utilities.hpp|ecl::Parameter<int>",
  "ecl/utilities.hpp|ecl::Parameter<std::string>", "ecl/utilities.hpp|ecl::ReferenceWrapper<int>", "ecl/utilities.hpp|ecl::ReferenceWrapper<Q>",
  "ecl/utilities.hpp|ecl::Singleton<Q>", "ecl/utilities.hpp|ecl::NullaryFreeFunction<int>", "ecl/utilities.hpp|ecl::NullaryFreeFunction<void>",
  "ecl/utilities.hpp|ecl::UnaryFreeFunction<int,int>", "ecl/utilities.hpp|ecl::UnaryFreeFunction<int,void>", "ecl/utilities.hpp|ecl::BoundUnaryFreeFunction<int,int>",
  "ecl/utilities.hpp|ecl::BoundUnaryFreeFunction<int,void>", "ecl/utilities.hpp|ecl::NullaryMemberFunction<Q,int>", "ecl/utilities.hpp|ecl::NullaryMemberFunction<Q,void>",
  "ecl/utilities.hpp|ecl::BoundNullaryMemberFunction<Q,int>", "ecl/utilities.hpp|ecl::BoundNullaryMemberFunction<Q,void>", "ecl/utilities.hpp|ecl::UnaryMemberFunction<Q,int,int>",
  "ecl/utilities.hpp|ecl::UnaryMemberFunction<Q,int,void>", "ecl/utilities.hpp|ecl::BoundUnaryMemberFunction<Q,int,int>", "ecl/utilities.hpp|ecl::BoundUnaryMemberFunction<Q,int,void>",
  "ecl/utilities.hpp|ecl::PartiallyBoundUnaryMemberFunction<Q,int,int>", "ecl/utilities.hpp|ecl::PartiallyBoundUnaryMemberFunction<Q,int,void>", "ecl/streams.hpp|ecl::TextStream<ecl::OFile>",
  "ecl/streams.hpp|ecl::TextStream<ecl::String>", "ecl/streams.hpp|ecl::TextStream<ecl::Serial>", "ecl/streams.hpp|ecl::TextStream<ecl::SocketClient>",
  "ecl/streams.hpp|ecl::TextStream<ecl::SocketServer>", "ecl/streams.hpp|ecl::TextStream<ecl::SharedFile>", "ecl/streams/console_streams.hpp|ecl::TextStream<ecl::OConsole>",
  "ecl/streams/console_streams.hpp|ecl::TextStream<ecl::IConsole>", "ecl/streams/console_streams.hpp|ecl::TextStream<ecl::EConsole>", "ecl/sigslots.hpp|ecl::Signal<int>",
  "ecl/sigslots.hpp|ecl::Signal<>", "ecl/sigslots.hpp|ecl::Signal<const std::string&>", "ecl/sigslots.hpp|ecl::Slot<int>",
  "ecl/sigslots.hpp|ecl::Slot<>", "ecl/sigslots.hpp|ecl::Slot<const std::string&>", "ecl/sigslots.hpp|ecl::SigSlot<int>",
  "ecl/geometry.hpp|ecl::Polynomial<0>", "ecl/geometry.hpp|ecl::Polynomial<1>", "ecl/geometry.hpp|ecl::Polynomial<4>",
  "ecl/geometry.hpp|ecl::CartesianPoint<double,2>", "ecl/geometry.hpp|ecl::CartesianPoint<float,3>", "ecl/geometry.hpp|ecl::CartesianPoint<int,4>",
  "ecl/geometry.hpp|ecl::PascalsTriangle<4>", "ecl/geometry.hpp|ecl::Angle<double>", "ecl/geometry.hpp|ecl::Angle<float>",
  "ecl/manipulators.hpp|ecl::Trajectory<ecl::JointAngles>", "ecl/manipulators.hpp|ecl::WayPoint<ecl::JointAngles>", "ecl/formatters.hpp|ecl::Format<int>",
  "ecl/formatters.hpp|ecl::Format<double>", "ecl/statistics.hpp|ecl::CumulativeStatistics<double>", "ecl/statistics.hpp|ecl::CumulativeStatistics<float>",
  "ecl/statistics.hpp|ecl::CumulativeStatistics<int>", "ecl/statistics.hpp|ecl::CumulativeStatistics<Eigen::Vector2d>", "ecl/statistics.hpp|ecl::CumulativeStatistics<Eigen::Vector3f>",
  "ecl/statistics.hpp|ecl::CovarianceEllipsoid<double,2>", "ecl/command_line.hpp|ecl::ValueArg<int>", "ecl/command_line.hpp|ecl::ValueArg<std::string>",
  "ecl/command_line.hpp|ecl::MultiArg<double>", "ecl/command_line.hpp|ecl::UnlabeledValueArg<int>", "ecl/command_line.hpp|ecl::UnlabeledMultiArg<std::string>",
  "ecl/command_line.hpp|ecl::ValuesConstraint<int>", "ecl/exceptions.hpp|ecl::DataException<int>", "ecl/exceptions.hpp|ecl::DataException<std::string>",
  "ecl/converters.hpp|ecl::Converter<int,std::vector<char> >", "ecl/converters.hpp|ecl::Converter<unsigned long,std::vector<unsigned char> >", "ecl/type_traits.hpp|ecl::numeric_limits<wchar_t>",
  "ecl/mpl.hpp|ecl::Bool<true>", "ecl/geometry/legacy_pose2d.hpp|ecl::LegacyPose2D<double,ecl::RotationMatrixStorage>", "ecl/geometry/legacy_pose2d.hpp|ecl::LegacyPose2D<float,ecl::RotationAngleStorage>",
  "ecl/geometry/legacy_pose3d.hpp|ecl::LegacyPose3D<double>",
};
// the headers that need exceptions to compile, a listed finding: C45-without-exceptions
static const std::set<std::string> WITH_EXCEPTIONS = {
  "ecl/containers.hpp", "ecl/devices.hpp", "ecl/formatters.hpp", "ecl/geometry.hpp", "ecl/linear_algebra.hpp",
  "ecl/manipulators.hpp", "ecl/mobile_robot.hpp", "ecl/statistics.hpp", "ecl/streams.hpp", "ecl/containers/array.hpp",
  "ecl/containers/array/converters.hpp", "ecl/containers/array/formatters.hpp", "ecl/containers/common/formatters.hpp", "ecl/containers/converters.hpp", "ecl/containers/fifo.hpp",
  "ecl/containers/initialiser.hpp", "ecl/containers/push_and_pop.hpp", "ecl/containers/push_and_pop/formatters.hpp", "ecl/containers/push_and_pop/push_and_pop_dynamic.hpp", "ecl/containers/push_and_pop/push_and_pop_fixed.hpp",
  "ecl/containers/stencil.hpp", "ecl/containers/stencil/converters.hpp", "ecl/containers/stencil/formatters.hpp", "ecl/containers/stencil/specialisations.hpp", "ecl/containers/stencil/stencil.hpp",
  "ecl/converters/char.hpp", "ecl/converters/char_strings.hpp", "ecl/converters/from_byte_array.hpp", "ecl/converters/integers.hpp", "ecl/converters/string.hpp",
  "ecl/devices/ofile.hpp", "ecl/devices/ofile_pos.hpp", "ecl/devices/serial.hpp", "ecl/devices/serial_pos.hpp", "ecl/devices/shared_file.hpp",
  "ecl/devices/socket.hpp", "ecl/devices/socket_server_pos.hpp", "ecl/formatters/floats.hpp", "ecl/formatters/number.hpp", "ecl/formatters/strings.hpp",
  "ecl/geometry/angle.hpp", "ecl/geometry/cartesian_point.hpp", "ecl/geometry/cubic_spline.hpp", "ecl/geometry/homogeneous_point.hpp", "ecl/geometry/legacy_pose2d.hpp",
  "ecl/geometry/legacy_pose3d.hpp", "ecl/geometry/odometry.hpp", "ecl/geometry/odometry_helper.hpp", "ecl/geometry/odometry_typedefs.hpp", "ecl/geometry/pascals_triangle.hpp",
  "ecl/geometry/polynomial.hpp", "ecl/geometry/pose2d.hpp", "ecl/geometry/smooth_linear_spline.hpp", "ecl/geometry/spline_function.hpp", "ecl/geometry/tension_function.hpp",
  "ecl/geometry/tension_spline.hpp", "ecl/linear_algebra/eigen.hpp", "ecl/linear_algebra/eigen/formatters.hpp", "ecl/manipulators/trajectory.hpp", "ecl/manipulators/waypoint.hpp",
  "ecl/mobile_robot/differential_drive.hpp", "ecl/mobile_robot/kinematics/differential_drive.hpp", "ecl/statistics/covariance_ellipsoid.hpp", "ecl/streams/file_streams.hpp", "ecl/streams/log_stream.hpp",
  "ecl/streams/serial_stream.hpp", "ecl/streams/shared_file_stream.hpp", "ecl/streams/text_streams/input_text_stream.hpp",
};
static const char* const NO_EXCEPTIONS = " -DECL_DISABLE_EXCEPTIONS";
static bool without_exceptions(pbt::Src& s, const L& hs) {
  if (!s.coin(1, 4)) return false;
  for (auto& h : hs) if (WITH_EXCEPTIONS.count(h)) return false;
  return true;
}
static bool there(const std::string& header) {   // in some package of the repository
  const char* r = getenv("PBT_REPO"); std::string repo = r ? r : "/repo"; struct stat st; std::stringstream i(includes()); std::string w;
  while (i >> w) if (w.compare(0, 2, "-I") == 0 && w.find(repo) == 2 && stat((w.substr(2) + "/" + header).c_str(), &st) == 0) return true;
  return false;
}
static std::string a_mode(pbt::Src& s) { return s.pick(L{"", "", " -DNDEBUG", " -DECL_MEM_CHECK_ARRAYS", " -O2"}); }
static std::string a_header(pbt::Src& s) { std::string h = s.coin(1, 3) ? s.pick(UMBRELLAS) : s.pick(HEADERS); if (!there(h)) throw pbt::Discard(); return h; }
static std::string includes_of(const L& hs) { std::string t; for (auto& h : hs) t += "#include <" + h + ">\n"; return t; }
PBT_T(header_alone, 3, 200, "included more than once") {
  std::string h = a_header(s), cc = a_compiler(s) + a_mode(s); size_t n = 1 + s.below(3); L hs(n, h); if (without_exceptions(s, hs)) cc += NO_EXCEPTIONS;
  std::string text = includes_of(hs) + "int main() { return 0; }\n"; NOTE(cc << " " << h << " " << n << " times"); c.nontrivial(n > 1);
  Verdict v = compiles(text, cc); CHECK(v.ok, h << " does not compile: " << first_error(v.out));
}
PBT_T(header_company, 3, 300, "five headers or more") {
  size_t n = 2 + s.below(24); L hs; for (size_t i = 0; i < n; ++i) hs.push_back(i && s.coin(1, 6) ? hs[s.below(hs.size())] : a_header(s));
  std::string cc = a_compiler(s) + a_mode(s) + (without_exceptions(s, hs) ? NO_EXCEPTIONS : ""), text = includes_of(hs) + (s.coin() ? "using namespace ecl;\n" : "") + "int main() { return 0; }\n"; NOTE(cc); NOTE(text); c.nontrivial(n >= 5);
  Verdict v = compiles(text, cc); CHECK(v.ok, "headers do not compile together: " << first_error(v.out));
}
PBT_T(header_units, 2, 400, "shared headers") {
  size_t n = 2 + s.below(3), shared = 1 + s.below(4); L common; for (size_t i = 0; i < shared; ++i) common.push_back(a_header(s));
  std::string cc = a_compiler(s) + a_mode(s), objects; std::string all;
  for (size_t u = 0; u < n; ++u) {
    L hs = common; if (s.coin(1, 2)) std::reverse(hs.begin(), hs.end()); if (s.coin(1, 3)) hs.push_back(a_header(s));
    std::string text = includes_of(hs) + "int unit" + num((long)u) + "() { return 0; }\n"; all += text; std::string f = "unit" + num((long)u);
    put(f + ".cpp", text); Verdict v = run(cc + " -w -c " + includes() + " " + f + ".cpp -o " + f + ".o"); CHECK(v.ok, "does not compile with " << cc << "\n" << text << first_error(v.out)); objects += " " + f + ".o";
  }
  NOTE(cc); NOTE(all); c.nontrivial(true);
  Verdict v = run("ld -r -o units.o" + objects); CHECK(v.ok, "units with the same headers do not link: " << v.out.substr(0, 500));
}
PBT_T(header_instances, 3, 300, "several classes") {
  size_t n = 2 + s.below(15); L types; std::set<std::string> hs;
  for (size_t i = 0; i < n; ++i) { std::string l = s.pick(INSTANCES); size_t p = l.find('|'); std::string h = l.substr(0, p), t = l.substr(p + 1); if (!there(h)) throw pbt::Discard(); if (std::find(types.begin(), types.end(), t) != types.end()) continue; hs.insert(h); types.push_back(t); }
  std::string text = "#include <iostream>\n#include <string>\n#include <vector>\n" + includes_of(L(hs.begin(), hs.end()));
  text += "struct Q { int v; Q(int v = 0) : v(v) {} int f(); };\nenum E { Ea = 1 };\ninline std::ostream& operator<<(std::ostream& o, const Q& q) { return o << q.v; }\n";
  for (auto& t : types) text += "template class " + t + ";\n";
  std::string cc = a_compiler(s) + a_mode(s); NOTE(cc); NOTE(text); c.nontrivial(types.size() > 1);
  Verdict v = compiles(text, cc); CHECK(v.ok, "members of the classes do not compile: " << first_error(v.out));
}

/* ---------------------------------------------------------------------------------------------------- traits */
// what the traits say of a type: -1 where the documentation leaves it open
struct Type { std::string text; int integral, unsig, sig, floating, byte, sbyte, ubyte; std::string unsigned_type; };
static Type type_of(pbt::Src& s) {
  struct Row { const char* names; int u, f; const char* unsigned_of; };
  static const std::vector<Row> rows = {
    {"char|char", (char)-1 > 0, 0, "unsigned char"}, {"unsigned char|uint8_t|std::uint8_t", 1, 0, "unsigned char"}, {"short|short int|signed short|int16_t|std::int16_t", 0, 0, "unsigned short"}, {"unsigned short|uint16_t", 1, 0, "unsigned short"},
    {"int|signed int|signed|int32_t", 0, 0, "unsigned int"}, {"unsigned int|unsigned|uint32_t", 1, 0, "unsigned int"}, {"long|long int|std::ptrdiff_t|int64_t|signed long", 0, 0, "unsigned long"}, {"unsigned long|std::size_t|uint64_t", 1, 0, "unsigned long"},
    {"long long|signed long long int", 0, 0, "unsigned long long"}, {"unsigned long long", 1, 0, "unsigned long long"}, {"float", -1, 1, ""}, {"double", -1, 1, ""}, {"long double", -1, 1, ""}};
  auto names = [&](const char* n) { L out; std::stringstream i(n); std::string w; while (std::getline(i, w, '|')) out.push_back(w); return out; };
  Type t; int kind = s.weighted({6, 1, 5});
  if (kind == 0) {
    const Row& r = s.pick(rows); L ns = names(r.names); t.text = s.pick(ns); bool i = r.f == 0, ch = ns[0] == "char", uc = ns[0] == "unsigned char";
    t.integral = i; t.unsig = i ? r.u : 0; t.sig = i ? !r.u : 0; if (ch) { t.unsig = 0; t.sig = 1; } t.floating = r.f; t.byte = ch || uc; t.sbyte = ch && (char)-1 < 0; t.ubyte = uc || (ch && (char)-1 > 0); t.unsigned_type = r.unsigned_of;
    return t;
  }
  if (kind == 1) { t.text = s.pick(L{"signed char", "int8_t"}); t.integral = t.unsig = t.sig = -1; t.floating = 0; t.byte = t.sbyte = 1; t.ubyte = 0; t.unsigned_type = "-"; return t; }
  // everything else: none of them
  Type inner; std::string base; int f = (int)s.below(9);
  if (f < 6) { const Row& r = s.pick(rows); base = s.pick(names(r.names)); } else base = s.pick(L{"Strange", "E", "std::string", "Child"});
  switch (f) {
    case 0: t.text = base + "*"; break; case 1: t.text = base + "&"; break; case 2: t.text = base + "&&"; break; case 3: t.text = base + "[" + num(1 + (long)s.below(5)) + "]"; break;
    case 4: t.text = base + s.pick(L{"()", "(int)", "(*)(double)", " Strange::*"}); break; case 5: t.text = s.pick(L{"std::vector<", "std::complex<", "ecl::Bool<false> (*)(", "Of<"}) + base; t.text += t.text.find('(') != std::string::npos ? ")" : ">"; break;
    case 6: t.text = "void"; break; case 7: t.text = base; break; default: t.text = s.pick(L{"const ", "volatile "}) + std::string("char*");
  }
  t.integral = t.unsig = t.sig = t.floating = t.byte = t.sbyte = t.ubyte = 0; t.unsigned_type = "-"; return t;
}
static const char* const TRAITS = "#include <complex>\n#include <cstddef>\n#include <cstdint>\n#include <string>\n#include <type_traits>\n#include <vector>\nstruct Strange { int inside; }; enum E { EA }; struct Child : Strange {}; template <typename T> struct Of {};\ntypedef ::int8_t int8_t_;\nusing std::int8_t; using std::uint8_t;\n";
PBT_T(trait_types, 4, 200, "ten types and more") {
  size_t n = 1 + s.below(25); std::string text = s.coin() ? "#include <ecl/type_traits.hpp>\n#include <ecl/mpl.hpp>\n" : "#include <ecl/mpl.hpp>\n#include <ecl/type_traits/fundamental_types.hpp>\n"; text += TRAITS;
  for (size_t i = 0; i < n; ++i) {
    Type t = type_of(s); text += "typedef " + (t.text.find('(') != std::string::npos || t.text.find('[') != std::string::npos ? "std::common_type<int>::type dummy" + num((long)i) + "; using" : std::string("std::common_type<int>::type dummy") + num((long)i) + "; using") + " T" + num((long)i) + " = " + t.text + ";\n";
    auto line = [&](const char* trait, int v) { if (v < 0 || !s.coin(4, 5)) return; std::string k = std::string("ecl::") + trait + "<T" + num((long)i) + ">"; text += std::string("static_assert(") + (v ? "" : "!") + k + "::value, \"" + trait + " of " + t.text + " should be " + num(v) + "\");\n";
      switch (s.below(6)) {
        case 0: text += "static_assert(std::is_same<" + k + "::type, ecl::Bool<" + (v ? "true" : "false") + "> >::value && std::is_same<" + k + "::value_type, bool>::value, \"type of " + trait + "\");\n"; break;
        case 1: text += "static_assert(std::is_base_of<ecl::" + std::string(v ? "True" : "False") + ", " + k + " >::value && !std::is_base_of<ecl::" + (v ? "False" : "True") + ", " + k + " >::value, \"base of " + trait + "\");\n"; break;
        case 2: text += "static_assert(std::is_same<ecl::if_c<" + k + "::value, Strange, char(&)[3]>::type, " + (v ? "Strange" : "char(&)[3]") + ">::value, \"if_c over " + trait + " of " + t.text + "\");\n"; break;
        case 3: { std::string u = num((long)i) + trait; text += "template <typename T> typename ecl::enable_if<ecl::" + std::string(trait) + "<T>, Strange>::type pick" + u + "(Of<T>);\ntemplate <typename T> typename ecl::enable_if_c<!ecl::" + trait + "<T>::value, E>::type pick" + u + "(Of<T>);\nstatic_assert(std::is_same<decltype(pick" + u + "(Of<T" + num((long)i) + ">())), " + (v ? "Strange" : "E") + ">::value, \"selection by " + trait + " of " + t.text + "\");\n"; break; }
        case 4: { std::string u = num((long)i) + trait; text += "template <typename T, typename Enable = void> struct Sel" + u + " { enum { n = 0 }; };\ntemplate <typename T> struct Sel" + u + "<T, typename ecl::enable_if<ecl::" + trait + "<T> >::type> { enum { n = 1 }; };\nstatic_assert(int(Sel" + u + "<T" + num((long)i) + ">::n) == " + num(v) + ", \"specialisation by " + trait + " of " + t.text + "\");\n"; break; }
      }
    };
    line("is_integral", t.integral); line("is_unsigned", t.unsig); line("is_signed", t.sig); line("is_float", t.floating); line("is_byte", t.byte); line("is_signed_byte", t.sbyte); line("is_unsigned_byte", t.ubyte);
    if (!t.unsigned_type.empty() && t.unsigned_type != "-") text += "static_assert(std::is_same<ecl::Unsigned<T" + num((long)i) + ">::type, " + t.unsigned_type + ">::value, \"Unsigned of " + t.text + "\");\n";
    if (t.unsigned_type == "-" && t.byte == 0 && s.coin(1, 4)) text += "template <typename T> char has" + num((long)i) + "(typename ecl::Unsigned<T>::type*); template <typename T> long has" + num((long)i) + "(...);\nstatic_assert(sizeof(has" + num((long)i) + "<T" + num((long)i) + ">(0)) == sizeof(long), \"Unsigned of " + t.text + "\");\n";
  }
  text += "int main() {}\n"; std::string cc = a_compiler(s); NOTE(cc); NOTE(text); c.nontrivial(n >= 10);
  Verdict v = compiles(text, cc); CHECK(v.ok, "a trait is wrong: " << first_error(v.out));
}
// bool classes as objects, the reference and the device traits
PBT_T(trait_objects, 1, 300, "several traits") {
  static const char* const DEV[][5] = {{"ecl::OFile", "0", "1", "0", "ecl/devices/ofile.hpp"}, {"ecl::Serial", "1", "1", "1", "ecl/devices/serial.hpp"}, {"ecl::SocketClient", "1", "1", "1", "ecl/devices/socket.hpp"}, {"ecl::SocketServer", "1", "1", "1", "ecl/devices/socket.hpp"}, {"ecl::String", "1", "1", "1", "ecl/devices/string.hpp"}, {"ecl::SharedFile", "0", "1", "0", "ecl/devices/shared_file.hpp"}, {"ecl::OConsole", "0", "1", "0", "ecl/devices/console.hpp"}, {"ecl::EConsole", "0", "1", "0", "ecl/devices/console.hpp"}, {"ecl::IConsole", "1", "0", "0", "ecl/devices/console.hpp"}, {"int", "0", "0", "0", "ecl/devices/traits.hpp"}, {"std::string", "0", "0", "0", "ecl/devices/traits.hpp"}, {"ecl::Serial*", "0", "0", "0", "ecl/devices/serial.hpp"}};
  size_t n = 1 + s.below(6); std::string head, text;
  for (size_t i = 0; i < n; ++i) {
    auto add = [&](const std::string& trait, bool v) { text += "static_assert(" + std::string(v ? "" : "!") + trait + "::value, \"" + trait + " should be " + (v ? "true" : "false") + "\");\n"; };
    if (s.coin(2, 3)) { auto& d = DEV[s.below(12)]; head += std::string("#include <") + d[4] + ">\n"; std::string t = d[0]; add("ecl::is_source<" + t + " >", d[1][0] == '1'); add("ecl::is_sink<" + t + " >", d[2][0] == '1'); add("ecl::is_sourcesink<" + t + " >", d[3][0] == '1'); if (s.coin()) { add("ecl::is_sink<" + t + "* >", false); add("ecl::is_source<Of<" + t + "> >", false); } }
    else { head += "#include <ecl/utilities/references.hpp>\n"; std::string t = type_of(s).text; if (t.find_first_of("&([ :") != std::string::npos || t == "void") t = "int"; add("ecl::is_reference_wrapper<" + t + " >", false); add("ecl::is_reference_wrapper<ecl::ReferenceWrapper<" + t + " > >", true); add("ecl::is_reference_wrapper<ecl::ReferenceWrapper<const " + t + " > >", true); add("ecl::is_reference_wrapper<ecl::ReferenceWrapper<" + t + " >* >", false); }
  }
  text = head + TRAITS + text + "int main() {}\n"; std::string cc = a_compiler(s); NOTE(cc); NOTE(text); c.nontrivial(n > 2);
  Verdict v = compiles(text, cc); CHECK(v.ok, "a trait is wrong: " << first_error(v.out));
}
// the limits, as constants, as values and bound to references, in a program that is linked and run
PBT_T(trait_limits, 4, 300, "several types") {
  struct Row { const char *name, *one, *least, *most, *precision_type, *precision; };
  static const std::vector<Row> rows = {
    {"char", "1", "std::numeric_limits<char>::min()", "std::numeric_limits<char>::max()", "float", "1e-5f"}, {"unsigned char", "1", "0", "255", "float", "1e-5f"}, {"short", "1", "-32768", "32767", "float", "1e-5f"}, {"unsigned short", "1", "0", "65535", "float", "1e-5f"},
    {"int", "1", "-2147483647 - 1", "2147483647", "float", "0.0f"}, {"unsigned int", "1", "0", "4294967295u", "float", "0.0f"}, {"long", "1", "std::numeric_limits<long>::min()", "std::numeric_limits<long>::max()", "float", "0.0f"}, {"unsigned long", "1", "0", "~0ul", "float", "0.0f"},
    {"long long", "1", "std::numeric_limits<long long>::min()", "std::numeric_limits<long long>::max()", "float", "0.0f"}, {"unsigned long long", "1", "0", "~0ull", "float", "0.0f"},
    {"float", "", "-std::numeric_limits<float>::max()", "std::numeric_limits<float>::max()", "float", "1e-5f"}, {"double", "", "-std::numeric_limits<double>::max()", "std::numeric_limits<double>::max()", "double", "1e-12"}, {"long double", "", "-std::numeric_limits<long double>::max()", "std::numeric_limits<long double>::max()", "long double", "1e-15"}};
  std::string obj = dir() + "/limits.o"; struct stat st;
  if (stat(obj.c_str(), &st)) { const char* r = getenv("PBT_REPO"); Verdict b = run("g++ -std=c++14 -c " + includes() + " " + (r ? r : "/repo") + "/ecl_type_traits/src/lib/numeric_limits.cpp -o limits.o"); CHECK(b.ok, "the library does not compile: " << first_error(b.out)); }
  size_t n = 1 + s.below(8); std::string body, head;
  auto check = [&](const std::string& what, const std::string& value) {
    std::string id = num((long)body.size());
    switch (s.below(3)) {
      case 0: body += "  same(\"" + what + "\", " + what + ", (decltype(" + what + "))(" + value + "));\n"; break;                       // bound to a reference
      case 1: body += "  { auto v = " + what + "; same(\"" + what + " as a value\", v, decltype(v)(" + value + ")); }\n"; break;
      default: head += "static const auto& at_start" + id + " = " + what + "; static const auto copied" + id + " = " + what + ";\n"; body += "  same(\"" + what + " before main\", copied" + id + ", (decltype(" + what + "))(" + value + ")); same(\"" + what + " by a reference before main\", at_start" + id + ", (decltype(" + what + "))(" + value + "));\n";
    }
  };
  for (size_t i = 0; i < n; ++i) {
    const Row& r = s.pick(rows); std::string k = std::string("ecl::numeric_limits<") + r.name + ">";
    if (s.coin(2, 3)) check(k + "::bits", std::string("sizeof(") + r.name + ")*8");
    if (s.coin(2, 3)) check(k + "::bytes", std::string("sizeof(") + r.name + ")");
    if (s.coin(2, 3)) check(k + "::minimum", r.least);
    if (s.coin(2, 3)) check(k + "::maximum", r.most);
    if (s.coin(2, 3)) check(k + "::dummy_precision", r.precision);
    if (*r.one) { if (s.coin()) check(k + "::one", r.one); if (s.coin(1, 3)) head += "static_assert(" + k + "::bits == 8*sizeof(" + r.name + ") && " + k + "::bytes == sizeof(" + r.name + ") && " + k + "::minimum == std::numeric_limits<" + r.name + ">::min() && " + k + "::maximum == std::numeric_limits<" + r.name + ">::max() && " + k + "::one == 1, \"constants of " + r.name + "\"); static char array" + num((long)i) + "[" + k + "::bits]; enum { constant" + num((long)i) + " = " + k + "::bytes };\n"; }
    head += "static_assert(std::is_same<std::remove_cv<decltype(" + k + "::minimum)>::type, " + r.name + ">::value && std::is_same<std::remove_cv<decltype(" + k + "::maximum)>::type, " + r.name + ">::value, \"type of the limits of " + r.name + "\");\n";
    head += "static_assert(std::is_same<" + k + "::Precision, " + r.precision_type + ">::value && std::is_same<std::remove_cv<decltype(" + k + "::dummy_precision)>::type, " + r.precision_type + ">::value, \"precision of " + r.name + "\");\n";
    if (s.coin(1, 3)) { head += "static_assert(std::is_base_of<std::numeric_limits<" + std::string(r.name) + ">, " + k + " >::value && " + k + "::digits == std::numeric_limits<" + r.name + ">::digits && " + k + "::is_integer == std::numeric_limits<" + r.name + ">::is_integer && " + k + "::max() == std::numeric_limits<" + r.name + ">::max(), \"standard limits of " + r.name + "\");\n"; }
    if (s.coin(1, 4)) { std::string o = s.pick(L{"wchar_t", "bool", "signed char"}); head += "static_assert(ecl::numeric_limits<" + o + ">::digits == std::numeric_limits<" + o + ">::digits && std::is_base_of<std::numeric_limits<" + o + ">, ecl::numeric_limits<" + o + "> >::value, \"limits of " + o + "\");\n"; }
    if (s.coin(1, 3)) { std::string o = s.coin() ? "True" : "False"; body += std::string("  { ecl::") + o + " b; bool v = b; same(\"ecl::" + o + " as a bool\", v, " + (o == "True" ? "true" : "false") + "); same(\"ecl::" + o + "::value\", ecl::" + o + "::value + 0, " + (o == "True" ? "1" : "0") + "); const ecl::is_integral<" + r.name + "> t{}; same(\"is_integral as a bool\", t ? 1 : 0, " + (*r.one ? "1" : "0") + "); }\n"; }
  }
  std::string text = "#include <iostream>\n#include <limits>\n#include <type_traits>\n#include <ecl/mpl.hpp>\n#include <ecl/type_traits.hpp>\ntemplate <typename A, typename B> void same(const char* what, const A& a, const B& b) { if (!(a == (A)b)) { std::cout << what << \" is \" << +a << \", not \" << +b << std::endl; std::_Exit(1); } }\n#include <cstdlib>\n" + head + "int main() {\n" + body + "}\n";
  text = replaced(text, "#include <iostream>\n", "#include <cstdlib>\n#include <iostream>\n");
  std::string cc = "g++ -std=" + s.pick(L{"c++11", "c++14", "c++17"}) + s.pick(L{" -O0", " -O2"}); if (s.coin(1, 4)) cc = replaced(cc, "g++", "clang++"); NOTE(cc); NOTE(text); c.nontrivial(n > 2);
  put("limits.cpp", text); bool first = s.coin(); Verdict v = run(cc + " -w " + includes() + (first ? " limits.cpp limits.o" : " limits.o limits.cpp") + " -o limits"); CHECK(v.ok, "limits do not compile and link: " << v.out.substr(0, 600));
  v = run("./limits"); CHECK(v.ok, "a limit is wrong: " << v.out.substr(0, 300));
}

KNOWN("C45-without-exceptions", no_exceptions) {
  what = "containers, char string and byte array converters, formatters, linear algebra, geometry, statistics, manipulators, mobile robots, devices and streams do not compile with ECL_DISABLE_EXCEPTIONS";
  return !compiles("#include <ecl/containers.hpp>\nint main() { return 0; }\n", "g++ -std=c++14 -DECL_DISABLE_EXCEPTIONS").ok;
}
PBT_MAIN
