// Flags, parameters, singletons, blueprints, exceptions and realpath: generated
// programs of values, copies and calls against models of what each one has to do.
#include "pbt.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <atomic>
#include <fcntl.h>
#include <ftw.h>
#include <functional>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <ecl/utilities.hpp>
#include <ecl/exceptions.hpp>
#include <ecl/filesystem.hpp>

using namespace ecl;
#ifdef NDEBUG
enum { DEBUG_CHECKS = 0 };
#else
enum { DEBUG_CHECKS = 1 };
#endif
static std::string dir() { const char* d = getenv("PBT_SCRATCH"); return d ? d : "/tmp"; }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static size_t heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

static std::string text_of(int v) { return "a text long enough to live on the heap " + std::to_string(v); }
/* ---------------------------------------------------------------------------------------- flags and friends */
enum Small { None = 0, A1 = 1, A2 = 2, A4 = 4, A8 = 8, A12 = 12, AHigh = 0x40000000, ASign = -2147483647 - 1, AMixed = -2147483647 };
template <typename E> void flags_history(pbt::Src& s, pbt::Ctx& c, const std::vector<E>& all, const char* what) {
  size_t n = 2 + s.below(3); std::vector<std::unique_ptr<pbt::Dirty<Flags<E>>>> f; std::vector<int> m(n, 0); int hits = 0; NOTE(what);
  for (size_t i = 0; i < n; ++i) { f.emplace_back(new pbt::Dirty<Flags<E>>((unsigned char)s.below(256))); CHECK(int(**f[i]) == 0, "a new set of flags is " << int(**f[i])); }
  auto F = [&](size_t i) -> Flags<E>& { return **f[i]; };
  for (size_t st = 0, e = 1 + s.below(25); st < e; ++st) {
    size_t i = s.below(n), j = s.below(n), k = s.below(n); E g = s.pick(all), g2 = s.pick(all); int mask = (int)s.integer<int>(); const Flags<E>& cj = F(j); int op = (int)s.below(17);
    switch (op) {
      case 0: F(i) = g; m[i] = (int)g; break;
      case 1: F(i) = F(j); m[i] = m[j]; break;
      case 2: F(i) = Flags<E>(g); m[i] = (int)g; break;
      case 3: F(i) = cj | g; m[i] = m[j] | (int)g; break;
      case 4: F(i) = cj | F(k); m[i] = m[j] | m[k]; break;
      case 5: F(i) = cj & g; m[i] = m[j] & (int)g; break;
      case 6: F(i) = cj & mask; m[i] = m[j] & mask; break;
      case 7: F(i) = cj ^ g; m[i] = m[j] ^ (int)g; break;
      case 8: F(i) = cj ^ F(k); m[i] = m[j] ^ m[k]; break;
      case 9: F(i) = ~cj; m[i] = ~m[j]; break;
      case 10: { Flags<E>& r = (F(i) |= g); m[i] |= (int)g; CHECK(&r == &F(i), "|= does not return the object"); break; }
      case 11: { Flags<E>& r = (F(i) |= F(j)); m[i] |= m[j]; CHECK(&r == &F(i), "|= does not return the object"); break; }
      case 12: { Flags<E>& r = (F(i) &= mask); m[i] &= mask; CHECK(&r == &F(i), "&= does not return the object"); break; }
      case 13: { Flags<E>& r = (F(i) ^= g); m[i] ^= (int)g; CHECK(&r == &F(i), "^= does not return the object"); break; }
      case 14: { Flags<E>& r = (F(i) ^= F(j)); m[i] ^= m[j]; CHECK(&r == &F(i), "^= does not return the object"); break; }
      case 15: F(i) = g | cj; m[i] = (int)g | m[j]; break;
      default: if (s.coin()) { F(i).clear(); m[i] = 0; } else { F(i) = Flags<E>(g) | g2 | cj; m[i] = (int)g | (int)g2 | m[j]; }
    }
    NOTE("operation " << op << " on " << i << " with " << j << "/" << (int)g << "/" << mask);
    for (size_t q = 0; q < n; ++q) {
      const Flags<E>& x = F(q); CHECK(int(x) == m[q], "set " << q << " is " << int(x) << ", not " << m[q]);
      Flags<E> y(x); CHECK(int(y) == m[q], "a copy differs");
      for (E t : all) { bool w = (m[q] & (int)t) != 0 || ((int)t == 0 && m[q] == 0); hits += w; CHECK(x.testFlag(t) == w, "flag " << (int)t << " of " << m[q] << " tests as " << x.testFlag(t)); }
    }
  }
  c.nontrivial(hits > 0);
}
PBT(misc_flags, 4, "some flag was set") {
  if (s.coin()) flags_history<Small>(s, c, {None, A1, A2, A4, A8, A12, AHigh, ASign, AMixed}, "an enumeration");
  else {
    std::vector<Bits> b = {Bit0, Bit1, Bit2, Bit3, Bit4, Bit5, Bit6, Bit7, Bit8, Bit9, Bit10, Bit11, Bit12, Bit13, Bit14, Bit15, Bit16};
    for (size_t i = 0; i < b.size(); ++i) CHECK((int)b[i] == (i ? 1 << (i - 1) : 0), "bit " << i << " is " << (int)b[i]);
    flags_history<Bits>(s, c, b, "the bits");
  }
}
template <typename T> struct Val;
template <> struct Val<int> { static int make(int v) { return v; } };
template <> struct Val<double> { static double make(int v) { return v * 0.5; } };
template <> struct Val<std::string> { static std::string make(int v) { return v % 3 ? text_of(v) : std::string(); } };
template <> struct Val<std::vector<int>> { static std::vector<int> make(int v) { return std::vector<int>(v % 7, v); } };
// equal by its order and by ==, yet another value: an assignment must not leave it out
struct Lax { int key, rest; Lax(int k = 0, int r = 0) : key(k), rest(r) {} bool operator<(const Lax& o) const { return key < o.key; } bool operator>(const Lax& o) const { return key > o.key; } bool operator==(const Lax& o) const { return key == o.key; } bool operator!=(const Lax& o) const { return key != o.key; } };
PBT(misc_parameter_lax, 1, "always") {
  Parameter<Lax> p(Lax(1, 2)), q(Lax(1, 3)); int k = 1, r = 2; c.nontrivial(); for (size_t i = 1 + s.below(6); i > 0; --i) { int nk = (int)s.below(3), nr = (int)s.below(4); NOTE("value " << nk << "/" << nr); switch (s.below(3)) { case 0: p = Lax(nk, nr); break; case 1: p(Lax(nk, nr)); break; default: q(Lax(nk, nr)); p = q; } k = nk; r = nr; CHECK(p().key == k && p().rest == r, "the parameter holds " << p().key << "/" << p().rest << " instead of " << k << "/" << r); }
  Parameter<double> d(1.0); double nan = std::numeric_limits<double>::quiet_NaN(), v = s.coin() ? nan : s.coin() ? -0.0 : 2.5; Parameter<double> e(s.coin() ? 0.0 : nan); if (s.coin()) e(v); else e = v; d(e()); CHECK((v != v) == (d() != d()) && (v != v || (d() == v && std::signbit(d()) == std::signbit(v))), "the parameter holds " << d() << " instead of " << v);
}
template <typename T> void parameter_history(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Parameter<T>> p; std::vector<T> m; { pbt::Dirty<Parameter<T>> d((unsigned char)s.below(256)); p.push_back(*d); m.push_back(T()); CHECK((*d)() == T(), "a new parameter holds something"); }
  size_t e = 1 + s.below(15); c.nontrivial(e > 4);
  for (size_t st = 0; st < e; ++st) {
    size_t i = s.below(p.size()), j = s.below(p.size()); T v = Val<T>::make((int)s.below(500)); int op = (int)s.below(6); NOTE("operation " << op << " on " << i << ", " << j);
    switch (op) {
      case 0: p[i] = v; m[i] = v; break; case 1: p[i](v); m[i] = v; break; case 2: { T t = m[j]; p[i] = p[j]; m[i] = t; break; } case 3: { Parameter<T> q(v); p.push_back(q); m.push_back(v); break; }
      case 4: { Parameter<T> q(p[i]); q(v); p.push_back(q); m.push_back(v); break; } default: p[i] = p[i](); }
    for (size_t q = 0; q < p.size(); ++q) { const Parameter<T>& k = p[q]; const T& r = k; CHECK(k() == m[q] && r == m[q], "parameter " << q << " holds another value"); CHECK(&k() == &r, "the two ways of reading differ"); }
  }
}
PBT(misc_parameters, 2, "five or more operations") { switch (s.below(4)) { case 0: parameter_history<int>(s, c); break; case 1: parameter_history<double>(s, c); break; case 2: parameter_history<std::string>(s, c); break; default: parameter_history<std::vector<int>>(s, c); } }

static std::atomic<int> built(0);
template <int N> class Single : public Singleton<Single<N>> { friend class Singleton<Single<N>>; protected: Single() : token(0) { ++built; for (int i = 0; i < 50; ++i) std::this_thread::yield(); token = 4711; } public: int token; int notes[16] = {0}; };
PBT_T(misc_singleton, 1, 60, "two or more threads") {
  // first uses may come from several threads at once: one object, built once, complete for everyone
  int n = 1 + (int)s.below(8); c.nontrivial(n > 1); NOTE(n << " threads"); bool late = s.coin();
  pbt::Sand r = pbt::sandbox([&] {
    std::vector<std::thread> t; std::vector<const void*> at(n), other(n); std::vector<int> tok(n); std::atomic<int> ready(0);
    if (late) Single<0>::instance();
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) {} Single<0>& a = Single<0>::instance(); at[i] = &a; tok[i] = a.token; a.notes[i] = i + 1; other[i] = &Single<1>::instance(); });
    for (auto& x : t) x.join();
    CHECK(built == 2, built << " objects were built"); Single<0>& a = Single<0>::instance(); for (int i = 0; i < n; ++i) { CHECK(at[i] == &a, "thread " << i << " got another object"); CHECK(tok[i] == 4711, "thread " << i << " saw an unfinished object"); CHECK(a.notes[i] == i + 1, "the object lost what thread " << i << " wrote"); CHECK(other[i] == (const void*)&Single<1>::instance() && other[i] != at[i], "the singletons of two classes are mixed up"); }
    CHECK(built == 2, "more objects were built later"); return 0; }, 0, 30);
  CHECK(r.code == 0 && r.sig == 0 && !r.timed_out, r.err << " [status " << r.code << " signal " << r.sig << "]");
}
struct Product { int a, b; std::string how; Product() : a(0), b(0) {} };
struct Plan : public BluePrint<Plan> { typedef Product base_type; int a, b; Plan(int x = 0, int y = 0) : a(x), b(y) {} Product instantiate() { Product p; p.a = a; p.b = b; p.how = "made"; return p; } void apply(Product& p) const { p.a = a; p.b = b; p.how += "applied"; } };
struct Plan2 : public BluePrint<Plan2> { typedef Product base_type; int k; Plan2(int x = 0) : k(x) {} Product instantiate() { Product p; p.a = p.b = k; p.how = "two"; return p; } void apply(Product& p) const { p.a += k; p.how += "+"; } };
struct Sink { std::string text; int count; }; static Sink& operator<<(Sink& s, char c) { s.text += c; ++s.count; return s; }
// an object with an identity: a blueprint works on the very object it is given
struct Named { Named* self; int a; std::vector<Named*> seen; Named() : self(this), a(0) {} Named(const Named& o) : self(this), a(o.a) {} Named& operator=(const Named& o) { a = o.a; return *this; } };
struct Plan3 : public BluePrint<Plan3> { typedef Named base_type; int k; Plan3(int x = 0) : k(x) {} Named instantiate() { Named n; n.a = k; return n; } void apply(Named& n) const { n.a = k; n.seen.push_back(&n); if (k % 7 == 6) throw std::runtime_error("halfway"); } };
PBT(misc_blueprints, 1, "always") {
  c.nontrivial(); int a = (int)s.integer<int>(), b = (int)s.integer<int>(); Plan p(a, b); Product x = p.implementInstantiate<Product>(); CHECK(x.a == a && x.b == b && x.how == "made", "the blueprint made another object"); Product y; const Plan& cp = p; cp.implementApply(y); CHECK(y.a == a && y.b == b && y.how == "applied", "the blueprint was not applied");
  { Named n; int m = (int)s.below(50), times = 1 + (int)s.below(3); bool th = false; Plan3 pl(m); for (int i = 0; i < times; ++i) try { if (s.coin()) pl.implementApply(n); else static_cast<const BluePrint<Plan3>&>(pl).implementApply(n); } catch (const std::runtime_error&) { th = true; } CHECK(n.a == m && (int)n.seen.size() == times && th == (m % 7 == 6), "the blueprint worked on another object"); for (Named* x : n.seen) CHECK(x == &n, "the blueprint worked on another object"); }
  int k = (int)s.below(1000); Plan2 q(k); BluePrint<Plan2>& base = q; Product z = base.implementInstantiate<Product>(); CHECK(z.a == k && z.how == "two", "another blueprint was used"); base.implementApply(z); CHECK(z.a == 2 * k && z.how == "two+", "the blueprint was not applied through its base");
  std::ostringstream o; Void v; o << "x" << v << Void() << "y"; CHECK(o.str() == "xy", "void printed " << pbt::quote(o.str())); Sink sk; sk.count = 0; (sk << 'a') << Void(); (sk << Void()) << 'b'; CHECK(sk.text == "ab" && sk.count == 2, "void on another stream printed " << pbt::quote(sk.text));
}

/* ---------------------------------------------------------------------------------------- exceptions */
#ifndef ECL_DISABLE_EXCEPTIONS
struct Shown { int v; Shown(int x) : v(x) {} Shown(const Shown& o) : v(o.v) {} ~Shown() { v = -1; } }; static std::ostream& operator<<(std::ostream& o, const Shown& s) { return o << "<" << s.v << ">"; }
static std::string a_text(pbt::Src& s) { switch (s.below(4)) { case 0: return ""; case 1: return s.str("abc:%s\n./ ", 1, 12); case 2: return std::string(50 + s.below(400), 'q') + "."; default: return s.str("abcdefghijklmnopqrstuvwxyz .", 1, 40); } }
struct Trail { std::string loc; ErrorFlag flag; std::string msg, data; bool has; };
static std::string said(const Trail& t) { std::string r = "\nLocation : " + t.loc + "\nFlag     : " + Error(t.flag).what() + "\n"; if (!t.msg.empty()) r += "Detail   : " + t.msg + "\n"; if (t.has) r += "Data     : " + t.data + "\n"; return r; }
static Trail again(Trail t, const std::string& loc) { t.loc = loc + "\n         : " + t.loc; return t; }
struct NoDetail {};
PBT(exc_reports, 4, "rethrown at least once") {
  // an exception passed up through generated levels of functions keeps flag, detail and data and lists every location
  ErrorFlag flag = (ErrorFlag)s.below(LastErrorFlag_); std::string loc = a_text(s), msg = a_text(s); int levels = (int)s.below(6); std::vector<std::string> at; for (int i = 0; i < levels; ++i) at.push_back(a_text(s)); std::vector<int> how; for (int i = 0; i < levels; ++i) how.push_back((int)s.below(4)); int kind = (int)s.below(5), val = (int)s.integer<int>(); bool with = s.coin(); c.nontrivial(levels > 0); c.label(kind >= 2, "with data"); NOTE("kind " << kind << " location " << pbt::quote(loc) << " message " << pbt::quote(msg) << " levels " << levels);
  Trail t = {loc, flag, with ? msg : "", "", kind >= 2}; if (kind == 2) t.data = std::to_string(val); if (kind == 3) t.data = "<" + std::to_string(val) + ">"; if (kind == 4) t.data = text_of(val);
  std::function<void(int)> run = [&](int l) {
    if (l == 0) {
      std::string dying = loc; std::string m2 = msg; int iv = val; Shown sv(val); std::string tv = text_of(val);
      switch (kind) { case 0: case 1: if (with) throw StandardException(dying.c_str(), flag, m2); throw StandardException(dying.c_str(), flag);
        case 2: if (with) throw DataException<int>(dying.c_str(), flag, m2, iv); throw DataException<int>(dying.c_str(), flag, iv);
        case 3: if (with) throw DataException<Shown>(dying.c_str(), flag, m2, sv); throw DataException<Shown>(dying.c_str(), flag, sv);
        default: if (with) throw DataException<std::string>(dying.c_str(), flag, m2, tv); throw DataException<std::string>(dying.c_str(), flag, tv); } }
    std::string here = at[l - 1]; int h = how[l - 1];
    try { run(l - 1); }
    catch (StandardException& e) { if (h == 0) throw; if (h == 1) { StandardException k(e); throw k; } t = again(t, here); throw StandardException(here.c_str(), e); }
    catch (DataException<int>& e) { if (h == 0) throw; if (h == 1) { DataException<int> k(e); throw k; } t = again(t, here); throw DataException<int>(here.c_str(), e); }
    catch (DataException<Shown>& e) { if (h == 0) throw; if (h == 1) { DataException<Shown> k(e); throw k; } t = again(t, here); throw DataException<Shown>(here.c_str(), e); }
    catch (DataException<std::string>& e) { if (h == 0) throw; if (h == 1) { DataException<std::string> k(e); throw k; } t = again(t, here); throw DataException<std::string>(here.c_str(), e); } };
  int catcher = (int)s.below(4); bool caught = false; std::string text; size_t before = heap();
  try { run(levels); } catch (const StandardException& e) { caught = kind < 2; text = e.what(); CHECK(e.flag() == t.flag, "the flag is " << e.flag() << ", not " << t.flag); CHECK(e.message() == t.msg, "the message is " << pbt::quote(e.message()) << ", not " << pbt::quote(t.msg)); StandardException k(e); const ecl::Exception& b = k; CHECK(text == b.what() && text == ((const std::exception&)k).what(), "a copy or base reports something else"); (void)catcher; }
  catch (const DataException<int>& e) { caught = kind == 2; text = e.what(); CHECK(e.flag() == t.flag && e.data() == val, "flag " << e.flag() << " data " << e.data()); }
  catch (const DataException<Shown>& e) { caught = kind == 3; text = e.what(); CHECK(e.flag() == t.flag && e.data().v == val, "flag " << e.flag() << " data " << e.data().v); }
  catch (const DataException<std::string>& e) { caught = kind == 4; text = e.what(); CHECK(e.flag() == t.flag && e.data() == text_of(val), "flag " << e.flag() << " data " << e.data()); const ecl::Exception& b = e; CHECK(text == b.what(), "the base reports something else"); }
  CHECK(caught, "another exception arrived"); CHECK(text == said(t), "what() is " << pbt::quote(text) << ", not " << pbt::quote(said(t))); (void)before;
}
struct Klass {};
PBT(exc_posix, 1, "always") { int e = s.coin(1, 5) ? (int)s.range(-5, 5000) : (int)s.range(0, 133); std::string loc = a_text(s); c.nontrivial(); NOTE("errno " << e); errno = e; StandardException x = PosixErrorHandler<Klass>::GenerateStandardException(loc.c_str()); std::string want = std::string(strerror(e)) + "."; CHECK(x.flag() == PosixError, "flag " << x.flag()); CHECK(x.message() == want, "message " << pbt::quote(x.message()) << ", not " << pbt::quote(want)); Trail t = {loc, PosixError, want, "", false}; CHECK(x.what() == said(t), "what() is " << pbt::quote(x.what())); }
#endif
static int evaluated; static bool truth(bool b) { ++evaluated; return b; }
PBT(exc_macros, 1, "always") {
  // ecl_throw always throws (with exceptions), the assertions only in debug mode, and only when the condition fails
  c.nontrivial(); bool cond = s.coin(), thrown = false, passed = false; int which = (int)s.below(3); std::string m = "detail"; evaluated = 0; NOTE("macro " << which << " condition " << cond); (void)cond;
#ifdef ECL_DISABLE_EXCEPTIONS
  if (which == 0) { ecl_throw(StandardException(LOC, UsageError, m)); passed = true; } else if (which == 1) { ecl_assert_throw(truth(cond), StandardException(LOC, UsageError, m)); passed = true; } else { ecl_debug_throw(StandardException(LOC, UsageError, m)); passed = true; }
  CHECK(passed && !thrown && evaluated == 0, "a disabled exception had an effect"); ecl_try { passed = true; } ecl_catch(...) { thrown = true; } CHECK(passed && !thrown, "the handler ran");
#else
  try { if (which == 0) { ecl_throw(StandardException(LOC, UsageError, m)); passed = true; } else if (which == 1) { ecl_assert_throw(truth(cond), StandardException(LOC, UsageError, m)); passed = true; } else { ecl_debug_throw(StandardException(LOC, UsageError, m)); passed = true; } } catch (const StandardException& e) { thrown = true; CHECK(e.flag() == UsageError && e.message() == m, "another exception"); }
  bool want = which == 0 || (DEBUG_CHECKS && (which == 2 || !cond)); CHECK(thrown == want && passed != thrown, (thrown ? "thrown" : "not thrown")); CHECK(evaluated == (which == 1 && DEBUG_CHECKS ? 1 : 0), "the condition was evaluated " << evaluated << " times");
  bool handled = false; ecl_try { passed = true; if (cond) throw 5; } ecl_catch(int x) { handled = x == 5; } CHECK(handled == cond, "ecl_catch");
#endif
}

/* ---------------------------------------------------------------------------------------- realpath */
static void wipe(const std::string& p) { nftw(p.c_str(), [](const char* f, const struct stat*, int, struct FTW*) { return ::remove(f); }, 16, FTW_DEPTH | FTW_PHYS); }
static int inject;
extern "C" char* __real_realpath(const char*, char*);
extern "C" char* __wrap_realpath(const char* p, char* r) { if (inject) { if (r && inject > 0) strcpy(r, "/half/a/path"); errno = abs(inject); return 0; } return __real_realpath(p, r); }
static ErrorFlag flag_of(int e) { switch (e) { case EACCES: return PermissionsError; case EINVAL: case ENAMETOOLONG: return InvalidArgError; case EIO: return ReadError; case ELOOP: case ENOTDIR: return InvalidObjectError; case ENOENT: return NotFoundError; default: return UnknownError; } }
struct Node { char kind; std::string target; std::map<std::string, std::unique_ptr<Node>> kids; Node* up; Node(char k, Node* u) : kind(k), up(u) {} };
struct Tree {
  std::string root; Node top; int links; Tree(const std::string& r) : root(r), top('d', 0), links(0) {}
  ~Tree() { wipe(root); }
  std::string path(const Node* n) { if (n == &top) return root; for (auto& k : n->up->kids) if (k.second.get() == n) return path(n->up) + "/" + k.first; return "?"; }
  // 0: resolved to out; otherwise the errno. -1: leaves the tree or too close to a limit: not judged
  int resolve(Node* from, const std::string& p, Node*& out, int depth, bool& slash_end) {
    Node* cur = from; std::string rest = p; if (p.empty()) return ENOENT; if (++links > 60) return depth >= 0 ? ELOOP : ELOOP;
    if (p[0] == '/') { if (p.compare(0, root.size(), root) != 0 || (p.size() > root.size() && p[root.size()] != '/')) return -1; cur = &top; rest = p.substr(root.size()); if (rest.empty()) { out = cur; return 0; } }
    size_t i = 0;
    while (i < rest.size()) {
      size_t j = rest.find('/', i); std::string k = rest.substr(i, j == std::string::npos ? j : j - i); bool more = j != std::string::npos; i = more ? j + 1 : rest.size();
      if (k.empty()) { if (cur->kind != 'd') return ENOTDIR; continue; }
      if (cur->kind != 'd') return ENOTDIR;
      if (k == ".") { continue; }
      if (k == "..") { if (cur == &top) return -1; cur = cur->up; continue; }
      if (k.size() > 255) return ENAMETOOLONG;
      auto it = cur->kids.find(k); if (it == cur->kids.end()) return ENOENT; Node* n = it->second.get();
      if (n->kind == 'l') { Node* o = 0; bool se = false; int e = resolve(cur, n->target, o, depth + 1, se); if (e) return e; cur = o; } else cur = n;
      if (more && cur->kind != 'd') return ENOTDIR;
    }
    slash_end = !rest.empty() && rest.back() == '/'; out = cur; return 0;
  }
};
static const std::vector<std::string> NAMES = {"a", "b", "c", "long name", "..b", "...", ".h"};
static std::string rel_path(pbt::Src& s, int maxlen, bool up) { std::string r; int n = 1 + (int)s.below(maxlen); for (int i = 0; i < n; ++i) { if (i) r += s.coin(1, 6) ? "//" : "/"; switch (s.weighted({8, 1, up ? 3 : 1})) { case 0: r += s.pick(NAMES); break; case 1: r += "."; break; default: r += ".."; } } if (s.coin(1, 8)) r += s.coin() ? "/" : "/."; return r; }
static void grow(pbt::Src& s, Tree& t, Node* d, const std::string& at, int depth, int& left, int& links, pbt::Ctx& c) {
  int n = (int)s.below(5); for (int i = 0; i < n && left > 0; ++i) {
    std::string k = s.pick(NAMES); if (d->kids.count(k)) continue; --left; int kind = (int)s.weighted({depth > 5 ? 0 : 5, 2, 4}); std::string p = at + "/" + k;
    if (kind == 0) { mkdir(p.c_str(), 0755); Node* x = new Node('d', d); d->kids[k].reset(x); grow(s, t, x, p, depth + 1, left, links, c); }
    else if (kind == 1) { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); d->kids[k].reset(new Node('f', d)); }
    else { Node* x = new Node('l', d); x->target = s.coin(1, 3) ? t.root + "/" + rel_path(s, 4, false) : rel_path(s, 4, true); ++links; NOTE("link " << p.substr(t.root.size()) << " -> " << x->target); CHECK(symlink(x->target.c_str(), p.c_str()) == 0, "symlink"); d->kids[k].reset(x); }
  }
}
struct Cwd { int fd; Cwd() : fd(open(".", O_RDONLY | O_DIRECTORY)) {} ~Cwd() { if (fchdir(fd)) abort(); close(fd); } };
PBT_T(realpath_trees, 6, 60, "a link was on the way or the path has . or ..") {
  static int serial = 0; char* canon = __real_realpath(dir().c_str(), 0); std::string base(canon); free(canon); Tree t(base + "/tree" + std::to_string(getpid()) + "_" + std::to_string(serial++)); CHECK(mkdir(t.root.c_str(), 0755) == 0, "scratch directory"); int left = 25, links = 0; grow(s, t, &t.top, t.root, 0, left, links, c);
  std::vector<Node*> dirs(1, &t.top); for (size_t i = 0; i < dirs.size(); ++i) for (auto& k : dirs[i]->kids) if (k.second->kind == 'd') dirs.push_back(k.second.get());
  Cwd keep; int judged = 0, fails = 0, fine = 0;
  for (int q = 0, e = 4 + (int)s.below(10); q < e; ++q) {
    Node* from = s.pick(dirs); CHECK(chdir(t.path(from).c_str()) == 0, "chdir"); std::string p = rel_path(s, 6, true); bool abs = s.coin(); if (abs) { p = t.path(from) + (s.coin() ? "/" : "//") + p; } if (s.coin(1, 20)) p = s.pick(std::vector<std::string>{"", ".", "./", "..", "a/"}); if (s.coin(1, 30)) p += "/" + std::string(200 + s.below(120), 'z');
    Node* out = 0; bool slash = false; t.links = 0; int w = t.resolve(from, p, out, 0, slash); if (w < 0) continue; if (w == 0 && t.links > 15) continue; if (w == 0 && slash && out->kind != 'd') w = ENOTDIR; if (w == ENAMETOOLONG || (w == ELOOP)) c.label(true, w == ELOOP ? "loop" : "too long");
    NOTE("in " << t.path(from).substr(t.root.size()) << "/ resolve " << pbt::quote(p.size() > 300 ? "(long)" : p)); std::string r = s.coin() ? "old content" : std::string(); ErrorFlag f; bool alias = s.coin(1, 5); if (alias) { r = p; f = ecl::realpath(r, r).flag(); } else f = ecl::realpath(p, r).flag();
    if (w == ELOOP && f != InvalidObjectError && t.links > 60) { /* a loop of links that also names something missing */ }
    CHECK(f == (w ? flag_of(w) : NoError), "the error is " << Error(f).what() << ", not " << (w ? Error(flag_of(w)).what() : "none")); ++judged; if (w) { ++fails; continue; }
    ++fine; std::string want = t.path(out); CHECK(r == want, "resolved to " << pbt::quote(r) << ", not " << pbt::quote(want)); std::string r2; CHECK(ecl::realpath(r, r2).flag() == NoError && r2 == r, "a resolved path resolves to " << pbt::quote(r2));
    if (t.links > 1) c.label(true, "through links");
  }
  c.label(fine > 0, "resolved"); c.label(fails > 0, "refused"); c.nontrivial(judged > 1 && links > 0);
}
PBT(realpath_faults, 1, "always") {
  // every failure is reported by its flag, does not crash and does not eat memory
  int codes[] = {EACCES, EINVAL, EIO, ELOOP, ENAMETOOLONG, ENOENT, ENOTDIR, ENOMEM, EMFILE, EPERM}; int e = codes[s.below(10)]; bool early = s.coin(); c.nontrivial(); NOTE("errno " << e << (early ? ", nothing stored" : ", a partial path stored")); size_t held = 0; int reps = 3;
  for (int i = 0; i < reps; ++i) { ErrorFlag f; { std::string p = "/tmp/some/where", r; inject = early ? -e : e; f = ecl::realpath(p, r).flag(); inject = 0; } CHECK(f == flag_of(e), "the error is " << Error(f).what() << ", not " << Error(flag_of(e)).what()); if (i == 0) held = heap(); }
  CHECK(heap() <= held, heap() - held << " bytes were lost by two failures"); std::string r; CHECK(ecl::realpath("/", r).flag() == NoError && r == "/", "the next call fails");
  held = 0; for (int i = 0; i < reps; ++i) { { std::string q; ecl::realpath("/..//./", q); CHECK(q == "/", "the root is " << pbt::quote(q)); } if (i == 0) held = heap(); } CHECK(heap() <= held, "memory was lost by two successes");
}
PBT_T(realpath_long, 1, 60, "the path is near the limit") {
  // paths up to the longest the system allows, by absolute and by relative names
  char* canon = __real_realpath(dir().c_str(), 0); std::string base(canon); free(canon); std::string root = base + "/deep" + std::to_string(getpid()); Cwd keep; size_t target = PATH_MAX - 1 - s.below(s.coin() ? 6 : 300); struct Clean { std::string r; ~Clean() { wipe(r); } } clean{root};
  CHECK(mkdir(root.c_str(), 0755) == 0 && chdir(root.c_str()) == 0, "scratch directory"); std::string full = root; while (full.size() < target) { size_t n = std::min<size_t>(200, target - full.size() - 1); if (target - full.size() - 1 - n == 1) --n; if (n == 0) break; std::string k(n, 'd'); if (mkdir(k.c_str(), 0755) || chdir(k.c_str())) break; full += "/" + k; }
  c.nontrivial(full.size() > 4000); NOTE("a directory with a path of " << full.size()); std::string r; ErrorFlag f = ecl::realpath(".", r).flag(); CHECK(f == NoError, "error " << Error(f).what() << " on ."); CHECK(r == full, "resolved to " << r.size() << " characters"); std::string r2; f = ecl::realpath(full, r2).flag(); CHECK(f == NoError && r2 == full, "error " << Error(f).what() << " on the path itself"); std::string up; CHECK(ecl::realpath("..", up).flag() == NoError && up == full.substr(0, full.rfind('/')), "the parent"); CHECK(ecl::realpath(full + "/" + std::string(300, 'x'), r2).flag() == InvalidArgError, "a path that is too long");
  if (chdir("/")) abort();
}
PBT_MAIN
