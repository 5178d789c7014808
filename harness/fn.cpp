// Function objects and references: generated programs of making, copying, dropping and calling function objects
// of every form against a model of target, object, argument and result.
#include "pbt.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <atomic>
#include <fcntl.h>
#include <ftw.h>
#include <functional>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <ecl/utilities.hpp>

using namespace ecl;
/* ---------------------------------------------------------------------------------------- arguments and results */
struct Tracked {  // dies loudly: a dead one does not compare equal to any value
  static long alive; int v; Tracked* self;
  Tracked(int x = 0) : v(x), self(this) { ++alive; }
  Tracked(const Tracked& o) : v(o.value()), self(this) { ++alive; }
  Tracked& operator=(const Tracked& o) { v = o.value(); return *this; }
  ~Tracked() { self = 0; v = -999; --alive; }
  int value() const { return self == this ? v : -777; }
};
long Tracked::alive = 0;
struct Poly { int v; Poly(int x) : v(x) {} virtual int value() const { return v; } virtual ~Poly() { v = -999; } };
struct PolySub : Poly { PolySub(int x) : Poly(x) {} int value() const { return v + 5; } };
struct NoCopy { int v; NoCopy(int x) : v(x) {} NoCopy(const NoCopy&) = delete; ~NoCopy() { v = -999; } };
static std::string text_of(int v) { return "a text long enough to live on the heap " + std::to_string(v); }
static int read_text(const std::string& s) { size_t p = s.rfind(' '); return p == std::string::npos ? -888 : atoi(s.c_str() + p); }

// One argument type: how a source is made, read, and what a function does to it after reading.
template <typename A> struct Arg;
template <> struct Arg<int> { typedef int Src; enum { refers = 0 }; static int get(int a) { return a; } static void touch(int& a) { a += 100; } static Src make(int v) { return v; } static int of(const Src& s) { return s; } };
template <> struct Arg<const int&> { typedef int Src; enum { refers = 0 }; static int get(const int& a) { return a; } static void touch(const int&) {} static Src make(int v) { return v; } static int of(const Src& s) { return s; } };
template <> struct Arg<int&> { typedef int Src; enum { refers = 1 }; static int get(int& a) { return a; } static void touch(int& a) { a += 1; } static Src make(int v) { return v; } static int of(const Src& s) { return s; } };
template <> struct Arg<double> { typedef int Src; enum { refers = 0 }; static int get(double a) { return (int)a; } static void touch(double& a) { a = -1; } static Src make(int v) { return v; } static int of(const Src& s) { return s; } };
template <> struct Arg<const long&> { typedef short Src; enum { refers = 0 }; static int get(const long& a) { return (int)a; } static void touch(const long&) {} static Src make(int v) { return (short)v; } static int of(const Src& s) { return s; } };
template <> struct Arg<Tracked> { typedef Tracked Src; enum { refers = 0 }; static int get(const Tracked& a) { return a.value(); } static void touch(Tracked& a) { a.v = -5; } static Src make(int v) { return Tracked(v); } static int of(const Src& s) { return s.value(); } };
template <> struct Arg<const Tracked&> { typedef Tracked Src; enum { refers = 0 }; static int get(const Tracked& a) { return a.value(); } static void touch(const Tracked&) {} static Src make(int v) { return Tracked(v); } static int of(const Src& s) { return s.value(); } };
template <> struct Arg<Tracked&> { typedef Tracked Src; enum { refers = 1 }; static int get(Tracked& a) { return a.value(); } static void touch(Tracked& a) { a.v += 1; } static Src make(int v) { return Tracked(v); } static int of(const Src& s) { return s.value(); } };
template <> struct Arg<std::string> { typedef std::string Src; enum { refers = 0 }; static int get(const std::string& a) { return read_text(a); } static void touch(std::string& a) { a = "gone"; } static Src make(int v) { return text_of(v); } static int of(const Src& s) { return read_text(s); } };
template <> struct Arg<const std::string&> { typedef std::string Src; enum { refers = 0 }; static int get(const std::string& a) { return read_text(a); } static void touch(const std::string&) {} static Src make(int v) { return text_of(v); } static int of(const Src& s) { return read_text(s); } };
template <> struct Arg<int*> { typedef int* Src; enum { refers = 0 }; static int get(int* a) { return *a; } static void touch(int*& a) { a = 0; } static Src make(int v) { static int pool[2048]; pool[v & 2047] = v; return &pool[v & 2047]; } static int of(const Src& s) { return *s; } };
template <typename A> struct Tmp { enum { ok = !Arg<A>::refers }; };  // temporaries can be bound

struct Sub { int v; };
template <typename R> struct Res;
template <> struct Res<int> { static int make(int v) { return v; } static int get(int v) { return v; } };
template <> struct Res<const Tracked&> { static const Tracked& make(int v) { static Tracked t; t.v = v; return t; } static int get(const Tracked& t) { return t.value(); } };
template <> struct Res<Tracked> { static Tracked make(int v) { return Tracked(v); } static int get(const Tracked& t) { return t.value(); } };
template <> struct Res<std::string> { static std::string make(int v) { return text_of(v); } static int get(const std::string& t) { return read_text(t); } };
template <> struct Res<int&> { static int& make(int v) { static int x; x = v; return x; } static int get(int& v) { return v; } };
template <> struct Res<void> { static void make(int) {} };
template <typename R> struct Call {  // calls and reports the result, or nothing for void
  template <typename F> static bool run(F f, int& r) { r = Res<R>::get(f()); return true; }
};
template <> struct Call<void> { template <typename F> static bool run(F f, int&) { f(); return false; } };

struct Event { int who; int arg; const void* addr; };
static std::vector<Event> log_;
static int answer(int who, int arg, size_t n) { return (who * 37 + arg * 3 + (int)n) & 0x3fff; }
template <typename R, int N> R free0() { log_.push_back(Event{N, 0, 0}); return Res<R>::make(answer(N, 0, log_.size())); }
template <typename A, typename R, int N> R free1(A a) { int v = Arg<A>::get(a); log_.push_back(Event{10 + N, v, &a}); Arg<A>::touch(a); return Res<R>::make(answer(10 + N, v, log_.size())); }
template <typename A, typename R> struct Obj {
  int id; long sum; Obj(int i) : id(i), sum(0) {}
  virtual ~Obj() { id = -50; }
  R m0() { sum += 1; log_.push_back(Event{20 + id, 0, this}); return Res<R>::make(answer(20 + id, 0, log_.size())); }
  virtual R v0() { log_.push_back(Event{30 + id, 0, this}); return Res<R>::make(answer(30 + id, 0, log_.size())); }
  R m1(A a) { int v = Arg<A>::get(a); sum += v; log_.push_back(Event{40 + id, v, &a}); Arg<A>::touch(a); return Res<R>::make(answer(40 + id, v, log_.size())); }
  virtual R v1(A a) { int v = Arg<A>::get(a); log_.push_back(Event{50 + id, v, &a}); Arg<A>::touch(a); return Res<R>::make(answer(50 + id, v, log_.size())); }
  R m2(A a, int b) { int v = Arg<A>::get(a); log_.push_back(Event{60 + id, v * 7 + b, &a}); Arg<A>::touch(a); return Res<R>::make(answer(60 + id, v * 7 + b, log_.size())); }
};
template <typename A, typename R> struct ObjSub : Obj<A, R> {
  ObjSub(int i) : Obj<A, R>(i) {}
  R v0() { log_.push_back(Event{70 + this->id, 0, this}); return Res<R>::make(answer(70 + this->id, 0, log_.size())); }
  R v1(A a) { int v = Arg<A>::get(a); log_.push_back(Event{80 + this->id, v, &a}); Arg<A>::touch(a); return Res<R>::make(answer(80 + this->id, v, log_.size())); }
};
template <typename R> struct Functor0 { typedef R result_type; int calls; int id; Tracked t; Functor0(int i) : calls(0), id(i), t(i) {} R operator()() { ++calls; int v = t.value() * 50 + calls; log_.push_back(Event{90 + id, v, this}); return Res<R>::make(answer(90 + id, v, log_.size())); } };
template <typename A, typename R> struct Functor1 { int calls; int id; Tracked t; Functor1(int i) : calls(0), id(i), t(i) {} R operator()(A a) { ++calls; int v = Arg<A>::get(a) + 1000 * calls * (t.value() + 1); log_.push_back(Event{100 + id, v, this}); Arg<A>::touch(a); return Res<R>::make(answer(100 + id, v, log_.size())); } };

// An entry: some function object behind its base class, how to copy it, and the model of what it does.
struct Model { int who; bool bound; int bound_value; void* bound_ref; int state; void* shared_state; int t; Model() : who(0), bound(false), bound_value(0), bound_ref(0), state(-1), shared_state(0), t(0) {} };
template <typename Base> struct Entry {
  Base* f; Base* (*clone)(const Base*); Model m;
  Entry(Base* p, Base* (*k)(const Base*), const Model& x) : f(p), clone(k), m(x) {}
  Entry(const Entry& o) : f(o.clone(o.f)), clone(o.clone), m(o.m) {}
  Entry& operator=(const Entry& o) { if (this != &o) { delete f; f = o.clone(o.f); clone = o.clone; m = o.m; } return *this; }
  Entry(Entry&& o) : f(o.f), clone(o.clone), m(o.m) { o.f = 0; }
  Entry& operator=(Entry&& o) { std::swap(f, o.f); std::swap(clone, o.clone); std::swap(m, o.m); return *this; }
  ~Entry() { delete f; }
};
template <typename Base, typename F> Base* clone_of(const Base* b) { return new F(*static_cast<const F*>(b)); }
template <typename Base, typename F> Entry<Base> entry(const F& f, const Model& m) { return Entry<Base>(new F(f), clone_of<Base, F>, m); }
static const char* FORMS[] = {"free nullary", "bound free", "bound free, temporary", "bound nullary member", "bound nullary virtual member", "bound unary member", "bound unary member, temporary", "nullary copy", "nullary reference", "free unary", "partially bound unary member", "partially bound virtual member", "unary copy", "unary reference", "nullary member", "nullary virtual member", "unary member", "unary virtual member", "partially bound binary member"};

// a reference that refers back to the source, whatever the conversion
template <typename A, bool T = Tmp<A>::ok> struct BindTmp {
  template <typename R> static auto free_(R (*f)(A), int v) { return generateFunctionObject(f, Arg<A>::make(v)); }
  template <typename R, typename C> static auto member(R (C::*f)(A), C& o, int v) { return generateFunctionObject(f, o, Arg<A>::make(v)); }
};
template <typename A> struct BindTmp<A, false> {
  template <typename R> static auto free_(R (*f)(A), int v) { static std::vector<std::unique_ptr<typename Arg<A>::Src>> keep; (void)v; static typename Arg<A>::Src x = Arg<A>::make(0); return generateFunctionObject(f, x); }
  template <typename R, typename C> static auto member(R (C::*f)(A), C& o, int v) { (void)v; static typename Arg<A>::Src x = Arg<A>::make(0); return generateFunctionObject(f, o, x); }
};
// the void version takes the wrapper as parameter, the other one the object
template <typename F, typename A, typename R> struct UnaryRef { typedef UnaryFunctionReference<F, A, R> type; };
template <typename F, typename A> struct UnaryRef<F, A, void> { typedef UnaryFunctionReference<ReferenceWrapper<F>, A, void> type; };

static int smash(int n) { volatile char b[600]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)(n + 77); int r = 0; for (size_t i = 0; i < sizeof b; i += 37) r += b[i]; return r; }

template <typename A, typename R> void functions(pbt::Src& s, pbt::Ctx& c, const char* what) {
  typedef typename Arg<A>::Src S; typedef Obj<A, R> O;
  log_.clear(); long alive = Tracked::alive; Res<const Tracked&>::make(0); long base = Tracked::alive; (void)alive; bool multi = false, copies = false; int kinds = 0;
  {
    std::vector<std::unique_ptr<S>> sources; std::vector<std::unique_ptr<O>> objects; std::vector<std::unique_ptr<Functor0<R>>> f0; std::vector<std::unique_ptr<Functor1<A, R>>> f1;
    for (int i = 0; i < 3; ++i) { sources.emplace_back(new S(Arg<A>::make(10 * i + (int)s.below(9)))); objects.emplace_back(s.coin() ? new O(i) : new ObjSub<A, R>(i)); f0.emplace_back(new Functor0<R>(i)); f1.emplace_back(new Functor1<A, R>(i)); }
    bool sub[3]; for (int i = 0; i < 3; ++i) sub[i] = dynamic_cast<ObjSub<A, R>*>(objects[i].get()) != 0;
    std::vector<Entry<NullaryFunction<R>>> n0; std::vector<Entry<UnaryFunction<A, R>>> n1; std::vector<Entry<UnaryFunction<O&, R>>> no; std::vector<Entry<BinaryFunction<O&, A, R>>> noa; std::vector<Entry<BinaryFunction<A, int, R>>> n2;
    NOTE(what);
    auto expect = [&](size_t before, int who, int arg, const void* addr, bool has, int got) {
      CHECK(log_.size() == before + 1, "the call ran " << log_.size() - before << " functions"); const Event& e = log_.back();
      CHECK(e.who == who, "function " << e.who << " was called instead of " << who); CHECK(e.arg == arg, "function " << who << " got " << e.arg << ", not " << arg);
      if (addr) CHECK(e.addr == addr, "function " << who << " did not see the very object");
      if (has) { int w = answer(who, arg, log_.size()); CHECK(got == w, "the result is " << got << ", not " << w); } };
    size_t steps = 3 + s.below(18);
    for (size_t st = 0; st < steps; ++st) {
      int op = (int)s.below(4);
      if (op == 0 || st < 2) {
        int form = (int)s.below(19), k = (int)s.below(3), v = (int)s.below(500); Model m; bool gen = s.coin(); S& src = *sources[k]; int which = (int)s.below(2);
        NOTE("make a " << FORMS[form] << " [" << k << "]" << " value " << v); ++kinds;
        switch (form) {
          case 0: { m.who = which; typedef R (*F)(); F f = which ? free0<R, 1> : free0<R, 0>; n0.push_back(gen ? entry<NullaryFunction<R>>(generateFunctionObject(f), m) : entry<NullaryFunction<R>>(NullaryFreeFunction<R>(f), m)); break; }
          case 1: { m.who = 10 + which; m.bound = true; m.bound_value = Arg<A>::of(src); m.bound_ref = Arg<A>::refers ? &src : 0; typedef R (*F)(A); F f = which ? free1<A, R, 1> : free1<A, R, 0>; n0.push_back(gen ? entry<NullaryFunction<R>>(generateFunctionObject(f, src), m) : entry<NullaryFunction<R>>(BoundUnaryFreeFunction<A, R>(f, src), m)); break; }
          case 2: { if (!Tmp<A>::ok) break; m.who = 10 + which; m.bound = true; m.bound_value = v; typedef R (*F)(A); F f = which ? free1<A, R, 1> : free1<A, R, 0>; n0.push_back(entry<NullaryFunction<R>>(BindTmp<A>::free_(f, v), m)); smash(v); break; }
          case 3: { m.who = 20 + k; n0.push_back(gen ? entry<NullaryFunction<R>>(generateFunctionObject(&O::m0, *objects[k]), m) : entry<NullaryFunction<R>>(BoundNullaryMemberFunction<O, R>(&O::m0, *objects[k]), m)); break; }
          case 4: { m.who = (sub[k] ? 70 : 30) + k; n0.push_back(entry<NullaryFunction<R>>(generateFunctionObject(&O::v0, *objects[k]), m)); break; }
          case 5: { int j = (int)s.below(3); S& a = *sources[j]; m.who = 40 + k; m.bound = true; m.bound_value = Arg<A>::of(a); m.bound_ref = Arg<A>::refers ? &a : 0; n0.push_back(gen ? entry<NullaryFunction<R>>(generateFunctionObject(&O::m1, *objects[k], a), m) : entry<NullaryFunction<R>>(BoundUnaryMemberFunction<O, A, R>(&O::m1, *objects[k], a), m)); break; }
          case 6: { if (!Tmp<A>::ok) break; m.who = (which ? (sub[k] ? 80 : 50) : 40) + k; m.bound = true; m.bound_value = v; n0.push_back(entry<NullaryFunction<R>>(BindTmp<A>::member(which ? &O::v1 : &O::m1, *objects[k], v), m)); smash(v); break; }
          case 7: { m.who = 90 + k; m.state = f0[k]->calls; m.t = k; n0.push_back(entry<NullaryFunction<R>>(NullaryFunctionCopy<Functor0<R>, R>(*f0[k]), m)); break; }
          case 8: { m.who = 90 + k; m.shared_state = f0[k].get(); m.t = k; n0.push_back(entry<NullaryFunction<R>>(NullaryFunctionReference<Functor0<R>, R>(ecl::ref(*f0[k])), m)); break; }
          case 9: { m.who = 10 + which; typedef R (*F)(A); F f = which ? free1<A, R, 1> : free1<A, R, 0>; n1.push_back(gen ? entry<UnaryFunction<A, R>>(generateFunctionObject(f), m) : entry<UnaryFunction<A, R>>(UnaryFreeFunction<A, R>(f), m)); break; }
          case 10: { m.who = 40 + k; n1.push_back(gen ? entry<UnaryFunction<A, R>>(generateFunctionObject(&O::m1, *objects[k]), m) : entry<UnaryFunction<A, R>>(PartiallyBoundUnaryMemberFunction<O, A, R>(&O::m1, *objects[k]), m)); break; }
          case 11: { m.who = (sub[k] ? 80 : 50) + k; n1.push_back(entry<UnaryFunction<A, R>>(generateFunctionObject(&O::v1, *objects[k]), m)); break; }
          case 12: { m.who = 100 + k; m.state = f1[k]->calls; m.t = k; n1.push_back(entry<UnaryFunction<A, R>>(UnaryFunctionCopy<Functor1<A, R>, A, R>(*f1[k]), m)); break; }
          case 13: { m.who = 100 + k; m.shared_state = f1[k].get(); m.t = k; typedef typename UnaryRef<Functor1<A, R>, A, R>::type U; n1.push_back(entry<UnaryFunction<A, R>>(U(ecl::ref(*f1[k])), m)); break; }
          case 14: { m.who = 20; no.push_back(gen ? entry<UnaryFunction<O&, R>>(generateFunctionObject(&O::m0), m) : entry<UnaryFunction<O&, R>>(NullaryMemberFunction<O, R>(&O::m0), m)); break; }
          case 15: { m.who = 30; no.push_back(entry<UnaryFunction<O&, R>>(generateFunctionObject(&O::v0), m)); break; }
          case 16: { m.who = 40; noa.push_back(gen ? entry<BinaryFunction<O&, A, R>>(generateFunctionObject(&O::m1), m) : entry<BinaryFunction<O&, A, R>>(UnaryMemberFunction<O, A, R>(&O::m1), m)); break; }
          case 17: { m.who = 50; noa.push_back(entry<BinaryFunction<O&, A, R>>(generateFunctionObject(&O::v1), m)); break; }
          default: { m.who = 60 + k; n2.push_back(entry<BinaryFunction<A, int, R>>(PartiallyBoundBinaryMemberFunction<O, A, int, R>(&O::m2, *objects[k]), m)); }
        }
        continue;
      }
      if (op == 1 && !n0.empty() && s.coin()) {  // copy a nullary function; sometimes the original dies first
        size_t i = s.below(n0.size()); NOTE("copy nullary " << i); Entry<NullaryFunction<R>> e(n0[i]); copies = true;
        if (s.coin()) { n0[i] = std::move(e); } else n0.push_back(std::move(e));
        continue;
      }
      if (op == 1 && !n1.empty() && s.coin()) { size_t i = s.below(n1.size()); NOTE("copy unary " << i); copies = true; Entry<UnaryFunction<A, R>> e(n1[i]); n1.push_back(std::move(e)); continue; }
      if (op == 1 && !n0.empty() && s.coin(1, 3)) { size_t i = s.below(n0.size()); NOTE("drop nullary " << i); n0.erase(n0.begin() + i); continue; }
      // call something
      size_t total = n0.size() + n1.size() + no.size() + noa.size() + n2.size(); if (!total) continue; size_t i = s.below(total); int r = 0; size_t before = log_.size(); smash((int)i); multi = multi || before > 0;
      int k = (int)s.below(3); S& src = *sources[k]; int val = Arg<A>::of(src); const void* at = Arg<A>::refers ? (const void*)&src : 0;
      if (i < n0.size()) {
        Model& m = n0[i].m; NOTE("call nullary " << i); bool has = Call<R>::run([&]() -> R { return (*n0[i].f)(); }, r);
        int arg = 0; const void* addr = 0;
        if (m.bound) { if (m.bound_ref) { arg = Arg<A>::of(*(S*)m.bound_ref) - 1; addr = m.bound_ref; } else arg = m.bound_value; }
        else if (m.who >= 90) { if (m.shared_state) { Functor0<R>* f = (Functor0<R>*)m.shared_state; arg = m.t * 50 + f->calls; addr = f; } else { ++m.state; arg = m.t * 50 + m.state; } }
        expect(before, m.who, arg, addr, has, r); continue;
      }
      i -= n0.size();
      if (i < n1.size()) {
        Model& m = n1[i].m; NOTE("call unary " << i << " with [" << k << "] = " << val); int was = m.shared_state ? ((Functor1<A, R>*)m.shared_state)->calls : 0;
        bool has = Call<R>::run([&]() -> R { return (*n1[i].f)(src); }, r);
        int arg = val; if (m.who >= 100) { int n = m.shared_state ? was + 1 : ++m.state; arg += 1000 * n * (m.t + 1); if (m.shared_state) CHECK(((Functor1<A, R>*)m.shared_state)->calls == was + 1, "the object referred to was not the one called"); at = m.shared_state; }
        expect(before, m.who, arg, at, has, r); if (Arg<A>::refers) CHECK(Arg<A>::of(src) == val + 1, "the argument itself was not reached"); else CHECK(Arg<A>::of(src) == val, "the argument was changed"); continue;
      }
      i -= n1.size();
      if (i < no.size()) {
        Model& m = no[i].m; int o = (int)s.below(3); NOTE("call nullary member " << i << " on object " << o); bool has = Call<R>::run([&]() -> R { return (*no[i].f)(*objects[o]); }, r);
        int who = m.who == 20 ? 20 + o : (sub[o] ? 70 : 30) + o; expect(before, who, 0, objects[o].get(), has, r); continue;
      }
      i -= no.size();
      if (i < noa.size()) {
        Model& m = noa[i].m; int o = (int)s.below(3); NOTE("call unary member " << i << " on object " << o << " with [" << k << "] = " << val); bool has = Call<R>::run([&]() -> R { return (*noa[i].f)(*objects[o], src); }, r);
        int who = m.who == 40 ? 40 + o : (sub[o] ? 80 : 50) + o; expect(before, who, val, at, has, r); if (Arg<A>::refers) CHECK(Arg<A>::of(src) == val + 1, "the argument itself was not reached"); continue;
      }
      i -= noa.size();
      { int b = (int)s.below(7); Model& m = n2[i].m; NOTE("call binary " << i << " with [" << k << "] = " << val << ", " << b); bool has = Call<R>::run([&]() -> R { return (*n2[i].f)(src, b); }, r); expect(before, m.who, val * 7 + b, at, has, r); }
    }
    c.label(copies, "copies");
  }
  CHECK(Tracked::alive == base, Tracked::alive - base << " values were lost or destroyed twice"); c.nontrivial(multi && kinds >= 2);
}
#define FO(A, R) functions<A, R>(s, c, "argument " #A ", result " #R)
PBT(fn_programs, 8, "two or more function objects and two or more calls") {
  switch (s.below(10)) {
    case 0: FO(int, int); break; case 1: FO(const int&, void); break; case 2: FO(int&, void); break; case 3: FO(double, std::string); break; case 4: FO(const long&, int&); break;
    case 5: FO(Tracked, Tracked); break; case 6: FO(const Tracked&, int); break; case 7: FO(Tracked&, const Tracked&); break; case 8: FO(const std::string&, std::string); break; default: FO(std::string, void); break;
  }
}
static int poly_seen; static const void* poly_at;
static int poly_f(const Poly& p) { poly_seen = p.value(); poly_at = &p; return poly_seen; }
static void nocopy_f(const NoCopy& p) { poly_seen = p.v; poly_at = &p; }
static void nocopy_g(NoCopy& p) { poly_seen = p.v; poly_at = &p; ++p.v; }
struct PolyUser { int base; int use(const Poly& p) { poly_at = &p; return base + p.value(); } };
PBT(fn_polymorphic, 1, "a derived object was bound") {
  // an argument that is only known by its base class, or cannot be copied, is the very object, not a sliced copy
  int v = (int)s.below(1000); std::unique_ptr<Poly> p(s.coin() ? new PolySub(v) : new Poly(v)); bool d = dynamic_cast<PolySub*>(p.get()) != 0; c.nontrivial(d); int want = v + (d ? 5 : 0); NOTE((d ? "derived " : "base ") << v);
  auto f = generateFunctionObject(poly_f, *p); PolyUser u = {(int)s.below(50)}; auto g = generateFunctionObject(&PolyUser::use, u, *p); NoCopy n(v); auto h = generateFunctionObject(nocopy_f, n); auto k = generateFunctionObject(nocopy_g, n);
  for (int i = 0, e = 1 + (int)s.below(3); i < e; ++i) {
    CHECK(f() == want && poly_seen == want, "the function saw " << poly_seen); CHECK(poly_at == p.get(), "the function saw another object");
    CHECK(g() == want + u.base && poly_at == p.get(), "the member function saw another object");
    h(); CHECK(poly_at == &n && poly_seen == v + i, "the object that cannot be copied was not reached"); k(); CHECK(poly_at == &n && n.v == v + i + 1, "the object that cannot be copied was not changed");
    auto f2 = f; CHECK(f2() == want && poly_at == p.get(), "a copy of the function saw another object");
  }
}
struct Amp { int v; Amp* operator&() { return 0; } const Amp* operator&() const { return 0; } };
struct Two { int a, b; };
template <typename T> int takes(T) { return 0; }
template <typename T> bool wraps(T) { return is_reference_wrapper<T>::value; }
PBT(fn_references, 2, "always") {
  // wrappers name the very object, through every access path, copy and conversion
  c.nontrivial(); int n = 2 + (int)s.below(4); std::vector<int> x(n), model(n); std::vector<ReferenceWrapper<int>> w; std::vector<ReferenceWrapper<const int>> cw; std::vector<int> target;
  for (int i = 0; i < n; ++i) x[i] = model[i] = (int)s.below(1000);
  for (int i = 0; i < n; ++i) { int t = (int)s.below(n); w.push_back(ref(x[t])); cw.push_back(cref(x[t])); target.push_back(t); }
  for (size_t st = 0, e = s.below(20); st < e; ++st) {
    int i = (int)s.below(n), v = (int)s.below(1000);
    switch (s.below(7)) {
      case 0: w[i].reference() = v; model[target[i]] = v; NOTE("wrapper " << i << ".reference() = " << v); break;
      case 1: *w[i].pointer() = v; model[target[i]] = v; NOTE("*wrapper " << i << ".pointer() = " << v); break;
      case 2: { int& r = w[i]; r = v; model[target[i]] = v; NOTE("int& r = wrapper " << i << " = " << v); break; }
      case 3: { int j = (int)s.below(n); w[i] = w[j]; cw[i] = cw[j]; target[i] = target[j]; NOTE("wrapper " << i << " = wrapper " << j); break; }
      case 4: { ReferenceWrapper<int> k(w[i]); k.reference() = v; model[target[i]] = v; NOTE("a copy of wrapper " << i << " = " << v); break; }
      case 5: { const ReferenceWrapper<int> k = w[i]; k.reference() = v; model[target[i]] = v; break; }
      default: x[target[i]] = model[target[i]] = v; NOTE("object " << target[i] << " = " << v);
    }
    for (int j = 0; j < n; ++j) { CHECK(x[j] == model[j], "object " << j << " is " << x[j] << ", not " << model[j]); CHECK(w[j].pointer() == &x[target[j]] && &w[j].reference() == &x[target[j]] && &(int&)w[j] == &x[target[j]], "wrapper " << j << " names another object"); CHECK(cw[j].pointer() == &x[target[j]] && cw[j].reference() == model[target[j]] && (const int&)cw[j] == model[target[j]], "constant wrapper " << j << " names another object"); }
  }
  Amp a[3]; int k = (int)s.below(3); for (int i = 0; i < 3; ++i) a[i].v = i * 11; CHECK((void*)addressOf(a[k]) == (void*)((char*)a + k * sizeof(Amp)), "addressOf was fooled by operator&"); CHECK(ref(a[k]).reference().v == k * 11 && ref(a[k]).pointer()->v == k * 11, "a wrapper was fooled by operator&");
  const Amp& ca = a[k]; CHECK((const void*)addressOf(ca) == (const void*)((char*)a + k * sizeof(Amp)) && cref(a[k]).reference().v == k * 11, "cref was fooled by operator&"); const Two two = {k, k + 1}; CHECK(addressOf(two.b) == &two.b, "addressOf a member"); volatile int vi = k; CHECK(addressOf(vi) == &vi, "addressOf a volatile object");
  CHECK(wraps(ref(x[0])) && wraps(cref(x[0])) && !wraps(x[0]) && !wraps(&x[0]) && !wraps(two), "is_reference_wrapper");
}

PBT_MAIN
