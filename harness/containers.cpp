// Arrays, windows onto them and the two queues against std::vector / std::deque models.
#include <algorithm>
#include <cmath>
#include <deque>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <pbt.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/push_and_pop.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/formatters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
namespace {
#if defined(NDEBUG)
const bool DEBUG_CHECKS = false;
#else
const bool DEBUG_CHECKS = true;
#endif
template <typename T> T value(pbt::Src& s);
template <> int value<int>(pbt::Src& s) { return s.coin() ? (int)s.centred(-9, 9) : s.integer<int>(); }
template <> unsigned char value<unsigned char>(pbt::Src& s) { return (unsigned char)s.below(256); }
template <> char value<char>(pbt::Src& s) { return (char)s.below(256); }
template <> double value<double>(pbt::Src& s) { return s.coin() ? (double)s.centred(-9, 9) : s.real(100); }
// an element that knows how many of its kind exist
struct Tracked { static long live; int v; Tracked* self; Tracked() : v(0), self(this) { ++live; } explicit Tracked(int x) : v(x), self(this) { ++live; } Tracked(const Tracked& o) : v(o.v), self(this) { o.check(); ++live; } Tracked& operator=(const Tracked& o) { check(); o.check(); v = o.v; return *this; } ~Tracked() { check(); self = 0; --live; } void check() const { if (self != this) { fprintf(stderr, "an element was used outside its life\n"); abort(); } } bool operator==(const Tracked& o) const { check(); o.check(); return v == o.v; } bool operator!=(const Tracked& o) const { return !(*this == o); } };
long Tracked::live = 0; inline std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << t.v; }
template <> Tracked value<Tracked>(pbt::Src& s) { return Tracked((int)s.centred(-9, 9)); }
template <> std::string value<std::string>(pbt::Src& s) { return s.coin(1, 4) ? std::string(40, 'x') + s.str("abc", 0, 6) : s.str("abcdef", 0, 6); }
template <typename F> bool throws(F f, int flag) { try { f(); return false; } catch (const StandardException& e) { return e.flag() == flag; } }
template <typename T> std::string raw(const std::vector<T>& v) { std::ostringstream o; o << "[ "; for (auto& x : v) o << x << " "; o << "]"; return o.str(); }
template <typename A, typename T> void same(A& a, const std::vector<T>& m, const char* what) {
  const A& c = a; CHECK(a.size() == m.size() && c.size() == m.size(), what << ": size " << a.size() << ", expected " << m.size());
  for (size_t i = 0; i < m.size(); ++i) { CHECK(a[i] == m[i] && c[i] == m[i], what << ": [" << i << "] is not the value put there"); CHECK(a.at(i) == m[i] && c.at(i) == m[i], what << ": at(" << i << ")"); }
  if (!m.empty()) {
    CHECK(a.front() == m.front() && c.front() == m.front() && a.back() == m.back() && c.back() == m.back(), what << ": front or back");
    CHECK((size_t)(a.end() - a.begin()) == m.size() && std::equal(m.begin(), m.end(), a.begin()) && (size_t)(c.end() - c.begin()) == m.size() && std::equal(m.begin(), m.end(), c.begin()), what << ": iteration");
    CHECK(std::equal(m.rbegin(), m.rend(), a.rbegin()) && (size_t)(a.rend() - a.rbegin()) == m.size() && std::equal(m.rbegin(), m.rend(), c.rbegin()) && (size_t)(c.rend() - c.rbegin()) == m.size(), what << ": reverse iteration");
    std::ostringstream o; o << c; CHECK(o.str() == raw(m), what << ": printed " << o.str() << " instead of " << raw(m));
  }
}
template <typename A> void beyond(pbt::Src& s, A& a, size_t n) {   // indices from n on are refused
  const A& c = a; size_t i = n + s.below(4); if (s.coin(1, 6)) i = (size_t)s.integer<unsigned>() + n;
  CHECK(throws([&] { a.at(i); }, OutOfRangeError) && throws([&] { c.at(i); }, OutOfRangeError), "at(" << i << ") of " << n << " elements was answered");
  if (DEBUG_CHECKS) CHECK(throws([&] { a[i]; }, OutOfRangeError) && throws([&] { c[i]; }, OutOfRangeError), "[" << i << "] of " << n << " elements was answered");
}
template <typename A> void intact(A& a) {
#if defined(ECL_MEM_CHECK_ARRAYS)
  CHECK(!a.bufferUnderRun() && !a.bufferOverRun() && !a.bufferOverFlow(), "an overflow is reported for an array that was used correctly (" << a.bufferUnderRun() << a.bufferOverRun() << ")");
#endif
}
template <typename T, typename A> void overrun(pbt::Src& s, A& a, T v) {
#if defined(ECL_MEM_CHECK_ARRAYS)
  if (a.size() == 0) return; bool over = s.coin(); volatile unsigned char* base = (volatile unsigned char*)(void*)&a[0]; unsigned n = std::min<unsigned>(sizeof(T), over ? 4 : 8); volatile unsigned char* p = over ? base + sizeof(T) * a.size() : base - n;
  unsigned char old[8], x[sizeof(T)]; memcpy(x, (void*)&v, sizeof(T)); for (unsigned k = 0; k < n; ++k) { old[k] = p[k]; p[k] = x[k] == 0xCC ? 1 : x[k]; }
  bool o = a.bufferOverRun(), u = a.bufferUnderRun(), f = a.bufferOverFlow(); for (unsigned k = 0; k < n; ++k) p[k] = old[k];
  CHECK((over ? o : u) && f, "writing " << n << " bytes " << (over ? "beyond" : "before") << " the array was not noticed"); CHECK(!(over ? u : o), "the wrong end is reported"); intact(a);
#else
  (void)s; (void)a; (void)v;
#endif
}
template <typename T, size_t N> void comma(Array<T, N>& a, const std::vector<T>& v) { auto c = (a << v[0]); for (size_t i = 1; i < v.size(); ++i) c, v[i]; }
template <typename T, size_t N> void fixed(pbt::Src& s, pbt::Ctx& c) {
  Array<T, N> a; std::vector<T> m(N); for (size_t i = 0; i < N; ++i) a[i] = m[i] = value<T>(s); CHECK((Array<T, N>::size() == N), "static size"); int ops = s.len(1, 14); bool refused = false, wrote = false;
  for (int k = 0; k < ops; ++k) { size_t i = s.below(N); T v = value<T>(s);
    switch (s.below(8)) { case 0: a[i] = m[i] = v; wrote = true; break; case 1: a.at(i) = m[i] = v; wrote = true; break; case 2: *(a.begin() + i) = m[i] = v; wrote = true; break; case 3: *(a.rbegin() + i) = m[N - 1 - i] = v; break;
      case 4: { std::vector<T> w; size_t n = 1 + s.below(N); for (size_t q = 0; q < n; ++q) w.push_back(value<T>(s)); comma(a, w); std::copy(w.begin(), w.end(), m.begin()); wrote = true;
          if (DEBUG_CHECKS && s.coin(1, 3)) { w.clear(); for (size_t q = 0; q <= N; ++q) w.push_back(value<T>(s)); refused = true; CHECK(throws([&] { comma(a, w); }, OutOfRangeError), "a list of " << N + 1 << " values was accepted"); std::copy(w.begin(), w.begin() + N, m.begin()); } break; }
      case 5: { if (s.coin()) a = Array<T, N>::Constant(v); else if (s.coin()) { auto bp = Array<T, N>::Constant(T(v)); Array<T, N> b(bp); a = b; Array<T, N> d; bp.apply(d); CHECK(std::equal(d.begin(), d.end(), b.begin()), "a blueprint built different arrays"); d = bp.instantiate(); CHECK(d[0] == v, "instantiated blueprint"); } else { Array<T, N> b = Array<T, N>::Constant(v); a = b; } std::fill(m.begin(), m.end(), v); break; }
      case 6: { Array<T, N> b(a), d; d = a; same(b, m, "copy"); same(d, m, "assigned"); b[i] = v; d[i] = v; intact(b); intact(d); break; }
      default: beyond(s, a, N); refused = true; overrun(s, a, v); }
    same(a, m, "array"); intact(a); }
  c.nontrivial(wrote && ops > 2); c.label(refused, "index refused");
}
template <typename T> void dynamic(pbt::Src& s, pbt::Ctx& c) {
  std::unique_ptr<Array<T>> p; std::vector<T> m; bool empty = s.coin(1, 4), resized = false, refused = false; if (empty) p.reset(new Array<T>()); else { m.resize(1 + s.len(0, 9)); p.reset(new Array<T>((unsigned)m.size())); for (size_t i = 0; i < m.size(); ++i) (*p)[i] = m[i] = value<T>(s); } Array<T>& a = *p; int ops = s.len(1, 16);
  for (int k = 0; k < ops; ++k) { size_t n = m.size(), i = n ? s.below(n) : 0; T v = value<T>(s);
    switch (s.below(10)) { case 0: if (n) a[i] = m[i] = v; break; case 1: if (n) a.at(i) = m[i] = v; break; case 2: if (n) *(a.begin() + i) = m[i] = v; break;
      case 3: if (n) { std::vector<T> w; size_t q = 1 + s.below(n); while (q--) w.push_back(value<T>(s)); comma(a, w); std::copy(w.begin(), w.end(), m.begin()); } if (DEBUG_CHECKS && s.coin(1, 3)) { std::vector<T> w; for (size_t q = 0; q <= n; ++q) w.push_back(value<T>(s)); CHECK(throws([&] { comma(a, w); }, OutOfRangeError), "a list of " << n + 1 << " values was accepted for " << n); std::copy(w.begin(), w.begin() + n, m.begin()); refused = true; } break;
      case 4: { size_t q = s.below(9); bool zero = q == 0; if (s.coin(1, 2)) { a = Array<T>::Constant(q, v); } else { auto bp = Array<T>::Constant(q, v); Array<T> b(bp); CHECK(b.size() == q && (zero || (b[0] == v && b[q - 1] == v)), "constant array"); Array<T> d; bp.apply(d); CHECK(d.size() == q, "applied blueprint"); a = bp.instantiate(); } m.assign(q, v); break; }
      case 5: { unsigned q = 1 + (unsigned)s.below(12); a.resize(q); CHECK(a.size() == q, "size after resize " << a.size()); m.resize(q); for (unsigned j = 0; j < q; ++j) a[j] = m[j] = value<T>(s); resized = true; break; }
      case 6: a.clear(); m.clear(); if (DEBUG_CHECKS) { const Array<T>& ca = a; CHECK(throws([&] { a.begin(); }, OutOfRangeError) && throws([&] { ca.end(); }, OutOfRangeError) && throws([&] { a.front(); }, OutOfRangeError) && throws([&] { ca.back(); }, OutOfRangeError) && throws([&] { a.rbegin(); }, OutOfRangeError), "iterators of an array without storage were answered"); } break;
      case 7: { Array<T> b(a), d(1 + (unsigned)s.below(5)); d = a; same(b, m, "copy"); same(d, m, "assigned"); if (n) { b[i] = v; d[i] = v; } intact(b); intact(d); if (s.coin()) { Array<T>& self = a; a = self; } else if (s.coin()) { a = Array<T>(b); if (n) m[i] = v; } break; }
      case 8: beyond(s, a, n); refused = true; break;
      default: overrun(s, a, v); }
    same(a, m, "array"); intact(a); }
  c.nontrivial(ops > 2 && (resized || !m.empty())); c.label(refused, "index refused"); c.label(resized, "resized"); c.label(empty, "created empty");
}
// --- windows
struct Window { size_t b, n; };
bool window(pbt::Src& s, size_t size, Window& w, bool strict_start) { w.b = s.below(size + 3); w.n = s.below(size + 3); if (s.coin()) { w.b = s.below(size); w.n = s.below(size - w.b + 1); } return (strict_start ? w.b < size : w.b <= size) && w.b + w.n <= size; }
template <typename St> struct Init { template <typename T> static void go(St& st, const std::vector<T>& v) { auto c = (st << v[0]); for (size_t i = 1; i < v.size(); ++i) c, v[i]; } };
template <typename St> struct NoInit { template <typename T> static void go(St&, const std::vector<T>&) {} };
// generic window operations; m is the whole underlying storage
template <typename T, typename St, typename In> void window_ops(pbt::Src& s, pbt::Ctx& c, St st, Window w, std::vector<T>& m, std::function<void()> whole) {
  int ops = s.len(1, 10); bool moved = false;
  for (int k = 0; k < ops; ++k) { const St& cs = st; std::vector<T> v(m.begin() + w.b, m.begin() + w.b + w.n);
    CHECK(st.size() == w.n && cs.size() == w.n, "window size " << st.size() << ", expected " << w.n); CHECK((size_t)(st.end() - st.begin()) == w.n && std::equal(v.begin(), v.end(), st.begin()) && std::equal(v.begin(), v.end(), cs.begin()) && (size_t)(cs.end() - cs.begin()) == w.n && std::equal(v.rbegin(), v.rend(), st.rbegin()) && (size_t)(st.rend() - st.rbegin()) == w.n && std::equal(v.rbegin(), v.rend(), cs.rbegin()) && (size_t)(cs.rend() - cs.rbegin()) == w.n, "iteration over the window at " << w.b << " of " << w.n);
    for (size_t i = 0; i < w.n; ++i) { CHECK(st[i] == v[i] && cs[i] == v[i], "[" << i << "] of the window at " << w.b << " of " << w.n); CHECK(st.at(i) == v[i] && cs.at(i) == v[i], "at(" << i << ") of the window at " << w.b << " of " << w.n); }
    if (w.n) CHECK(st.front() == v.front() && cs.front() == v.front() && st.back() == v.back() && cs.back() == v.back(), "front or back of the window at " << w.b << " of " << w.n);
    size_t out = m.size() - w.b + s.below(3); CHECK(throws([&] { st.at(out); }, OutOfRangeError) && throws([&] { cs.at(out); }, OutOfRangeError), "at(" << out << ") of the window at " << w.b << " was answered for a container of " << m.size()); if (DEBUG_CHECKS) CHECK(throws([&] { st[out]; }, OutOfRangeError) && throws([&] { cs[out]; }, OutOfRangeError), "[" << out << "] of the window at " << w.b << " was answered for a container of " << m.size());
    switch (s.below(5)) {
      case 0: { Window q; bool ok = window(s, m.size(), q, false); if (ok) { st.resettle((unsigned)q.b, (unsigned)q.n); w = q; moved = true; } else if (DEBUG_CHECKS) { St t(st); CHECK(throws([&] { t.resettle((unsigned)q.b, (unsigned)q.n); }, OutOfRangeError), "resettling at " << q.b << " of " << q.n << " was accepted for " << m.size()); } break; }
      case 1: { Window q; if (w.b >= m.size()) break; bool ok = window(s, m.size() - w.b, q, true); if (ok) { St sub = st.stencil((unsigned)q.b, (unsigned)q.n); CHECK(sub.size() == q.n && std::equal(sub.begin(), sub.end(), m.begin() + w.b + q.b), "window at " << q.b << " of " << q.n << " inside the window at " << w.b); if (s.coin()) { st = sub; w.b += q.b; w.n = q.n; moved = true; } } else if (DEBUG_CHECKS && w.b + q.b + q.n > m.size()) CHECK(throws([&] { st.stencil((unsigned)q.b, (unsigned)q.n); }, OutOfRangeError), "window at " << q.b << " of " << q.n << " inside the window at " << w.b << " was accepted for " << m.size()); break; }
      case 2: if (w.n) { std::vector<T> l; size_t q = 1 + s.below(w.n); while (q--) l.push_back(value<T>(s)); if (!std::is_same<In, NoInit<St>>::value) { In::go(st, l); std::copy(l.begin(), l.end(), m.begin() + w.b); if (DEBUG_CHECKS && s.coin(1, 3)) { std::vector<T> big; for (size_t j = 0; j <= w.n; ++j) big.push_back(value<T>(s)); CHECK(throws([&] { In::go(st, big); }, OutOfRangeError), "a list of " << w.n + 1 << " values was accepted for a window of " << w.n); std::copy(big.begin(), big.begin() + w.n, m.begin() + w.b); } } } break;
      case 3: { St t(st); CHECK(t.size() == w.n && t.begin() == st.begin(), "copied window"); break; }
      default: break; }
    whole(); }
  c.nontrivial(ops > 1 && w.n > 0); c.label(moved, "resettled"); c.label(w.b == 0, "window at the start"); c.label(w.b + w.n == m.size(), "window up to the end");
}
template <typename A, typename T> void mutate(pbt::Src& s, Stencil<A>& st, Window w, std::vector<T>& m) { for (size_t k = 0; k < 3 && w.n; ++k) { size_t i = s.below(w.n); T v = value<T>(s); switch (s.below(4)) { case 0: st[i] = v; break; case 1: st.at(i) = v; break; case 2: *(st.begin() + i) = v; break; default: i = s.coin() ? 0 : w.n - 1; if (i) st.back() = v; else st.front() = v; } m[w.b + i] = v; } }
template <typename T, typename A> void windows(pbt::Src& s, pbt::Ctx& c, A& a, A& other, bool has_stencil) {
  size_t n = a.size(); std::vector<T> m(n), om(other.size()); auto ai = a.begin(); for (size_t i = 0; i < n; ++i) *(ai + i) = m[i] = value<T>(s); auto oi = other.begin(); for (size_t i = 0; i < om.size(); ++i) *(oi + i) = om[i] = value<T>(s);
  auto whole = [&] { CHECK(std::equal(m.begin(), m.end(), a.begin()), "an element of the container outside the operation changed"); CHECK(std::equal(om.begin(), om.end(), other.begin()), "another container changed"); };
  Window w; bool ok = window(s, n, w, false), it = s.coin(); NOTE("container of " << n << ", window at " << w.b << " of " << w.n);
  if (!ok) { if (DEBUG_CHECKS && !(it && w.b + w.n > n)) CHECK(throws([&] { Stencil<A> st(a, (unsigned)w.b, (unsigned)w.n); }, OutOfRangeError), "a window at " << w.b << " of " << w.n << " was opened on " << n << " elements"); else if (DEBUG_CHECKS) CHECK(throws([&] { Stencil<A> st(a, a.begin(), a.begin() + (w.b + w.n)); }, OutOfRangeError), "a window of " << w.b + w.n << " was opened on " << n << " elements"); c.label(true, "window refused"); return; }
  Stencil<A> st = it ? Stencil<A>(a, a.begin() + w.b, a.begin() + w.b + w.n) : Stencil<A>(a, (unsigned)w.b, (unsigned)w.n); mutate(s, st, w, m); whole();
  { Window q; bool fits = window(s, other.size(), q, false); if (fits) { Stencil<A> src(other, (unsigned)q.b, (unsigned)q.n); if (q.n <= w.n) { st = src; std::copy(om.begin() + q.b, om.begin() + q.b + q.n, m.begin() + w.b); CHECK(st.size() == w.n, "copying into a window changed its size"); whole(); } else if (DEBUG_CHECKS) { CHECK(throws([&] { st = src; }, OutOfRangeError), q.n << " elements were copied into a window of " << w.n); whole(); } } }
  window_ops<T, Stencil<A>, Init<Stencil<A>>>(s, c, st, w, m, whole); (void)has_stencil;
}
template <typename A> void array_windows(pbt::Src& s, A& a) { size_t n = a.size(); Window w; bool ok = window(s, n, w, true); if (s.coin(1, 8)) { w.n = 0xffffffffu - s.below(n); ok = false; } if (ok) { auto st = a.stencil((unsigned)w.b, (unsigned)w.n); CHECK(st.size() == w.n && st.begin() == a.begin() + w.b, "window of the array at " << w.b << " of " << w.n); std::ostringstream o, e; o << st; e << "[ "; for (size_t i = 0; i < w.n; ++i) e << a[w.b + i] << " "; e << "]"; CHECK(o.str() == e.str(), "window printed as " << o.str() << " instead of " << e.str()); } else if (DEBUG_CHECKS && !(w.b == n && w.n == 0)) CHECK(throws([&] { a.stencil((unsigned)w.b, (unsigned)w.n); }, OutOfRangeError), "the array gave a window at " << w.b << " of " << w.n << " for " << n << " elements"); }
// --- formatted containers: every element right aligned, fixed precision, one width
template <typename F, typename C, typename T> void formatted(F& f, C& cont, const std::vector<T>& m, int prec, int width, const char* what) {
  std::ostringstream o; o << f(cont); std::string t = o.str(); CHECK(t.size() >= 3 && t.substr(0, 2) == "[ " && t[t.size() - 1] == ']', what << ": " << t); t = t.substr(2, t.size() - 3); size_t pos = 0, len = 0;
  for (size_t i = 0; i < m.size(); ++i) { char e[400]; snprintf(e, sizeof(e), "%.*f", prec, (double)m[i]); size_t end = t.find(e, pos); CHECK(end != std::string::npos && t.find_first_not_of(' ', pos) == end, what << ": element " << i << " should be printed as " << e << " in '" << t << "'"); end += strlen(e); size_t l = end - pos; if (width < 0) { if (i) CHECK(l == len, what << ": columns of " << len << " and " << l << " characters in '" << t << "'"); } else CHECK(l == std::max((size_t)width, strlen(e)), what << ": a column of " << l << " characters in '" << t << "', width " << width); len = l; CHECK(end < t.size() && t[end] == ' ', what << ": no space after element " << i << " in '" << t << "'"); pos = end + 1; }
  CHECK(pos == t.size(), what << ": extra text in '" << t << "'");
}
template <typename T> void format_floats(pbt::Src& s, pbt::Ctx& c) {
  size_t n = 1 + s.below(6); Array<T> a((unsigned)n); std::vector<T> m(n); for (size_t i = 0; i < n; ++i) { double v = s.coin() ? (double)s.centred(-20, 20) / 2 : s.real(1000); if (s.coin(1, 5)) v = std::pow(10, (double)s.below(5)) - (s.coin() ? 1 : 0) - (double)s.below(3) / 1000; a[i] = m[i] = (T)v; }
  int prec = 2, width = -1; pbt::Dirty<Format<Array<T>>> D(0x33); Format<Array<T>>& f = *D; int ops = s.len(1, 6);
  for (int k = 0; k < ops; ++k) { switch (s.below(5)) { case 0: prec = (int)s.below(7); f.precision(prec); break; case 1: width = s.coin(1, 4) ? -1 : (int)s.below(14); f.width(width); break; case 2: prec = (int)s.below(7); width = (int)s.below(14); f(prec, width); break;
      case 3: { int p = (int)s.below(7), w = s.coin(1, 3) ? -1 : (int)s.below(14); auto g = [&](Array<T>& x) -> decltype(f(x, p, w)) { return f(x, p, w); }; formatted(g, a, m, p, w, "temporary format"); break; }
      default: { Format<Array<T>> cp(f); formatted(cp, a, m, prec, width, "copied formatter"); cp.precision(1); cp.width(3); } }
    CHECK((int)f.precision() == prec, "precision " << f.precision() << ", expected " << prec); formatted(f, a, m, prec, width, "array"); }
  { size_t b = s.below(n), q = 1 + s.below(n - b); Format<Stencil<Array<T>>> fs; fs.precision(prec); fs.width(width); Stencil<Array<T>> st = a.stencil((unsigned)b, (unsigned)q); std::vector<T> sm(m.begin() + b, m.begin() + b + q); formatted(fs, st, sm, prec, width, "window"); }
  if (DEBUG_CHECKS) { Format<Array<T>> fresh; std::ostringstream o; CHECK(throws([&] { o << fresh; }, UsageError), "a formatter without data printed " << o.str()); }
  c.nontrivial(n > 1); c.label(width < 0, "automatic width");
}
}
PBT(array_fixed, 3, "an element was written and three operations or more") { switch (s.below(8)) { case 7: { long before = Tracked::live; fixed<Tracked, 4>(s, c); CHECK(Tracked::live == before, Tracked::live - before << " elements outlived their arrays"); break; } case 0: fixed<int, 5>(s, c); break; case 1: fixed<int, 1>(s, c); break; case 2: fixed<double, 3>(s, c); break; case 3: fixed<std::string, 4>(s, c); break; case 4: fixed<unsigned char, 6>(s, c); break; case 5: fixed<char, 3>(s, c); break; default: fixed<double, 8>(s, c); } }
PBT(array_dynamic, 4, "three operations or more on storage") { switch (s.below(5)) { case 4: { long before = Tracked::live; dynamic<Tracked>(s, c); CHECK(Tracked::live == before, Tracked::live - before << " elements outlived their arrays"); break; } case 0: dynamic<int>(s, c); break; case 1: dynamic<double>(s, c); break; case 2: dynamic<std::string>(s, c); break; default: dynamic<unsigned char>(s, c); } }
PBT(array_format, 2, "two elements or more") {
  if (s.coin(2, 3)) { if (s.coin()) format_floats<double>(s, c); else format_floats<float>(s, c); return; }
  size_t n = 1 + s.below(6); Array<unsigned char> a((unsigned)n); std::ostringstream e; e << "[ "; for (size_t i = 0; i < n; ++i) { a[i] = value<unsigned char>(s); char b[8]; snprintf(b, sizeof(b), "0x%02x ", a[i]); e << b; } e << "]"; Format<Array<unsigned char>> f; Format<Array<unsigned char>>& fr = f; std::ostringstream o; if (s.coin()) o << fr(a); else if (s.coin()) o << fr(a.begin(), a.end()); else { auto st = a.stencil(0, (unsigned)n); o << fr(st); } CHECK(o.str() == e.str(), "bytes printed as " << o.str() << " instead of " << e.str()); c.nontrivial(n > 1); c.label(true, "bytes");
}
PBT(stencil_array, 4, "two operations or more on a window that is not empty") {
  switch (s.below(3)) { case 0: { Array<int, 5> a, b; windows<int>(s, c, a, b, true); array_windows(s, a); break; } case 1: { Array<int> a(1 + (unsigned)s.below(8)), b(1 + (unsigned)s.below(8)); windows<int>(s, c, a, b, true); array_windows(s, a); break; } default: { Array<std::string> a(1 + (unsigned)s.below(6)), b(1 + (unsigned)s.below(6)); windows<std::string>(s, c, a, b, true); array_windows(s, a); } }
}
PBT(stencil_std, 3, "two operations or more on a window that is not empty") {
  if (s.coin()) { std::vector<int> a(1 + s.below(8)), b(1 + s.below(8)); windows<int>(s, c, a, b, false); } else { std::string a(1 + s.below(20), ' '), b(1 + s.below(8), ' '); windows<char>(s, c, a, b, false); }
}
template <typename T> void shrunk(pbt::Src& s, pbt::Ctx& c) {  // the container shrinks (never reallocating) behind the window
  typedef std::vector<T> A; typedef typename A::iterator I; A a; size_t n = 1 + s.below(10); a.reserve(n); for (size_t i = 0; i < n; ++i) a.push_back(value<T>(s)); std::vector<T> m(a); Window w; if (!window(s, n, w, true)) return; Stencil<A> st(a, (unsigned)w.b, (unsigned)w.n); const Stencil<A>& cs = st; size_t lo = n; bool out = false;
  for (size_t k = 0, ops = 1 + s.below(4); k < ops; ++k) {
    size_t r = s.below(n + 1); if (r < a.size()) { if (s.coin()) a.resize(r); else while (a.size() > r) a.pop_back(); } else while (a.size() < r) a.push_back(m[a.size()]); lo = r; NOTE("window at " << w.b << " of " << w.n << " on a container now of " << r << " (" << n << ")");
    auto judge = [&](bool throws_it, const char* what, std::function<bool()> f) { bool threw = false, same = true; try { same = f(); } catch (StandardException& e) { threw = e.flag() == OutOfRangeError; CHECK(threw, what << " failed with another error"); } CHECK(threw == throws_it, what << (throws_it ? " was answered" : " was refused") << " for a window at " << w.b << " of " << w.n << " over " << r << " elements"); CHECK(threw || same, what << " is not the element of the container"); out |= threw; };
    I o = a.begin();
    for (size_t q = 0; q < 3; ++q) { size_t i = s.below(n + 1); bool bad = w.b + i >= r; if (i < w.n || bad) { judge(bad, "at()", [&] { return &st.at(i) == &*(o + (w.b + i)); }); judge(bad, "const at()", [&] { return &cs.at(i) == &*(o + (w.b + i)); }); if (DEBUG_CHECKS) { judge(bad, "[]", [&] { return &st[i] == &*(o + (w.b + i)); }); judge(bad, "const []", [&] { return &cs[i] == &*(o + (w.b + i)); }); } } }
    if (!DEBUG_CHECKS) continue;
    bool bb = w.b > r, be = w.b + w.n > r;
    judge(bb, "begin()", [&] { return st.begin() == o + w.b; }); judge(bb, "const begin()", [&] { return cs.begin() == o + w.b; }); judge(be, "end()", [&] { return st.end() == o + (w.b + w.n); }); judge(be, "const end()", [&] { return cs.end() == o + (w.b + w.n); });
    judge(be, "rbegin()", [&] { return st.rbegin().base() == o + (w.b + w.n); }); judge(be, "const rbegin()", [&] { return cs.rbegin().base() == o + (w.b + w.n); }); judge(bb, "rend()", [&] { return st.rend().base() == o + w.b; }); judge(bb, "const rend()", [&] { return cs.rend().base() == o + w.b; });
    if (w.n) { judge(w.b >= r, "front()", [&] { return &st.front() == &*(o + w.b); }); judge(w.b >= r, "const front()", [&] { return &cs.front() == &*(o + w.b); }); judge(be, "back()", [&] { return &st.back() == &*(o + (w.b + w.n - 1)); }); judge(be, "const back()", [&] { return &cs.back() == &*(o + (w.b + w.n - 1)); }); }
  }
  (void)lo; c.nontrivial(out); c.label(w.n == 0, "empty window");
}
PBT(stencil_shrunk, 2, "an access was refused because the container shrank") { switch (s.below(3)) { case 0: shrunk<int>(s, c); break; case 1: shrunk<double>(s, c); break; default: shrunk<std::string>(s, c); } }
PBT(stencil_bytes, 3, "two operations or more on a window that is not empty") {
  size_t n = 1 + s.below(9); std::unique_ptr<unsigned char[]> buf(new unsigned char[n]); std::vector<unsigned char> m(n); for (size_t i = 0; i < n; ++i) buf[i] = m[i] = value<unsigned char>(s); Window w; bool ok = window(s, n, w, false), cst = s.coin(), it = s.coin(); NOTE("bytes " << n << ", window at " << w.b << " of " << w.n << (cst ? " const" : ""));
  auto whole = [&] { CHECK(std::equal(m.begin(), m.end(), buf.get()), "a byte outside the operation changed"); };
  typedef Stencil<unsigned char*> S; typedef Stencil<const unsigned char*> CS; unsigned L = (unsigned)n, B = (unsigned)w.b, K = (unsigned)w.n; unsigned char* p = buf.get(); const unsigned char* cp = p;
  if (!ok) { if (DEBUG_CHECKS) { if (cst) CHECK(throws([&] { CS st(cp, L, B, K); }, OutOfRangeError), "a window at " << B << " of " << K << " was opened on " << L << " bytes"); else CHECK(throws([&] { S st(p, L, B, K); }, OutOfRangeError), "a window at " << B << " of " << K << " was opened on " << L << " bytes"); } c.label(true, "window refused"); return; }
  if (cst) { CS st = it ? CS(cp, L, cp + B, cp + B + K) : CS(cp, L, B, K); window_ops<unsigned char, CS, NoInit<CS>>(s, c, st, w, m, whole); } else { S st = it ? S(p, L, p + B, p + B + K) : S(p, L, B, K); mutate(s, st, w, m); whole(); window_ops<unsigned char, S, Init<S>>(s, c, st, w, m, whole); }
}
namespace {
template <typename P, typename T> void queue_same(P& q, const std::deque<T>& m, const char* what) { const P& c = q; CHECK(q.size() == m.size(), what << ": size " << q.size() << ", expected " << m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(q[(int)i] == m[i] && c[(int)i] == m[i], what << ": [" << i << "] of " << m.size()); }
template <typename T, typename P> void queue(pbt::Src& s, pbt::Ctx& c, P& q, P& other, unsigned cap, unsigned ocap, std::function<void(P&, unsigned)> resize) {
  std::deque<T> m, om; int ops = s.len(1, 30); bool wrapped = false, popped = false; for (unsigned k = 0, n = (unsigned)s.below(ocap + 3); k < n; ++k) { T v = value<T>(s); other.push_back(v); om.push_back(v); if (om.size() > ocap) om.pop_front(); }
  for (int k = 0; k < ops; ++k) { T v = value<T>(s);
    switch (s.below(12)) { case 0: case 1: case 2: case 3: case 4: q.push_back(v); m.push_back(v); if (m.size() > cap) { m.pop_front(); wrapped = true; } break;
      case 5: case 6: case 7: if (m.empty()) { if (DEBUG_CHECKS) CHECK(throws([&] { q.pop_front(); }, OutOfRangeError), "popped from an empty queue"); } else { T x = q.pop_front(); CHECK(x == m.front(), "popped the wrong element"); m.pop_front(); popped = true; } break;
      case 8: if (!m.empty()) { size_t i = s.below(m.size()); q[(int)i] = v; m[i] = v; } break;
      case 9: if (s.coin(1, 3)) { q.clear(); m.clear(); } else { q.fill(v); for (auto& x : m) x = v; } break;
      case 10: { P cp(q); queue_same(cp, m, "copy"); cp.push_back(v); if (s.coin(1, 2)) { if (s.coin()) q = other; else q(other); m = om; cap = ocap; queue_same(other, om, "source of a copy"); } break; }
      default: if (resize) { cap = 1 + (unsigned)s.below(6); resize(q, cap); CHECK(q.size() == 0, "size after resizing " << q.size()); m.clear(); } }
    queue_same(q, m, "queue"); }
  c.nontrivial(wrapped && popped); c.label(wrapped, "wrapped"); c.label((bool)resize, "dynamic");
}
}
PBT(queue_push_and_pop, 4, "overwrote the oldest and popped") {
  if (s.coin(1, 3)) { if (s.coin()) { PushAndPop<int, 4> a, b; queue<int, PushAndPop<int, 4>>(s, c, a, b, 4, 4, nullptr); } else { PushAndPop<std::string, 2> a("x"), b; queue<std::string, PushAndPop<std::string, 2>>(s, c, a, b, 2, 2, nullptr); } }
  else { unsigned n = 1 + (unsigned)s.below(5), k = 1 + (unsigned)s.below(5); typedef PushAndPop<int> Q; typedef PushAndPop<std::string> QS; switch (s.below(4)) { case 0: { Q a(n), b(k); queue<int, Q>(s, c, a, b, n, k, [](Q& q, unsigned l) { q.resize(l); }); break; } case 1: { Q a(n, 7), b(k, 8); for (unsigned i = 0; i < n; ++i) CHECK(a[(int)i] == 7, "initial value " << i); CHECK(a.size() == 0, "initial size"); queue<int, Q>(s, c, a, b, n, k, [](Q& q, unsigned l) { q.resize(l); }); break; } case 2: { QS a(n), b(k); queue<std::string, QS>(s, c, a, b, n, k, [](QS& q, unsigned l) { q.resize(l); }); break; } default: { Q a, b(k); CHECK(a.size() == 0, "size of an empty queue"); if (DEBUG_CHECKS) CHECK(throws([&] { a.push_back(1); }, OutOfRangeError), "pushed onto a queue of no length"); Q d; d.resize(n); queue<int, Q>(s, c, d, b, n, k, [](Q& q, unsigned l) { q.resize(l); }); } } }
}
PBT(queue_fifo, 3, "went round at least once") {
  unsigned n = 1 + (unsigned)s.below(6); bool init = s.coin(); int v0 = value<int>(s); std::unique_ptr<FiFo<int>> p(init ? new FiFo<int>(n, v0) : s.coin() ? new FiFo<int>(n) : new FiFo<int>()); FiFo<int>& f = *p; std::deque<int> m; if (init) m.assign(n, v0); else { if (s.coin()) f.resize(n); else if (s.coin()) { p.reset(new FiFo<int>(n)); } else { f.resize(n); } p->fill(3); m.assign(n, 3); }
  FiFo<int>& q = *p; int ops = s.len(1, 25), pushed = 0; for (int k = 0; k < ops; ++k) { int v = value<int>(s); switch (s.below(8)) { case 0: q.fill(v); for (int& x : m) x = v; break; case 1: { size_t i = s.below(m.size()); q[(int)i] = v; m[i] = v; break; } case 2: if (s.coin(1, 3)) { n = 1 + (unsigned)s.below(6); q.resize(n); q.fill(v); m.assign(n, v); } else if (s.coin()) { FiFo<int> b(q), d; d = q; b.push_back(0); d.fill(0); } else if (DEBUG_CHECKS) { FiFo<int> b(q); CHECK(throws([&] { b.resize(0); }, OutOfRangeError), "resized to nothing"); } break; default: q.push_back(v); m.push_back(v); m.pop_front(); ++pushed; }
    const FiFo<int>& cq = q; for (size_t i = 0; i < m.size(); ++i) CHECK(q[(int)i] == m[i] && cq[(int)i] == m[i], "[" << i << "] of " << m.size() << " is " << q[(int)i] << ", expected " << m[i]); CHECK(q.get_idx() < n, "running index " << q.get_idx()); }
  c.nontrivial(pushed > (int)n); c.label(init, "filled");
}
PBT(queue_format, 1, "something is printed") { unsigned n = 1 + (unsigned)s.below(5), k = (unsigned)s.below(9); PushAndPop<unsigned char> q(n); PushAndPop<unsigned char>::Formatter f; std::deque<unsigned char> m; while (k--) { unsigned char v = value<unsigned char>(s); q.push_back(v); m.push_back(v); if (m.size() > n) m.pop_front(); } std::ostringstream o, e; e << "[ "; for (unsigned char x : m) { char b[8]; snprintf(b, sizeof(b), "0x%02x ", x); e << b; } e << "]"; o << f(q); CHECK(o.str() == e.str(), "printed " << o.str() << " instead of " << e.str()); c.nontrivial(!m.empty()); }
PBT_MAIN
