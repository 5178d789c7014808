// Integers to and from bytes, and numbers to and from text.
#include <climits>
#include <cmath>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <pbt.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/converters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
namespace {
#if defined(NDEBUG)
const bool DEBUG_CHECKS = false;
#else
const bool DEBUG_CHECKS = true;
#endif
template <typename F> bool throws(F f, int flag) { try { f(); return false; } catch (const StandardException& e) { return e.flag() == flag; } }
template <typename B> std::string hexed(const B& b) { std::string r; char t[8]; for (size_t i = 0; i < b.size(); ++i) { snprintf(t, 8, "%02x ", (unsigned char)b[i]); r += t; } return r; }
struct Quiet { std::streambuf* old; std::ostringstream sink; Quiet() : old(std::cout.rdbuf()) { std::cout.rdbuf(sink.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } };
template <typename I> I bits(pbt::Src& s) { if (s.coin(1, 3)) return s.integer<I>(); typename std::make_unsigned<I>::type v = 0; for (size_t i = 0; i < sizeof(I); ++i) v |= (typename std::make_unsigned<I>::type)(s.coin(1, 3) ? s.of<int>({0, 0x7f, 0x80, 0xff, 1}) : (int)s.below(256)) << (8 * i); return (I)v; }
template <typename I> unsigned char byte_of(I v, size_t i) { return (unsigned char)(((typename std::make_unsigned<I>::type)v) >> (8 * i)); }
// what the bytes of b, lowest first, mean
template <typename I, typename B> I meaning(const B& b) { typename std::make_unsigned<I>::type u = 0; for (size_t i = 0; i < b.size() && i < sizeof(I); ++i) u |= (typename std::make_unsigned<I>::type)(unsigned char)b[i] << (8 * i); return (I)u; }
// writing an integer into a container of exactly its size
template <typename I, typename Conv, typename B> void to_bytes(Conv& conv, B& b, I v, const char* what) {
  if (b.size() == sizeof(I)) { const B& r = conv(b, v); CHECK(&r == &b, what << ": another container was returned"); for (size_t i = 0; i < sizeof(I); ++i) CHECK((unsigned char)b[i] == byte_of(v, i), what << ": " << (long long)v << " became " << hexed(b)); }
  else { std::string before = hexed(b); Quiet q; bool t = throws([&] { conv(b, v); }, ConversionError); CHECK(t == DEBUG_CHECKS, what << ": " << b.size() << " bytes for " << sizeof(I) << (DEBUG_CHECKS ? " were accepted" : " raised an exception")); CHECK(conv.error().flag() == ConversionError, what << ": error not reported"); CHECK(hexed(b) == before, what << ": bytes of a container of the wrong size were changed"); }
}
template <typename I, typename Conv, typename B> void from_bytes(Conv& conv, const B& b, const char* what) {
  if (b.size() <= sizeof(I)) { I v = conv(b); CHECK(v == meaning<I>(b), what << ": " << hexed(b) << "became " << (long long)v << ", expected " << (long long)meaning<I>(b)); }
  else if (DEBUG_CHECKS) CHECK(throws([&] { conv(b); }, ConversionError), what << ": " << b.size() << " bytes for " << sizeof(I) << " were accepted");
  else { conv(b); CHECK(conv.error().flag() == ConversionError, what << ": " << b.size() << " bytes for " << sizeof(I) << " were accepted"); }
}
template <typename I, typename T> void through_vector(pbt::Src& s, pbt::Ctx& c, const char* what) {
  converters::IntegralToByteArray<std::vector<T>, I> to; Converter<I, std::vector<T>> from; size_t n = s.coin(1, 5) ? s.below(12) : sizeof(I); std::vector<T> b(n); for (auto& x : b) x = (T)s.below(256); I v = bits<I>(s);
  to_bytes<I>(to, b, v, what); if (n == sizeof(I)) { CHECK(to.error().flag() == NoError && from(b) == v, what << ": " << (long long)v << " did not survive the round trip"); CHECK(from.error().flag() == NoError, what << ": error after a success"); }
  std::vector<T> r(s.len(0, 10)); for (auto& x : r) x = (T)s.below(256); NOTE(what << " from " << hexed(r) << " and " << (long long)v); Converter<I, std::vector<T>> f2; from_bytes<I>(f2, r, what);
  if (s.coin(1, 3)) { std::string str; for (auto x : r) str += (char)x; converters::FromByteArray<I, std::string> fs; from_bytes<I>(fs, str, "string"); }
  c.nontrivial(n == sizeof(I) && v != 0); c.label(n != sizeof(I), "wrong size"); c.label(r.size() < sizeof(I), "shorter than the integer"); c.label(r.size() > sizeof(I), "longer than the integer");
}
template <typename I, typename T> void through_array(pbt::Src& s, pbt::Ctx& c, const char* what) {
  I v = bits<I>(s); const size_t N = sizeof(I); NOTE(what << " " << (long long)v);
  { size_t n = s.coin(1, 4) ? 1 + s.below(10) : N; Array<T> a((unsigned)n); for (size_t i = 0; i < n; ++i) a[i] = (T)s.below(256); Converter<Array<T>, I> to; Converter<I, Array<T>> from; to_bytes<I>(to, a, v, what); if (n == N) CHECK(from(a) == v, what << ": dynamic array round trip of " << (long long)v); else from_bytes<I>(from, a, what); c.nontrivial(n == N && v != 0); c.label(n != N, "wrong size"); }
  { Array<T, 12> a; unsigned char old[12]; for (size_t i = 0; i < 12; ++i) a[i] = (T)(old[i] = (unsigned char)s.below(256)); size_t b = s.below(12 - N + 1), n = s.coin(1, 5) ? s.below(12 - b) : N; Stencil<Array<T, 12>> st = a.stencil((unsigned)b, (unsigned)n); Converter<Stencil<Array<T, 12>>, I> to; Converter<I, Stencil<Array<T, 12>>> from; to_bytes<I>(to, st, v, "window"); for (size_t i = 0; i < 12; ++i) if (i < b || i >= b + n) CHECK((unsigned char)a[i] == old[i], "converting into a window changed byte " << i << " of the array"); if (n == N) CHECK(from(st) == v, what << ": window round trip of " << (long long)v); else from_bytes<I>(from, st, "window"); }
  { Array<T, N> a; converters::IntegralToByteArray<Array<T, N>, I> to; Converter<I, Array<T, N>> from; to_bytes<I>(to, a, v, "fixed array"); CHECK(from(a) == v, what << ": fixed array round trip of " << (long long)v); }
  { unsigned char raw[12]; for (auto& x : raw) x = (unsigned char)s.below(256); size_t b = s.below(12), n = s.below(12 - b + 1); Stencil<const unsigned char*> st(raw, 12u, (unsigned)b, (unsigned)n); Converter<I, Stencil<const unsigned char*>> from; from_bytes<I>(from, st, "window of bytes"); }
}
template <typename I> void through_vector_window(pbt::Src& s, pbt::Ctx& c) {
  std::vector<unsigned char> a(4 + s.below(16)); for (auto& x : a) x = (unsigned char)s.below(256); std::vector<unsigned char> old(a); size_t b = s.below(a.size()), n = s.coin(1, 4) ? s.below(a.size() - b + 1) : std::min(sizeof(I), a.size() - b); I v = bits<I>(s); Stencil<std::vector<unsigned char>> st(a, (unsigned)b, (unsigned)n); Converter<Stencil<std::vector<unsigned char>>, I> to; to_bytes<I>(to, st, v, "vector window"); for (size_t i = 0; i < a.size(); ++i) if (i < b || i >= b + n) CHECK(a[i] == old[i], "converting into a window changed byte " << i << " of the vector"); c.nontrivial(n == sizeof(I));
}
}
#define BY_INTEGER(F, T) switch (s.below(6)) { case 0: F<int, T>(s, c, "int"); break; case 1: F<unsigned int, T>(s, c, "unsigned int"); break; case 2: F<long, T>(s, c, "long"); break; case 3: F<unsigned long, T>(s, c, "unsigned long"); break; case 4: F<long long, T>(s, c, "long long"); break; default: F<unsigned long long, T>(s, c, "unsigned long long"); }
#define BY_SMALL(F, T) switch (s.below(3)) { case 0: F<short, T>(s, c, "short"); break; case 1: F<unsigned short, T>(s, c, "unsigned short"); break; default: F<unsigned char, T>(s, c, "unsigned char"); }
PBT(bytes_vector, 4, "an integer other than zero is written and read back") { if (s.coin(1, 4)) { switch (s.below(3)) { case 0: BY_SMALL(through_vector, char) break; case 1: BY_SMALL(through_vector, unsigned char) break; default: BY_SMALL(through_vector, signed char) } } else switch (s.below(3)) { case 0: BY_INTEGER(through_vector, char) break; case 1: BY_INTEGER(through_vector, unsigned char) break; default: BY_INTEGER(through_vector, signed char) } }
PBT(bytes_array, 3, "an integer other than zero is written and read back") { if (s.coin(1, 4)) { switch (s.below(2)) { case 0: BY_SMALL(through_array, char) break; default: BY_SMALL(through_array, unsigned char) } } else switch (s.below(3)) { case 0: BY_INTEGER(through_array, char) break; case 1: BY_INTEGER(through_array, unsigned char) break; default: BY_INTEGER(through_array, signed char) } }
PBT(bytes_window, 1, "the window has the integer's size") { switch (s.below(4)) { case 0: through_vector_window<int>(s, c); break; case 1: through_vector_window<unsigned int>(s, c); break; case 2: through_vector_window<long>(s, c); break; default: through_vector_window<long long>(s, c); } }
PBT(bytes_named, 1, "always") {   // the converters users name: Converter<std::vector<...>, integer> and the family converters
  int i = bits<int>(s); unsigned int u = bits<unsigned int>(s); long l = bits<long>(s); unsigned long ul = bits<unsigned long>(s); long long ll = bits<long long>(s); c.nontrivial();
#define NAMED(T) { std::vector<T> b4(4), b8(8); { Converter<std::vector<T>, int> k; to_bytes<int>(k, b4, i, "int"); } { Converter<std::vector<T>, unsigned int> k; to_bytes<unsigned int>(k, b4, u, "unsigned int"); } { Converter<std::vector<T>, long> k; to_bytes<long>(k, b8, l, "long"); } { Converter<std::vector<T>, unsigned long> k; to_bytes<unsigned long>(k, b8, ul, "unsigned long"); } { Converter<std::vector<T>, long long> k; to_bytes<long long>(k, b8, ll, "long long"); } \
    Converter<std::vector<T>> f; f(b4, i); CHECK((meaning<int>(b4) == i), "family converter, int"); f(b4, u); CHECK((meaning<unsigned>(b4) == u), "family converter, unsigned int"); f(b8, l); CHECK((meaning<long>(b8) == l), "family converter, long"); f(b8, ul); CHECK((meaning<unsigned long>(b8) == ul), "family converter, unsigned long"); }
  NAMED(char) NAMED(unsigned char) NAMED(signed char)
}
namespace {
// --- text
template <typename I> std::string decimal(I v) { return v < 0 ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
struct Buf { std::vector<char> v; explicit Buf(size_t n) : v(n, '#') {} };
template <typename I> void number_text(pbt::Src& s, pbt::Ctx& c, const char* what) {
  bool own = s.coin(), small = s.coin(1, 4); size_t n = small ? 1 + s.below(8) : 22 + s.below(20); std::unique_ptr<char[]> mem(new char[n + 8]); memset(mem.get(), '#', n + 8); typedef Converter<char*, I> K;
  std::unique_ptr<K> k(own ? new K((int)n) : new K(mem.get() + 4, mem.get() + 4 + n - 1)); if (s.coin(1, 4)) { std::unique_ptr<K> cp(new K(*k)); if (s.coin()) { K other(9); other = *cp; k.reset(new K(other)); } else { k = std::move(cp); } c.label(true, "copied converter"); }
  int ops = s.len(1, 5); bool nt = false;
  for (int i = 0; i < ops; ++i) { I v = s.coin(1, 3) ? bits<I>(s) : s.integer<I>(); std::string want = decimal(v); char* r = (*k)(v); NOTE(what << " " << want << " into " << n); if (want.size() + 1 <= n) { CHECK(r && want == r, what << " " << want << " became " << (r ? pbt::quote(r) : "nothing")); nt |= want.size() > 1; } else CHECK(!r, what << " " << want << " was written into " << n << " characters");
    if (!own) for (int j = 0; j < 4; ++j) CHECK(mem[j] == '#' && mem[4 + n + j] == '#', "characters outside the buffer were written"); }
  c.nontrivial(nt); c.label(small, "small buffer"); c.label(own, "own buffer");
}
std::string fixed_text(double v, int p) { char b[500]; snprintf(b, sizeof b, "%.*f", p < 0 ? 6 : p, v); return b; }
template <typename F> void float_text(pbt::Src& s, pbt::Ctx& c) {
  bool own = s.coin(); size_t n = s.coin(1, 4) ? 2 + s.below(10) : 250; std::unique_ptr<char[]> mem(new char[n + 8]); memset(mem.get(), '#', n + 8); typedef Converter<char*, F> K; std::unique_ptr<K> k(own ? new K((int)n) : new K(mem.get() + 4, mem.get() + 4 + n - 1)); if (s.coin(1, 4)) { std::unique_ptr<K> cp(new K(*k)); k = std::move(cp); }
  int ops = s.len(1, 4); for (int i = 0; i < ops; ++i) { F v = (F)(s.coin() ? s.real(1000) : s.coin() ? (double)s.centred(-2000, 2000) / 8 : std::ldexp(s.real(1), (int)s.centred(-60, 60))); int p = s.coin(1, 5) ? -1 : (int)s.below(21); std::string want = fixed_text(v, p); char* r = p < 0 && s.coin() ? (*k)(v) : (*k)(v, p); NOTE(want << " with precision " << p << " into " << n); CHECK(r, "no text for " << want); if (want.size() + 2 <= n) CHECK(want == r, v << " with precision " << p << " became " << pbt::quote(r) << " expected " << want); else CHECK(strlen(r) < n && want.compare(0, strlen(r), r) == 0, want << " was cut to " << pbt::quote(r) << " for " << n << " characters");
    if (!own) for (int j = 0; j < 4; ++j) CHECK(mem[j] == '#' && mem[4 + n + j] == '#', "characters outside the buffer were written"); }
  c.nontrivial(); c.label(n < 100, "small buffer");
}
}
PBT(text_integer, 4, "a number of two digits or more") { switch (s.below(10)) { case 0: number_text<char>(s, c, "char"); break; case 1: number_text<unsigned char>(s, c, "unsigned char"); break; case 2: number_text<short>(s, c, "short"); break; case 3: number_text<unsigned short>(s, c, "unsigned short"); break; case 4: number_text<int>(s, c, "int"); break; case 5: number_text<unsigned int>(s, c, "unsigned int"); break; case 6: number_text<long>(s, c, "long"); break; case 7: number_text<unsigned long>(s, c, "unsigned long"); break; case 8: number_text<long long>(s, c, "long long"); break; default: number_text<unsigned long long>(s, c, "unsigned long long"); } }
PBT(text_float, 2, "always") { if (s.coin()) float_text<double>(s, c); else float_text<float>(s, c); }
PBT(text_family, 2, "always") {
  bool own = s.coin(); size_t room = s.coin(1, 3) ? 2 + s.below(9) : 252; std::vector<char> mem(room + 8, '#'); typedef Converter<char*> K; std::unique_ptr<K> k(own ? room < 252 ? new K((int)room) : new K() : new K(&mem[4], &mem[4 + room - 1])); int ops = s.len(1, 8); std::string r, want; c.nontrivial(); c.label(room < 252, "small buffer"); bool cuts; char* p_;
  for (int i = 0; i < ops; ++i) { cuts = false; switch (s.below(13)) {
#define ONE(N, T) case N: { T v = s.integer<T>(); want = decimal(v); p_ = (*k)(v); break; }
      ONE(0, char) ONE(1, unsigned char) ONE(2, short) ONE(3, unsigned short) ONE(4, int) ONE(5, unsigned int) ONE(6, long) ONE(7, unsigned long) ONE(8, long long) ONE(9, unsigned long long)
      case 10: { bool v = s.coin(); want = v ? "true" : "false"; p_ = (*k)(v); break; } case 11: { cuts = true; float v = (float)s.real(1000); int p = (int)s.below(9); want = fixed_text(v, p); p_ = (*k)(v, p); break; } default: { cuts = true; double v = s.real(1000); int p = (int)s.below(19); want = fixed_text(v, p); p_ = (*k)(v, p); } }
    NOTE(want << " in " << room);
    if (want.size() + 1 <= room && !(cuts && want.size() + 2 > room)) { CHECK(p_, want << " was refused by a buffer of " << room); r = p_; } else if (cuts) { CHECK(p_ && strlen(p_) < room && want.compare(0, strlen(p_), p_) == 0, want << " in a buffer of " << room); r = want; } else { CHECK(!p_, want << " became " << pbt::quote(std::string(p_)) << " in a buffer of " << room); r = want; }
    if (!own) for (int q = 0; q < 4; ++q) CHECK(mem[q] == '#' && mem[4 + room + q] == '#', "characters outside the buffer were written");
    CHECK(r == want, "the family converter gave " << pbt::quote(r) << " instead of " << want); }
  { Converter<char*, bool> b; bool v = s.coin(); CHECK(std::string(b(v)) == (v ? "true" : "false"), "bool"); Converter<char*, bool> b2(b); CHECK(std::string(b2(!v)) == (!v ? "true" : "false") && std::string(b(v)) == (v ? "true" : "false"), "bool copy"); }
}
PBT(text_int_string, 3, "a number of two digits or more, or malformed text") {
  if (s.coin()) { int v = s.integer<int>(); Converter<std::string, int> to; Converter<std::string> fam; Converter<int, std::string> from; std::string t = s.coin() ? to(v) : fam(v); CHECK(t == std::to_string(v), v << " became " << pbt::quote(t)); CHECK(from(t) == v && from.error().flag() == NoError, t << " was read back as another number"); Converter<int> ff; CHECK(ff(t) == v, t << " was read back as another number by the family converter"); c.nontrivial(t.size() > 1); return; }
  std::string t; switch (s.below(4)) { case 0: t = s.str("0123456789+- x.", 0, 6); break; case 1: t = std::to_string(s.integer<long>()); break; case 2: t = std::to_string(s.integer<int>()) + s.str("0 ax.-", 0, 2); break; default: { long b = s.coin() ? 2147483647L : -2147483648L; t = std::to_string(b + s.centred(-3, 3)); } }
  size_t p = 0; while (p < t.size() && t[p] == ' ') ++p; size_t d = p; if (d < t.size() && (t[d] == '+' || t[d] == '-')) ++d; size_t e = d; while (e < t.size() && isdigit((unsigned char)t[e])) ++e; bool ok = e > d && e == t.size(); long long v = 0; if (ok) { std::string dig = t.substr(d); size_t z = dig.find_first_not_of('0'); dig = z == std::string::npos ? "0" : dig.substr(z); if (dig.size() > 10) ok = false; else { v = atoll(dig.c_str()); if (t[p] == '-') v = -v; ok = v >= INT_MIN && v <= INT_MAX; } }
  NOTE(pbt::quote(t) << (ok ? " is a number" : " is refused")); bool fam = s.coin(); Converter<int, std::string> k; Converter<int> f; int r = 0; bool t2 = false; try { r = fam ? f(t) : k(t); } catch (const StandardException& ex) { t2 = true; CHECK(ex.flag() == ConversionError, "another kind of error"); }
  if (ok) { CHECK(!t2 && r == v, pbt::quote(t) << " was read as " << r); CHECK(fam || k.error().flag() == NoError, "error for " << t); } else if (DEBUG_CHECKS) CHECK(t2, pbt::quote(t) << " was read as " << r); else { CHECK(!t2 && r == INT_MIN, pbt::quote(t) << " was read as " << r); CHECK(fam || k.error().flag() == ConversionError, pbt::quote(t) << " was accepted"); } c.nontrivial(!ok || t.size() > 1); c.label(!ok, "malformed");
}
PBT(text_digit, 1, "always") {
  c.nontrivial(); bool fam = s.coin(); if (s.coin()) { char ch = (char)s.below(256); bool ok = ch >= '0' && ch <= '9'; if (s.coin()) { ch = (char)('0' + s.below(10)); ok = true; } Converter<int, char> k; Converter<int> f; int r = -7; bool t = false; try { r = fam ? f(ch) : k(ch); } catch (const StandardException& e) { t = true; CHECK(e.flag() == ConversionError, "another kind of error"); } if (ok) CHECK(!t && r == ch - '0', "digit " << ch << " became " << r); else { CHECK(t == DEBUG_CHECKS, "character " << (int)ch << " was taken for a digit"); if (!t) CHECK(r == -1, "character " << (int)ch << " became " << r); if (!t && !fam) CHECK(k.error().flag() == ConversionError, "character " << (int)ch << " was accepted"); } return; }
  if (s.coin()) { int v = s.coin() ? (int)s.below(10) : s.integer<int>(); bool ok = v >= 0 && v <= 9; Converter<char, int> k; Converter<char> f; char r = 0; bool t = false; try { r = fam ? f(v) : k(v); } catch (const StandardException& e) { t = true; } if (ok) CHECK(!t && r == '0' + v, v << " became " << r); else { CHECK(t == DEBUG_CHECKS, v << " was made a digit"); if (!t && !fam) CHECK(k.error().flag() == OutOfRangeError, v << " was accepted"); } }
  else { unsigned v = s.coin() ? (unsigned)s.below(10) : s.integer<unsigned>(); bool ok = v <= 9; Converter<char, unsigned int> k; Converter<char> f; char r = 0; bool t = false; try { r = fam ? f(v) : k(v); } catch (const StandardException& e) { t = true; } if (ok) CHECK(!t && r == (char)('0' + v), v << " became " << r); else { CHECK(t == DEBUG_CHECKS, v << " was made a digit"); if (!t && !fam) CHECK(k.error().flag() == ConversionError, v << " was accepted"); } }
}
PBT(text_hex, 3, "two bytes or more, or malformed text") {
  std::string t; std::vector<char> want; int n = s.len(0, 12); bool ok = true; t += s.str(" ", 0, 2); static const char* H[] = {"0123456789abcdef", "0123456789ABCDEF"}; for (int i = 0; i < n; ++i) { int b = (int)s.below(256); want.push_back((char)b); t += "0x"; t += H[s.below(2)][b >> 4]; t += H[s.below(2)][b & 15]; t += s.str(" ", 0, 2); }
  if (s.coin(1, 3)) { size_t i = s.below(t.size() + 1); if (s.coin()) t = t.substr(0, i); else if (s.coin() && i < t.size()) t[i] = s.str("0xgG fF9X:@`/\x80", 1, 1)[0]; else t.insert(i, s.str("0xg1 a", 1, 2));
    want.clear(); size_t p = 0; auto hx = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }; while (ok && p < t.size()) { if (t[p] == ' ') { ++p; continue; } if (p + 4 > t.size() || t[p] != '0' || t[p + 1] != 'x' || hx(t[p + 2]) < 0 || hx(t[p + 3]) < 0) ok = false; else { want.push_back((char)(hx(t[p + 2]) * 16 + hx(t[p + 3]))); p += 4; } } }
  NOTE(pbt::quote(t) << (ok ? "" : " is refused")); Converter<std::vector<char>, char*> k; Converter<std::vector<char>> f; bool fam = s.coin(); std::vector<char> r; bool th = false; int reps = s.coin(1, 4) ? 2 : 1;
  for (int i = 0; i < reps; ++i) { th = false; try { r = fam ? f(t.c_str()) : k(t.c_str()); } catch (const StandardException& e) { th = true; CHECK(e.flag() == ConversionError, "another kind of error"); } if (ok) CHECK(!th && r == want, pbt::quote(t) << " became " << hexed(r)); else if (DEBUG_CHECKS) CHECK(th, pbt::quote(t) << " was accepted as " << hexed(r)); else { CHECK(!th && r.empty(), pbt::quote(t) << " became " << hexed(r)); CHECK(fam || k.error().flag() == ConversionError, pbt::quote(t) << " was accepted"); } }
  if (ok && !fam) CHECK(k.error().flag() == NoError, "an error for " << pbt::quote(t)); c.nontrivial(!ok || want.size() > 1); c.label(!ok, "malformed");
}
PBT_MAIN
