// P26, P27: strings, variable-type values and collections behave like plain
// values and plain vectors, also when memory runs out and with concurrent readers.
#include "env.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Array.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Model.h>
#include <Xsmp/Object.h>
#include <Xsmp/Reference.h>
#include <Xsmp/String.h>
#include <Xsmp/cstring.h>
#include <cmath>
#include <limits>
#include <optional>
namespace wl {
namespace {
std::string word(int max) {
  std::string s;
  for (int n = (int)rnd(max + 1); n > 0; --n)
    s.push_back("abcAB\x80\xff"[rnd(7)]);
  return s;
}
// lets the next allocations fail now and then; true when one failed
struct Mem {
  bool armed;
  Mem() : armed(chance(25)) {
    if (armed)
      armAlloc((int)rnd(3));
  }
  bool done() {
    bool f = armed && allocFired();
    armAlloc(-1);
    return f;
  }
};
template <class F> std::string withMem(F fn, bool &failed) {
  Mem m;
  auto r = outcome(fn);
  failed = m.done();
  return r;
}
bool isBadAlloc(const std::string &s) { return s == "std:std::bad_alloc"; }

// ---------------------------------------------------------------- cstring
using Xsmp::cstring;
void cstrings() {
  size_t base = liveBlocks();
  {
    constexpr int N = 4;
    std::unique_ptr<cstring> c[N];
    std::optional<std::optional<std::string>> m[N];
    auto check = [&](int i, const char *what) {
      Quiet q;
      if (!c[i])
        return;
      const char *v = c[i]->c_str();
      if (!v != !*m[i] || (v && **m[i] != v))
        fail("value", "%s: slot %d holds '%s' instead of '%s'", what, i, v ? v : "(null)", *m[i] ? (**m[i]).c_str() : "(null)");
    };
    int n = 5 + (int)rnd(40);
    for (int k = 0; k < n; ++k) {
      int op = newOp(), kind = (int)rnd(11), i = (int)rnd(N), j = (int)rnd(N);
      std::string w = word(rnd(5) ? 8 : 40);
      size_t cut = rnd(8);
      bool failed = false;
      if (!keep(op))
        continue;
      std::string r;
      char what[64];
      snprintf(what, sizeof what, "op %d kind %d %d<-%d", k, kind, i, j);
      log("%s", what);
      auto old = m[i];
      switch (kind) {
      case 0: case 1: { // from text
        c[i] = nullptr, m[i] = {};
        std::string_view v(w);
        auto sub = v.substr(std::min(cut, v.size()) / 2, 6);
        r = withMem([&] { c[i] = kind == 0 ? std::make_unique<cstring>(w.c_str()) : rnd(2) ? std::make_unique<cstring>(sub) : std::make_unique<cstring>(sub.data(), sub.size()); }, failed);
        if (c[i])
          m[i] = std::optional<std::string>(kind == 0 ? w : std::string(sub));
        break;
      }
      case 2: case 3: // copy and move construction
        if (i == j || !c[j])
          break;
        c[i] = nullptr, m[i] = {};
        if (kind == 2) {
          r = withMem([&] { c[i] = std::make_unique<cstring>(static_cast<const cstring &>(*c[j])); }, failed);
          if (c[i])
            m[i] = m[j];
        } else {
          r = withMem([&] { c[i] = std::make_unique<cstring>(std::move(*c[j])); }, failed);
          if (c[i])
            m[i] = std::move(m[j]), m[j] = std::optional<std::string>();
        }
        break;
      case 4: case 5: // copy assignment
        if (!c[i] || !c[j])
          break;
        r = withMem([&] { *c[i] = *c[j]; }, failed);
        if (r.empty())
          m[i] = m[j];
        break;
      case 6: // move assignment
        if (!c[i] || !c[j])
          break;
        *c[i] = std::move(*c[j]);
        if (i != j) {
          m[i] = m[j];
          m[j] = std::optional<std::string>(); // moved from
          if (c[j]->c_str())
            m[j] = std::optional<std::string>(c[j]->c_str()); // any valid value will do
        }
        break;
      case 7: case 8: // assignment from characters
        if (!c[i])
          break;
        r = withMem([&] { *c[i] = w.c_str(); }, failed);
        if (r.empty())
          m[i] = std::optional<std::string>(w);
        break;
      case 9: // assignment from the characters of a string, perhaps its own
        if (!c[i] || !c[j] || !c[j]->c_str())
          break;
        {
          std::string src = **m[j];
          size_t off = std::min(cut, src.size());
          r = withMem([&] { *c[i] = c[j]->c_str() + off; }, failed);
          if (r.empty())
            m[i] = std::optional<std::string>(src.substr(off));
        }
        break;
      default:
        c[i] = nullptr, m[i] = {};
      }
      if (!r.empty() && !(failed && isBadAlloc(r)))
        fail("unexpected-exception", "%s: %s", what, r.c_str());
      if (!r.empty()) {
        countFault("failed allocation");
        if (c[i] && c[i]->c_str() == nullptr)
          m[i] = std::optional<std::string>(); // a failed assignment may leave nothing
      }
      for (int x = 0; x < N; ++x)
        check(x, what);
    }
  }
  if (liveBlocks() != base)
    fail("leak", "%d blocks were left behind", (int)(liveBlocks() - base));
}

// ---------------------------------------------------------------- String<N>
int sgn(int x) { return (x > 0) - (x < 0); }
// a part of a longer text, or one that ends where its memory ends
struct View {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit View(const std::string &t) : n(t.size()) {
    size_t more = rnd(2) ? 0 : 1 + rnd(5);
    p.reset(new char[n + more]);
    std::copy(t.begin(), t.end(), p.get());
    std::fill_n(p.get() + n, more, 'b');
  }
  operator std::string_view() const { return {p.get(), n}; }
  const char *data() const { return p.get(); }
};
template <size_t N> struct Str {
  Xsmp::String<N> s;
  std::string m;
};
template <size_t N, size_t M> void relate(const Xsmp::String<N> &a, const std::string &ma, const Xsmp::String<M> &b, const std::string &mb) {
  int e = sgn(ma.compare(mb));
  View own(mb);
  std::string_view v(own);
  if (sgn(a.compare(b)) != e || sgn(a.compare(v)) != e || (a == b) != (e == 0) || (a != b) != (e != 0) || (a < b) != (e < 0) || (a > b) != (e > 0) || (a <= b) != (e <= 0) || (a >= b) != (e >= 0) ||
      (a == v) != (e == 0) || (a != v) != (e != 0) || (a < v) != (e < 0) || (a > v) != (e > 0) || (a <= v) != (e <= 0) || (a >= v) != (e >= 0) || (v == a) != (e == 0) || (v != a) != (e != 0) ||
      (v < a) != (e > 0) || (v > a) != (e < 0) || (v <= a) != (e >= 0) || (v >= a) != (e <= 0))
    fail("comparison", "'%s' and '%s' compare wrongly", ma.c_str(), mb.c_str());
  if (e == 0 && std::hash<Xsmp::String<N>>()(a) != std::hash<Xsmp::String<M>>()(b))
    fail("hash", "equal strings '%s' hash differently", ma.c_str());
}
template <size_t N> void query(const Str<N> &x, const std::string &w, char ch, size_t pos) {
  const auto &s = x.s;
  const auto &m = x.m;
  View own(w);
  const std::string_view wv(own);
  if (m != s.c_str() || s.size() != m.size() || s.length() != m.size() || s.empty() != m.empty() || s.max_size() != N)
    fail("value", "a string of at most %d characters holds '%s' (%d) instead of '%s'", (int)N, s.c_str(), (int)s.size(), m.c_str());
  if (std::string(s.begin(), s.end()) != m || std::string(s.cbegin(), s.cend()) != m || std::string(s.rbegin(), s.rend()) != std::string(m.rbegin(), m.rend()))
    fail("iteration", "iterating over '%s' gives something else", m.c_str());
  Xsmp::String<N> t(s);
  if (std::string(t.begin(), t.end()) != m || std::string(t.cbegin(), t.cend()) != m || std::string(t.rbegin(), t.rend()) != std::string(m.rbegin(), m.rend()) ||
      std::string(t.crbegin(), t.crend()) != std::string(m.rbegin(), m.rend()) || std::string(s.crbegin(), s.crend()) != std::string(m.rbegin(), m.rend()) || m != t.data() ||
      (!m.empty() && (t.front() != m.front() || t.back() != m.back() || t[m.size() - 1] != m.back() || s[0] != m[0])))
    fail("iteration", "iterating over a copy of '%s' gives something else", m.c_str());
  if (!m.empty() && (s.front() != m.front() || s.back() != m.back()))
    fail("value", "front or back of '%s' differ", m.c_str());
  auto got = outcome([&] {
    char c = rnd(2) ? s.at(pos) : t.at(pos);
    if (pos >= m.size() || c != m[pos])
      fail("bounds", "at(%d) of '%s' gave %d", (int)pos, m.c_str(), c);
  });
  if ((pos >= m.size()) != (got.find("std:") == 0))
    fail("bounds", "at(%d) of '%s': '%s'", (int)pos, m.c_str(), got.c_str());
  std::string_view v(m);
  std::string sub;
  got = outcome([&] { sub = std::string(s.substr(pos, w.size())); });
  if (got.empty() != (pos <= m.size()) || (got.empty() && sub != v.substr(pos, w.size())))
    fail("substring", "substr(%d,%d) of '%s' gave '%s' %s", (int)pos, (int)w.size(), m.c_str(), sub.c_str(), got.c_str());
  const char *cw = w.c_str();
  size_t n = w.size() / 2;
  if (s.find(wv, pos) != v.find(w, pos) || s.find(ch, pos) != v.find(ch, pos) || s.find(wv.data(), pos, n) != v.find(wv.data(), pos, n) || s.find(cw) != v.find(cw) || s.rfind(wv, pos) != v.rfind(w, pos) ||
      s.rfind(ch) != v.rfind(ch) || s.rfind(wv.data(), pos, n) != v.rfind(wv.data(), pos, n) || s.find_first_of(wv, pos) != v.find_first_of(w, pos) || s.find_first_of(ch) != v.find_first_of(ch) ||
      s.find_first_of(wv.data(), pos, n) != v.find_first_of(wv.data(), pos, n) || s.find_last_of(wv) != v.find_last_of(w) || s.find_last_of(ch, pos) != v.find_last_of(ch, pos) ||
      s.find_last_of(wv.data(), pos, n) != v.find_last_of(wv.data(), pos, n) || s.find_first_not_of(wv, pos) != v.find_first_not_of(w, pos) || s.find_first_not_of(ch) != v.find_first_not_of(ch) ||
      s.find_first_not_of(wv.data(), pos, n) != v.find_first_not_of(wv.data(), pos, n) || s.find_last_not_of(wv) != v.find_last_not_of(w) || s.find_last_not_of(ch, pos) != v.find_last_not_of(ch, pos) ||
      s.find_last_not_of(wv.data(), pos, n) != v.find_last_not_of(wv.data(), pos, n) || s.rfind(cw) != v.rfind(cw) || s.find_first_of(cw) != v.find_first_of(cw) || s.find_last_of(cw) != v.find_last_of(cw) ||
      s.find_first_not_of(cw) != v.find_first_not_of(cw) || s.find_last_not_of(cw) != v.find_last_not_of(cw))
    fail("search", "searching '%s' (or '%c') in '%s' from %d gives another position", w.c_str(), ch, m.c_str(), (int)pos);
  if (s + ch != m + ch || ch + s != ch + m || wv + s != w + m || s + wv != m + w)
    fail("concatenation", "concatenating '%s' and '%s' gives something else", m.c_str(), w.c_str());
  if (Xsmp::String<48> o(wv); s + o != m + w.substr(0, 48) || o + s != w.substr(0, 48) + m)
    fail("concatenation", "concatenating '%s' and '%s' gives something else", m.c_str(), w.c_str());
  std::ostringstream os;
  os << s;
  if (os.str() != m)
    fail("value", "'%s' is printed as '%s'", m.c_str(), os.str().c_str());
  relate(s, m, Xsmp::String<48>(w), w.substr(0, 48));
}
template <size_t N> void put(Str<N> &x, std::string v) { x.m = v.substr(0, N); }
template <size_t N, size_t M> void mutate(Str<N> &a, Str<M> &b, int kind, const std::string &w, size_t pos, char ch) {
  size_t n = std::min(pos, w.size());
  size_t off = std::min(pos, a.m.size());
  View own(w), first(w.substr(0, n));
  const std::string_view wv(own);
  switch (kind) {
  case 0: a.s = Xsmp::String<N>(w); put(a, w); break;
  case 1: a.s = Xsmp::String<N>(first.data(), n); put(a, w.substr(0, n)); break;
  case 2: a.s = b.s; put(a, b.m); break;
  case 3: a.s.assign(b.s); put(a, b.m); break;
  case 4: a.s.append(b.s); put(a, a.m + b.m); break;
  case 5: a.s += wv; put(a, a.m + w); break;
  case 6: a.s.append(first.data(), n); put(a, a.m + w.substr(0, n)); break;
  case 7: a.s.push_back(ch); put(a, a.m + ch); break;
  case 8:
    a.s.pop_back();
    if (!a.m.empty())
      a.m.pop_back();
    break;
  case 9: a.s.remove_prefix(off), a.m.erase(0, off); break;
  case 10: a.s.remove_suffix(pos), a.m.erase(a.m.size() - off); break;
  case 11: if (rnd(4) == 0) a.s.clear(), a.m.clear(); break;
  case 12: a.s.assign(a.s.substr(off)); a.m.erase(0, off); break; // part of itself
  case 13: a.s = a.s.substr(off, 3); a.m = a.m.substr(off, 3); break;
  case 14: a.s.append(a.s); put(a, a.m + a.m); break;
  case 15: a.s += b.s; put(a, a.m + b.m); break;
  case 16: { // reading from a stream
    std::istringstream is("  " + w + " x");
    is >> a.s;
    put(a, w.empty() ? "x" : w);
    break;
  }
  case 17: a.s += ch; put(a, a.m + ch); break;
  case 18: { Xsmp::String<N> o(w); a.s.swap(o); if (std::string(o.c_str()) != a.m) fail("swap", "swap lost '%s'", a.m.c_str()); put(a, w); break; }
  case 19: a.s.remove_prefix(pos), a.m.erase(0, off); break; // perhaps more than there is
  case 20: a.s.append(a.s.substr(off)); put(a, a.m + a.m.substr(off)); break;
  case 21: if (off < a.m.size()) a.s[off] = ch, a.m[off] = ch; break;
  case 23: a.s.append(wv); put(a, a.m + w); break;
  case 24: a.s.assign(wv); put(a, w); break;
  case 25: a.s = wv; put(a, w); break;
  case 26: a.s.assign(first.data(), n); put(a, w.substr(0, n)); break;
  default: { const char *p = w.c_str(); a.s = p; put(a, w); }
  }
}
void strings() {
  Str<1> a;
  Str<5> b;
  Str<16> c;
  Str<40> d;
  int n = 5 + (int)rnd(40);
  for (int k = 0; k < n; ++k) {
    int op = newOp(), kind = (int)rnd(27), i = (int)rnd(6);
    std::string w = word(rnd(3) ? 6 : 45);
    size_t pos = rnd(rnd(2) ? 6 : 20);
    char ch = "abcAB"[rnd(5)];
    if (!keep(op))
      continue;
    log("op %d: %d on %d with '%s' %d", k, kind, i, w.c_str(), (int)pos);
    switch (i) {
    case 0: mutate(a, b, kind, w, pos, ch); break;
    case 1: mutate(b, c, kind, w, pos, ch); break;
    case 2: mutate(c, d, kind, w, pos, ch); break;
    case 3: mutate(c, b, kind, w, pos, ch); break;
    case 4: mutate(b, a, kind, w, pos, ch); break;
    default: mutate(d, c, kind, w, pos, ch);
    }
    query(a, w, ch, pos), query(b, w, ch, pos), query(c, w, ch, pos), query(d, w, ch, pos);
    relate(b.s, b.m, c.s, c.m), relate(d.s, d.m, c.s, c.m), relate(a.s, a.m, b.s, b.m);
  }
}

// ---------------------------------------------------------------- Array
template <class T, size_t N, class G> void arrays(G gen) {
  using A = Xsmp::Array<T, N>;
  A a{}, b{};
  std::vector<T> ma(N), mb(N);
  int n = 5 + (int)rnd(20);
  for (int k = 0; k < n; ++k) {
    int op = newOp(), kind = (int)rnd(7);
    T v = gen();
    size_t i = rnd(N + 2);
    if (!keep(op))
      continue;
    log("op %d: %d at %d", k, kind, (int)i);
    switch (kind) {
    case 0: if (rnd(3) == 0) a.fill(v), ma.assign(N, v); break;
    case 1: a.swap(b), ma.swap(mb); break;
    case 2: case 3: {
      auto r = outcome([&] { a.at(i) = v; });
      if (r.empty() != (i < N))
        fail("bounds", "at(%d) of %d elements: '%s'", (int)i, (int)N, r.c_str());
      if (i < N)
        ma[i] = v;
      r = outcome([&] { (void)static_cast<const A &>(a).at(i); });
      if (r.empty() != (i < N))
        fail("bounds", "at(%d) of %d elements: '%s'", (int)i, (int)N, r.c_str());
      break;
    }
    case 4: if (i < N) b[i] = v, mb[i] = v; break;
    case 5: b = a, mb = ma; break;
    default: { A t(a); a = b; b = t; ma.swap(mb); }
    }
    const A &ca = a;
    if (std::vector<T>(a.begin(), a.end()) != ma || std::vector<T>(ca.cbegin(), ca.cend()) != ma || std::vector<T>(b.begin(), b.end()) != mb || std::vector<T>(ca.rbegin(), ca.rend()) != std::vector<T>(ma.rbegin(), ma.rend()) ||
        a.size() != N || a.max_size() != N || a.empty() || !(a.front() == ma.front()) || !(ca.back() == ma.back()) || ca.data() != &ca[0])
      fail("value", "the %d elements differ from those assigned", (int)N);
    if ((a == b) != (ma == mb) || (a != b) != (ma != mb) || (a < b) != (ma < mb) || (a > b) != (ma > mb) || (a <= b) != (ma <= mb) || (a >= b) != (ma >= mb))
      fail("comparison", "arrays compare wrongly");
  }
}

// ---------------------------------------------------------------- AnySimple
using Smp::AnySimple;
using K = Smp::PrimitiveTypeKind;
struct Val { // reference value
  K kind = K::PTK_None;
  __int128 i = 0; // integers, bool, char
  double f = 0;
  std::optional<std::string> s;
};
bool isInt(K k) {
  switch (k) {
  case K::PTK_Int8: case K::PTK_Int16: case K::PTK_Int32: case K::PTK_Int64: case K::PTK_UInt8: case K::PTK_UInt16: case K::PTK_UInt32: case K::PTK_UInt64: case K::PTK_Duration: case K::PTK_DateTime: return true;
  default: return false;
  }
}
template <class T> bool fits(__int128 v) { return v >= (__int128)std::numeric_limits<T>::lowest() && v <= (__int128)std::numeric_limits<T>::max(); }
bool intFits(K k, __int128 v) {
  switch (k) {
  case K::PTK_Int8: return fits<Smp::Int8>(v);
  case K::PTK_Int16: return fits<Smp::Int16>(v);
  case K::PTK_Int32: return fits<Smp::Int32>(v);
  case K::PTK_UInt8: return fits<Smp::UInt8>(v);
  case K::PTK_UInt16: return fits<Smp::UInt16>(v);
  case K::PTK_UInt32: return fits<Smp::UInt32>(v);
  case K::PTK_UInt64: return fits<Smp::UInt64>(v);
  default: return fits<Smp::Int64>(v);
  }
}
bool sameF(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// exact conversion of an integer or float value to a kind; 0 no, 1 yes, 2 undecided (rounding within the tolerance)
int convertible(const Val &v, K k) {
  bool src = isInt(v.kind);
  if (src && isInt(k))
    return intFits(k, v.i);
  if (src && (k == K::PTK_Float32 || k == K::PTK_Float64)) {
    __int128 back = k == K::PTK_Float32 ? (__int128)(float)(double)v.i : (__int128)(double)v.i;
    if (k == K::PTK_Float32)
      back = (__int128)(float)v.i;
    return back == v.i;
  }
  if (v.kind == K::PTK_Float32 && (k == K::PTK_Float32 || k == K::PTK_Float64))
    return 1;
  if (v.kind == K::PTK_Float64 && k == K::PTK_Float64)
    return 1;
  if (v.kind == K::PTK_Float64 && k == K::PTK_Float32) {
    if (std::isnan(v.f) || std::isinf(v.f) || (double)(float)v.f == v.f)
      return 1;
    if (std::fabs(v.f) > std::numeric_limits<float>::max())
      return 0;
    return std::fabs((double)(float)v.f - v.f) <= 1e-12 ? 2 : 0;
  }
  if (v.kind == k)
    return 1;
  return 0;
}
template <class T> std::string get(const AnySimple &a, T &t) {
  return outcome([&] { t = static_cast<T>(a); });
}
template <class T> void expectInt(const AnySimple &a, const Val &v, K k) {
  T t{};
  auto r = get(a, t);
  int ok = convertible(v, k);
  if (isInt(v.kind) ? r.empty() != (ok == 1) : !r.empty() != true)
    fail("conversion", "reading a value of kind %d as kind %d gave '%s'", (int)v.kind, (int)k, r.c_str());
  if (r.empty() && (__int128)t != v.i)
    fail("conversion", "reading a value of kind %d as kind %d changed it", (int)v.kind, (int)k);
  if (!r.empty() && r != "Smp:InvalidAnyType")
    fail("conversion", "reading a value of kind %d as kind %d raised %s", (int)v.kind, (int)k, r.c_str());
}
template <class T> void expectFloat(const AnySimple &a, const Val &v, K k) {
  T t{};
  auto r = get(a, t);
  int ok = isInt(v.kind) || v.kind == K::PTK_Float32 || v.kind == K::PTK_Float64 ? convertible(v, k) : 0;
  if (v.kind == K::PTK_Duration || v.kind == K::PTK_DateTime)
    ok = r.empty() ? convertible(v, k) : 0; // times may or may not be read as floats
  if (ok != 2 && r.empty() != (ok == 1))
    fail("conversion", "reading a value of kind %d as kind %d gave '%s'", (int)v.kind, (int)k, r.c_str());
  if (r.empty() && ok == 1 && !sameF(t, isInt(v.kind) ? (double)(T)v.i : v.f))
    fail("conversion", "reading a value of kind %d as kind %d changed it", (int)v.kind, (int)k);
  if (!r.empty() && r != "Smp:InvalidAnyType")
    fail("conversion", "reading a value of kind %d as kind %d raised %s", (int)v.kind, (int)k, r.c_str());
}
void judge(const AnySimple &a, const Val &v) {
  if (a.GetType() != v.kind)
    fail("value", "the value is of kind %d instead of %d", (int)a.GetType(), (int)v.kind);
  Smp::String8 s = nullptr;
  auto r = get(a, s);
  if (v.kind == K::PTK_String8) {
    if (!r.empty() || !s != !v.s || (s && *v.s != s))
      fail("value", "the string is '%s' instead of '%s'", s ? s : "(null)", v.s ? v.s->c_str() : "(null)");
  } else if (r != "Smp:InvalidAnyType")
    fail("conversion", "reading kind %d as a string gave '%s'", (int)v.kind, r.c_str());
  Smp::Char8 c = 0;
  r = get(a, c);
  if (v.kind == K::PTK_Char8 ? !r.empty() || c != (Smp::Char8)v.i : r != "Smp:InvalidAnyType")
    fail("conversion", "reading kind %d as a character gave '%s'", (int)v.kind, r.c_str());
  Smp::Bool b = false;
  r = get(a, b);
  bool boolOk = v.kind == K::PTK_Bool || v.kind == K::PTK_Char8 || v.kind == K::PTK_String8 || isInt(v.kind);
  if (r.empty() != boolOk || (boolOk && b != (v.kind == K::PTK_String8 ? v.s.has_value() : v.i != 0)))
    fail("conversion", "reading kind %d as a truth value gave '%s'", (int)v.kind, r.c_str());
  expectInt<Smp::Int8>(a, v, K::PTK_Int8), expectInt<Smp::Int16>(a, v, K::PTK_Int16), expectInt<Smp::Int32>(a, v, K::PTK_Int32), expectInt<Smp::Int64>(a, v, K::PTK_Int64);
  expectInt<Smp::UInt8>(a, v, K::PTK_UInt8), expectInt<Smp::UInt16>(a, v, K::PTK_UInt16), expectInt<Smp::UInt32>(a, v, K::PTK_UInt32), expectInt<Smp::UInt64>(a, v, K::PTK_UInt64);
  expectFloat<float>(a, v, K::PTK_Float32), expectFloat<double>(a, v, K::PTK_Float64);
}
__int128 someInt() {
  static const __int128 pts[] = {0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 16777216, 16777217, -16777217, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
      9007199254740992LL, 9007199254740993LL, -9007199254740993LL, INT64_MAX, INT64_MIN, INT64_MIN + 1, (__int128)INT64_MAX + 1, (__int128)UINT64_MAX, (__int128)UINT64_MAX - 1};
  if (rnd(3) == 0)
    return (__int128)(int64_t)(rnd(UINT64_MAX) >> rnd(64));
  return pts[rnd(sizeof pts / sizeof *pts)] + (rnd(4) ? 0 : (int)rnd(3) - 1);
}
double someFloat() {
  static const double pts[] = {0, -0.0, 1, -1, 0.5, 0.1, 16777216, 16777217, 3.4028234663852886e38, 3.5e38, 1e300, -1e300, 1e-3, INFINITY, -INFINITY, NAN, 65504.0625, 1.0000001};
  return pts[rnd(sizeof pts / sizeof *pts)];
}
template <class T> std::string setInt(AnySimple &a, K k, __int128 v, Val &out, K src) {
  T t = (T)v;
  Val w;
  w.kind = src, w.i = t;
  auto r = outcome([&] { a.SetValue(k, t); });
  int ok = isInt(k) || k == K::PTK_Float32 || k == K::PTK_Float64 ? convertible(w, k) : 0;
  if (r.empty() != (ok == 1) || (!r.empty() && r != "Smp:InvalidAnyType"))
    fail("conversion", "storing kind %d as kind %d gave '%s'", (int)src, (int)k, r.c_str());
  out = {};
  out.kind = k, out.i = t;
  if (k == K::PTK_Float32 || k == K::PTK_Float64)
    out.i = 0, out.f = (double)t;
  return r;
}
void anys() {
  size_t base = liveBlocks();
  {
    constexpr int N = 4;
    AnySimple a[N];
    Val m[N];
    static const K kinds[] = {K::PTK_None, K::PTK_Char8, K::PTK_Bool, K::PTK_Int8, K::PTK_UInt8, K::PTK_Int16, K::PTK_UInt16, K::PTK_Int32, K::PTK_UInt32, K::PTK_Int64, K::PTK_UInt64, K::PTK_Float32, K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};
    int n = 5 + (int)rnd(50);
    for (int k = 0; k < n; ++k) {
      int op = newOp(), what = (int)rnd(16), i = (int)rnd(N), j = (int)rnd(N);
      K kind = kinds[rnd(16)];
      std::string w = word(10);
      size_t cut = rnd(6);
      __int128 iv = someInt();
      double fv = someFloat();
      bool failed = false;
      if (!keep(op))
        continue;
      log("op %d: %d %d<-%d kind %d", k, what, i, j, (int)kind);
      Val old = m[i], nv;
      std::string r;
      bool set = true;
      switch (what) {
      case 0: nv.kind = kind, nv.i = w.size() & 1; r = outcome([&] { a[i].SetValue(kind, (Smp::Bool)(w.size() & 1)); });
        if (r.empty() != (kind == K::PTK_Bool)) fail("conversion", "storing a truth value as kind %d gave '%s'", (int)kind, r.c_str());
        break;
      case 1: nv.kind = kind, nv.i = (Smp::Char8)('a' + w.size()); r = outcome([&] { a[i].SetValue(kind, (Smp::Char8)('a' + w.size())); });
        if (r.empty() != (kind == K::PTK_Char8)) fail("conversion", "storing a character as kind %d gave '%s'", (int)kind, r.c_str());
        break;
      case 2: case 3: { // strings, perhaps its own characters
        Smp::String8 src = w.c_str();
        if (what == 3 && m[j].kind == K::PTK_String8 && m[j].s)
          w = m[j].s->substr(std::min(cut, m[j].s->size())), src = a[j].value.string8Value + std::min(cut, m[j].s->size());
        else if (what == 3 && cut == 0)
          src = nullptr;
        if (rnd(4)) kind = K::PTK_String8;
        nv.kind = kind;
        if (src) nv.s = w;
        r = withMem([&] { a[i].SetValue(kind, src); }, failed);
        if (!failed && r.empty() != (kind == K::PTK_String8)) fail("conversion", "storing a string as kind %d gave '%s'", (int)kind, r.c_str());
        break;
      }
      case 4: r = setInt<Smp::Int8>(a[i], kind, iv, nv, K::PTK_Int8); break;
      case 5: r = setInt<Smp::UInt8>(a[i], kind, iv, nv, K::PTK_UInt8); break;
      case 6: r = setInt<Smp::Int16>(a[i], kind, iv, nv, K::PTK_Int16); break;
      case 7: r = setInt<Smp::UInt16>(a[i], kind, iv, nv, K::PTK_UInt16); break;
      case 8: r = rnd(2) ? setInt<Smp::Int32>(a[i], kind, iv, nv, K::PTK_Int32) : setInt<Smp::UInt32>(a[i], kind, iv, nv, K::PTK_UInt32); break;
      case 9: r = rnd(2) ? setInt<Smp::Int64>(a[i], kind, iv, nv, K::PTK_Int64) : setInt<Smp::UInt64>(a[i], kind, iv, nv, K::PTK_UInt64); break;
      case 10: {
        Val s;
        bool f32 = rnd(2);
        if (f32) fv = (float)fv;
        s.kind = f32 ? K::PTK_Float32 : K::PTK_Float64, s.f = fv;
        r = outcome([&] { if (f32) a[i].SetValue(kind, (Smp::Float32)fv); else a[i].SetValue(kind, (Smp::Float64)fv); });
        int ok = kind == K::PTK_Float32 || kind == K::PTK_Float64 ? convertible(s, kind) : 0;
        if ((ok != 2 && r.empty() != (ok == 1)) || (!r.empty() && r != "Smp:InvalidAnyType")) fail("conversion", "storing %g as kind %d gave '%s'", fv, (int)kind, r.c_str());
        nv.kind = kind, nv.f = kind == K::PTK_Float32 ? (float)fv : fv;
        break;
      }
      case 11: case 12: nv = m[j]; r = withMem([&] { a[i] = a[j]; }, failed); break;
      case 13: // move
        nv = m[j];
        a[i] = std::move(a[j]);
        if (i != j)
          m[j] = {};
        break;
      case 14: { // through a copy and a moved value
        nv = m[j];
        r = withMem([&] { AnySimple t(a[j]); AnySimple u(std::move(t)); a[i] = std::move(u); }, failed);
        break;
      }
      default: { // hand the characters over
        set = false;
        Smp::String8 s = nullptr;
        r = outcome([&] { s = a[i].MoveString(); });
        if (m[i].kind != K::PTK_String8) {
          if (r != "Smp:InvalidAnyType") fail("conversion", "moving the string out of kind %d gave '%s'", (int)m[i].kind, r.c_str());
        } else {
          if (!r.empty() || !s != !m[i].s || (s && *m[i].s != s)) fail("value", "the string moved out is '%s'", s ? s : "(null)");
          m[i].s = {};
        }
        delete[] s;
        r = "";
      }
      }
      if (failed && r.empty()) failed = false;
      if (!r.empty() && r != "Smp:InvalidAnyType" && !(failed && isBadAlloc(r)))
        fail("unexpected-exception", "op %d raised %s", what, r.c_str());
      if (failed)
        countFault("failed allocation");
      if (set) {
        if (r.empty())
          m[i] = nv;
        else if (a[i].type == K::PTK_None) // a failed assignment may leave nothing behind, but only that
          m[i] = {};
        else if (m[i].kind == K::PTK_String8 && a[i].type == K::PTK_String8 && !a[i].value.string8Value)
          m[i].s = {};
      }
      for (int x = 0; x < N; ++x) {
        judge(a[x], m[x]);
        AnySimple copy(a[x]);
        bool nan = (m[x].kind == K::PTK_Float32 || m[x].kind == K::PTK_Float64) && std::isnan(m[x].f);
        if (!nan && (!(copy == a[x]) || !(a[x] == copy) || copy != a[x]))
          fail("equality", "a copy of a value of kind %d differs from it", (int)m[x].kind);
        for (int y = 0; y < N; ++y)
          if (m[x].kind != m[y].kind && (m[x].kind == K::PTK_None || m[y].kind == K::PTK_None)) {
            if (a[x] == a[y])
              fail("equality", "a value of kind %d equals one of kind %d", (int)m[x].kind, (int)m[y].kind);
          } else if (m[x].kind == m[y].kind && !isInt(m[x].kind) == false && (a[x] == a[y]) != (m[x].i == m[y].i))
            fail("equality", "values of kind %d compare wrongly", (int)m[x].kind);
          else if (m[x].kind == K::PTK_String8 && m[y].kind == K::PTK_String8 && (a[x] == a[y]) != (m[x].s == m[y].s))
            fail("equality", "strings compare wrongly");
      }
    }
  }
  if (liveBlocks() != base)
    fail("leak", "%d blocks were left behind", (int)(liveBlocks() - base));
}

// ---------------------------------------------------------------- collections
int alive;
struct Item : Xsmp::Object {
  Item(const char *n) : Xsmp::Object(n, "", nullptr) { ++alive; }
  ~Item() override { --alive; }
};
template <class C> void same(const C &c, const std::vector<Item *> &m, const char *what) {
  if (c.size() != m.size() || c.empty() != m.empty())
    fail("value", "%s: %d elements instead of %d", what, (int)c.size(), (int)m.size());
  size_t i = 0;
  for (auto *e : c) {
    if (i >= m.size() || e != m[i])
      fail("iteration", "%s: element %d is another one", what, (int)i);
    ++i;
  }
  if (i != m.size())
    fail("iteration", "%s: %d elements visited instead of %d", what, (int)i, (int)m.size());
  for (i = 0; i < m.size() + 2; ++i)
    if (c.at(i) != (i < m.size() ? m[i] : nullptr))
      fail("lookup", "%s: element %d is another one", what, (int)i);
  for (const char *n : {"a", "b", "c", "d", "e"}) {
    Item *f = nullptr;
    for (auto *e : m)
      if (!f && !strcmp(e->GetName(), n))
        f = e;
    if (c.at(n) != f)
      fail("lookup", "%s: looking up '%s' finds another element", what, n);
  }
  if (c.at(static_cast<Smp::String8>(nullptr)) != nullptr)
    fail("lookup", "%s: looking up no name finds something", what);
}
template <bool DUP> void collections() {
  alive = 0;
  {
    std::vector<std::unique_ptr<Item>> pool;
    static const char *names[] = {"a", "b", "c", "d", "e", "a", "b"};
    for (auto *n : names)
      pool.push_back(std::make_unique<Item>(n));
    Xsmp::Collection<Item, DUP> base{"base", "d", nullptr};
    Xsmp::DelegateCollection<Item, DUP> del{&base};
    Xsmp::ContainingCollection<Item, DUP> own{"own", "d", nullptr};
    std::vector<Item *> mb, md, mo;
    auto has = [](const std::vector<Item *> &v, const char *n) { return std::any_of(v.begin(), v.end(), [n](Item *x) { return !strcmp(x->GetName(), n); }); };
    int n = 5 + (int)rnd(40);
    for (int k = 0; k < n; ++k) {
      int op = newOp(), kind = (int)rnd(10);
      size_t i = rnd(pool.size()), j = rnd(8);
      if (!keep(op))
        continue;
      log("op %d: %d %d %d", k, kind, (int)i, (int)j);
      Item *x = pool[i].get();
      bool failed = false, dup = false;
      std::string r;
      std::vector<Item *> all = mb;
      all.insert(all.end(), md.begin(), md.end());
      switch (kind) {
      case 0: case 1:
        if (!DUP && has(md, x->GetName()))
          continue; // the base knows nothing of its delegates
        dup = !DUP && has(mb, x->GetName());
        r = withMem([&] { base.Add(x); }, failed);
        if (r.empty())
          mb.push_back(x);
        break;
      case 2: case 3:
        dup = !DUP && has(all, x->GetName());
        r = withMem([&] { del.Add(x); }, failed);
        if (r.empty())
          md.push_back(x);
        break;
      case 4: case 5: {
        dup = !DUP && has(mo, x->GetName());
        int before = alive;
        Item *got = nullptr;
        auto fresh = std::make_unique<Item>(x->GetName());
        r = withMem([&] { got = own.Add(std::move(fresh)); }, failed);
        fresh.reset();
        if (r.empty())
          mo.push_back(got);
        if (alive != before + (r.empty() ? 1 : 0))
          fail("ownership", "%d elements alive after adding one to %d", alive, before);
        break;
      }
      case 6: case 7: {
        auto &v = kind == 6 ? mb : md;
        auto it = std::find(v.begin(), v.end(), x);
        bool e = it != v.end();
        if (e)
          v.erase(it);
        if ((kind == 6 ? base.Remove(x) : del.Remove(x)) != e)
          fail("lookup", "removing an element reports the wrong result");
        break;
      }
      case 8: {
        int before = alive;
        if (j < mo.size()) {
          if (!own.Remove(mo[j]))
            fail("lookup", "an owned element cannot be removed");
          mo.erase(mo.begin() + j);
          if (alive != before - 1)
            fail("ownership", "a removed element lives on");
        } else if (own.Remove(x))
          fail("lookup", "an element that is not contained was removed");
        break;
      }
      default:
        if (j == 0) base.clear(), mb.clear();
        if (j == 1) del.clear(), md.clear();
        if (j == 2) own.clear(), mo.clear();
      }
      if (!r.empty() && r != "Smp:DuplicateName" && !(failed && isBadAlloc(r)))
        fail("unexpected-exception", "%s", r.c_str());
      if (failed)
        countFault("failed allocation");
      if ((r.empty() && dup) || (r == "Smp:DuplicateName" && !dup))
        fail("duplicate", "adding '%s' gave '%s'", x->GetName(), r.c_str());
      all = mb;
      all.insert(all.end(), md.begin(), md.end());
      same(base, mb, "collection"), same(del, all, "delegating collection"), same(own, mo, "owning collection");
      if ((int)(pool.size() + mo.size()) != alive)
        fail("ownership", "%d elements are alive instead of %d", alive, (int)(pool.size() + mo.size()));
    }
  }
  if (alive)
    fail("ownership", "%d elements are left", alive);
}

// ---------------------------------------------------------------- containers and references
struct Iface {
  virtual ~Iface() = default;
};
int children;
struct Kid : Xsmp::Model, virtual Iface {
  std::function<void()> onDelete;
  Kid(const char *n, Smp::IComposite *p) : Xsmp::Model(n, "", p) { ++children; }
  ~Kid() override {
    --children;
    if (auto f = std::move(onDelete))
      f();
  }
};
struct Other : Xsmp::Model {
  using Xsmp::Model::Model;
};
struct Home : Xsmp::Component, virtual Xsmp::Composite, virtual Xsmp::Aggregate {
  using Xsmp::Component::Component;
};
void containers() {
  children = 0;
  {
    Home home{"home"}, elsewhere{"elsewhere"};
    i64 lo[2], up[2];
    for (int i = 0; i < 2; ++i)
      lo[i] = rnd(3), up[i] = rnd(3) ? lo[i] + (i64)rnd(4) + (i == 0) : -1;
    Xsmp::Reference<Iface> ref{"ref", "", &home, lo[1], up[1]};
    std::vector<Kid *> mc, mr;
    std::vector<std::unique_ptr<Kid>> spare;
    bool closing = false;
    {
      Xsmp::Container<Iface> c{"c", "", &home, lo[0], up[0]};
      Other wrong{"w", "", &home};
      auto judgeC = [&] {
        if ((size_t)c.GetCount() != mc.size() || c.size() != mc.size() || c.empty() != mc.empty() || c.GetComponents()->size() != mc.size())
          fail("value", "the container has %d components instead of %d", (int)c.GetCount(), (int)mc.size());
        size_t i = 0;
        for (auto *x : *c.GetComponents()) {
          if (i >= mc.size() || x != mc[i])
            fail("iteration", "component %d of the container is another one", (int)i);
          ++i;
        }
        for (i = 0; i < mc.size() + 2; ++i)
          if (c.GetComponent(i) != (i < mc.size() ? mc[i] : nullptr))
            fail("lookup", "component %d of the container is another one", (int)i);
        for (const char *n : {"a", "b", "c", "d"}) {
          Kid *f = nullptr;
          for (auto *x : mc)
            if (!f && !strcmp(x->GetName(), n))
              f = x;
          if (c.GetComponent(n) != f || c.GetComponents()->at(n) != f || (c.find(n) != c.end()) != (f != nullptr))
            fail("lookup", "looking up '%s' in the container finds another component", n);
        }
        if (c.GetComponent(static_cast<Smp::String8>(nullptr)))
          fail("lookup", "looking up no name finds a component");
      };
      auto judgeR = [&] {
        if ((size_t)ref.GetCount() != mr.size() || ref.GetComponents()->size() != mr.size())
          fail("value", "the reference has %d components instead of %d", (int)ref.GetCount(), (int)mr.size());
        size_t i = 0;
        for (auto *x : *ref.GetComponents()) {
          if (i >= mr.size() || x != mr[i])
            fail("iteration", "component %d of the reference is another one", (int)i);
          ++i;
        }
        for (i = 0; i < mr.size() + 2; ++i)
          if (ref.GetComponent(i) != (i < mr.size() ? mr[i] : nullptr))
            fail("lookup", "component %d of the reference is another one", (int)i);
        for (const char *n : {"a", "b", "c", "d"}) {
          Kid *f = nullptr;
          for (auto *x : mr)
            if (!f && !strcmp(x->GetName(), n))
              f = x;
          if (ref.GetComponent(n) != f)
            fail("lookup", "looking up '%s' in the reference finds another component", n);
        }
      };
      std::function<void(int, int)> drop = [&](int i, int depth) { // delete a component; perhaps it takes a sibling with it
        Kid *x = mc[i];
        bool ok = (i64)mc.size() > lo[0];
        int before = children;
        if (ok) {
          mr.erase(std::remove(mr.begin(), mr.end(), x), mr.end());
          while (!ref.empty() && ref.find(static_cast<Iface *>(x)) != ref.end() && (i64)ref.size() > lo[1])
            ref.RemoveComponent(x);
          if (ref.find(static_cast<Iface *>(x)) != ref.end()) {
            for (auto *p : ref)
              if (p == static_cast<Iface *>(x))
                mr.push_back(x); // cannot be taken out: leave it alone
            std::vector<Kid *> order;
            for (auto *p : ref)
              order.push_back(dynamic_cast<Kid *>(p));
            mr = order;
            return;
          }
        }
        auto r = outcome([&] { c.DeleteComponent(x); });
        if (r != (ok ? "" : "Smp:CannotDelete"))
          fail("wrong-result", "deleting one of %d components (at least %d) gave '%s'", (int)mc.size(), (int)lo[0], r.c_str());
        if (ok) {
          mc.erase(std::find(mc.begin(), mc.end(), x));
          if (depth == 0 && children >= before)
            fail("ownership", "a deleted component lives on");
        }
      };
      int n = 5 + (int)rnd(30);
      for (int k = 0; k < n; ++k) {
        int op = newOp(), kind = (int)rnd(12);
        size_t i = rnd(6);
        const char *name = (const char *[]){"a", "b", "c", "d"}[rnd(4)];
        bool nested = chance(20), failed = false;
        if (!keep(op))
          continue;
        log("op %d: %d %d %s", k, kind, (int)i, name);
        switch (kind) {
        case 0: case 1: case 2: case 3: {
          bool foreign = rnd(8) == 0;
          auto *x = new Kid(name, foreign ? &elsewhere : &home);
          bool full = up[0] >= 0 && (i64)mc.size() >= up[0];
          bool dup = std::any_of(mc.begin(), mc.end(), [&](Kid *y) { return !strcmp(y->GetName(), name); });
          auto r = withMem([&] { c.AddComponent(x); }, failed);
          bool good = !full && !dup && !foreign;
          if (failed && !r.empty())
            countFault("failed allocation");
          else if (r.empty() != good || (r == "Smp:ContainerFull" && !full) || (r == "Smp:DuplicateName" && !dup) || (r == "Smp:InvalidParent" && !foreign) || (!good && !full && !dup && r != "Smp:InvalidParent"))
            fail("wrong-result", "adding '%s' gave '%s'", name, r.c_str());
          if (r.empty()) {
            mc.push_back(x);
            probe("added");
            if (nested)
              x->onDelete = [&, x] {
                if (closing)
                  return;
                for (size_t s = 0; s < mc.size(); ++s)
                  if (mc[s] != x && !mc[s]->onDelete && (i64)mc.size() > lo[0] && std::find(mr.begin(), mr.end(), mc[s]) == mr.end()) {
                    Kid *y = mc[s];
                    c.DeleteComponent(y);
                    mc.erase(std::find(mc.begin(), mc.end(), y));
                    probe("deleted by a sibling");
                    break;
                  }
              };
          } else
            delete x;
          break;
        }
        case 4: case 5:
          if (i < mc.size())
            drop((int)i, 0);
          else {
            Kid stranger{"a", &home};
            auto r = outcome([&] { c.DeleteComponent(&stranger); });
            if (r != "Smp:NotContained")
              fail("wrong-result", "deleting a component that is not contained gave '%s'", r.c_str());
          }
          break;
        case 6: {
          auto r = outcome([&] { rnd(2) ? c.AddComponent(&wrong) : ref.AddComponent(&wrong); });
          bool full = (up[0] >= 0 && (i64)mc.size() >= up[0]) || (up[1] >= 0 && (i64)mr.size() >= up[1]);
          if (r != "Smp:InvalidObjectType" && !(full && (r == "Smp:ContainerFull" || r == "Smp:ReferenceFull")))
            fail("wrong-result", "adding a component of another type gave '%s'", r.c_str());
          break;
        }
        case 7: case 8: case 9:
          if (i < mc.size()) {
            bool full = up[1] >= 0 && (i64)mr.size() >= up[1];
            auto r = withMem([&] { ref.AddComponent(mc[i]); }, failed);
            if (failed && !r.empty())
              countFault("failed allocation");
            else if (r != (full ? "Smp:ReferenceFull" : ""))
              fail("wrong-result", "referencing a component gave '%s' (%d of %d)", r.c_str(), (int)mr.size(), (int)up[1]);
            if (r.empty())
              mr.push_back(mc[i]);
          }
          break;
        default:
          if (i < mc.size()) {
            auto it = std::find(mr.begin(), mr.end(), mc[i]);
            bool in = it != mr.end(), ok = in && (i64)mr.size() > lo[1];
            auto r = withMem([&] { ref.RemoveComponent(mc[i]); }, failed);
            if (failed && !r.empty())
              countFault("failed allocation");
            else if (r != (ok ? "" : in ? "Smp:CannotRemove" : "Smp:NotReferenced"))
              fail("wrong-result", "removing a referenced component gave '%s'", r.c_str());
            if (r.empty())
              mr.erase(it);
          }
        }
        judgeC(), judgeR();
        if (children != (int)mc.size())
          fail("ownership", "%d components are alive instead of %d", children, (int)mc.size());
      }
      closing = true;
    }
    if (children)
      fail("ownership", "%d components survive their container", children);
  }
}

// concurrent readers of the same values
void readers() {
  static const char *txt = "shared text";
  cstring c(txt);
  Xsmp::String<8> s(txt);
  AnySimple a(K::PTK_String8, txt);
  Item x("a"), y("b");
  alive = 0;
  Xsmp::Collection<Item> col{"col", "", nullptr};
  col.Add(&x), col.Add(&y);
  auto body = [&] {
    for (int k = 0; k < 3; ++k) {
      cstring d(c);
      AnySimple b(a);
      Xsmp::String<8> t(s);
      if (strcmp(d.c_str(), txt) || !(b == a) || !(t == s) || col.at("b") != &y || col.size() != 2 || s.find('t') != std::string_view("shared t").find('t'))
        fail("value", "a concurrent reader saw another value");
      yield();
    }
  };
  int t1 = spawn(body), t2 = spawn(body);
  body();
  join(t1), join(t2);
}
} // namespace
} // namespace wl

void wl_values() {
  using namespace wl;
  switch (rnd(9)) {
  case 0: case 1: cstrings(); break;
  case 2: case 3: case 4: strings(); break;
  case 5: case 6: case 7: anys(); break;
  default: readers();
  }
  finishOk();
}
void wl_colls() {
  using namespace wl;
  switch (rnd(6)) {
  case 0:
    if (rnd(2))
      arrays<int, 3>([] { return (int)rnd(3); });
    else
      arrays<Xsmp::String<4>, 2>([] { return Xsmp::String<4>(word(3)); });
    break;
  case 1: case 2: rnd(2) ? collections<false>() : collections<true>(); break;
  default: containers();
  }
  finishOk();
}
