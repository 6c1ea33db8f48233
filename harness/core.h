// Core of the property-based testing harness: choice source, case context,
// bit writer and reference byte-level models. No dependency on h265nal.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h;
}

// When set, choices are mirrored into shared memory so that the choices of a
// case that kills the process are known. [0] is the count.
struct ChoiceMirror {
  uint64_t* mem = nullptr;
  size_t cap = 0;
};
inline ChoiceMirror& choice_mirror() {
  static ChoiceMirror m;
  return m;
}

// ---------------------------------------------------------------- choices
// Every random decision is one choice u(lo, hi), recorded as an offset from
// lo (0 is the simplest value). A case is a pure function of its choices.
class Src {
 public:
  enum Mode { RANDOM, REPLAY, BYTES };
  explicit Src(uint64_t seed) : mode_(RANDOM), st_(seed) {}
  explicit Src(const std::vector<uint64_t>& list) : mode_(REPLAY), list_(list) {}
  Src(const uint8_t* p, size_t n) : mode_(BYTES), p_(p), n_(n) {}

  uint64_t u(uint64_t lo, uint64_t hi) {
    if (hi < lo) hi = lo;
    uint64_t range = hi - lo;  // inclusive width
    uint64_t off = 0;
    if (range != 0) {
      if (mode_ == RANDOM)
        off = biased(range);
      else if (mode_ == REPLAY)
        off = pos_ < list_.size() ? clampmod(list_[pos_], range) : 0;
      else
        off = frombytes(range);
    }
    pos_++;
    note(off);
    return lo + off;
  }
  // uniform choice
  uint64_t uni(uint64_t lo, uint64_t hi) {
    if (hi < lo) hi = lo;
    if (mode_ != RANDOM) return u(lo, hi);
    uint64_t range = hi - lo;
    uint64_t off = range == UINT64_MAX ? raw() : raw() % (range + 1);
    pos_++;
    note(off);
    return lo + off;
  }
  int64_t s(int64_t lo, int64_t hi) {
    // simplest value is 0 when in range
    if (lo <= 0 && hi >= 0) {
      uint64_t pos = (uint64_t)hi, neg = (uint64_t)(-lo);
      if (flag()) {
        if (neg == 0) return 0;
        return -(int64_t)u(1, neg);
      }
      return (int64_t)u(0, pos);
    }
    return lo + (int64_t)u(0, (uint64_t)(hi - lo));
  }
  bool flag() { return uni(0, 1) != 0; }
  // pick an element of a list
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[uni(0, v.size() - 1)];
  }
  // true with probability num/den; simplest is false
  bool chance(unsigned num, unsigned den) {
    if (mode_ == RANDOM) {
      bool b = raw() % den < num;
      pos_++;
      note(b ? 1 : 0);
      return b;
    }
    return u(0, 1) != 0;
  }
  const std::vector<uint64_t>& record() const { return rec_; }
  // choices of a secondary source are not part of the case
  void mute() { mute_ = true; }
  size_t used() const { return pos_; }

 private:
  void note(uint64_t off) {
    rec_.push_back(off);
    if (mute_) return;
    ChoiceMirror& m = choice_mirror();
    if (m.mem && m.mem[0] + 1 < m.cap) {
      m.mem[m.mem[0] + 1] = off;
      m.mem[0]++;
    }
  }
  uint64_t raw() { return splitmix(st_); }
  static uint64_t clampmod(uint64_t v, uint64_t range) {
    return range == UINT64_MAX ? v : v % (range + 1);
  }
  uint64_t biased(uint64_t range) {
    uint64_t r = raw();
    if (range <= 16) return r % (range + 1);
    uint64_t k = r & 63;
    r >>= 6;
    if (k < 18) return range == UINT64_MAX ? raw() : raw() % (range + 1);
    if (k < 34) {  // small
      uint64_t m = raw() % 5;
      return raw() % (range < (1ull << (m + 1)) ? range + 1 : (1ull << (m + 1)));
    }
    if (k < 50) {  // log-uniform
      int bits = 64 - __builtin_clzll(range);
      int b = (int)(raw() % (unsigned)bits) + 1;
      uint64_t v = raw();
      if (b < 64) v &= (1ull << b) - 1;
      return v > range ? range : v;
    }
    if (k < 56) {  // near the top
      uint64_t d = raw() % 4;
      return range - (d > range ? range : d);
    }
    // powers of two +- 1
    int bits = 64 - __builtin_clzll(range);
    uint64_t v = 1ull << (raw() % (unsigned)bits);
    uint64_t d = raw() % 3;
    v = v + d - 1;
    return v > range ? range : v;
  }
  uint64_t frombytes(uint64_t range) {
    unsigned nb = range <= 0xff ? 1 : range <= 0xffff ? 2 : range <= 0xffffffffull ? 4 : 8;
    uint64_t v = 0;
    for (unsigned i = 0; i < nb; i++) {
      uint8_t b = off_ < n_ ? p_[off_] : 0;
      if (off_ < n_) off_++;
      v |= (uint64_t)b << (8 * i);
    }
    return clampmod(v, range);
  }
  Mode mode_;
  uint64_t st_ = 0;
  std::vector<uint64_t> list_;
  const uint8_t* p_ = nullptr;
  size_t n_ = 0, off_ = 0;
  size_t pos_ = 0;
  bool mute_ = false;
  std::vector<uint64_t> rec_;
};

// ---------------------------------------------------------------- context
struct PropFail {
  std::string msg;
};

struct Ctx {
  // classification
  std::map<std::string, uint64_t> tags;
  bool nontrivial = false;
  uint64_t sig = 1469598103934665603ull;  // hash of the generated input
  std::string sample;                     // short description of this case
  std::string input_desc;                 // details for a failure report
  bool want_sample = false;

  void tag(const char* t) { tags[t]++; }
  void input(const Bytes& b) { sig = fnv(b.data(), b.size(), sig); }
  void input(const std::string& b) { sig = fnv(b.data(), b.size(), sig); }
  void input(uint64_t v) { sig = fnv(&v, 8, sig); }
  [[noreturn]] void fail(const std::string& m) { throw PropFail{m}; }
  void check(bool ok, const std::string& m) {
    if (!ok) fail(m);
  }
};
#define CHECK(c, cond, msg) \
  do {                      \
    if (!(cond)) (c).fail(msg); \
  } while (0)

typedef void (*PropFn)(Src&, Ctx&);
struct Prop {
  const char* id;
  const char* part;
  PropFn fn;
  uint64_t quick_cases;  // total over all workers
  const char* rule;      // what counts as a non-trivial case
};
std::vector<Prop>& registry();
struct Reg {
  Reg(const char* id, const char* part, PropFn fn, uint64_t cases, const char* rule) {
    registry().push_back(Prop{id, part, fn, cases, rule});
  }
};
#define PROP(id, part, cases, rule)                                    \
  static void prop_##id##_##part(pbt::Src&, pbt::Ctx&);                \
  static pbt::Reg reg_##id##_##part(#id, #part, prop_##id##_##part, cases, rule); \
  static void prop_##id##_##part(pbt::Src& s, pbt::Ctx& c)

// ---------------------------------------------------------------- text
inline std::string hex(const uint8_t* p, size_t n, size_t max = 400) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < n && i < max; i++) {
    o += d[p[i] >> 4];
    o += d[p[i] & 15];
  }
  if (n > max) o += "...(" + std::to_string(n) + " bytes)";
  return o;
}
inline std::string hex(const Bytes& b, size_t max = 400) { return hex(b.data(), b.size(), max); }

template <class... A>
std::string fmt(const char* f, A... a) {
  char b[1024];
  snprintf(b, sizeof b, f, a...);
  return b;
}

// ---------------------------------------------------------------- bits
// While active, one written element in `den` gets another value, so that the
// bits no longer say what the generator meant.
struct Hostile {
  size_t max_bits = 0;
  Src* s = nullptr;
  unsigned den = 0;
  unsigned hits = 0;
  bool hit() {
    if (!s || !s->chance(1, den)) return false;
    hits++;
    return true;
  }
  uint64_t extreme(unsigned bits) {
    uint64_t top = bits >= 64 ? UINT64_MAX : (1ull << bits) - 1;
    switch (s->uni(0, 4)) {
      case 0: return top - s->uni(0, 2);
      case 1: return (top >> 1) + s->uni(0, 2);
      case 2: return s->uni(0, 70);
      case 3: return 1ull << s->uni(0, bits >= 64 ? 63 : bits);
      default: return s->uni(0, top);
    }
  }
};
inline Hostile& hostile() {
  static thread_local Hostile h;
  return h;
}

// the generator follows extreme values only so far
struct TooLong {};

class BitW {
 public:
  void u(unsigned n, uint64_t v) {
    if (n > 0 && hostile().s && hostile().hit()) v = n == 1 ? !v : hostile().extreme(n);
    put(n, v);
  }
  void put(unsigned n, uint64_t v) {
    for (unsigned i = n; i-- > 0;) bit((v >> i) & 1);
  }
  void bit(unsigned b) {
    if (hostile().max_bits && nbits_ >= hostile().max_bits) throw TooLong();
    if ((nbits_ & 7) == 0) out_.push_back(0);
    if (b && !blank_) out_.back() |= (uint8_t)(0x80 >> (nbits_ & 7));
    nbits_++;
  }
  // Section 9.2: codeNum coded as leading zeros, 1, suffix
  void ue(uint64_t v) {
    v += (uint64_t)add;
    add = 0;
    if (hostile().s && hostile().hit()) v = hostile().extreme((unsigned)hostile().s->uni(1, 33)) & 0x1ffffffffull;
    if (codes++ == bad_code) {
      put(bad_zeros, 0);
      blank_ = bad_to_end;
    }
    uint64_t x = v + 1;
    unsigned len = 64 - (unsigned)__builtin_clzll(x);
    put(len - 1, 0);
    put(len, x);
  }
  void se(int64_t v) {
    v += add;
    add = 0;
    ue(v > 0 ? (uint64_t)(2 * v - 1) : (uint64_t)(-2 * v));
  }
  size_t bits() const { return nbits_; }
  bool aligned() const { return (nbits_ & 7) == 0; }
  void trailing() {
    bit(1);
    while (!aligned()) bit(0);
  }
  void align0() {
    while (!aligned()) bit(0);
  }
  const Bytes& bytes() const { return out_; }
  Bytes& bytes() { return out_; }
  // Exp-Golomb codes written; the code to put zeros before (32 make it longer
  // than any code of 32 bits), or to have nothing but zeros after
  int64_t add = 0;  // added to the next Exp-Golomb value
  long codes = 0, bad_code = -1;
  unsigned bad_zeros = 0;
  bool bad_to_end = false;

 private:
  bool blank_ = false;
  Bytes out_;
  size_t nbits_ = 0;
};

// Standard emulation prevention (7.4.2): insert 03 before a byte <= 3 that
// follows two zero bytes; a trailing 00 00 also gets a final 03.
inline Bytes escape_rbsp(const Bytes& in) {
  Bytes o;
  int zeros = 0;
  for (uint8_t b : in) {
    if (zeros >= 2 && b <= 3) {
      o.push_back(3);
      zeros = 0;
    }
    o.push_back(b);
    zeros = b == 0 ? zeros + 1 : 0;
  }
  // 7.4.2: after a final cabac_zero_word (00 00) a 0x03 is appended.
  if (zeros >= 2) o.push_back(3);
  return o;
}
// Reference removal, written as an explicit state machine.
inline Bytes unescape_ref(const Bytes& in) {
  Bytes o;
  int zeros = 0;
  for (uint8_t b : in) {
    if (zeros >= 2 && b == 3) {
      zeros = 0;
      continue;
    }
    o.push_back(b);
    zeros = b == 0 ? zeros + 1 : 0;
  }
  return o;
}

inline unsigned ceil_log2(uint64_t n) {
  unsigned k = 0;
  while ((1ull << k) < n) k++;
  return k;
}

// first differing line with its brace path
inline std::string diff_text(const std::string& exp, const std::string& got) {
  std::vector<std::string> path;
  size_t i = 0, j = 0;
  while (i < exp.size() || j < got.size()) {
    size_t e = exp.find('\n', i), g = got.find('\n', j);
    std::string le = i < exp.size() ? exp.substr(i, e - i) : "<end>";
    std::string lg = j < got.size() ? got.substr(j, g - j) : "<end>";
    if (le != lg) {
      std::string p;
      for (auto& x : path) p += x + "/";
      if (le.size() > 300) le = le.substr(0, 300) + "...";
      if (lg.size() > 300) lg = lg.substr(0, 300) + "...";
      return "at " + p + ": expected [" + le + "] got [" + lg + "]";
    }
    if (!le.empty() && le.back() == '{') path.push_back(le.substr(0, le.size() - 2));
    if (le == "}" && !path.empty()) path.pop_back();
    i = e == std::string::npos ? exp.size() : e + 1;
    j = g == std::string::npos ? got.size() : g + 1;
  }
  return "texts equal";
}

}  // namespace pbt
