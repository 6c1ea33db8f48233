// C02 bit reader, C03 bit writer, C04 emulation prevention.
#include <sys/mman.h>

#include "stream.h"
using namespace h265nal;

namespace {

struct BitModel {
  Bytes b;
  uint64_t pos = 0;
  uint64_t total() const { return (uint64_t)b.size() * 8; }
  unsigned at(uint64_t i) const { return (b[i / 8] >> (7 - i % 8)) & 1; }
  void set(uint64_t i, unsigned v) {
    uint8_t m = (uint8_t)(0x80 >> (i % 8));
    b[i / 8] = (uint8_t)(v ? b[i / 8] | m : b[i / 8] & ~m);
  }
  uint64_t get(uint64_t i, unsigned n) const {
    uint64_t v = 0;
    for (unsigned k = 0; k < n; k++) v = v << 1 | at(i + k);
    return v;
  }
  uint64_t left() const { return total() - pos; }
};

// Bytes that look like what the parsers read: random, zero runs, Exp-Golomb
Bytes gen_buffer(Src& s, size_t max) {
  Bytes b;
  size_t n = (size_t)s.u(0, max);
  unsigned kind = (unsigned)s.uni(0, 3);
  if (kind == 0) {
    for (size_t i = 0; i < n; i++) b.push_back((uint8_t)s.uni(0, 255));
  } else if (kind == 1) {
    for (size_t i = 0; i < n; i++) b.push_back(s.chance(1, 3) ? (uint8_t)s.uni(0, 255) : 0);
  } else if (kind == 2) {
    pbt::BitW w;
    while (w.bits() < n * 8) {
      if (s.flag())
        w.ue(s.u(0, kUeMax));
      else
        w.u((unsigned)s.uni(1, 8), s.uni(0, 255));
    }
    b = w.bytes();
    b.resize(n);
  } else {
    for (size_t i = 0; i < n; i++) b.push_back(s.chance(1, 6) ? (uint8_t)s.uni(0, 255) : 0xff);
  }
  return b;
}

}  // namespace

PROP(C02, reader, 300000, "buffer and operation sequence; non-trivial when an operation starts off a byte boundary") {
  Bytes data = s.chance(1, 200) ? long_bytes(s, 70000) : gen_buffer(s, 64);
  Exact x(data);
  BitModel m;
  m.b = data;
  BitBuffer b(x.p.get(), x.n);
  c.input(data);
  if (data.size() > 64) c.tag("long buffer");
  std::string log;
  unsigned ops = (unsigned)s.uni(1, 30);
  for (unsigned k = 0; k < ops; k++) {
    if (m.pos % 8) c.nontrivial = true;
    unsigned op = (unsigned)s.uni(0, 13);
    std::string d;
    bool want = false, got = false;
    uint64_t wv = 0, gv = 0, npos = m.pos;
    bool cmp = true;
    switch (op) {
      case 0: case 1: case 2: {
        static const unsigned w[] = {8, 16, 32};
        unsigned n = w[op];
        d = fmt("ReadUInt%u", n);
        want = m.left() >= n;
        uint8_t v8 = 0; uint16_t v16 = 0; uint32_t v32 = 0;
        got = op == 0 ? b.ReadUInt8(v8) : op == 1 ? b.ReadUInt16(v16) : b.ReadUInt32(v32);
        gv = op == 0 ? v8 : op == 1 ? v16 : v32;
        if (want) { wv = m.get(m.pos, n); npos += n; }
        break;
      }
      case 3: case 4: case 5: case 6: {
        bool wide = op == 4 || op == 6, peek = op >= 5;
        unsigned n = (unsigned)s.uni(1, s.chance(1, 8) ? 80 : wide ? 64 : 32);
        d = fmt("%s%u(%u)", peek ? "Peek" : "Read", wide ? 64 : 32, n);
        want = m.left() >= n && n <= (wide ? 64u : 32u);
        uint32_t a = 0; uint64_t e = 0;
        if (peek)
          got = wide ? b.PeekBits(n, e) : b.PeekBits(n, a);
        else
          got = wide ? b.ReadBits(n, e) : b.ReadBits(n, a);
        gv = wide ? e : a;
        if (want) { wv = m.get(m.pos, n); if (!peek) npos += n; }
        break;
      }
      case 7: {
        d = "ReadExponentialGolomb";
        uint64_t z = 0;
        while (z < m.left() && !m.at(m.pos + z)) z++;
        want = z < 32 && m.left() >= 2 * z + 1;
        uint32_t v = 0;
        got = b.ReadExponentialGolomb(v);
        gv = v;
        if (want) { wv = m.get(m.pos + z, (unsigned)z + 1) - 1; npos += 2 * z + 1; }
        break;
      }
      case 8: {
        d = "ReadSignedExponentialGolomb";
        uint64_t z = 0;
        while (z < m.left() && !m.at(m.pos + z)) z++;
        want = z < 32 && m.left() >= 2 * z + 1;
        int32_t v = 0;
        got = b.ReadSignedExponentialGolomb(v);
        gv = (uint64_t)(int64_t)v;
        if (want) {
          int64_t kk = (int64_t)(m.get(m.pos + z, (unsigned)z + 1) - 1);
          wv = (uint64_t)(kk % 2 ? (kk + 1) / 2 : -(kk / 2));
          npos += 2 * z + 1;
        }
        break;
      }
      case 9: {
        uint32_t nv = (uint32_t)s.u(2, 1u << 31);
        d = fmt("ReadNonSymmetric(%u)", nv);
        unsigned cb = 0;
        while ((uint64_t)nv >> cb) cb++;
        uint64_t kmin = (1ull << cb) - nv;
        uint32_t v = 0;
        got = b.ReadNonSymmetric(nv, v);
        gv = v;
        if (m.left() >= cb - 1) {
          uint64_t a = m.get(m.pos, cb - 1);
          if (a < kmin) {
            want = true; wv = a; npos += cb - 1;
          } else if (m.left() >= cb) {
            want = true; wv = m.get(m.pos, cb) - kmin; npos += cb;
          } else {
            cmp = false;  // position after a failed two-part read is open
          }
        }
        break;
      }
      case 10: {
        uint64_t n = s.u(0, s.flag() ? 20 : 600);
        d = fmt("ConsumeBits(%llu)", (unsigned long long)n);
        want = n <= m.left();
        got = b.ConsumeBits(n);
        if (want) npos += n;
        break;
      }
      case 11: {
        uint64_t n = s.chance(1, 10) ? s.u(0, UINT64_MAX) : s.u(0, 20);
        d = fmt("ConsumeBytes(%llu)", (unsigned long long)n);
        want = n <= m.left() / 8;
        got = b.ConsumeBytes((size_t)n);
        if (want) npos += n * 8;
        break;
      }
      case 12: {
        uint64_t by = s.u(0, data.size() + 2), bi = s.u(0, 9);
        d = fmt("Seek(%llu,%llu)", (unsigned long long)by, (unsigned long long)bi);
        want = bi <= 7 && by * 8 + bi <= m.total();
        got = b.Seek((size_t)by, (size_t)bi);
        if (want) npos = by * 8 + bi;
        break;
      }
      default: {
        size_t n = (size_t)s.u(0, 12);
        d = fmt("ReadBytes(%zu)", n);
        want = m.left() >= n * 8;
        Bytes o(n + 1, 0xA5);
        got = b.ReadBytes(n, o.data());
        CHECK(c, o[n] == 0xA5, log + d + ": wrote past the requested bytes");
        if (want) {
          for (size_t i = 0; i < n; i++)
            CHECK(c, o[i] == m.get(m.pos + 8 * i, 8), log + d + ": wrong byte");
          npos += n * 8;
        } else {
          cmp = false;
        }
        break;
      }
    }
    log += d + " ";
    c.input(d);
    if (c.want_sample) c.sample = c.input_desc = "buffer " + pbt::hex(data) + " ops " + log;
    CHECK(c, got == want, log + fmt(": %s instead of %s", got ? "succeeded" : "failed", want ? "success" : "failure"));
    if (want) CHECK(c, gv == wv, log + fmt(": value %lld instead of %lld", (long long)gv, (long long)wv));
    if (!cmp) {
      // resynchronise the model after an operation that may stop anywhere
      uint64_t p = bit_pos(b);
      CHECK(c, p >= m.pos && p <= m.total(), log + ": position out of range");
      npos = p;
    }
    m.pos = npos;
    CHECK(c, bit_pos(b) == m.pos, log + fmt(": position %llu instead of %llu", (unsigned long long)bit_pos(b), (unsigned long long)m.pos));
    CHECK(c, b.RemainingBitCount() == m.left(), log + fmt(": %llu bits remain instead of %llu", (unsigned long long)b.RemainingBitCount(), (unsigned long long)m.left()));
  }
}

// buffers whose bit count does not fit in 32 bits: mostly untouched zero pages
PROP(C02, huge, 2000, "operations in buffers of up to 2^32 - 1 bytes; non-trivial above 2^29 bytes") {
  static uint8_t* base = nullptr;
  const size_t kMax = UINT32_MAX;
  if (!base) {
    void* p = mmap(nullptr, kMax, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;  // nothing explored: trivial case
    base = (uint8_t*)p;
  }
  size_t n = s.flag() ? (size_t)s.u(64, kMax) : (size_t)((1ull << s.uni(28, 31)) + s.uni(0, 64));
  struct Island {
    size_t at, n;
  };
  std::vector<Island> isles;
  for (unsigned i = (unsigned)s.uni(1, 3); i > 0; i--) {
    size_t at = s.chance(1, 3) ? n - 40 : s.flag() ? (size_t)s.uni(0, n - 40) : (size_t)s.u(0, n - 40);
    if (s.flag() && n > (1u << 29) + 100) at = (1u << 29) - 20 + (size_t)s.uni(0, 20);
    for (size_t k = 0; k < 40; k++) base[at + k] = (uint8_t)s.uni(0, 255);
    isles.push_back({at, 40});
  }
  const uint8_t* cb = base;
  auto bits = [&](uint64_t pos, unsigned k) {
    uint64_t v = 0;
    for (unsigned i = 0; i < k; i++) v = v << 1 | ((cb[(pos + i) / 8] >> (7 - (pos + i) % 8)) & 1);
    return v;
  };
  BitBuffer b(base, n);
  uint64_t pos = 0, total = (uint64_t)n * 8;
  std::string log = fmt("buffer of %zu bytes: ", n), bad;
  auto check = [&](bool ok, const std::string& d) {
    log += d + " ";
    if (!ok && bad.empty()) bad = log + ": wrong result";
    if (bad.empty() && b.RemainingBitCount() != total - pos)
      bad = log + fmt(": %llu bits remain instead of %llu", (unsigned long long)b.RemainingBitCount(), (unsigned long long)(total - pos));
    if (bad.empty() && bit_pos(b) != pos) bad = log + fmt(": position %llu instead of %llu", (unsigned long long)bit_pos(b), (unsigned long long)pos);
  };
  check(true, "start");
  for (unsigned k = (unsigned)s.uni(1, 12); k > 0 && bad.empty(); k--) {
    auto& is = isles[s.uni(0, isles.size() - 1)];
    switch (s.uni(0, 4)) {
      case 0: {
        size_t by = is.at + (size_t)s.uni(0, 40), bi = by < n ? (size_t)s.uni(0, 7) : 0;
        pos = by * 8ull + bi;
        check(b.Seek(by, bi), fmt("Seek(%zu,%zu)", by, bi));
        break;
      }
      case 1: {
        unsigned w = (unsigned)s.uni(1, 64);
        uint64_t v = 0;
        bool want = total - pos >= w;
        uint64_t e = want ? bits(pos, w) : 0;
        bool got = s.flag() ? b.PeekBits(w, v) : (pos += want ? w : 0, b.ReadBits(w, v));
        check(got == want && (!want || v == e), fmt("Bits(%u)", w));
        break;
      }
      case 2: {
        size_t by = (size_t)(s.flag() ? s.u(0, kMax) : s.uni(0, n));
        bool want = by <= (total - pos) / 8;
        if (want) pos += by * 8ull;
        check(b.ConsumeBytes(by) == want, fmt("ConsumeBytes(%zu)", by));
        break;
      }
      case 3: {
        uint64_t by = s.u(0, s.flag() ? total : UINT64_MAX);
        bool want = by <= total - pos;
        if (want) pos += by;
        check(b.ConsumeBits((size_t)by) == want, fmt("ConsumeBits(%llu)", (unsigned long long)by));
        break;
      }
      default: {
        uint64_t z = 0;
        while (z <= 32 && pos + z < total && !bits(pos + z, 1)) z++;
        if (z > 32 && total - pos > 400) break;  // it would walk through all the zeros
        bool want = z < 32 && total - pos >= 2 * z + 1;
        uint64_t e = want ? bits(pos + z, (unsigned)z + 1) - 1 : 0;
        if (want) pos += 2 * z + 1;
        uint32_t v = 0;
        bool got = b.ReadExponentialGolomb(v);
        check(got == want && (!want || v == e), "ReadExponentialGolomb");
        break;
      }
    }
  }
  for (auto& is : isles) {
    uintptr_t lo = (uintptr_t)(base + is.at) & ~(uintptr_t)4095;
    madvise((void*)lo, 8192, MADV_DONTNEED);
  }
  c.input(log);
  c.sample = c.input_desc = log;
  c.nontrivial = n > (1u << 29);
  CHECK(c, bad.empty(), bad);
}

// every Exp-Golomb value at every alignment
PROP(C02, golomb, 300000, "one ue(v)/se(v) code at any alignment followed by arbitrary bits; non-trivial above 8 value bits") {
  unsigned lead = (unsigned)s.uni(0, 7);
  uint64_t v = s.u(0, kUeMax);
  bool sg = s.flag();
  unsigned cut = (unsigned)s.uni(0, 3);
  pbt::BitW w;
  w.u(lead, s.uni(0, 127));
  w.ue(v);
  size_t end = w.bits();
  unsigned tail = (unsigned)s.uni(0, 70);
  for (unsigned i = 0; i < tail; i++) w.bit((unsigned)s.uni(0, 1));
  Bytes data = w.bytes();
  if (cut == 1 && end > 8) data.resize((end - 1) / 8);  // code incomplete
  bool complete = data.size() * 8 >= end;
  c.input(data);
  c.nontrivial = v > 255;
  Exact x(data);
  BitBuffer b(x.p.get(), x.n);
  if (!b.ConsumeBits(lead)) return;
  if (c.want_sample) c.sample = c.input_desc = fmt("bit %u of ", lead) + pbt::hex(data) + fmt(" value %llu signed %d", (unsigned long long)v, sg);
  uint32_t u = 0;
  int32_t i = 0;
  bool ok = sg ? b.ReadSignedExponentialGolomb(i) : b.ReadExponentialGolomb(u);
  CHECK(c, ok == complete, fmt("code %llu: %s", (unsigned long long)v, ok ? "read although incomplete" : "rejected"));
  if (!ok) {
    CHECK(c, bit_pos(b) == lead, "position moved by a failed Exp-Golomb read");
    return;
  }
  CHECK(c, bit_pos(b) == end, "wrong position after an Exp-Golomb read");
  int64_t se = v % 2 ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
  if (sg)
    CHECK(c, (int64_t)i == se, fmt("se(v) %d instead of %lld", i, (long long)se));
  else
    CHECK(c, u == v, fmt("ue(v) %u instead of %llu", u, (unsigned long long)v));
}

PROP(C03, writer, 300000, "initial buffer and write sequence; non-trivial when a write starts off a byte boundary") {
  Bytes data = gen_buffer(s, 48);
  BitModel m;
  m.b = data;
  Exact x(data);
  BitBufferWriter w(x.p.get(), x.n);
  c.input(data);
  std::string log;
  struct Op {
    unsigned kind;
    uint64_t v, n, at, len;
  };
  std::vector<Op> done;
  unsigned ops = (unsigned)s.uni(1, 20);
  for (unsigned k = 0; k < ops; k++) {
    if (m.pos % 8) c.nontrivial = true;
    Op o;
    o.kind = (unsigned)s.uni(0, 8);
    o.v = o.n = 0;
    o.at = m.pos;
    pbt::BitW enc;
    std::string d;
    bool ok = true, valid = true;
    switch (o.kind) {
      case 0: o.v = s.u(0, 0xff); enc.u(8, o.v); d = "WriteUInt8"; ok = w.WriteUInt8((uint8_t)o.v); break;
      case 1: o.v = s.u(0, 0xffff); enc.u(16, o.v); d = "WriteUInt16"; ok = w.WriteUInt16((uint16_t)o.v); break;
      case 2: o.v = s.u(0, kU32Max); enc.u(32, o.v); d = "WriteUInt32"; ok = w.WriteUInt32((uint32_t)o.v); break;
      case 3:
        o.n = s.uni(1, 64);
        o.v = s.u(0, UINT64_MAX);
        enc.u((unsigned)o.n, o.v);  // the low n bits
        d = fmt("WriteBits(%llx,%llu)", (unsigned long long)o.v, (unsigned long long)o.n);
        ok = w.WriteBits(o.v, (size_t)o.n);
        break;
      case 4: {
        o.n = s.u(2, 1u << 31);
        o.v = s.u(0, o.n - 1);
        unsigned cb = 0;
        while (o.n >> cb) cb++;
        uint64_t kmin = (1ull << cb) - o.n;
        if (o.v < kmin) enc.u(cb - 1, o.v); else enc.u(cb, o.v + kmin);
        d = fmt("WriteNonSymmetric(%llu,%llu)", (unsigned long long)o.v, (unsigned long long)o.n);
        CHECK(c, BitBufferWriter::SizeNonSymmetricBits((uint32_t)o.v, (uint32_t)o.n) == enc.bits(), d + ": announced size differs");
        ok = w.WriteNonSymmetric((uint32_t)o.v, (uint32_t)o.n);
        break;
      }
      case 5: {
        o.v = s.u(0, kU32Max);
        d = fmt("WriteExponentialGolomb(%llu)", (unsigned long long)o.v);
        valid = o.v != kU32Max;
        if (valid) enc.ue(o.v);
        ok = w.WriteExponentialGolomb((uint32_t)o.v);
        break;
      }
      case 6: {
        int64_t v = s.s(-2147483648ll, 2147483647ll);
        o.v = (uint64_t)v;
        d = fmt("WriteSignedExponentialGolomb(%lld)", (long long)v);
        valid = v != -2147483648ll;
        if (valid) enc.se(v);
        ok = w.WriteSignedExponentialGolomb((int32_t)v);
        break;
      }
      case 7: {
        uint64_t n = s.u(0, 20);
        d = fmt("ConsumeBits(%llu)", (unsigned long long)n);
        bool e = n <= m.left();
        CHECK(c, w.ConsumeBits((size_t)n) == e, log + d);
        if (e) m.pos += n;
        break;
      }
      default: {
        uint64_t by = s.u(0, data.size()), bi = s.uni(0, 7);
        d = fmt("Seek(%llu,%llu)", (unsigned long long)by, (unsigned long long)bi);
        bool e = by * 8 + bi <= m.total();
        CHECK(c, w.Seek((size_t)by, (size_t)bi) == e, log + d);
        if (e) m.pos = by * 8 + bi;
        done.clear();  // later writes may overwrite earlier ones
        break;
      }
    }
    log += d + " ";
    c.input(d);
    if (c.want_sample) c.sample = c.input_desc = "buffer " + pbt::hex(data) + " ops " + log;
    if (o.kind <= 6) {
      bool want = valid && enc.bits() <= m.left();
      CHECK(c, ok == want, log + (ok ? ": succeeded" : ": failed"));
      if (want) {
        for (size_t i = 0; i < enc.bits(); i++) m.set(m.pos + i, (enc.bytes()[i / 8] >> (7 - i % 8)) & 1);
        m.pos += enc.bits();
        o.len = enc.bits();
        done.push_back(o);
      }
    }
    CHECK(c, x.n == 0 || memcmp(x.p.get(), m.b.data(), x.n) == 0,
          log + ": buffer " + pbt::hex(x.p.get(), x.n) + " instead of " + pbt::hex(m.b));
    CHECK(c, bit_pos(w) == m.pos, log + ": wrong position");
    CHECK(c, w.RemainingBitCount() == m.left(), log + ": wrong remaining count");
  }
  // read back
  BitBuffer r(x.p.get(), x.n);
  for (auto& o : done) {
    CHECK(c, r.Seek((size_t)(o.at / 8), (size_t)(o.at % 8)), "seek");
    uint8_t a; uint16_t b; uint32_t d; uint64_t e; int32_t g;
    bool ok = false;
    uint64_t got = 0, want = o.v;
    switch (o.kind) {
      case 0: ok = r.ReadUInt8(a); got = a; break;
      case 1: ok = r.ReadUInt16(b); got = b; break;
      case 2: ok = r.ReadUInt32(d); got = d; break;
      case 3: ok = r.ReadBits((size_t)o.n, e); got = e; want = o.v & BITMAX((unsigned)o.n); break;
      case 4: ok = r.ReadNonSymmetric((uint32_t)o.n, d); got = d; break;
      case 5: ok = r.ReadExponentialGolomb(d); got = d; break;
      default: ok = r.ReadSignedExponentialGolomb(g); got = (uint64_t)(int64_t)g; break;
    }
    CHECK(c, ok && got == want, log + fmt(": read back %lld instead of %lld", (long long)got, (long long)want));
    CHECK(c, bit_pos(r) == o.at + o.len, log + ": read back a different length");
  }
}

static Bytes gen_rbsp_like(Src& s, size_t max) {
  Bytes b;
  size_t n = (size_t)s.u(0, max);
  unsigned kind = (unsigned)s.uni(0, 2);
  if (s.chance(1, 200)) {
    // zeros in a run as long as a narrow counter reaches
    static const unsigned near[] = {128, 256, 512, 1024};
    b.assign(near[s.uni(0, 3)] + s.uni(0, 4) - 2, 0);
    b.push_back((uint8_t)s.uni(1, 3));
  }
  for (size_t i = 0; i < n; i++) {
    if (kind == 0) b.push_back((uint8_t)s.uni(0, 3));
    else if (kind == 1) b.push_back(s.chance(1, 5) ? (uint8_t)s.uni(1, 4) : 0);
    else b.push_back(s.chance(1, 2) ? 0 : (uint8_t)s.uni(0, 255));
  }
  return b;
}

PROP(C04, bytes, 300000, "byte strings dense in 00..03; non-trivial when something is escaped") {
  Bytes b = gen_rbsp_like(s, 200);
  Exact x(b);
  c.input(b);
  Bytes esc = pbt::escape_rbsp(b);
  c.nontrivial = esc.size() != b.size();
  if (c.want_sample) c.sample = c.input_desc = "payload " + pbt::hex(b) + " escaped " + pbt::hex(esc);
  Bytes got = UnescapeRbsp(x.p.get(), x.n), want = pbt::unescape_ref(b);
  CHECK(c, got == want, "UnescapeRbsp gives " + pbt::hex(got) + " instead of " + pbt::hex(want));
  Exact y(esc);
  got = UnescapeRbsp(y.p.get(), y.n);
  CHECK(c, got == b, "escape/unescape gives " + pbt::hex(got));
  if (want.size() != b.size()) c.tag("removes");
}
PROP(C04, long, 4000, "byte strings of up to 200000 bytes; non-trivial when something is escaped") {
  Bytes b = long_bytes(s, 200000);
  Exact x(b);
  c.input(b);
  Bytes esc = pbt::escape_rbsp(b);
  c.nontrivial = esc.size() != b.size();
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu bytes, starting with ", b.size()) + pbt::hex(b, 100);
  CHECK(c, UnescapeRbsp(x.p.get(), x.n) == pbt::unescape_ref(b), fmt("UnescapeRbsp of %zu bytes", b.size()));
  Exact y(esc);
  CHECK(c, UnescapeRbsp(y.p.get(), y.n) == b, fmt("escape/unescape of %zu bytes", b.size()));
}
PROP(C04, structures, 20000, "structures of every kind, escaped and not; non-trivial when the encoding needs escapes") {
  Enc E(s);
  int kind = (int)s.uni(0, K_COUNT - 1);
  GenOpt go;
  go.light = true;
  SCase sc = gen_case(kind, E, go);
  if (!sc.raw) return;
  // long runs of zero: a sparse payload tail where the kind allows it
  Bytes body = E.w.bytes();
  Bytes esc = pbt::escape_rbsp(body);
  c.input(body);
  c.input(sc.params);
  c.nontrivial = esc.size() != body.size();
  Exact x(body), y(esc);
  BitBuffer b(x.p.get(), x.n);
  std::string a = sc.bb(&b), d = sc.raw(y.p.get(), y.n);
  if (c.want_sample) c.sample = c.input_desc = std::string(kind_name(kind)) + " " + pbt::hex(esc, 2000);
  CHECK(c, a == d, std::string(kind_name(kind)) + ": escaped and unescaped parses differ, " + pbt::diff_text(a, d));
  if (c.nontrivial) c.tag(kind_name(kind));
}
PROP(C04, units, 12000, "units of every kind through the entry points that take escaped or unescaped bytes; non-trivial when a payload needs escapes") {
  ParserState m, before;
  gen_stream(s, m, 0, 3);
  copy_state(m, before);
  UnitOpt uo;
  uo.wild = uo.wild_sets = true;
  GUnit u = gen_unit(s, m, uo);
  Bytes rb(u.rbsp.begin() + 2, u.rbsp.end()), eb = pbt::escape_rbsp(rb);
  c.input(u.ebsp);
  c.tag(u.what);
  c.nontrivial = eb.size() != rb.size();
  if (c.want_sample) c.sample = c.input_desc = describe(Units{u});
  Exact xr(rb), xe(eb);
  ParserState a, b;
  copy_state(before, a);
  copy_state(before, b);
  {
    BitBuffer bb(xr.p.get(), xr.n);
    auto p = H265NalUnitPayloadParser::ParseNalUnitPayload(&bb, u.type, &a);
    auto q = H265NalUnitPayloadParser::ParseNalUnitPayload(xe.p.get(), xe.n, u.type, &b);
    std::string tp = p ? canon(*p) : "none", tq = q ? canon(*q) : "none";
    CHECK(c, tp == tq, fmt("payload of type %u: escaped and unescaped parses differ, ", u.type) + pbt::diff_text(tp, tq));
    CHECK(c, canon(a) == canon(b), "stored sets differ " + pbt::diff_text(canon(a), canon(b)));
    if (!u.wild) CHECK(c, tp == canon(*u.exp->nal_unit_payload), "payload " + pbt::diff_text(canon(*u.exp->nal_unit_payload), tp));
  }
  if (is_slice_type(u.type)) {
    BitBuffer bb(xr.p.get(), xr.n);
    auto p = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&bb, u.type, &a);
    auto q = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(xe.p.get(), xe.n, u.type, &a);
    std::string tp = p ? canon(*p) : "none", tq = q ? canon(*q) : "none";
    CHECK(c, tp == tq, "slice header: escaped and unescaped parses differ, " + pbt::diff_text(tp, tq));
    if (u.exp && u.exp->nal_unit_payload->slice_segment_layer) {
      auto& l = u.exp->nal_unit_payload->slice_segment_layer;
      CHECK(c, tp == canon(*l->slice_segment_header), "slice header " + pbt::diff_text(canon(*l->slice_segment_header), tp));
    }
  }
}

// the end of a payload: alignment, bytes entered, what is left
PROP(C02, rbsp, 200000, "every position of a payload that ends with trailing bits or anything else; non-trivial with a position in the last byte and off its boundary") {
  Bytes d;
  unsigned n = (unsigned)s.uni(1, 12);
  for (unsigned i = 0; i < n; i++) d.push_back((uint8_t)(s.chance(1, 2) ? s.uni(0, 255) : s.flag() ? 0 : 1u << s.uni(0, 7)));
  size_t bits = (size_t)n * 8;
  size_t at = s.chance(2, 3) ? bits - (size_t)s.uni(0, 9) % bits : (size_t)s.uni(0, bits);
  // often the trailing bits, exactly here or elsewhere
  unsigned left = (unsigned)(bits - at);
  if (s.chance(1, 2) && left > 0 && left <= 8) {
    d[n - 1] = (uint8_t)((d[n - 1] & ~((1u << left) - 1)) | 1u << (left - 1));
    if (s.chance(1, 3)) d[n - 1] ^= (uint8_t)(1u << s.uni(0, 7));
  }
  c.input(d);
  c.input(at);
  if (c.want_sample) c.sample = c.input_desc = fmt("bit %zu of ", at) + pbt::hex(d);
  c.nontrivial = left < 8 && left > 0;
  auto bit = [&](size_t i) { return d[i / 8] >> (7 - i % 8) & 1; };
  // the rest of the byte after the position is a one and then zeros
  bool trailing = at < bits && bit(at);
  size_t end = at + 1;
  for (; trailing && end % 8; end++)
    if (bit(end)) trailing = false;
  Exact x(d);
  BitBuffer b(x.p.get(), x.n);
  for (size_t k = at; k > 0;) {
    size_t step = std::min<size_t>(k, 32);
    CHECK(c, b.ConsumeBits(step), "cannot skip");
    k -= step;
  }
  CHECK(c, byte_aligned(&b) == (at % 8 == 0), fmt("bit %zu: aligned %d", at, byte_aligned(&b)));
  CHECK(c, get_current_offset(&b) == (at + 7) / 8, fmt("bit %zu: %zu bytes entered", at, get_current_offset(&b)));
  bool more = more_rbsp_data(&b);
  bool expect = at < bits && !(left <= 8 && trailing && end == bits);
  CHECK(c, more == expect, fmt("bit %zu of %zu: more data %d", at, bits, more));
  CHECK(c, bit_pos(b) == at, fmt("bit %zu: moved to %llu", at, (unsigned long long)bit_pos(b)));
  bool t = rbsp_trailing_bits(&b);
  CHECK(c, t == trailing, fmt("bit %zu: trailing bits %d", at, t));
  if (t) CHECK(c, bit_pos(b) == end, fmt("bit %zu: at %llu after the trailing bits", at, (unsigned long long)bit_pos(b)));
}
