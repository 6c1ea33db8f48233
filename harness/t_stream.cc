// C05, C06, C08, C23, C24, C25, C29, C34, C35, C37: streams of NAL units in
// every framing, against the unit generator's model.
#include <sys/mman.h>
#include <unistd.h>

#include <new>
#include <thread>

#include "h265_utils.h"
#include "stream.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

// ------------------------------------------------------------------ C05
struct RefIndex {
  size_t start, payload, size;
};
static std::vector<RefIndex> ref_split(const Bytes& d) {
  std::vector<RefIndex> o;
  for (size_t i = 0; i + 3 < d.size(); i++)
    if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) o.push_back(RefIndex{i > 0 && d[i - 1] == 0 ? i - 1 : i, i + 3, 0});
  for (size_t k = 0; k < o.size(); k++) o[k].size = (k + 1 < o.size() ? o[k + 1].start : d.size()) - o[k].payload;
  return o;
}
template <class A>
static std::string index_text(const A& v) {
  std::string o;
  for (auto& e : v) o += fmt("(%zu,%zu,%zu) ", e.start, e.payload, e.size);
  return o;
}
static std::vector<RefIndex> lib_split(const Bytes& d) {
  Exact x(d);
  std::vector<RefIndex> o;
  for (auto& e : H265BitstreamParser::FindNaluIndices(x.p.get(), x.n))
    o.push_back(RefIndex{e.start_offset, e.payload_start_offset, e.payload_size});
  return o;
}

PROP(C05, raw, 400000, "byte strings dense in 00/01/02/03; non-trivial with at least one start code") {
  Bytes d;
  unsigned n = (unsigned)s.uni(0, s.chance(1, 4) ? 120 : 24);
  unsigned kind = (unsigned)s.uni(0, 3);
  for (unsigned i = 0; i < n; i++) {
    if (kind == 0) {
      d.push_back((uint8_t)s.uni(0, 1));
    } else if (kind == 1) {
      d.push_back((uint8_t)s.uni(0, 3));
    } else if (kind == 2) {
      static const uint8_t v[] = {0, 0, 1, 0xff, 2};
      d.push_back(v[s.uni(0, 4)]);
    } else if (s.chance(1, 4)) {
      d.insert(d.end(), {0, 0, 1});
    } else {
      d.push_back((uint8_t)(s.flag() ? s.uni(0, 2) : s.uni(0, 255)));
    }
  }
  c.input(d);
  auto e = ref_split(d), g = lib_split(d);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(d) + " -> " + index_text(e);
  c.nontrivial = !e.empty();
  if (e.size() > 1) c.tag("several");
  CHECK(c, index_text(e) == index_text(g), "indices " + index_text(g) + " instead of " + index_text(e));
}
PROP(C05, long, 500, "byte strings of up to 100000 bytes, dense in 00/01; non-trivial with at least one start code") {
  Bytes d = long_bytes(s, 100000);
  c.input(d);
  auto e = ref_split(d), g = lib_split(d);
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu bytes, starting with ", d.size()) + pbt::hex(d, 100);
  c.nontrivial = !e.empty();
  CHECK(c, e.size() == g.size(), fmt("%zu units instead of %zu", g.size(), e.size()));
  for (size_t i = 0; i < e.size(); i++)
    CHECK(c, e[i].start == g[i].start && e[i].payload == g[i].payload && e[i].size == g[i].size,
          fmt("unit %zu is (%zu,%zu,%zu) instead of (%zu,%zu,%zu)", i, g[i].start, g[i].payload, g[i].size, e[i].start, e[i].payload, e[i].size));
}
// buffers of up to 5 GB: one block of memory mapped again and again, with a
// block that holds start codes here and there
PROP(C05, far, 8, "buffers of up to 5 GB with a few start codes; non-trivial with one above 2^31 bytes") {
  const size_t kBlock = 1 << 24;
  int fd = memfd_create("h265nal_pbt", 0);
  if (fd < 0) return;  // nothing explored: trivial case
  size_t blocks = s.chance(1, 2) ? (size_t)s.uni(257, 280) : (size_t)s.uni(1, 200);
  size_t n = blocks * kBlock - (size_t)s.uni(0, 64);
  // plain bytes, or zeros
  bool zeros = s.chance(1, 8);
  if (zeros) n = std::min<size_t>(n, (size_t)64 << 20), blocks = (n + kBlock - 1) / kBlock;
  std::vector<uint8_t> plain(kBlock, zeros ? 0 : 0xe5);
  uint8_t* base = (uint8_t*)MAP_FAILED;
  bool ok = ftruncate(fd, (off_t)kBlock) == 0 && write(fd, plain.data(), kBlock) == (ssize_t)kBlock;
  if (ok) base = (uint8_t*)mmap(nullptr, blocks * kBlock, PROT_READ, MAP_PRIVATE | MAP_NORESERVE | MAP_ANONYMOUS, -1, 0);
  ok = base != MAP_FAILED;
  for (size_t i = 0; ok && i < blocks; i++)
    ok = mmap(base + i * kBlock, kBlock, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
  close(fd);
  if (ok) {
    std::set<size_t> at;
    // anywhere, all at the beginning, or there and at the end
    unsigned where = (unsigned)s.uni(0, 3);
    for (unsigned k = (unsigned)s.uni(1, 6); k > 0; k--) {
      size_t p = s.flag() ? (size_t)s.uni(0, n - 64) : n - 64 - (size_t)s.u(0, n - 64);
      if (where == 1 || (where == 2 && s.flag())) p = (size_t)s.uni(0, 100000);
      else if (where == 2) p = n - 64 - (size_t)s.uni(0, 100000);
      else if (n > (1ull << 32) && s.chance(1, 3)) p = (1ull << 32) - 4 + (size_t)s.uni(0, 8);
      at.insert(p);
    }
    std::vector<RefIndex> e;
    size_t last = 0;
    for (size_t p : at) {
      if (!e.empty() && p < last + 8) continue;
      // 0xff first, so that the zero bytes are the ones of the start code
      bool four = s.flag();
      base[p] = 0xff;
      base[p + 1] = four ? 0 : 0xff;
      base[p + 2] = base[p + 3] = 0;
      base[p + 4] = 1;
      base[p + 5] = 0x42;
      size_t start = four ? p + 1 : p + 2;
      if (!e.empty()) e.back().size = start - e.back().payload;
      e.push_back(RefIndex{start, p + 5, n - (p + 5)});
      last = p;
    }
    if (c.want_sample) c.sample = c.input_desc = fmt("%zu %s bytes -> ", n, zeros ? "zero" : "plain") + index_text(e);
    c.input(fmt("%zu ", n) + index_text(e));
    c.nontrivial = n > (1ull << 31);
    std::vector<RefIndex> g;
    for (auto& i : H265BitstreamParser::FindNaluIndices(base, n)) g.push_back(RefIndex{i.start_offset, i.payload_start_offset, i.payload_size});
    munmap(base, blocks * kBlock);
    CHECK(c, index_text(e) == index_text(g), "indices " + index_text(g) + " instead of " + index_text(e));
  } else if (base != (uint8_t*)MAP_FAILED) {
    munmap(base, blocks * kBlock);
  }
}
PROP(C05, assemble, 100000, "payload lists with mixed start codes; non-trivial with at least two payloads") {
  std::vector<Bytes> v;
  unsigned n = (unsigned)s.uni(1, 8);
  for (unsigned i = 0; i < n; i++) {
    Bytes b;
    unsigned len = (unsigned)s.u(1, 60);
    unsigned kind = (unsigned)s.uni(0, 2);
    for (unsigned k = 0; k < len; k++) b.push_back((uint8_t)(kind == 0 ? s.uni(0, 255) : kind == 1 ? s.uni(0, 3) : s.uni(0, 1)));
    // no start code inside, no zero byte at the end
    for (size_t k = 2; k < b.size(); k++)
      if (b[k] == 1 && b[k - 1] == 0 && b[k - 2] == 0) b[k] = 3;
    if (b.back() == 0) b.back() = 0x80;
    v.push_back(b);
  }
  Bytes d;
  std::vector<RefIndex> e;
  for (unsigned z = s.chance(1, 4) ? (unsigned)s.uni(0, 3) : 0; z > 0; z--) d.push_back(0);
  for (auto& b : v) {
    if (s.flag()) d.push_back(0);
    size_t st = d.size() > 0 && d.back() == 0 ? d.size() - 1 : d.size();
    d.insert(d.end(), {0, 0, 1});
    e.push_back(RefIndex{st, d.size(), b.size()});
    put_bytes(d, b);
  }
  c.input(d);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(d);
  c.nontrivial = n > 1;
  auto g = lib_split(d);
  CHECK(c, index_text(e) == index_text(g), "indices " + index_text(g) + " instead of " + index_text(e));
}
PROP(C05, parse, 6000, "whole streams; non-trivial with at least three units") {
  ParserState m;
  Units v = gen_stream(s, m, 1, 8);
  note_units(c, v);
  Framed f = annexb(s, v);
  Exact x(f.data);
  ParserState st;
  auto bs = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, gen_options(s));
  CHECK(c, bs != nullptr, "no bitstream");
  std::string d = diff_units(v, bs->nal_units);
  CHECK(c, d.empty(), d);
  c.nontrivial = v.size() >= 3;
}

PROP(C05, many, 48, "streams of hundreds to 80000 units, split and parsed; non-trivial with more than 256 units") {
  LongStream l = gen_long(s, long_count(s), all_kinds());
  note_long(c, l);
  Framed f = frame_long(s, l, 0);
  Exact x(f.data);
  auto idx = H265BitstreamParser::FindNaluIndices(x.p.get(), x.n);
  CHECK(c, idx.size() == l.size(), fmt("%zu units found instead of %zu", idx.size(), l.size()));
  for (size_t i = 0; i < l.size(); i++)
    CHECK(c, idx[i].start_offset == f.start[i] && idx[i].payload_start_offset == f.off[i] && idx[i].payload_size == f.len[i],
          fmt("place of unit %zu", i));
  ParserState st;
  auto bs = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, gen_options(s));
  CHECK(c, bs != nullptr, "no bitstream");
  std::string d = diff_long(l, bs->nal_units, s.uni(0, kU32Max));
  CHECK(c, d.empty(), d);
  c.nontrivial = l.size() > 256;
}

// ------------------------------------------------------------------ C06
static std::vector<const NalUnit*> ptrs(const std::vector<std::unique_ptr<NalUnit>>& v) {
  std::vector<const NalUnit*> o;
  for (auto& p : v) o.push_back(p.get());
  return o;
}
// everything but the offset
static std::string rel_text(const NalUnit& u) {
  CanonOpt o = no_meta();
  o.checksum = true;
  return fmt("length %zu parsed_length %zu\n", u.length, u.parsed_length) + canon(u, o);
}

PROP(C06, framing, 8000, "NAL unit lists with prefixes of 1..8 bytes against start codes; non-trivial with at least three units") {
  ParserState m, m0;
  UnitOpt uo;
  uo.wild = true;
  Units v = gen_stream(s, m, 1, 8, uo);
  note_units(c, v);
  unsigned lo = min_width(v);
  unsigned width = (unsigned)s.uni(lo, 8);
  static const char* wt[] = {"", "width 1", "width 2", "width 3", "width 4", "width 5", "width 6", "width 7", "width 8"};
  c.tag(wt[width]);
  Framed a = annexb(s, v), l = length_prefixed(v, width, &s);
  ParsingOptions po = gen_options(s);
  ParserState sa, sl;
  Exact xa(a.data), xl(l.data);
  auto ba = H265BitstreamParser::ParseBitstream(xa.p.get(), xa.n, &sa, po);
  auto bl = s.chance(1, 4) ? H265BitstreamParser::ParseBitstreamNALULength(xl.p.get(), xl.n, width, po)
                           : H265BitstreamParser::ParseBitstreamNALULength(xl.p.get(), xl.n, width, &sl, po);
  CHECK(c, ba && bl, "no bitstream");
  std::string d = diff_units(v, bl->nal_units);
  CHECK(c, d.empty(), fmt("width %u: ", width) + d);
  CHECK(c, ba->nal_units.size() == bl->nal_units.size(), "numbers of units differ");
  for (size_t i = 0; i < v.size(); i++) {
    CHECK(c, bl->nal_units[i]->offset == l.off[i], fmt("width %u unit %zu: offset %zu instead of %zu", width, i, bl->nal_units[i]->offset, l.off[i]));
    CHECK(c, bl->nal_units[i]->length == l.len[i], fmt("width %u unit %zu: length %zu instead of %zu", width, i, bl->nal_units[i]->length, l.len[i]));
    std::string ta = rel_text(*ba->nal_units[i]), tl = rel_text(*bl->nal_units[i]);
    CHECK(c, ta == tl, fmt("width %u unit %zu differs between framings ", width, i) + pbt::diff_text(ta, tl));
  }
  if (!sl.sps.empty() || !sl.pps.empty() || !sl.vps.empty())
    CHECK(c, canon(sa) == canon(sl), "parameter sets differ between framings " + pbt::diff_text(canon(sa), canon(sl)));
  c.nontrivial = v.size() >= 3;
}
PROP(C06, huge, 2, "a unit of more than 2^24 bytes between small ones, with prefixes of 4..8 bytes and start codes; every case is non-trivial") {
  ParserState m;
  Units v = gen_stream(s, m, 0, 2);
  size_t at = (size_t)s.uni(0, v.size());
  GUnit u;
  u.type = s.pick(opaque_types());
  u.what = "huge opaque";
  new_expected(u);
  unsigned n = (1u << 24) + (unsigned)s.u(0, 300000) - 1000;
  uint8_t fill = (uint8_t)s.uni(1, 255);
  u.ebsp = {(uint8_t)(u.type << 1), 1};
  u.ebsp.resize(n, fill);
  u.text = canon(*u.exp, no_meta());
  v.insert(v.begin() + (long)at, u);
  v.push_back(gen_unit(s, m));
  c.input((uint64_t)n);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu units, unit %zu has %u bytes", v.size(), at, n);
  unsigned width = (unsigned)s.uni(3, 8);
  if (n >> 24 && width == 3) width = 4;
  for (unsigned w : {width, 0u}) {
    Framed f = w ? length_prefixed(v, w) : annexb(s, v);
    ParserState st;
    auto b = w ? H265BitstreamParser::ParseBitstreamNALULength(f.data.data(), f.data.size(), w, &st, ParsingOptions())
               : H265BitstreamParser::ParseBitstream(f.data.data(), f.data.size(), &st, ParsingOptions());
    CHECK(c, b != nullptr, "no bitstream");
    std::string d = diff_units(v, b->nal_units);
    CHECK(c, d.empty(), fmt("width %u: ", w) + d);
    for (size_t i = 0; i < v.size(); i++)
      CHECK(c, b->nal_units[i]->offset == f.off[i] && b->nal_units[i]->length == f.len[i], fmt("width %u: offset or length of unit %zu", w, i));
  }
}
PROP(C06, explicit_large, 40, "4-byte length records in buffers of up to 300000 bytes; non-trivial with a record beyond 65535 bytes") {
  Bytes d;
  std::vector<RefIndex> e, g;
  size_t want = (size_t)s.uni(66000, s.chance(1, 20) ? 17000000 : 300000);
  uint64_t st = s.uni(0, kU32Max);
  size_t top = (size_t)s.pick(std::vector<unsigned>{3, 40, 700, 70000, 300000});
  bool fits = true;
  while (d.size() < want && fits) {
    size_t len = pbt::splitmix(st) % (top + 1);
    if (len + 4 > want - d.size() && pbt::splitmix(st) % 4) len = pbt::splitmix(st) % 8;
    size_t coded = len;
    if (d.size() > want - want / 20 && pbt::splitmix(st) % 64 == 0) {
      coded += 1 + pbt::splitmix(st) % 3;
      fits = false;
    } else {
      e.push_back(RefIndex{d.size(), d.size() + 4, len});
    }
    for (int k = 3; k >= 0; k--) d.push_back((uint8_t)(coded >> (8 * k)));
    d.resize(d.size() + len, (uint8_t)pbt::splitmix(st));
  }
  c.input((uint64_t)d.size());
  c.input((uint64_t)e.size());
  c.input(st);
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu bytes with %zu records, %s", d.size(), e.size(), fits ? "all fit" : "the last one does not fit");
  c.nontrivial = !e.empty() && e.back().start > 65535;
  Exact x(d);
  for (auto& r : H265BitstreamParser::FindNaluIndicesExplicitFraming(x.p.get(), x.n))
    g.push_back(RefIndex{r.start_offset, r.payload_start_offset, r.payload_size});
  size_t k = 0;
  auto same = [](const RefIndex& a, const RefIndex& b) {
    return index_text(std::vector<RefIndex>{a}) == index_text(std::vector<RefIndex>{b});
  };
  while (k < e.size() && k < g.size() && same(e[k], g[k])) k++;
  CHECK(c, k == e.size() && k == g.size(), fmt("record %zu of %zu/%zu differs in a buffer of %zu bytes", k, e.size(), g.size(), d.size()));
}
PROP(C06, many, 48, "hundreds to 80000 units with prefixes; non-trivial with more than 256 units") {
  LongStream l = gen_long(s, long_count(s), all_kinds());
  note_long(c, l);
  unsigned width = (unsigned)s.uni(min_width(l), 8);
  Framed f = frame_long(s, l, width);
  Exact x(f.data);
  ParserState st;
  auto bs = H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, width, &st, gen_options(s));
  CHECK(c, bs != nullptr, "no bitstream");
  std::string d = diff_long(l, bs->nal_units, s.uni(0, kU32Max));
  CHECK(c, d.empty(), fmt("width %u: ", width) + d);
  for (size_t i = 0; i < l.size(); i++)
    CHECK(c, bs->nal_units[i]->offset == f.off[i] && bs->nal_units[i]->length == f.len[i], fmt("width %u: offset or length of unit %zu", width, i));
  c.nontrivial = l.size() > 256;
}
PROP(C06, width0, 4000, "one unit without framing; non-trivial when a payload is expected") {
  ParserState m, st;
  UnitOpt uo;
  Units pre = gen_stream(s, m, 0, 1, uo);
  copy_state(m, st);
  GUnit u = gen_unit(s, m, uo);
  Units v;
  v.push_back(u);
  note_units(c, v);
  Exact x(u.ebsp);
  auto b = H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, 0, &st, gen_options(s));
  CHECK(c, b != nullptr, "no bitstream");
  std::string d = diff_units(v, b->nal_units);
  CHECK(c, d.empty(), d);
  CHECK(c, b->nal_units[0]->offset == 0 && b->nal_units[0]->length == u.ebsp.size(), "offset or length of the only unit");
  c.nontrivial = u.parsed;
}
PROP(C06, broken, 12000, "length-prefixed streams cut or with a wrong prefix; non-trivial when a unit before the damage remains") {
  ParserState m;
  Units v = gen_stream(s, m, 1, 6);
  note_units(c, v);
  unsigned width = (unsigned)s.uni(min_width(v), 8);
  Framed l = length_prefixed(v, width, &s);
  Bytes d = l.data;
  unsigned kind = (unsigned)s.uni(0, 3);
  if (kind == 0) {
    d.resize(s.uni(0, d.size() - 1));
    c.tag("cut");
  } else if (kind == 1) {
    size_t i = s.uni(0, v.size() - 1);
    for (unsigned k = 0; k < width; k++) d[l.start[i] + k] = 0;
    c.tag("zero prefix");
  } else if (kind == 2) {
    // larger than what remains, by one or by anything
    size_t i = s.uni(0, v.size() - 1);
    uint64_t rest = d.size() - l.off[i];
    uint64_t top = width == 8 ? UINT64_MAX : (1ull << (8 * width)) - 1;
    if (rest < top) {
      uint64_t val = s.flag() ? rest + 1 : s.u(rest + 1, top);
      for (unsigned k = 0; k < width; k++) d[l.start[i] + k] = (uint8_t)(val >> (8 * (width - 1 - k)));
    }
    c.tag("too large prefix");
  } else {
    d.insert(d.end(), (size_t)s.uni(1, width), (uint8_t)s.uni(0, 255));
    c.tag("bytes after the last unit");
  }
  c.input(d);
  // reference walk
  std::vector<std::pair<size_t, size_t>> rec;
  size_t i = 0;
  while (i < d.size()) {
    if (d.size() - i < width) break;
    uint64_t n = 0;
    for (unsigned k = 0; k < width; k++) n = n << 8 | d[i + k];
    i += width;
    if (n == 0 || n > d.size() - i) break;
    rec.push_back(std::make_pair(i, (size_t)n));
    i += n;
  }
  ParserState st, st2;
  Exact x(d);
  auto b = H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, width, &st, ParsingOptions());
  CHECK(c, b != nullptr, "no bitstream");
  size_t k = 0, kept = 0;
  for (auto& r : rec) {
    auto one = H265NalUnitParser::ParseNalUnit(x.p.get() + r.first, r.second, &st2, ParsingOptions());
    if (!one) continue;
    CHECK(c, k < b->nal_units.size(), fmt("only %zu units", b->nal_units.size()));
    CHECK(c, b->nal_units[k]->offset == r.first && b->nal_units[k]->length == r.second,
          fmt("unit %zu at %zu length %zu instead of %zu, %zu", k, b->nal_units[k]->offset, b->nal_units[k]->length, r.first, r.second));
    one->length = r.second;
    std::string e = rel_text(*one), g = rel_text(*b->nal_units[k]);
    CHECK(c, e == g, fmt("unit %zu ", k) + pbt::diff_text(e, g));
    // units before the damage are those of the model
    if (k < v.size() && r.first == l.off[k] && r.second == l.len[k] &&
        std::equal(v[k].ebsp.begin(), v[k].ebsp.end(), d.begin() + (long)r.first)) {
      std::string t = canon(*b->nal_units[k], no_meta());
      CHECK(c, t == v[k].text, fmt("unit %zu ", k) + pbt::diff_text(v[k].text, t));
      kept++;
    }
    k++;
  }
  CHECK(c, k == b->nal_units.size(), fmt("%zu units instead of %zu", b->nal_units.size(), k));
  c.nontrivial = kept > 0;
}
PROP(C06, explicit_index, 200000, "4-byte length records; non-trivial with at least two records") {
  Bytes d;
  unsigned n = (unsigned)s.uni(0, 6);
  for (unsigned i = 0; i < n; i++) {
    uint32_t len = (uint32_t)s.uni(0, 12);
    uint32_t coded = len;
    if (s.chance(1, 10)) coded = s.flag() ? len + (uint32_t)s.uni(0, 40) : (uint32_t)s.u(0, kU32Max);
    for (int k = 3; k >= 0; k--) d.push_back((uint8_t)(coded >> (8 * k)));
    for (uint32_t k = 0; k < len; k++) d.push_back((uint8_t)(s.flag() ? 0 : s.uni(0, 255)));
  }
  if (s.chance(1, 3) && !d.empty()) d.resize(s.uni(0, d.size()));
  c.input(d);
  std::vector<RefIndex> e, g;
  size_t i = 0;
  while (d.size() - i >= 4) {
    size_t len = (size_t)d[i] << 24 | (size_t)d[i + 1] << 16 | (size_t)d[i + 2] << 8 | d[i + 3];
    if (len > d.size() - i - 4) break;
    e.push_back(RefIndex{i, i + 4, len});
    i += 4 + len;
  }
  Exact x(d);
  for (auto& r : H265BitstreamParser::FindNaluIndicesExplicitFraming(x.p.get(), x.n))
    g.push_back(RefIndex{r.start_offset, r.payload_start_offset, r.payload_size});
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(d) + " -> " + index_text(e);
  c.nontrivial = e.size() > 1;
  CHECK(c, index_text(e) == index_text(g), "records " + index_text(g) + " instead of " + index_text(e));
}

// ------------------------------------------------------------------ C08
struct Kept {
  std::vector<std::shared_ptr<void>> own;
  std::vector<std::function<std::string()>> now;
  std::vector<std::string> then;
  template <class T>
  void add(std::shared_ptr<T> p) {
    own.push_back(p);
    now.push_back([p]() { return canon(*p); });
    then.push_back(canon(*p));
  }
};

PROP(C08, history, 6000, "histories of 1..12 deliveries in mixed framings; non-trivial when an id is received again or a broken set follows a good one") {
  ParserState m, st;
  Kept kept;
  unsigned steps = (unsigned)s.uni(1, 12);
  std::map<unsigned, unsigned> sent;
  std::string log;
  // a set of slices is cheap; parameter sets are what this is about
  UnitOpt uo;
  Units past;
  uo.past = &past;
  uo.slice_weight = 3;
  for (unsigned k = 0; k < steps; k++) {
    unsigned how = (unsigned)s.uni(0, 8);
    Units v;
    static const char* names[] = {"escaped", "unescaped", "annexb", "length-prefixed", "hvcC", "rtp single", "rtp ap", "rtp fu", "rtp later fragment"};
    c.tag(names[how]);
    ParsingOptions po = gen_options(s);
    std::string d;
    UnitOpt ro = uo;
    ro.rtp = true;
    if (how == 0) {
      v = gen_units(s, m, 1, 1, uo);
      Exact x(v[0].ebsp);
      auto u = H265NalUnitParser::ParseNalUnit(x.p.get(), x.n, &st, po);
      CHECK(c, u != nullptr, "unit rejected");
      std::vector<const NalUnit*> got = {u.get()};
      d = diff_units(v, got);
      kept.add(std::shared_ptr<NalUnit>(std::move(u)));
    } else if (how == 1) {
      v = gen_units(s, m, 1, 1, uo);
      Exact x(v[0].rbsp);
      auto u = H265NalUnitParser::ParseNalUnitUnescaped(x.p.get(), x.n, &st, po);
      CHECK(c, u != nullptr, "unit rejected");
      std::vector<const NalUnit*> got = {u.get()};
      d = diff_units(v, got);
      kept.add(std::shared_ptr<NalUnit>(std::move(u)));
    } else if (how == 2 || how == 3) {
      v = gen_units(s, m, 1, 4, uo);
      std::unique_ptr<BitstreamSt> b;
      if (how == 2) {
        Exact x(annexb(s, v).data);
        b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, po);
      } else {
        unsigned w = (unsigned)s.uni(min_width(v), 8);
        Exact x(length_prefixed(v, w, &s).data);
        b = H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, w, &st, po);
      }
      CHECK(c, b != nullptr, "no bitstream");
      d = diff_units(v, b->nal_units);
      kept.add(std::shared_ptr<BitstreamSt>(std::move(b)));
    } else if (how == 4) {
      GBox g = gen_box(s, m, uo);
      v = g.units;
      Exact x(g.data);
      auto b = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, po);
      CHECK(c, b != nullptr, "configuration record rejected");
      d = diff_box(g, *b);
    } else {
      GPacket p;
      if (how == 5) {
        v = gen_units(s, m, 1, 1, ro);
        p = rtp_single(v[0]);
      } else if (how == 6) {
        v = gen_units(s, m, 0, 4, uo);
        p = rtp_ap(s, v);
      } else if (how == 7) {
        v = gen_units(s, m, 1, 1, uo);
        p = gen_start_fragment(s, v[0]);
      } else {
        // the bytes of a parameter set in a later fragment store nothing
        ParserState scratch;
        copy_state(m, scratch);
        Units w = gen_units(s, scratch, 1, 1, uo);
        p = rtp_fu(w[0], 0, w[0].ebsp.size() - 2, false, s.flag());
      }
      Exact x(p.data);
      auto r = H265RtpParser::ParseRtp(x.p.get(), x.n, &st);
      d = diff_packet(p, r.get());
      c.input(p.data);
      if (r) kept.add(std::shared_ptr<Rtp>(std::move(r)));
    }
    for (auto& u : v) {
      c.tag(u.what);
      c.input(u.ebsp);
      if (u.is_set() && sent[u.type]++ > 0) c.nontrivial = true;
    }
    if (c.want_sample) log += fmt("%u %s: ", k, names[how]) + describe(v, 5) + "; ";
    if (c.want_sample) c.sample = c.input_desc = log;
    std::string e = canon(m), g = canon(st);
    CHECK(c, e == g, fmt("stored parameter sets after step %u (%s) ", k, names[how]) + pbt::diff_text(e, g));
    CHECK(c, d.empty(), fmt("step %u (%s) ", k, names[how]) + d);
    for (auto& q : m.sps) CHECK(c, st.GetSps(q.first) == st.sps[q.first], "GetSps");
    for (auto& q : m.pps) CHECK(c, st.GetPps(q.first) == st.pps[q.first], "GetPps");
    for (auto& q : m.vps) CHECK(c, st.GetVps(q.first) == st.vps[q.first], "GetVps");
    uint32_t none = (uint32_t)s.uni(0, 70);
    if (!m.sps.count(none)) CHECK(c, !st.GetSps(none), "SPS for an id never received");
    if (!m.pps.count(none)) CHECK(c, !st.GetPps(none), "PPS for an id never received");
    if (!m.vps.count(none)) CHECK(c, !st.GetVps(none), "VPS for an id never received");
  }
  CHECK(c, canon(m) == canon(st), "stored parameter sets changed by lookups");
  for (size_t i = 0; i < kept.now.size(); i++) {
    std::string t = kept.now[i]();
    CHECK(c, t == kept.then[i], fmt("result %zu changed later ", i) + pbt::diff_text(kept.then[i], t));
  }
}

PROP(C08, many, 400, "one small set for most of the ids of each kind, in random order; non-trivial with more than 40 sets stored") {
  ParserState m, st;
  std::vector<std::pair<int, int>> order;
  for (int id = 0; id < 16; id++) {
    if (!s.chance(1, 10)) order.push_back(std::make_pair(32, id));
    if (!s.chance(1, 10)) order.push_back(std::make_pair(33, id));
  }
  for (int id = 0; id < 64; id++)
    if (!s.chance(1, 10)) order.push_back(std::make_pair(34, id));
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.uni(0, i - 1)]);
  bool sps_first = s.flag();
  if (sps_first) std::stable_sort(order.begin(), order.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return a.first != 34 && b.first == 34; });
  Units v;
  for (auto& q : order) {
    GUnit u;
    u.type = (unsigned)q.first;
    u.what = q.first == 32 ? "vps" : q.first == 33 ? "sps" : "pps";
    draw_header(s, u);
    new_expected(u);
    Enc E(s);
    if (q.first == 32) {
      u.exp->nal_unit_payload->vps = gen_vps(E, q.second);
    } else if (q.first == 33) {
      SpsOpt so;
      so.id = q.second;
      so.light = true;
      u.exp->nal_unit_payload->sps = gen_sps(E, so);
    } else {
      PpsOpt po;
      po.id = q.second;
      po.light = true;
      std::shared_ptr<Sps> keep;
      if (!m.sps.empty()) {
        auto it = m.sps.begin();
        std::advance(it, (long)s.uni(0, m.sps.size() - 1));
        keep = it->second;
        po.sps = keep.get();
      } else {
        po.sps_id = (int)s.uni(0, 15);
      }
      u.exp->nal_unit_payload->pps = gen_pps(E, po);
    }
    finish_unit(u, E.w);
    u.text = canon(*u.exp, no_meta());
    apply_set(u, m);
    c.input(u.ebsp);
    v.push_back(std::move(u));
  }
  // slices that use any of them
  UnitOpt uo;
  uo.only = U_SLICE;
  for (unsigned k = (unsigned)s.uni(0, 12); k > 0; k--) v.push_back(gen_unit(s, m, uo));
  c.nontrivial = order.size() > 40;
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu units, ", v.size()) + describe(v, 30);
  Exact x(annexb(s, v).data);
  auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, ParsingOptions());
  std::string d = diff_units(v, b->nal_units);
  CHECK(c, canon(m) == canon(st), "stored parameter sets " + pbt::diff_text(canon(m), canon(st)));
  CHECK(c, d.empty(), d);
}

// ------------------------------------------------------------------ C23
PROP(C23, box, 10000, "well-formed configuration records; non-trivial with at least one NAL unit") {
  ParserState m, st;
  UnitOpt uo;
  if (s.chance(1, 3)) gen_stream(s, m, 0, 2);
  copy_state(m, st);
  GBox g = gen_box(s, m, uo);
  note_units(c, g.units);
  c.input(g.data);
  if (c.want_sample) c.sample = c.input_desc = "record " + pbt::hex(g.data, 600);
  c.nontrivial = !g.units.empty();
  Exact x(g.data);
  ParsingOptions po = gen_options(s);
  auto b = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, po);
  CHECK(c, b != nullptr, "record rejected");
  std::string d = diff_box(g, *b);
  CHECK(c, d.empty(), d);
  CHECK(c, canon(m) == canon(st), "parameter sets " + pbt::diff_text(canon(m), canon(st)));
  // from a bit reader
  ParserState st2;
  BitBuffer bb(x.p.get(), x.n);
  auto b2 = H265ConfigurationBoxParser::ParseConfigurationBox(&bb, &st2, po);
  CHECK(c, b2 != nullptr, "record rejected by the bit reader variant");
  CHECK(c, bit_pos(bb) == 8 * (uint64_t)g.data.size(), "record not consumed to its end");
  // the sets can be used by later slices
  Units later = gen_units(s, m, 0, 2);
  for (auto& u : later) {
    Exact y(u.ebsp);
    auto n = H265NalUnitParser::ParseNalUnit(y.p.get(), y.n, &st, ParsingOptions());
    std::vector<const NalUnit*> got = {n.get()};
    Units one = {u};
    d = diff_units(one, got);
    CHECK(c, d.empty(), "after the record: " + d);
    if (u.has_qp) c.tag("slice after the record");
  }
}
PROP(C23, many, 8, "records with an array of hundreds to 65535 units; non-trivial with more than 256 units") {
  ParserState m, st;
  UnitOpt uo;
  uo.array_units = std::min(long_count(s), 65535u);
  GBox g = gen_box(s, m, uo);
  c.input(g.data);
  c.input(uo.array_units);
  if (c.want_sample) c.sample = c.input_desc = fmt("array of %u units in record ", uo.array_units) + pbt::hex(g.data, 200);
  Exact x(g.data);
  auto b = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, ParsingOptions());
  CHECK(c, b != nullptr, "record rejected");
  std::string d = diff_box(g, *b);
  CHECK(c, d.empty(), d);
  CHECK(c, canon(m) == canon(st), "parameter sets " + pbt::diff_text(canon(m), canon(st)));
  c.nontrivial = uo.array_units > 256;
}

PROP(C23, reject, 12000, "records with a wrong version, wrong reserved bits or cut; non-trivial with at least one NAL unit") {
  ParserState m;
  GBox g = gen_box(s, m);
  Bytes d = g.data;
  unsigned kind = (unsigned)s.uni(0, 2);
  std::string what;
  if (kind == 0) {
    uint8_t v = (uint8_t)s.uni(0, 255);
    if (v == 1) v = 0;
    d[0] = v;
    what = fmt("version %u", v);
  } else if (kind == 1) {
    struct R {
      size_t byte;
      uint8_t mask;
    };
    // reserved fields of the fixed part
    static const std::vector<R> rs = {{13, 0xf0}, {15, 0xfc}, {16, 0xfc}, {17, 0xf8}, {18, 0xf8}};
    R r = s.pick(rs);
    unsigned n = (unsigned)__builtin_popcount(r.mask);
    unsigned bit = 7 - (unsigned)s.uni(0, n - 1);
    d[r.byte] ^= (uint8_t)(1u << bit);
    what = fmt("reserved bit %u of byte %zu", bit, r.byte);
  } else {
    d.resize(s.flag() ? d.size() - 1 : s.uni(0, d.size() - 1));
    what = fmt("cut to %zu of %zu bytes", d.size(), g.data.size());
  }
  c.input(d);
  if (c.want_sample) c.sample = c.input_desc = what + ": " + pbt::hex(d, 600);
  c.nontrivial = !g.units.empty();
  Exact x(d);
  ParserState st;
  auto b = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, ParsingOptions());
  CHECK(c, b == nullptr, "record accepted with " + what);
  if (kind < 2) CHECK(c, st.vps.empty() && st.sps.empty() && st.pps.empty(), "parameter sets stored from a record with " + what);
}
PROP(C23, reserved6, 6000, "records with the reserved bit of an array set; non-trivial always") {
  ParserState m;
  GBox g = gen_box(s, m);
  if (g.exp->numOfArrays == 0) return;
  Bytes d = g.data;
  size_t at = s.pick(g.array_at);
  d[at] ^= 0x40;
  c.input(d);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = fmt("array at %zu: ", at) + pbt::hex(d, 600);
  Exact x(d);
  ParserState st;
  CHECK(c, !H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, ParsingOptions()), "record accepted with the reserved bit of an array set");
}

PROP(C08, long, 24, "hundreds to thousands of deliveries that redefine a few ids, with broken sets between; non-trivial with more than 256 deliveries") {
  // every unit can come at any time: its result does not depend on the others
  ParserState m;
  UnitOpt o;
  Units pool;
  static const std::vector<int> kinds = {U_VPS, U_SPS, U_PPS, U_PPS, U_AUD, U_CUTSET, U_BADSET, U_SEI};
  for (unsigned k = (unsigned)s.uni(4, 16); k > 0; k--) {
    o.only = s.pick(kinds);
    ParserState scratch;
    copy_state(m, scratch);
    GUnit u = gen_unit(s, scratch, o);
    if (u.ebsp.size() > 400 && pool.size() > 1) continue;
    copy_state(scratch, m);
    pool.push_back(std::move(u));
  }
  m.vps.clear();
  m.sps.clear();
  m.pps.clear();
  unsigned n = (unsigned)(s.chance(1, 6) ? s.uni(65530, 70000) : s.chance(1, 2) ? s.uni(250, 300) : s.uni(300, 5000));
  LongStream l;
  l.pool = pool;
  uint64_t st = s.uni(0, kU32Max);
  for (unsigned i = 0; i < n; i++) l.seq.push_back((uint32_t)(pbt::splitmix(st) % pool.size()));
  for (size_t i = 0; i < l.size(); i++) apply_set(l.at(i), m);
  note_long(c, l);
  Framed f = frame_long(s, l, 0);
  ParserState got;
  Exact x(f.data);
  auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &got, ParsingOptions());
  std::string d = diff_long(l, b->nal_units, s.uni(0, kU32Max));
  CHECK(c, d.empty(), d);
  CHECK(c, canon(m) == canon(got), fmt("stored parameter sets after %u deliveries ", n) + pbt::diff_text(canon(m), canon(got)));
  // one by one into one state
  ParserState one;
  n = std::min(n, 3000u);
  ParserState want;
  for (unsigned i = 0; i < n; i++) {
    const GUnit& u = l.at(i);
    apply_set(u, want);
    auto r = H265NalUnitParser::ParseNalUnit(u.ebsp.data(), u.ebsp.size(), &one, ParsingOptions());
    CHECK(c, r != nullptr, "unit rejected");
  }
  CHECK(c, canon(want) == canon(one), fmt("stored parameter sets after %u single units ", n) + pbt::diff_text(canon(want), canon(one)));
  c.nontrivial = l.size() > 256;
}

// ------------------------------------------------------------------ C24
PROP(C24, packets, 8000, "histories of 1..8 packets; non-trivial with an aggregation packet of two units or a start fragment") {
  ParserState m, st;
  unsigned n = (unsigned)s.uni(1, 8);
  std::string log;
  static const char* names[] = {"single", "aggregation", "fragment", "other"};
  Units past;
  for (unsigned k = 0; k < n; k++) {
    UnitOpt uo;
    uo.past = &past;
    // sets first, so that slices follow
    if (k == 0) uo.only = U_SPS;
    if (k == 1) uo.only = U_PPS;
    GPacket p = gen_packet(s, m, uo);
    c.tag(names[p.form]);
    for (auto& u : p.units) c.tag(u.what);
    c.input(p.data);
    if ((p.form == GPacket::AP && p.units.size() > 1) || p.start) c.nontrivial = true;
    if (c.want_sample) c.sample = c.input_desc = (log += fmt("%s: ", names[p.form]) + pbt::hex(p.data, 120) + " ");
    Exact x(p.data);
    auto r = H265RtpParser::ParseRtp(x.p.get(), x.n, &st);
    std::string d = diff_packet(p, r.get());
    CHECK(c, d.empty(), fmt("packet %u ", k) + d);
    CHECK(c, canon(m) == canon(st), fmt("parameter sets after packet %u ", k) + pbt::diff_text(canon(m), canon(st)));
    // the same packet through the parser of its form
    ParserState st2;
    copy_state(st, st2);
    if (p.form == GPacket::AP) {
      auto a = H265RtpApParser::ParseRtpAp(x.p.get(), x.n, &st2);
      CHECK(c, a != nullptr, "ParseRtpAp rejects the packet");
      if (m.sps.size() == st2.sps.size()) CHECK(c, a->nal_unit_sizes.size() == p.units.size(), "ParseRtpAp: number of units");
    } else if (p.form == GPacket::FU) {
      auto f = H265RtpFuParser::ParseRtpFu(x.p.get(), x.n, &st2);
      CHECK(c, f != nullptr, "ParseRtpFu rejects the packet");
      CHECK(c, f->s_bit == (p.start ? 1u : 0u) && f->fu_type == p.units[0].type, "ParseRtpFu: header");
    } else if (p.form == GPacket::SINGLE) {
      auto q = H265RtpSingleParser::ParseRtpSingle(x.p.get(), x.n, &st2);
      CHECK(c, q != nullptr && q->nal_unit_header->nal_unit_type == p.ptype, "ParseRtpSingle");
    }
  }
}
PROP(C24, reject, 20000, "packets too short for their headers, aggregation packets with sizes that do not fit; non-trivial with at least two units, or another packet form") {
  ParserState m, st;
  Units v = gen_units(s, m, 1, 4);
  GPacket p = rtp_ap(s, v);
  Bytes d = p.data;
  unsigned kind = (unsigned)s.uni(0, 5);
  std::string what;
  if (kind == 4) {
    // a unit without room for its header
    size_t at = 2, skip = (size_t)s.uni(0, v.size());
    for (size_t i = 0; i < skip; i++) at += 2 + v[i].ebsp.size();
    Bytes u = {0, 0};
    if (s.flag()) u = {0, 1, (uint8_t)s.uni(0, 255)};
    d.insert(d.begin() + (long)at, u.begin(), u.end());
    what = fmt("unit of %u bytes before unit %zu", u[1], skip);
  } else if (kind == 0) {
    // cut inside the last unit or its size
    size_t last = v.back().ebsp.size() + 2;
    size_t cut = (size_t)s.uni(1, last - 1);
    d.resize(d.size() - cut);
    what = fmt("cut by %zu bytes", cut);
  } else if (kind == 1) {
    size_t at = d.size() - v.back().ebsp.size() - 2;
    size_t n = v.back().ebsp.size();
    uint64_t big = s.flag() ? n + 1 : s.u(n + 1, 65535);
    d[at] = (uint8_t)(big >> 8);
    d[at + 1] = (uint8_t)big;
    what = fmt("last size %llu instead of %zu", (unsigned long long)big, n);
  } else if (kind == 2) {
    d.push_back((uint8_t)s.uni(0, 255));
    what = "one byte after the last unit";
  } else {
    d.resize(s.uni(0, 1));
    what = "less than a packet header";
  }
  if (kind == 5) {
    // no room for the packet header, or for the header of a fragment
    bool fu = s.flag();
    uint8_t type = (uint8_t)(fu ? 49 : s.uni(0, 63));
    d = {(uint8_t)(s.uni(0, 1) << 7 | type << 1 | s.uni(0, 1)), (uint8_t)s.uni(0, 255)};
    if (!fu) d.resize(s.uni(0, 1));
    what = fu ? "fragment without its header" : "less than a packet header";
  }
  c.input(d);
  c.nontrivial = v.size() > 1 || kind == 5;
  if (c.want_sample) c.sample = c.input_desc = what + ": " + pbt::hex(d, 300);
  Exact x(d);
  CHECK(c, H265RtpParser::ParseRtp(x.p.get(), x.n, &st) == nullptr, "packet accepted: " + what);
  if (kind == 5) {
    CHECK(c, H265RtpFuParser::ParseRtpFu(x.p.get(), x.n, &st) == nullptr, "fragment accepted: " + what);
    if (d.size() < 2) {
      CHECK(c, H265RtpApParser::ParseRtpAp(x.p.get(), x.n, &st) == nullptr, "aggregation packet accepted: " + what);
      CHECK(c, H265RtpSingleParser::ParseRtpSingle(x.p.get(), x.n, &st) == nullptr, "single packet accepted: " + what);
    }
  }
}

// ------------------------------------------------------------------ C25
static std::string qp_text(const std::vector<int64_t>& v) {
  std::string o;
  for (auto q : v) o += std::to_string(q) + " ";
  return o;
}
PROP(C25, stream, 8000, "streams with several PPSs; non-trivial with at least two slices") {
  ParserState m, st;
  if (s.chance(1, 4)) gen_stream(s, m, 0, 2);
  copy_state(m, st);
  UnitOpt uo;
  uo.wide_qp = s.flag();
  uo.slice_weight = 10;
  Units v = gen_stream(s, m, 1, 10, uo);
  note_units(c, v);
  Framed f = annexb(s, v);
  std::vector<int64_t> e;
  for (auto& u : v)
    if (u.has_qp) e.push_back(u.qp);
  Exact x(f.data);
  auto q = H265Utils::GetSliceQpY(x.p.get(), x.n, &st);
  std::vector<int64_t> g(q.begin(), q.end());
  c.nontrivial = e.size() > 1;
  CHECK(c, qp_text(e) == qp_text(g), "QPs " + qp_text(g) + "instead of " + qp_text(e));
  CHECK(c, canon(m) == canon(st), "parameter sets " + pbt::diff_text(canon(m), canon(st)));
}
PROP(C25, many, 48, "streams of hundreds to 80000 units; non-trivial with more than 256 slices") {
  LongStream l = gen_long(s, long_count(s), {U_SLICE, U_SLICE, U_SLICE, U_SLICE, U_AUD, U_ORPHAN, U_CUTSLICE});
  note_long(c, l);
  std::vector<int64_t> e;
  for (size_t i = 0; i < l.size(); i++)
    if (l.at(i).has_qp) e.push_back(l.at(i).qp);
  ParserState st;
  Exact x(frame_long(s, l, 0).data);
  auto q = H265Utils::GetSliceQpY(x.p.get(), x.n, &st);
  c.nontrivial = e.size() > 256;
  CHECK(c, q.size() == e.size(), fmt("%zu QPs instead of %zu", q.size(), e.size()));
  for (size_t i = 0; i < e.size(); i++) CHECK(c, q[i] == e[i], fmt("QP %zu is %lld instead of %lld", i, (long long)q[i], (long long)e[i]));
  CHECK(c, canon(*l.m) == canon(st), "parameter sets " + pbt::diff_text(canon(*l.m), canon(st)));
}
PROP(C25, rtp, 8000, "packets with and without slices; non-trivial when a QP is expected") {
  ParserState m, st;
  gen_stream(s, m, 0, 3);
  copy_state(m, st);
  UnitOpt uo;
  Units past;
  uo.past = &past;
  uo.wide_qp = s.flag();
  uo.slice_weight = 12;
  for (unsigned k = 0; k < 4; k++) {
    GPacket p = gen_packet(s, m, uo);
    c.input(p.data);
    for (auto& u : p.units) c.tag(u.what);
    if (c.want_sample) c.sample = c.input_desc = pbt::hex(p.data, 300);
    Exact x(p.data);
    auto r = H265RtpParser::ParseRtp(x.p.get(), x.n, &st);
    CHECK(c, r != nullptr, "packet rejected");
    auto q = H265Utils::GetSliceQpY(r, &st);
    // QP of the last unit, when it is a slice that starts here
    const GUnit* u = p.units.empty() ? nullptr : &p.units.back();
    bool want = u && u->has_qp && (p.form != GPacket::FU || p.start);
    if (want) c.nontrivial = true;
    CHECK(c, (q != nullptr) == want, want ? "no QP for a packet with a slice" : "QP for a packet without a slice start");
    if (want) CHECK(c, *q == u->qp, fmt("QP %d instead of %lld", *q, (long long)u->qp));
  }
}

// ------------------------------------------------------------------ C29
static std::string checksum_ref(const Bytes& b) {
  // one's-complement sum of 32-bit big-endian words
  uint64_t sum = 0;
  for (size_t i = 0; i < b.size(); i += 4) {
    uint32_t w = 0;
    for (size_t k = 0; k < 4; k++) w = w << 8 | (i + k < b.size() ? b[i + k] : 0u);
    sum += w;
    sum = (sum & 0xffffffffu) + (sum >> 32);
  }
  sum = (sum & 0xffffffffu) + (sum >> 32);
  uint32_t r = ~(uint32_t)sum;
  return fmt("%08x", r);
}
static std::string checksum_text(const NaluChecksum& k) {
  std::string o;
  const char* p = const_cast<NaluChecksum&>(k).GetChecksum();
  for (int i = 0; i < const_cast<NaluChecksum&>(k).GetLength(); i++) o += fmt("%02x", (unsigned)(uint8_t)p[i]);
  return o;
}
static void check_meta(Ctx& c, const GUnit& u, const NalUnit& n, size_t off, size_t len, const ParsingOptions& po, const char* how) {
  CHECK(c, n.offset == off, fmt("%s: offset %zu instead of %zu", how, n.offset, off));
  CHECK(c, n.length == len, fmt("%s: length %zu instead of %zu", how, n.length, len));
  CHECK(c, n.parsed_length <= u.rbsp.size(), fmt("%s (%s): parsed length %zu beyond the unit of %zu bytes", how, u.what, n.parsed_length, u.rbsp.size()));
  if (!u.wild) {
    CHECK(c, n.parsed_length >= (u.mand + 7) / 8, fmt("%s (%s): parsed length %zu, but %zu bits were decoded", how, u.what, n.parsed_length, u.mand));
  }
  CHECK(c, (n.checksum != nullptr) == po.add_checksum, "checksum present exactly when requested");
  if (n.checksum) {
    std::string e = checksum_ref(u.rbsp), g = checksum_text(*n.checksum);
    CHECK(c, e == g, fmt("%s: checksum %s instead of %s", how, g.c_str(), e.c_str()));
    CHECK(c, std::string(n.checksum->GetPrintableChecksum()) == e, "printable checksum");
  }
}
PROP(C29, metadata, 8000, "streams in both framings; non-trivial with at least three units") {
  ParserState m;
  UnitOpt uo;
  uo.wild = true;
  Units v = gen_stream(s, m, 1, 8, uo);
  note_units(c, v);
  Framed a = annexb(s, v);
  unsigned width = (unsigned)s.uni(min_width(v), 8);
  Framed l = length_prefixed(v, width, &s);
  ParsingOptions po = gen_options(s);
  Exact xa(a.data), xl(l.data);
  auto ba = H265BitstreamParser::ParseBitstream(xa.p.get(), xa.n, po);
  auto bl = H265BitstreamParser::ParseBitstreamNALULength(xl.p.get(), xl.n, width, po);
  CHECK(c, ba->nal_units.size() == v.size() && bl->nal_units.size() == v.size(), "number of units");
  for (size_t i = 0; i < v.size(); i++) {
    check_meta(c, v[i], *ba->nal_units[i], a.off[i], a.len[i], po, "start codes");
    check_meta(c, v[i], *bl->nal_units[i], l.off[i], l.len[i], po, "length prefix");
    CHECK(c, ba->nal_units[i]->parsed_length == bl->nal_units[i]->parsed_length, "parsed length depends on the framing");
    // the unit alone, after the same sets
  }
  c.nontrivial = v.size() >= 3;
}
PROP(C29, many, 32, "streams of hundreds to 80000 units or more than 16 MB; non-trivial with more than 256 units or beyond 2^24 bytes") {
  bool far = s.chance(1, 3);
  LongStream l = gen_long(s, far ? (unsigned)s.uni(10, 60) : long_count(s), all_kinds(), far);
  note_long(c, l);
  ParsingOptions po = gen_options(s);
  if (l.size() > 10000) po.add_checksum = false;
  unsigned width = s.flag() ? 0 : (unsigned)s.uni(min_width(l), 8);
  Framed f = frame_long(s, l, width);
  if (far) c.tag("beyond 2^24 bytes");
  Exact x(f.data);
  auto b = width ? H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, width, po) : H265BitstreamParser::ParseBitstream(x.p.get(), x.n, po);
  CHECK(c, b->nal_units.size() == l.size(), "number of units");
  for (size_t i = 0; i < l.size(); i++) check_meta(c, l.at(i), *b->nal_units[i], f.off[i], f.len[i], po, width ? "length prefix" : "start codes");
  c.nontrivial = far || l.size() > 256;
}
PROP(C29, checksum, 60000, "checksum of byte strings; non-trivial when the length is not a multiple of 4") {
  Bytes b;
  unsigned n = (unsigned)s.u(0, s.chance(1, 50) ? 20000 : 64);
  unsigned kind = (unsigned)s.uni(0, 3);
  if (kind == 3) {
    // few words, whose sum is at the edge of a carry
    for (unsigned i = 0; i < n / 4; i++) {
      static const uint32_t words[] = {0xffffffff, 1, 0, 0xfffffffe, 0x80000000, 0x7fffffff, 2, 0xffff0000, 0xffff};
      uint32_t w = words[s.uni(0, 8)];
      for (int k = 3; k >= 0; k--) b.push_back((uint8_t)(w >> (8 * k)));
    }
    n = (unsigned)s.uni(0, 3);
  }
  for (unsigned i = 0; i < n; i++) b.push_back((uint8_t)(kind == 0 ? s.uni(0, 255) : kind == 1 ? 255 : (s.flag() ? 255 : s.uni(0, 255))));
  c.input(b);
  c.nontrivial = n % 4 != 0;
  Exact x(b);
  BitBuffer bb(x.p.get(), x.n);
  auto k = NaluChecksum::GetNaluChecksum(&bb);
  CHECK(c, k != nullptr, "no checksum");
  std::string e = checksum_ref(b), g = checksum_text(*k);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(b, 80) + " -> " + e;
  CHECK(c, e == g, "checksum " + g + " instead of " + e);
  CHECK(c, bit_pos(bb) == 0, "the checksum moved the read position");
  size_t at = s.uni(0, b.size());
  bb.Seek(at, 0);
  NaluChecksum::GetNaluChecksum(&bb);
  CHECK(c, bit_pos(bb) == 8 * (uint64_t)at, "the checksum moved the read position inside the buffer");
  // the text form, cut when the output is short
  int room = (int)s.uni(3, 20);
  std::unique_ptr<char[]> o(new char[(size_t)room]);
  memset(o.get(), '#', (size_t)room);
  k->fdump(o.get(), room);
  size_t len = strnlen(o.get(), (size_t)room);
  CHECK(c, len < (size_t)room && e.compare(0, len, o.get()) == 0 && (room < 9 || len == 8), fmt("text of the checksum in %d bytes", room));
}

// ------------------------------------------------------------------ C34
PROP(C34, pieces, 5000, "streams parsed at once, in pieces and unit by unit; non-trivial with a slice and at least one inner split") {
  ParserState m;
  UnitOpt uo;
  uo.wild = uo.wild_sets = true;
  Units v = gen_stream(s, m, 1, 9, uo);
  note_units(c, v);
  ParsingOptions po = gen_options(s);
  ParserState s0;
  std::vector<std::string> whole;
  {
    Exact x(annexb(s, v).data);
    auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &s0, po);
    for (auto& u : b->nal_units) whole.push_back(rel_text(*u));
    auto b2 = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, po);
    CHECK(c, b2->nal_units.size() == whole.size(), "internal state: number of units");
    for (size_t i = 0; i < whole.size(); i++) {
      std::string t = rel_text(*b2->nal_units[i]);
      CHECK(c, t == whole[i], fmt("internal state: unit %zu ", i) + pbt::diff_text(whole[i], t));
      CHECK(c, b2->nal_units[i]->offset == b->nal_units[i]->offset, "internal state: offset");
    }
  }
  CHECK(c, whole.size() == v.size(), "number of units");
  std::string final0 = canon(s0);
  // consecutive runs with one shared state
  ParserState s1;
  size_t i = 0, runs = 0;
  while (i < v.size()) {
    size_t j = (size_t)s.uni(i + 1, v.size());
    Units part(v.begin() + (long)i, v.begin() + (long)j);
    std::unique_ptr<BitstreamSt> b;
    if (s.flag()) {
      Exact x(annexb(s, part).data);
      b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &s1, po);
    } else {
      unsigned w = min_width(part);
      Exact x(length_prefixed(part, w, &s).data);
      b = H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, w, &s1, po);
    }
    CHECK(c, b->nal_units.size() == part.size(), "run: number of units");
    for (size_t k = 0; k < part.size(); k++) {
      std::string t = rel_text(*b->nal_units[k]);
      CHECK(c, t == whole[i + k], fmt("run %zu..%zu: unit %zu ", i, j, i + k) + pbt::diff_text(whole[i + k], t));
    }
    i = j;
    runs++;
  }
  CHECK(c, canon(s1) == final0, "final state after runs " + pbt::diff_text(final0, canon(s1)));
  // one by one
  ParserState s2;
  for (size_t k = 0; k < v.size(); k++) {
    std::unique_ptr<NalUnit> u;
    unsigned how = (unsigned)s.uni(0, 2);
    Exact xe(v[k].ebsp), xr(v[k].rbsp);
    if (how == 0) {
      u = H265NalUnitParser::ParseNalUnit(xe.p.get(), xe.n, &s2, po);
    } else if (how == 1) {
      u = H265NalUnitParser::ParseNalUnitUnescaped(xr.p.get(), xr.n, &s2, po);
    } else {
      BitBuffer bb(xr.p.get(), xr.n);
      u = H265NalUnitParser::ParseNalUnit(&bb, &s2, po);
    }
    CHECK(c, u != nullptr, "unit rejected alone");
    u->length = v[k].ebsp.size();
    std::string t = rel_text(*u);
    CHECK(c, t == whole[k], fmt("alone (way %u): unit %zu ", how, k) + pbt::diff_text(whole[k], t));
  }
  CHECK(c, canon(s2) == final0, "final state after single units " + pbt::diff_text(final0, canon(s2)));
  bool slice = false;
  for (auto& u : v) slice |= u.has_qp;
  c.nontrivial = slice && runs > 1;
}

PROP(C34, many, 24, "streams of hundreds to 80000 units, whole and in pieces; non-trivial with more than 256 units") {
  LongStream l = gen_long(s, long_count(s), all_kinds());
  note_long(c, l);
  ParsingOptions po = gen_options(s);
  ParserState s0, s1, s2;
  uint64_t seed = s.uni(0, kU32Max);
  {
    Exact x(frame_long(s, l, 0).data);
    auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &s0, po);
    std::string d = diff_long(l, b->nal_units, seed);
    CHECK(c, d.empty(), "whole: " + d);
  }
  size_t i = 0;
  while (i < l.size()) {
    size_t j = s.flag() ? l.size() : (size_t)s.uni(i + 1, l.size());
    unsigned w = s.flag() ? 0 : (unsigned)s.uni(min_width(l), 8);
    Exact x(frame_long(s, l, w, i, j).data);
    auto b = w ? H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, w, &s1, po) : H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &s1, po);
    std::string d = diff_long(l, b->nal_units, seed, i, j);
    CHECK(c, d.empty(), fmt("piece %zu..%zu: ", i, j) + d);
    i = j;
  }
  CHECK(c, canon(s0) == canon(s1), "final state after pieces " + pbt::diff_text(canon(s0), canon(s1)));
  for (i = 0; i < l.size(); i++) {
    const GUnit& u = l.at(i);
    auto r = H265NalUnitParser::ParseNalUnit(u.ebsp.data(), u.ebsp.size(), &s2, po);
    CHECK(c, r != nullptr, "unit rejected alone");
    if (!looked_at(i, l.size(), seed)) continue;
    std::string t = canon(*r, no_meta());
    CHECK(c, t == u.text, fmt("alone: unit %zu ", i) + pbt::diff_text(u.text, t));
  }
  CHECK(c, canon(s0) == canon(s2), "final state after single units " + pbt::diff_text(canon(s0), canon(s2)));
  c.nontrivial = l.size() > 256;
}

// ------------------------------------------------------------------ C35
// While `recycle` is set, memory comes from an arena that hands out the most
// recently released block of a size first, filled with a byte: the addresses
// of released objects come back at once, as with a production allocator, and
// members that are never set hold something different in each run.
namespace {
struct Recycler {
  enum : size_t { SIZE = (size_t)96 << 20, CLASSES = 40 };
  struct Head {
    size_t cls;
    Head* next;
  };
  uint8_t *base = nullptr, *top = nullptr;
  Head* free_[CLASSES] = {};
  static size_t cls_of(size_t n) {
    size_t c = 0, b = 16;
    while (b < n) c++, b <<= 1;
    return c;
  }
  void* get(size_t n, int fill) {
    if (!base) {
      void* m = mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) return nullptr;
      base = top = (uint8_t*)m;
    }
    size_t k = cls_of(n), b = (size_t)16 << k;
    Head* h = k < CLASSES ? free_[k] : nullptr;
    if (h)
      free_[k] = h->next;
    else {
      if (k >= CLASSES || (size_t)(base + SIZE - top) < b + sizeof(Head)) return nullptr;
      h = (Head*)top;
      top += b + sizeof(Head);
      h->cls = k;
    }
    memset(h + 1, fill, b);
    return h + 1;
  }
  bool put(void* p) {
    if (!base || p < (void*)base || p >= (void*)(base + SIZE)) return false;
    Head* h = (Head*)p - 1;
    memset(p, 0xdd, (size_t)16 << h->cls);
    h->next = free_[h->cls];
    free_[h->cls] = h;
    return true;
  }
};
Recycler recycler;
thread_local int recycle = -1;
struct Recycle {
  explicit Recycle(int fill) { recycle = fill; }
  ~Recycle() { recycle = -1; }
};
}  // namespace
#if !__has_feature(thread_sanitizer)
void* operator new(size_t n) {
  void* p = recycle >= 0 ? recycler.get(n, recycle) : nullptr;
  if (!p) p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void operator delete(void* p) noexcept {
  if (p && !recycler.put(p)) free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
// the forms that do not throw pair with the same delete
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#endif
static std::string parse_text(const uint8_t* p, size_t n, ParserState* st, const ParsingOptions& po) {
  auto b = H265BitstreamParser::ParseBitstream(p, n, st, po);
  std::string t = canon(*b) + canon(*st);
  auto q = H265Utils::GetSliceQpY(p, n, st);
  for (auto x : q) t += fmt("qp %d\n", x);
  return t;
}
// deliveries of every kind, and all one can see of their results
struct Job {
  unsigned kind = 0, par = 0;
  Bytes d;
  ParsingOptions po;
};
static Job gen_job(Src& s, ParserState& m, const UnitOpt& uo, bool first) {
  Job j;
  j.kind = first ? (unsigned)s.uni(0, 1) : (unsigned)s.uni(0, 7);
  j.po = gen_options(s);
  switch (j.kind) {
    case 0: j.d = annexb(s, first ? gen_stream(s, m, 1, 5, uo) : gen_units(s, m, 1, 4, uo)).data; break;
    case 1: {
      Units v = first ? gen_stream(s, m, 1, 5, uo) : gen_units(s, m, 1, 4, uo);
      j.par = (unsigned)s.uni(min_width(v), 8);
      j.d = length_prefixed(v, j.par, &s).data;
      break;
    }
    case 2: j.d = gen_unit(s, m, uo).ebsp; break;
    case 3: j.d = gen_unit(s, m, uo).rbsp; break;
    case 4: j.d = gen_box(s, m, uo).data; break;
    case 5: j.d = gen_packet(s, m, uo).data; break;
    case 6: j.d = annexb(s, gen_units(s, m, 1, 4, uo)).data; break;
    default: {
      unsigned n = (unsigned)s.u(0, 60);
      for (unsigned i = 0; i < n; i++) j.d.push_back((uint8_t)s.uni(0, 255));
      j.par = (unsigned)s.uni(0, 3);
    }
  }
  return j;
}
static std::string dump_bs(const BitstreamSt& b) {
  MemFile f;
  b.fdump(f.f, 0);
  return f.str();
}
struct JobResult {
  std::string text;
  std::shared_ptr<BitstreamSt> bs;
  std::shared_ptr<NalUnit> nal;
  std::shared_ptr<ConfBox> box;
  std::shared_ptr<Rtp> rtp;
  ParsingOptions po;
  // of the objects alone
  std::string seen() const {
    std::string t;
    if (bs) t += canon(*bs) + dump_bs(*bs);
    if (nal) t += canon(*nal) + dump_str(*nal, 0, po);
    if (box) t += canon(*box) + dump_str(*box, 0, po);
    if (rtp) t += canon(*rtp) + dump_str(*rtp, 0, po);
    return t;
  }
};
static JobResult run_job(const Job& j, const uint8_t* p, size_t n, ParserState* st) {
  JobResult r;
  r.po = j.po;
  std::string q;
  unsigned kind = j.kind == 7 ? j.par + 2 : j.kind;
  switch (kind) {
    case 0: r.bs = H265BitstreamParser::ParseBitstream(p, n, st, j.po); break;
    case 1: r.bs = H265BitstreamParser::ParseBitstreamNALULength(p, n, j.par, st, j.po); break;
    case 2: r.nal = H265NalUnitParser::ParseNalUnit(p, n, st, j.po); break;
    case 3: r.nal = H265NalUnitParser::ParseNalUnitUnescaped(p, n, st, j.po); break;
    case 4: r.box = H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, j.po); break;
    case 5: {
      std::unique_ptr<Rtp> x = H265RtpParser::ParseRtp(p, n, st);
      if (x) {
        auto v = H265Utils::GetSliceQpY(x, st);
        if (v) q += fmt("qp %d\n", *v);
      }
      r.rtp = std::move(x);
      break;
    }
    default:
      for (auto v : H265Utils::GetSliceQpY(p, n, st)) q += fmt("qp %d\n", v);
  }
  r.text = r.seen() + q + canon(*st);
  return r;
}
static const char* job_name(unsigned k) {
  static const char* n[] = {"Annex B stream", "length-prefixed stream", "unit", "unescaped unit", "configuration record", "packet", "slice QPs", "arbitrary bytes"};
  return n[k];
}

PROP(C35, isolation, 4000, "a history of deliveries repeated between those of another one; non-trivial with at least three deliveries") {
  ParserState m, mo;
  UnitOpt uo;
  uo.wild = uo.wild_sets = true;
  std::vector<Job> a, b;
  unsigned na = (unsigned)s.uni(1, 6), nb = (unsigned)s.uni(1, 4);
  Units past;
  uo.past = &past;
  for (unsigned i = 0; i < na; i++) a.push_back(gen_job(s, m, uo, i == 0));
  uo.past = nullptr;
  for (unsigned i = 0; i < nb; i++) b.push_back(gen_job(s, mo, uo, i == 0));
  // the same delivery with other contents of the same length
  for (unsigned k = (unsigned)s.uni(0, 3); k > 0; k--) {
    size_t i = (size_t)s.uni(0, a.size() - 1);
    Job j = a[i];
    if (j.d.empty()) continue;
    for (unsigned f = (unsigned)s.uni(1, 3); f > 0; f--) j.d[s.uni(0, j.d.size() - 1)] ^= (uint8_t)(1u << s.uni(0, 7));
    a.insert(a.begin() + (long)s.uni(i + 1, a.size()), j);
  }
  for (auto& j : a) {
    c.input(j.d);
    c.tag(job_name(j.kind));
  }
  c.nontrivial = na >= 3;
  if (c.want_sample) {
    for (auto& j : a) c.sample += std::string(job_name(j.kind)) + " " + pbt::hex(j.d, 80) + " ";
    for (auto& j : a) c.input_desc += std::string(job_name(j.kind)) + fmt(" (%u) ", j.par) + pbt::hex(j.d, 1000) + "\n";
  }
  std::vector<JobResult> kept;
  std::vector<std::string> seen;
  {
    std::unique_ptr<ParserState> st(new ParserState);
    for (auto& j : a) {
      Exact x(j.d);
      kept.push_back(run_job(j, x.p.get(), x.n, st.get()));
      CHECK(c, std::equal(j.d.begin(), j.d.end(), x.p.get()), std::string("parsing changed the input: ") + job_name(j.kind));
      seen.push_back(kept.back().seen());
      memset(x.p.get(), 0xa5, x.n);
    }
  }
  // again, between deliveries to other states and elsewhere in memory, each
  // in its own place or all in the same place
  ParserState st2, other;
  size_t ib = 0, most = 0;
  for (auto& j : a) most = std::max(most, j.d.size());
  for (auto& j : b) most = std::max(most, j.d.size());
  bool same_place = s.chance(1, 2);
  int fill = s.chance(1, 2) ? (int)s.uni(0, 255) : -1;
  if (same_place) c.tag("all in the same place");
  if (fill >= 0) c.tag("released memory comes back at once");
  Bytes place(most + 20);
  for (auto& x : place) x = (uint8_t)(&x - place.data());
  for (size_t i = 0; i < a.size(); i++) {
    for (unsigned k = (unsigned)s.uni(0, 2); k > 0; k--) {
      const Job& o = b[ib++ % b.size()];
      if (same_place) {
        std::copy(o.d.begin(), o.d.end(), place.begin() + 10);
        run_job(o, place.data() + 10, o.d.size(), &other);
      } else {
        Exact x(o.d);
        run_job(o, x.p.get(), x.n, &other);
      }
    }
    Bytes own;
    Bytes* in = &place;
    unsigned pre = 10;
    if (!same_place) {
      pre = (unsigned)s.uni(0, 9);
      unsigned post = (unsigned)s.uni(0, 9);
      own.assign(pre, (uint8_t)s.uni(0, 255));
      put_bytes(own, a[i].d);
      for (unsigned k = 0; k < post; k++) own.push_back((uint8_t)s.uni(0, 255));
      in = &own;
    } else
      std::copy(a[i].d.begin(), a[i].d.end(), place.begin() + 10);
    Bytes copy = *in;
    std::string text;
    {
      Recycle mode(fill);
      text = run_job(a[i], in->data() + pre, a[i].d.size(), &st2).text;
    }
    CHECK(c, *in == copy, std::string("parsing changed the memory around the input: ") + job_name(a[i].kind));
    CHECK(c, text == kept[i].text,
          std::string("second parse differs: ") + job_name(a[i].kind) + " " + pbt::diff_text(kept[i].text, text));
  }
  // everything the first results need is gone by now
  for (size_t i = 0; i < kept.size(); i++)
    CHECK(c, kept[i].seen() == seen[i],
          std::string("a result changed after its input and state were gone: ") + job_name(a[i].kind) + " " + pbt::diff_text(seen[i], kept[i].seen()));
}
PROP(C35, threads, 80, "eight histories parsed by four threads at once, several times; non-trivial always") {
  std::vector<std::vector<Job>> h;
  UnitOpt uo;
  uo.wild = uo.wild_sets = true;
  for (int i = 0; i < 8; i++) {
    ParserState m;
    h.emplace_back();
    unsigned n = (unsigned)s.uni(1, 5);
    for (unsigned k = 0; k < n; k++) h.back().push_back(gen_job(s, m, uo, k == 0));
    for (auto& j : h.back()) c.input(j.d);
  }
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = "8 histories, the first starts with " + pbt::hex(h[0][0].d, 200);
  const unsigned rounds = 6;
  // nothing has been parsed before, so what is set up on first use is set up
  // by the threads
  auto all = [&](size_t k) {
    ParserState st;
    std::string t;
    for (auto& j : h[k]) t += run_job(j, j.d.data(), j.d.size(), &st).text;
    return t;
  };
  std::vector<std::vector<std::string>> got(4, std::vector<std::string>(8));
  std::vector<std::string> bad(4);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < 4; t++)
    th.emplace_back([&, t]() {
      for (unsigned r = 0; r < rounds; r++)
        for (unsigned i = 0; i < 8; i++) {
          size_t k = (i * (2 * t + 1) + t) % 8;
          std::string g = all(k);
          if (r == 0)
            got[t][k] = g;
          else if (g != got[t][k] && bad[t].empty())
            bad[t] = pbt::diff_text(got[t][k], g);
        }
    });
  for (auto& t : th) t.join();
  for (auto& b : bad) CHECK(c, b.empty(), "concurrent parse differs " + b);
  for (size_t k = 0; k < 8; k++) {
    std::string e = all(k);
    for (unsigned t = 0; t < 4; t++) CHECK(c, got[t][k] == e, "concurrent parse differs " + pbt::diff_text(e, got[t][k]));
  }
}

// ------------------------------------------------------------------ C37
PROP(C37, damage, 8000, "streams with one damaged unit; non-trivial when the damaged unit had a payload and other units have one") {
  ParserState m;
  UnitOpt uo;
  Units v = gen_stream(s, m, 2, 8, uo);
  // victims: anything but parameter sets
  std::vector<size_t> cand;
  for (size_t i = 0; i < v.size(); i++)
    if (!v[i].is_set()) cand.push_back(i);
  if (cand.empty()) return;
  size_t vi = cand[s.uni(0, cand.size() - 1)];
  GUnit old = v[vi];
  GUnit& u = v[vi];
  unsigned kind = (unsigned)s.uni(0, 3);
  if (kind == 0 && u.rbsp.size() > 2) {
    // flip bits of the payload
    unsigned n = (unsigned)s.uni(1, 4);
    for (unsigned i = 0; i < n; i++) u.rbsp[s.uni(2, u.rbsp.size() - 1)] ^= (uint8_t)(1u << s.uni(0, 7));
    u.wild = true;
    c.tag("bit flips");
  } else if (kind == 1 && u.rbsp.size() > 2) {
    size_t n = (size_t)s.uni(2, u.rbsp.size() - 1);
    u.rbsp.resize(n);
    if (old.parsed && is_slice_type(u.type) && 8 * n < old.mand) {
      // nothing may be invented for the cut header
      new_expected(u);
      u.text = canon(*u.exp, no_meta());
    } else if (!old.parsed && !is_slice_type(u.type) && u.type != 39 && u.type != 40) {
      // still no payload
    } else {
      u.wild = true;
    }
    c.tag("cut");
  } else {
    BitW w;
    random_payload(s, w, 50);
    u.rbsp.resize(2);
    put_bytes(u.rbsp, w.bytes());
    u.wild = is_slice_type(u.type) || u.type == 39 || u.type == 40 || u.type == 35;
    c.tag("replaced");
  }
  while (u.rbsp.size() > 2 && u.rbsp.back() == 0) u.rbsp.pop_back();
  if (u.wild && u.rbsp.size() == 2) {
    // only the header is left
    u.wild = false;
    new_expected(u);
    u.text = canon(*u.exp, no_meta());
  }
  u.ebsp = pbt::escape_rbsp(u.rbsp);
  // units without parsed payload may come and go
  unsigned ins = (unsigned)(s.chance(1, 60) ? s.uni(3, 80) : s.uni(0, 2));
  ParserState none;
  UnitOpt oo;
  oo.only = U_OPAQUE;
  for (unsigned i = 0; i < ins; i++) {
    size_t at = (size_t)s.uni(0, v.size());
    v.insert(v.begin() + (long)at, gen_unit(s, none, oo));
  }
  note_units(c, v);
  if (c.want_sample) c.sample = c.input_desc = fmt("unit %zu damaged: ", vi) + describe(v, 20);
  unsigned width = s.flag() ? (unsigned)s.uni(min_width(v), 8) : 0;
  Framed f = width ? length_prefixed(v, width, &s) : annexb(s, v);
  c.tag(width ? "length-prefixed" : "start codes");
  Exact x(f.data);
  ParserState st;
  auto b = width ? H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, width, &st, gen_options(s))
                 : H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, gen_options(s));
  std::string d = diff_units(v, b->nal_units);
  CHECK(c, d.empty(), d);
  CHECK(c, canon(m) == canon(st), "parameter sets " + pbt::diff_text(canon(m), canon(st)));
  size_t others = 0;
  for (size_t i = 0; i < v.size(); i++) {
    auto& n = *b->nal_units[i];
    CHECK(c, n.offset == f.off[i] && n.length == f.len[i], fmt("unit %zu: offset %zu length %zu", i, n.offset, n.length));
    CHECK(c, hdr_text(n.nal_unit_header) == hdr_text(v[i].type, v[i].layer, v[i].tid, v[i].fbit), fmt("unit %zu: header", i));
    auto& p = *n.nal_unit_payload;
    if (v[i].wild && is_slice_type(v[i].type))
      CHECK(c, !p.vps && !p.sps && !p.pps && !p.sei && !p.aud, "a damaged slice with another payload");
    others += !v[i].wild && v[i].parsed;
  }
  c.nontrivial = old.parsed && others > 0;
}
PROP(C37, many, 48, "streams in which hundreds to thousands of units are broken; non-trivial with more than 256 broken units") {
  LongStream l = gen_long(s, long_count(s), {U_CUTSET, U_BADSET, U_ORPHAN, U_CUTSLICE, U_HEADER, U_OPAQUE, U_SLICE, U_SEI});
  note_long(c, l);
  size_t bad = 0;
  for (size_t i = 0; i < l.size(); i++) bad += l.at(i).kind >= U_CUTSET;
  unsigned width = s.flag() ? 0 : (unsigned)s.uni(min_width(l), 8);
  Framed f = frame_long(s, l, width);
  Exact x(f.data);
  ParserState st;
  ParsingOptions po = gen_options(s);
  auto b = width ? H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, width, &st, po) : H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, po);
  std::string d = diff_long(l, b->nal_units, s.uni(0, kU32Max));
  CHECK(c, d.empty(), d);
  CHECK(c, canon(*l.m) == canon(st), "parameter sets " + pbt::diff_text(canon(*l.m), canon(st)));
  c.nontrivial = bad > 256;
}
