// C01: no input makes the library crash, misbehave or use memory or time out
// of proportion.
#include "gen_hostile.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

static std::string describe_program(const std::vector<Exerciser::Step>& p, size_t max) {
  std::string o;
  for (auto& x : p) o += fmt("[op %u p0 %u p1 %u ", x.op % Exerciser::kOps, x.p0, x.p1) + pbt::hex(x.d, max) + "] ";
  return o;
}
static void run_program(Ctx& c, const std::vector<Exerciser::Step>& p) {
  for (auto& x : p) {
    c.input(x.d);
    c.input(x.op);
    c.input(x.p0 << 8 | x.p1);
  }
  if (c.want_sample) {
    c.sample = describe_program(p, 60);
    c.input_desc = describe_program(p, 4000);
  }
  Exerciser e;
  e.run(p);
  CHECK(c, e.why.empty(), e.why);
  c.nontrivial = e.st.objects > 0;
  if (e.st.qps) c.tag("slice QP computed");
  if (e.st.objects > 3) c.tag("several objects parsed");
  if (e.st.mem_ratio > 300) c.tag("memory above 300 bytes per input byte");
  if (e.st.mem_ratio > 1000) c.tag("memory above 1000 bytes per input byte");
  if (e.st.single_ratio > 100) c.tag("one allocation above 100 bytes per input byte");
  if (e.st.cpu > 0.1) c.tag("more than 0.1 s");
}

// seed corpus of the coverage-guided search
extern void (*pbt_make_corpus)(const std::string&, uint64_t);
static void make_corpus(const std::string& dir, uint64_t seed) {
  for (unsigned i = 0; i < 1500; i++) {
    Src s(seed * 1000003 + i);
    Bytes b = Exerciser::encode(gen_program(s, 5));
    if (b.size() > 2000) continue;
    FILE* f = fopen((dir + "/" + std::to_string(i)).c_str(), "wb");
    if (!f) return;
    fwrite(b.data(), 1, b.size(), f);
    fclose(f);
  }
}
static const bool corpus_set = (pbt_make_corpus = make_corpus, true);

PROP(C01, programs, 30000, "histories of extreme, damaged and arbitrary deliveries; non-trivial when something was parsed and printed") {
  auto p = gen_program(s, 8);
  run_program(c, p);
}

PROP(C01, long_inputs, 160, "inputs of up to 300 kB made of repeated pieces; non-trivial when something was parsed and printed") {
  std::vector<Exerciser::Step> prog;
  // sets first
  ParserState m;
  if (s.flag()) {
    Exerciser::Step x;
    x.op = 0;
    x.p0 = x.p1 = 0;
    x.d = annexb(s, gen_stream(s, m, 0, 1)).data;
    prog.push_back(x);
  }
  Bytes piece;
  unsigned k = (unsigned)s.uni(0, 5);
  UnitOpt uo;
  uo.wild = true;
  Exerciser::Step x;
  static const std::vector<unsigned> ops = {0, 0, 3, 5, 6, 9, 12, 14, 21, 17, 18, 7, 10};
  x.op = s.pick(ops);
  x.p0 = (unsigned)s.uni(0, 255);
  x.p1 = (unsigned)s.uni(0, 255);
  size_t total = (size_t)s.uni(10000, 300000);
  if (k == 0) {
    unsigned n = (unsigned)s.uni(1, 6);
    for (unsigned i = 0; i < n; i++) piece.push_back((uint8_t)s.u(0, 255));
  } else if (k == 1) {
    piece = annexb(s, gen_units(s, m, 1, 3, uo)).data;
  } else if (k == 2) {
    piece = {0, 0, 1, (uint8_t)(s.uni(0, 63) << 1), 1};
  } else if (k == 3) {
    piece = length_prefixed(gen_units(s, m, 1, 3, uo), 2).data;
    x.op = 3;
    x.p1 = 2;
  } else if (k == 4) {
    // one structure, then a long tail
    GUnit u = gen_unit(s, m, uo);
    x.d = u.ebsp;
    x.op = s.flag() ? 5 : 9;
    piece = Bytes(1, (uint8_t)s.u(0, 255));
  } else {
    piece = Bytes(1, s.flag() ? 0xff : 0);
  }
  while (x.d.size() < total) x.d.insert(x.d.end(), piece.begin(), piece.end());
  c.tag(k == 4 ? "long tail" : "repeated piece");
  prog.push_back(x);
  run_program(c, prog);
}

// every truncation and every one-bit change of a delivery, after the
// deliveries before it
PROP(C01, neighbours, 1500, "all truncations and all one-bit changes of the last delivery of a history; non-trivial when something was parsed and printed") {
  auto p = gen_program(s, 3);
  if (p.back().d.size() > 400) p.back().d.resize(400);
  bool flips = s.flag();
  Exerciser::Step last = p.back();
  for (auto& x : p) {
    c.input(x.d);
    c.input(x.op);
    c.input(x.p0 << 8 | x.p1);
  }
  c.input(flips);
  if (c.want_sample) {
    c.sample = describe_program(p, 60);
    c.input_desc = describe_program(p, 4000);
  }
  c.tag(flips ? "bit changes" : "truncations");
  Exerciser e;
  std::unique_ptr<H265BitstreamParserState> st(new H265BitstreamParserState);
  for (auto& x : p) e.step(*st, x.op, x.p0, x.p1, x.d.data(), x.d.size());
  size_t n = flips ? last.d.size() * 8 : last.d.size();
  for (size_t i = 0; i < n && e.why.empty(); i++) {
    Bytes d = last.d;
    if (flips)
      d[i / 8] ^= (uint8_t)(0x80 >> (i & 7));
    else
      d.resize(i);
    e.step(*st, last.op, last.p0, last.p1, d.data(), d.size());
  }
  CHECK(c, e.why.empty(), e.why);
  c.nontrivial = e.st.objects > 0;
}
