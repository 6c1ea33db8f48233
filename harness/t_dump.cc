// C30, C31: the text dump reports every parsed value, in every layout.
#include "stream.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

typedef std::set<std::pair<const void*, std::string>> Present;

static std::string read_dump(const std::string& text, const ENode& t, const Present* present, const ParsingOptions& o) {
  DumpReader r(text);
  r.present = present;
  if (!o.add_offset) r.optional.insert("offset");
  if (!o.add_length) r.optional.insert("length");
  if (!o.add_parsed_length) r.optional.insert("parsed_length");
  if (!o.add_checksum) r.optional.insert("checksum");
  if (!o.add_resolution) {
    r.optional.insert("width");
    r.optional.insert("height");
  }
  return r.read(t);
}
static ETree unit_tree(const GUnit& u, const NalUnit& parsed) {
  if (u.wild) return etree(parsed);
  ETree t = etree(*u.exp);
  t->text = etree(parsed)->text;
  return t;
}

PROP(C30, structures, 60000, "dumps of conforming structures of every kind; non-trivial when at least 8 elements were coded") {
  int kind = (int)s.uni(0, K_COUNT - 1);
  Enc E(s);
  E.track = true;
  SCase sc = gen_case(kind, E);
  c.input(E.w.bytes());
  c.input(sc.params);
  c.tag(kind_name(kind));
  std::string d = sc.dump(0);
  ETree t = sc.tree();
  if (c.want_sample) {
    c.sample = std::string(kind_name(kind)) + " " + pbt::hex(E.w.bytes(), 60) + " dumped as " + d.substr(0, 500);
    c.input_desc = std::string(kind_name(kind)) + " " + pbt::hex(E.w.bytes(), 2000) + " " + sc.params + "\ndump:\n" + d;
  }
  std::string why = read_dump(d, *t, &E.present, ParsingOptions());
  CHECK(c, why.empty(), std::string(kind_name(kind)) + ": " + why);
  c.nontrivial = E.present.size() >= 8;
}

PROP(C30, units, 6000, "dumps of streams parsed in both framings; non-trivial with at least three units") {
  ParserState m;
  Present present;
  UnitOpt uo;
  uo.track = true;
  uo.present = &present;
  uo.wild = true;
  Units v = gen_stream(s, m, 1, 5, uo);
  note_units(c, v);
  ParsingOptions po = gen_options(s);
  bool lp = s.flag();
  Framed f = lp ? length_prefixed(v, 4) : annexb(s, v);
  Exact x(f.data);
  auto b = lp ? H265BitstreamParser::ParseBitstreamNALULength(x.p.get(), x.n, 4, po) : H265BitstreamParser::ParseBitstream(x.p.get(), x.n, po);
  CHECK(c, b && b->nal_units.size() == v.size(), "number of units");
  for (size_t i = 0; i < v.size(); i++) {
    // positions and sizes as in files too large to generate
    if (s.chance(1, 4)) {
      b->nal_units[i]->offset = (size_t)s.u(0, UINT64_MAX);
      b->nal_units[i]->length = (size_t)s.u(0, UINT64_MAX);
      b->nal_units[i]->parsed_length = (size_t)s.u(0, UINT64_MAX);
    }
    ETree t = unit_tree(v[i], *b->nal_units[i]);
    std::string d = dump_str(*b->nal_units[i], 0, po);
    std::string why = read_dump(d, *t, v[i].wild ? nullptr : &present, po);
    CHECK(c, why.empty(), fmt("unit %zu (%s): ", i, v[i].what) + why + "\ndump:\n" + d);
  }
  c.nontrivial = v.size() >= 3;
}

PROP(C30, box, 4000, "dumps of configuration records; non-trivial with at least one NAL unit") {
  ParserState m, st;
  Present present;
  UnitOpt uo;
  uo.track = true;
  uo.present = &present;
  GBox g = gen_box(s, m, uo);
  c.input(g.data);
  ParsingOptions po = gen_options(s);
  Exact x(g.data);
  auto r = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, po);
  CHECK(c, r != nullptr, "record rejected");
  ETree t = etree(*g.exp);
  size_t k = 0;
  for (auto& a : r->nalUnit)
    for (auto& u : a) {
      CHECK(c, k < g.units.size(), "number of units");
      if (u) t->kids.push_back(unit_tree(g.units[k], *u));
      k++;
    }
  std::string d = dump_str(*r, 0, po);
  if (c.want_sample) {
    c.sample = pbt::hex(g.data, 100) + " dumped as " + d.substr(0, 400);
    c.input_desc = pbt::hex(g.data, 1000) + "\ndump:\n" + d;
  }
  // the present set names fields of the generated record
  std::string why = read_dump(d, *t, &present, po);
  CHECK(c, why.empty(), why);
  c.nontrivial = !g.units.empty();
}

static void graft(ENode& n, std::vector<ETree>& payloads, size_t& k) {
  for (auto& e : n.kids) {
    if (e->name == "nal_unit_payload") {
      if (k < payloads.size() && payloads[k]) e = payloads[k];
      k++;
    } else {
      graft(*e, payloads, k);
    }
  }
}
PROP(C30, rtp, 6000, "dumps of packets; non-trivial with an aggregation packet of two units or a start fragment") {
  ParserState m, st;
  Present present;
  UnitOpt uo;
  uo.track = true;
  uo.present = &present;
  gen_stream(s, m, 0, 2);
  copy_state(m, st);
  GPacket p = gen_packet(s, m, uo);
  c.input(p.data);
  for (auto& u : p.units) c.tag(u.what);
  c.nontrivial = p.start || (p.form == GPacket::AP && p.units.size() > 1);
  Exact x(p.data);
  auto r = H265RtpParser::ParseRtp(x.p.get(), x.n, &st);
  CHECK(c, r != nullptr, "packet rejected");
  ParsingOptions po = gen_options(s);
  std::string d = dump_str(*r, 0, po);
  if (c.want_sample) {
    c.sample = pbt::hex(p.data, 100) + " dumped as " + d.substr(0, 400);
    c.input_desc = pbt::hex(p.data, 600) + "\ndump:\n" + d;
  }
  ETree t = etree(*r);
  std::vector<ETree> pl;
  for (auto& u : p.units)
    if (p.form != GPacket::FU || p.start) pl.push_back(etree(*u.exp->nal_unit_payload));
  size_t k = 0;
  // AP: headers come before payloads in the state, so payloads are in order
  graft(*t, pl, k);
  CHECK(c, k == pl.size(), "number of payloads");
  std::string why = read_dump(d, *t, &present, po);
  CHECK(c, why.empty(), why);
}

// ------------------------------------------------------------------ C31
static std::vector<std::string> split_lines(const std::string& t) {
  std::vector<std::string> o;
  size_t i = 0;
  for (;;) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) {
      o.push_back(t.substr(i));
      return o;
    }
    o.push_back(t.substr(i, e - i));
    i = e + 1;
  }
}
static std::string trimmed(const std::string& l) {
  size_t a = l.find_first_not_of(' '), b = l.find_last_not_of(' ');
  return a == std::string::npos ? "" : l.substr(a, b - a + 1);
}
// mostly a usual level, now and then a deep one
static int level(Src& s) { return (int)(s.chance(1, 6) ? s.u(7, 200) : s.uni(1, 6)); }
// One line against indented at two levels; empty = as it should be.
template <class D>
static std::string layout(D dump, int k) {
  std::string one = dump(-1), zero = dump(0), deep = dump(k);
  if (one.find('\n') != std::string::npos) return "one-line form has a line break";
  auto w = DumpReader::words(one);
  for (int j = 0; j < 2; j++) {
    const std::string& t = j ? deep : zero;
    int base = j ? k : 0;
    std::string flat = t;
    for (char& ch : flat)
      if (ch == '\n') ch = ' ';
    auto w2 = DumpReader::words(flat);
    if (w2 != w) {
      size_t i = 0;
      while (i < w.size() && i < w2.size() && w[i] == w2[i]) i++;
      return fmt("one-line and indented (level %d) contents differ at word %zu: [%s] and [%s]", base, i,
                 i < w.size() ? w[i].c_str() : "<end>", i < w2.size() ? w2[i].c_str() : "<end>");
    }
    auto lines = split_lines(t);
    int depth = 0;
    for (size_t i = 0; i < lines.size(); i++) {
      std::string l = trimmed(lines[i]);
      if (l.empty()) continue;
      int open = 0, close = 0;
      for (char ch : l) {
        open += ch == '{';
        close += ch == '}';
      }
      int at = l == "}" ? depth - 1 : depth;
      depth += open - close;
      if (depth < 0) return "closing brace without an opening one";
      // the first line starts where the caller is
      size_t want = i == 0 ? 0 : 2 * (size_t)(base + at);
      size_t got = lines[i].find_first_not_of(' ');
      if (got != want) return fmt("line [%s] at level %d starts at column %zu instead of %zu", l.c_str(), base + at, got, want);
    }
    if (depth != 0) return "unbalanced braces";
  }
  return "";
}
// removes the lines of the options that are off
static std::string without(const std::string& text, const ParsingOptions& o) {
  auto lines = split_lines(text);
  std::vector<std::string> stack, keep;
  for (auto& line : lines) {
    std::string l = trimmed(line);
    if (l == "}") {
      if (!stack.empty()) stack.pop_back();
    } else if (!l.empty() && l.back() == '{' && l.find('{') == l.size() - 1) {
      stack.push_back(l.substr(0, l.size() - 2));
    } else if (!stack.empty()) {
      std::string n = l.substr(0, l.find(':'));
      bool drop = false;
      if (stack.back() == "nal_unit")
        drop = (n == "offset" && !o.add_offset) || (n == "length" && !o.add_length) ||
               (n == "parsed_length" && !o.add_parsed_length) || (n == "checksum" && !o.add_checksum);
      if (stack.back() == "sps") drop = (n == "width" || n == "height") && !o.add_resolution;
      if (drop) continue;
    }
    keep.push_back(line);
  }
  std::string t;
  for (size_t i = 0; i < keep.size(); i++) t += (i ? "\n" : "") + keep[i];
  return t;
}
static bool all_on(const ParsingOptions& o) {
  return o.add_offset && o.add_length && o.add_parsed_length && o.add_checksum && o.add_resolution;
}
// every option adds exactly its own elements
template <class D>
static std::string toggles(D dump, const ParsingOptions& o) {
  std::string full = dump(0, ParsingOptions()), part = dump(0, o), want = without(full, o);
  if (part == want) return "";
  auto a = split_lines(want), b = split_lines(part);
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return fmt("options offset %d length %d parsed_length %d checksum %d resolution %d: line %zu is [%s] instead of [%s]", o.add_offset,
             o.add_length, o.add_parsed_length, o.add_checksum, o.add_resolution, i, i < b.size() ? b[i].c_str() : "<end>",
             i < a.size() ? a[i].c_str() : "<end>");
}

PROP(C31, structures, 40000, "dumps of conforming structures of every kind; non-trivial when nested structures are dumped") {
  int kind = (int)s.uni(0, K_COUNT - 1);
  Enc E(s);
  SCase sc = gen_case(kind, E);
  c.input(E.w.bytes());
  c.input(sc.params);
  c.tag(kind_name(kind));
  int k = level(s);
  if (c.want_sample) c.sample = c.input_desc = std::string(kind_name(kind)) + fmt(" level %d: ", k) + sc.dump(-1).substr(0, 3000);
  if (kind == K_PROFILE) return;  // no structure of its own
  std::string why = layout(sc.dump, k);
  CHECK(c, why.empty(), std::string(kind_name(kind)) + ": " + why);
  c.nontrivial = !sc.tree()->kids.empty();
}

PROP(C31, units, 5000, "dumps of streams with all combinations of options; non-trivial with at least three units and one option off") {
  ParserState m;
  UnitOpt uo;
  uo.wild = true;
  Units v = gen_stream(s, m, 1, 5, uo);
  note_units(c, v);
  Framed f = annexb(s, v);
  ParsingOptions po = gen_options(s), pd = gen_options(s);
  int k = level(s);
  Exact x(f.data);
  auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, po);
  CHECK(c, b && b->nal_units.size() == v.size(), "number of units");
  std::string cat1, cat0;
  for (size_t i = 0; i < v.size(); i++) {
    const NalUnit& u = *b->nal_units[i];
    std::string at = fmt("unit %zu (%s): ", i, v[i].what);
    std::string why = layout([&](int ind) { return dump_str(u, ind, pd); }, k);
    CHECK(c, why.empty(), at + why);
    why = toggles([&](int ind, const ParsingOptions& o) { return dump_str(u, ind, o); }, pd);
    CHECK(c, why.empty(), at + why);
    // without options of its own a dump has everything
    if (u.nal_unit_payload->sps) {
      const Sps& sp = *u.nal_unit_payload->sps;
      why = toggles([&](int ind, const ParsingOptions& o) { return dump_str(sp, ind, o); }, pd);
      CHECK(c, why.empty(), at + "sps: " + why);
    }
    cat1 += dump_str(u, -1, po) + "\n";
    cat0 += dump_str(u, 0, po) + "\n";
  }
  // the dump of the stream: one entry per unit with the options of the parse
  CHECK(c, dump_str(*b, -1) == cat1, "one-line dump of the stream is not the dumps of its units");
  CHECK(c, dump_str(*b, 0) == cat0, "indented dump of the stream is not the dumps of its units");
  c.nontrivial = v.size() >= 3 && !all_on(pd);
}

PROP(C31, box, 3000, "dumps of configuration records with all combinations of options; non-trivial with at least one NAL unit") {
  ParserState m, st;
  GBox g = gen_box(s, m);
  c.input(g.data);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(g.data, 300);
  ParsingOptions po = gen_options(s), pd = gen_options(s);
  int k = level(s);
  Exact x(g.data);
  auto r = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, po);
  CHECK(c, r != nullptr, "record rejected");
  std::string why = layout([&](int ind) { return dump_str(*r, ind, pd); }, k);
  CHECK(c, why.empty(), why);
  why = toggles([&](int ind, const ParsingOptions& o) { return dump_str(*r, ind, o); }, pd);
  CHECK(c, why.empty(), why);
  c.nontrivial = !g.units.empty();
}

PROP(C31, rtp, 5000, "dumps of packets with all combinations of options; non-trivial with an aggregation packet of two units or a start fragment") {
  ParserState m, st;
  UnitOpt uo;
  uo.wild = true;
  gen_stream(s, m, 0, 2);
  copy_state(m, st);
  GPacket p = gen_packet(s, m, uo);
  c.input(p.data);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(p.data, 300);
  for (auto& u : p.units) c.tag(u.what);
  c.nontrivial = p.start || (p.form == GPacket::AP && p.units.size() > 1);
  ParsingOptions pd = gen_options(s);
  int k = level(s);
  Exact x(p.data);
  auto r = H265RtpParser::ParseRtp(x.p.get(), x.n, &st);
  CHECK(c, r != nullptr, "packet rejected");
  std::string why = layout([&](int ind) { return dump_str(*r, ind, pd); }, k);
  CHECK(c, why.empty(), why);
  why = toggles([&](int ind, const ParsingOptions& o) { return dump_str(*r, ind, o); }, pd);
  CHECK(c, why.empty(), why);
}
