// C07, C11, C26, C27, C28: NAL header classes and dispatch, profile tables,
// picture sizes, limits and truncation.
#include "h265_utils.h"
#include "names.h"
#include "stream.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

// ------------------------------------------------------------------ C07
PROP(C07, header, 2048, "all 256 second bytes for one first byte, each alone and before other bytes; every case is non-trivial") {
  unsigned hi = (unsigned)s.uni(0, 255);
  Bytes tail;
  unsigned n = (unsigned)s.uni(0, 4);
  for (unsigned i = 0; i < n; i++) tail.push_back((uint8_t)s.uni(0, 255));
  c.input(hi);
  c.input(tail);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = fmt("headers %02x00..%02xff, then ", hi, hi) + pbt::hex(tail);
  {
    // one byte, or none, is no header
    Bytes one(s.uni(0, 1), (uint8_t)hi);
    Exact x(one);
    NalUnitType t;
    CHECK(c, H265NalUnitHeaderParser::ParseNalUnitHeader(x.p.get(), x.n) == nullptr, fmt("header of %zu bytes accepted", x.n));
    CHECK(c, !H265NalUnitHeaderParser::GetNalUnitType(x.p.get(), x.n, t), fmt("type of a header of %zu bytes", x.n));
    ParserState st;
    CHECK(c, H265NalUnitParser::ParseNalUnit(x.p.get(), x.n, &st, ParsingOptions()) == nullptr, fmt("unit of %zu bytes accepted", x.n));
    CHECK(c, H265NalUnitParser::ParseNalUnitUnescaped(x.p.get(), x.n, &st, ParsingOptions()) == nullptr, fmt("unit of %zu bytes accepted", x.n));
  }
  {
    // fewer than 16 bits from the read position on
    Bytes b = {(uint8_t)s.uni(0, 255), (uint8_t)s.uni(0, 255), (uint8_t)hi};
    Exact x(b);
    for (unsigned left = 0; left < 16; left++) {
      BitBuffer bb(x.p.get(), x.n);
      bb.ConsumeBits(24 - left);
      CHECK(c, H265NalUnitHeaderParser::ParseNalUnitHeader(&bb) == nullptr, fmt("header of %u bits accepted", left));
    }
  }
  ParserState st;
  std::string none = canon(*make_zero<NalPayload>());
  for (unsigned lo = 0; lo < 256; lo++) {
    Bytes b = {(uint8_t)hi, (uint8_t)lo};
    put_bytes(b, tail);
    Exact x(b);
    std::string e = fmt("%u %u %u %u", hi >> 7, (hi >> 1) & 63, (hi & 1) << 5 | lo >> 3, lo & 7);
    auto text = [](const std::unique_ptr<NalHdr>& h) {
      return h ? fmt("%u %u %u %u", h->forbidden_zero_bit, h->nal_unit_type, h->nuh_layer_id, h->nuh_temporal_id_plus1) : std::string("none");
    };
    auto h = H265NalUnitHeaderParser::ParseNalUnitHeader(x.p.get(), x.n);
    CHECK(c, text(h) == e, fmt("header %02x%02x: ", hi, lo) + text(h) + " instead of " + e);
    BitBuffer bb(x.p.get(), x.n);
    auto h2 = H265NalUnitHeaderParser::ParseNalUnitHeader(&bb);
    CHECK(c, text(h2) == e && bit_pos(bb) == 16, fmt("header %02x%02x from bits: ", hi, lo) + text(h2));
    {
      // a unit of nothing but its header has no payload, whatever its type
      Bytes two = {(uint8_t)hi, (uint8_t)lo};
      Exact y(two);
      BitBuffer b2(y.p.get(), y.n);
      std::unique_ptr<NalUnit> us[] = {H265NalUnitParser::ParseNalUnit(y.p.get(), y.n, &st, ParsingOptions()),
                                       H265NalUnitParser::ParseNalUnitUnescaped(y.p.get(), y.n, &st, ParsingOptions()),
                                       H265NalUnitParser::ParseNalUnit(&b2, &st, ParsingOptions())};
      for (auto& u : us) {
        CHECK(c, u != nullptr, fmt("unit %02x%02x without payload rejected", hi, lo));
        CHECK(c, text(u->nal_unit_header) == e, fmt("unit %02x%02x: ", hi, lo) + text(u->nal_unit_header));
        CHECK(c, u->nal_unit_payload != nullptr && canon(*u->nal_unit_payload) == none, fmt("unit %02x%02x without payload yields one", hi, lo));
      }
    }
    NalUnitType t = (NalUnitType)0;
    CHECK(c, H265NalUnitHeaderParser::GetNalUnitType(x.p.get(), x.n, t) && (unsigned)t == ((hi >> 1) & 63), fmt("type of %02x%02x", hi, lo));
  }
}
PROP(C07, classes, 20000, "one type number; non-trivial below 64") {
  unsigned t = (unsigned)(s.chance(1, 8) ? s.u(0, kU32Max) : s.uni(0, 63));
  c.input(t);
  c.nontrivial = t < 64;
  if (c.want_sample) c.sample = c.input_desc = fmt("type %u", t);
  std::string name = t < 64 ? kNames[t] : "unknown";
  CHECK(c, NalUnitTypeToString(t) == name, fmt("type %u is named ", t) + NalUnitTypeToString(t));
  bool slice = t <= 9 || (t >= 16 && t <= 21);
  CHECK(c, IsSliceSegment(t) == slice, fmt("type %u: slice class", t));
  CHECK(c, IsNalUnitTypeVcl(t) == (t <= 31), fmt("type %u: VCL class", t));
  CHECK(c, IsNalUnitTypeNonVcl(t) == (t >= 32 && t <= 63), fmt("type %u: non-VCL class", t));
  CHECK(c, IsNalUnitTypeUnspecified(t) == (t >= 48 && t <= 63), fmt("type %u: unspecified class", t));
}
// kind of parsed payload for a type, as a letter
static char want_kind(unsigned t) {
  if (t <= 9 || (t >= 16 && t <= 21)) return 'L';
  if (t == 32) return 'V';
  if (t == 33) return 'S';
  if (t == 34) return 'P';
  if (t == 35) return 'A';
  if (t == 39 || t == 40) return 'E';
  return '-';
}
PROP(C07, dispatch, 20000, "a payload valid for one type under every header type; non-trivial when the type and the payload match") {
  ParserState m;
  UnitOpt a;
  a.only = U_SPS;
  Units pre;
  pre.push_back(gen_unit(s, m, a));
  a.only = U_PPS;
  pre.push_back(gen_unit(s, m, a));
  static const std::vector<int> kinds = {U_AUD, U_VPS, U_SPS, U_PPS, U_SLICE, U_SEI};
  a.only = s.pick(kinds);
  ParserState before;
  copy_state(m, before);
  GUnit u = gen_unit(s, m, a);
  unsigned t = s.flag() ? u.type : (unsigned)s.uni(0, 63);
  u.rbsp[0] = (uint8_t)(t << 1 | (u.rbsp[0] & 0x81));
  u.ebsp = pbt::escape_rbsp(u.rbsp);
  c.input(u.ebsp);
  if (c.want_sample) c.sample = c.input_desc = fmt("%s payload under type %u: ", u.what, t) + pbt::hex(u.ebsp, 200);
  ParserState st;
  copy_state(before, st);
  Exact x(u.ebsp);
  auto n = H265NalUnitParser::ParseNalUnit(x.p.get(), x.n, &st, ParsingOptions());
  CHECK(c, n != nullptr, "unit rejected");
  CHECK(c, n->nal_unit_header && n->nal_unit_header->nal_unit_type == t, "type in the header");
  auto& p = *n->nal_unit_payload;
  char w = want_kind(t);
  std::string got;
  if (p.slice_segment_layer) got += 'L';
  if (p.vps) got += 'V';
  if (p.sps) got += 'S';
  if (p.pps) got += 'P';
  if (p.aud) got += 'A';
  if (p.sei) got += 'E';
  // a payload of another type may not parse, but never yields another kind
  bool match = want_kind(u.type) == w;
  if (match && w != 'L')
    CHECK(c, got == std::string(1, w), fmt("type %u yields payload [%s] instead of [%c]", t, got.c_str(), w));
  else
    CHECK(c, got.empty() || (w != '-' && got == std::string(1, w)), fmt("type %u yields payload [%s]", t, got.c_str()));
  if (t == u.type) {
    std::string x2 = canon(*n, no_meta());
    CHECK(c, x2 == u.text, pbt::diff_text(u.text, x2));
  }
  if (w != 'V' && w != 'S' && w != 'P') CHECK(c, canon(st) == canon(before), fmt("type %u changed the parameter sets", t));
  c.nontrivial = match;
}
PROP(C07, aud, 20000, "access unit delimiters with trailing bytes; every case is non-trivial") {
  unsigned pt = (unsigned)s.uni(0, 7);
  Bytes b = {70, 1, (uint8_t)(pt << 5 | s.uni(0, 31))};
  unsigned n = (unsigned)s.uni(0, 3);
  for (unsigned i = 0; i < n; i++) b.push_back((uint8_t)s.uni(0, 255));
  b = pbt::escape_rbsp(b);
  c.input(b);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(b);
  ParserState st;
  Exact x(b);
  auto u = H265NalUnitParser::ParseNalUnit(x.p.get(), x.n, &st, ParsingOptions());
  CHECK(c, u && u->nal_unit_payload && u->nal_unit_payload->aud, "no delimiter");
  CHECK(c, u->nal_unit_payload->aud->pic_type == pt, fmt("pic_type %u instead of %u", u->nal_unit_payload->aud->pic_type, pt));
}

// ------------------------------------------------------------------ C11
PROP(C11, flags, 3000, "all 1024 constraint flag combinations for one profile indicator; non-trivial for profile space 0 and indicators 1..13") {
  unsigned space = s.chance(1, 5) ? (unsigned)s.uni(1, 3) : 0;
  unsigned idc = (unsigned)s.uni(0, 31);
  c.input(space * 32 + idc);
  ProfileInfo p;
  {
    auto z = make_zero<ProfileInfo>();
    p.tier_flag = s.flag();
    p.progressive_source_flag = s.flag();
    p.interlaced_source_flag = s.flag();
    p.non_packed_constraint_flag = s.flag();
    p.frame_only_constraint_flag = s.flag();
    p.reserved_zero_34bits = 0;
    p.reserved_zero_43bits = 0;
    uint32_t bits = s.chance(1, 3) ? 0 : (uint32_t)s.uni(0, kU32Max);
    for (unsigned j = 0; j < 32; j++) p.profile_compatibility_flag[j] = (bits >> j) & 1;
    p.inbld_flag = s.flag();
    c.input(bits);
  }
  p.profile_space = space;
  p.profile_idc = idc;
  c.nontrivial = space == 0 && idc >= 1 && idc <= 13;
  if (c.want_sample) c.sample = c.input_desc = fmt("profile_space %u profile_idc %u, 1024 flag combinations", space, idc);
  for (unsigned f = 0; f < 1024; f++) {
    p.max_14bit_constraint_flag = f & 1;
    p.max_12bit_constraint_flag = f >> 1 & 1;
    p.max_10bit_constraint_flag = f >> 2 & 1;
    p.max_8bit_constraint_flag = f >> 3 & 1;
    p.max_422chroma_constraint_flag = f >> 4 & 1;
    p.max_420chroma_constraint_flag = f >> 5 & 1;
    p.max_monochrome_constraint_flag = f >> 6 & 1;
    p.intra_constraint_flag = f >> 7 & 1;
    p.one_picture_only_constraint_flag = f >> 8 & 1;
    p.lower_bit_rate_constraint_flag = f >> 9 & 1;
    ProfileType e = ref_profile_type(p), g = p.GetProfileType();
    CHECK(c, e == g,
          fmt("space %u idc %u flags 14:%u 12:%u 10:%u 8:%u 422:%u 420:%u mono:%u intra:%u one:%u low:%u: profile %d instead of %d", space,
              idc, f & 1, f >> 1 & 1, f >> 2 & 1, f >> 3 & 1, f >> 4 & 1, f >> 5 & 1, f >> 6 & 1, f >> 7 & 1, f >> 8 & 1, f >> 9 & 1,
              (int)g, (int)e));
  }
}
PROP(C11, decoded, 40000, "encoded profile fields; non-trivial when the profile is one of a table with constraint flags") {
  Enc E(s);
  auto o = make_zero<ProfileInfo>();
  gen_profile_info(E, *o);
  while (!E.w.aligned()) E.w.bit(1);
  c.input(E.w.bytes());
  ProfileType e = ref_profile_type(*o);
  if (c.want_sample) c.sample = c.input_desc = pbt::hex(E.w.bytes()) + fmt(" -> %d", (int)e);
  BitBuffer b(E.w.bytes().data(), E.w.bytes().size());
  auto g = H265ProfileInfoParser::ParseProfileInfo(&b);
  CHECK(c, g != nullptr, "rejected");
  CHECK(c, g->profile_type == e && g->GetProfileType() == e, fmt("profile %d instead of %d", (int)g->profile_type, (int)e));
  c.nontrivial = (int)e >= 100;
}
PROP(C11, names, 4000, "names of two profiles; non-trivial when both are defined and different") {
  const std::map<int, std::string>& names = profile_names();
  int a = (int)s.uni(0, 255), b = (int)s.uni(0, 255);
  if (!s.chance(1, 8)) {
    auto i = names.begin(), j = names.begin();
    std::advance(i, (long)s.uni(0, names.size() - 1));
    std::advance(j, (long)s.uni(0, names.size() - 1));
    a = i->first;
    b = j->first;
  }
  c.input((uint64_t)(a * 256 + b));
  c.nontrivial = a != b && names.count(a) && names.count(b);
  std::string x = "before", y;
  profileTypeToString((ProfileType)a, x);
  profileTypeToString((ProfileType)b, y);
  if (c.want_sample) c.sample = c.input_desc = fmt("%d: ", a) + x + fmt(", %d: ", b) + y;
  auto e = names.find(a);
  CHECK(c, x == (e == names.end() ? std::string("Unknown") : e->second), fmt("profile %d is named ", a) + x);
  if (c.nontrivial) CHECK(c, x != y, fmt("profiles %d and %d share the name ", a, b) + x);
}

// ------------------------------------------------------------------ C26
PROP(C26, sizes, 60000, "conforming SPSs; non-trivial with a conformance window or a size that is no multiple of the coding tree block") {
  Enc E(s);
  SpsOpt so;
  so.light = true;
  auto v = gen_sps(E, so);
  c.input(E.w.bytes());
  BitBuffer bb(E.w.bytes().data(), E.w.bytes().size());
  auto g = H265SpsParser::ParseSps(&bb);
  CHECK(c, g != nullptr, "SPS rejected");
  const uint64_t W = v->pic_width_in_luma_samples, H = v->pic_height_in_luma_samples;
  const uint64_t mcb = 8ull << v->log2_min_luma_coding_block_size_minus3;
  const uint64_t ctb = mcb << v->log2_diff_max_min_luma_coding_block_size;
  const uint64_t wm = (W + mcb - 1) / mcb, hm = (H + mcb - 1) / mcb, wc = (W + ctb - 1) / ctb, hc = (H + ctb - 1) / ctb;
  // Table 6-1
  int sw = 1, sh = 1;
  if (v->separate_colour_plane_flag == 0) {
    if (v->chroma_format_idc == 1) sw = sh = 2;
    if (v->chroma_format_idc == 2) sw = 2;
  }
  int rw = (int)W - sw * (int)(v->conf_win_left_offset + v->conf_win_right_offset);
  int rh = (int)H - sh * (int)(v->conf_win_top_offset + v->conf_win_bottom_offset);
  std::string in = fmt("%llux%llu MinCb %llu Ctb %llu chroma %u/%u window %u %u %u %u", (unsigned long long)W, (unsigned long long)H,
                       (unsigned long long)mcb, (unsigned long long)ctb, v->chroma_format_idc, v->separate_colour_plane_flag,
                       v->conf_win_left_offset, v->conf_win_right_offset, v->conf_win_top_offset, v->conf_win_bottom_offset);
  if (c.want_sample) c.sample = c.input_desc = in + fmt(" -> %dx%d", rw, rh);
#define EQ(call, want) CHECK(c, (uint64_t)g->call == (uint64_t)(want), fmt("%s is %llu instead of %llu: ", #call, (unsigned long long)g->call, (unsigned long long)(want)) + in)
  EQ(getMinCbLog2SizeY(), 3 + v->log2_min_luma_coding_block_size_minus3);
  EQ(getCtbLog2SizeY(), 3 + v->log2_min_luma_coding_block_size_minus3 + v->log2_diff_max_min_luma_coding_block_size);
  EQ(getMinCbSizeY(), mcb);
  EQ(getCtbSizeY(), ctb);
  EQ(getPicWidthInMinCbsY(), wm);
  EQ(getPicHeightInMinCbsY(), hm);
  EQ(getPicWidthInCtbsY(), wc);
  EQ(getPicHeightInCtbsY(), hc);
  EQ(getPicSizeInMinCbsY(), wm * hm);
  EQ(getPicSizeInCtbsY(), wc * hc);
  EQ(getPicSizeInSamplesY(), W * H);
  EQ(getSubWidthC(), sw);
  EQ(getSubHeightC(), sh);
#undef EQ
  int gw = -7, gh = -7;
  CHECK(c, g->getResolution(&gw, &gh) == 0 && gw == rw && gh == rh, fmt("resolution %dx%d instead of %dx%d: ", gw, gh, rw, rh) + in);
  CHECK(c, g->getResolution(nullptr, &gh) != 0 && g->getResolution(&gw, nullptr) != 0, "resolution without a place for it");
  // the dump reports the same
  ParsingOptions po;
  std::string d = dump_str(*g, -1, po);
  CHECK(c, d.find(fmt(" width: %d height: %d ", rw, rh)) != std::string::npos, fmt("dump without width: %d height: %d: ", rw, rh) + in);
  c.nontrivial = v->conformance_window_flag || W % ctb || H % ctb;
  if (W % ctb) c.tag("partial column");
  if (H % ctb) c.tag("partial row");
  if (sw != sh) c.tag("4:2:2");
}

// ------------------------------------------------------------------ C27
static const std::vector<int>& limit_kinds() {
  static const std::vector<int> k = {K_VPS, K_SPS, K_PPS, K_SLICE, K_VUI, K_STRPS, K_SCALING, K_SPSSCC};
  return k;
}
PROP(C27, limits, 60000, "one validated element at or past its limit; non-trivial when the element was reached") {
  int kind = s.pick(limit_kinds());
  static const std::vector<Enc::Mode> modes = {Enc::AT_HI, Enc::OVER, Enc::AT_LO, Enc::UNDER};
  Enc::Mode mode = s.chance(1, 3) ? s.pick(modes) : s.flag() ? Enc::AT_HI : Enc::OVER;
  bool past = mode == Enc::OVER || mode == Enc::UNDER;
  SCase sc;
  GenOpt go;
  go.light = s.chance(3, 4);
  TwoPass t = two_pass(s, mode, [&](Enc& e) { sc = gen_case(kind, e, go); }, !past);
  if (!t.ok) return;
  static const char* mt[] = {"", "at the upper limit", "above", "at the lower limit", "below"};
  std::string what = fmt("%s: %s %s (%lld)", kind_name(kind), t.key.c_str(), mt[mode], (long long)t.value);
  c.tag((std::string(past ? "past " : "at ") + t.key).c_str());
  BitW& w = t.E->w;
  for (int i = 0; i < 16; i++) w.u(8, s.uni(0, 255));
  while (!w.aligned()) w.bit(0);
  c.input(w.bytes());
  c.input(what);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = what + " " + pbt::hex(w.bytes(), 300) + " " + sc.params;
  Exact x(w.bytes());
  BitBuffer b(x.p.get(), x.n);
  if (past) {
    CHECK(c, !sc.accepts(&b), what + " accepted");
    return;
  }
  CHECK(c, sc.accepts(&b), what + " rejected");
  if (!sc.rbsp) {
    BitBuffer b2(x.p.get(), x.n);
    std::string got = sc.bb(&b2);
    CHECK(c, got == sc.exp, what + " " + pbt::diff_text(sc.exp, got));
  }
}
PROP(C27, stored, 12000, "parameter set units past a limit after a stored set; non-trivial when the element was reached") {
  ParserState m;
  Units pre = gen_stream(s, m, 0, 3);
  unsigned type = (unsigned)s.uni(32, 34);
  // mostly an id that is already there
  auto some_id = [&](size_t n, unsigned top, std::function<unsigned(size_t)> nth) { return n && s.chance(3, 4) ? (int)nth(s.uni(0, n - 1)) : (int)s.uni(0, top); };
  int vid = some_id(m.vps.size(), 15, [&](size_t k) { auto i = m.vps.begin(); std::advance(i, (long)k); return i->first; });
  int sid = some_id(m.sps.size(), 15, [&](size_t k) { auto i = m.sps.begin(); std::advance(i, (long)k); return i->first; });
  int pid = some_id(m.pps.size(), 63, [&](size_t k) { auto i = m.pps.begin(); std::advance(i, (long)k); return i->first; });
  TwoPass t = two_pass(s, s.chance(1, 4) ? Enc::UNDER : Enc::OVER, [&](Enc& e) {
    if (type == 32) {
      gen_vps(e, vid);
    } else if (type == 33) {
      SpsOpt so;
      so.id = sid;
      so.light = true;
      gen_sps(e, so);
    } else {
      PpsOpt po;
      po.id = pid;
      po.sps_id = sid;
      gen_pps(e, po);
    }
  });
  if (!t.ok) return;
  GUnit u;
  u.type = type;
  BitW w = t.E->w;
  for (int i = 0; i < 16; i++) w.u(8, s.uni(1, 255));
  finish_unit(u, w);
  u.what = "past a limit";
  new_expected(u);
  u.text = canon(*u.exp, no_meta());
  Units v = pre;
  v.push_back(u);
  note_units(c, v);
  c.input_desc = t.key + " " + c.input_desc;
  c.tag(t.key.c_str());
  ParserState st;
  Exact x(annexb(s, v).data);
  auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, ParsingOptions());
  std::string d = diff_units(v, b->nal_units);
  CHECK(c, d.empty(), t.key + ": " + d);
  CHECK(c, canon(st) == canon(m), t.key + ": stored parameter sets " + pbt::diff_text(canon(m), canon(st)));
  c.nontrivial = true;
}

// ------------------------------------------------------------------ C28
PROP(C28, cut, 60000, "structures cut before the end of the last mandatory element; non-trivial when more than one byte remains") {
  int kind = (int)s.uni(0, K_COUNT - 1);
  Enc E(s);
  GenOpt go;
  go.light = s.chance(1, 2);
  SCase sc = gen_case(kind, E, go);
  unsigned lead = s.flag() ? (unsigned)s.uni(0, 15) : 0;
  size_t total = lead + E.mand;
  c.tag(kind_name(kind));
  if (E.mand == 0) return;
  size_t top = (total - 1) / 8;  // whole bytes that do not hold everything
  size_t n = s.flag() ? top : s.uni(0, top);
  BitW w;
  w.u(lead, s.uni(0, BITMAX(lead ? lead : 1)));
  const Bytes& body = E.w.bytes();
  for (size_t i = 0; i < E.w.bits(); i++) w.bit((body[i / 8] >> (7 - i % 8)) & 1);
  Bytes cut(w.bytes().begin(), w.bytes().begin() + (long)n);
  c.input(cut);
  c.input((uint64_t)kind);
  c.nontrivial = n > 1;
  if (c.want_sample)
    c.sample = c.input_desc = fmt("%s, %u bits before it, %zu of %zu bits: ", kind_name(kind), lead, n * 8, total) + pbt::hex(cut, 300) + " " + sc.params;
  if (n * 8 >= lead) {
    Exact x(cut);
    BitBuffer b(x.p.get(), x.n);
    b.ConsumeBits((int)lead);
    if (kind == K_SEI) {
      auto g = H265SeiMessageParser::ParseSei(&b);
      CHECK(c, g == nullptr || g->payload_state == nullptr, "cut SEI message with a payload");
    } else {
      CHECK(c, !sc.accepts(&b), fmt("%s accepted with %zu of %zu bits", kind_name(kind), n * 8 - lead, E.mand));
    }
  }
  if (sc.raw && lead == 0 && kind != K_SEI) {
    Exact x(pbt::escape_rbsp(cut));
    std::string g = sc.raw(x.p.get(), x.n);
    CHECK(c, g == "null\n", fmt("%s (escaped) accepted with %zu of %zu bits", kind_name(kind), n * 8, E.mand));
  }
}
PROP(C28, code, 40000, "structures with one Exp-Golomb code too long for 32 bits; non-trivial when it is not the first") {
  int kind = (int)s.uni(0, K_COUNT - 1);
  GenOpt go;
  go.light = s.chance(1, 2);
  size_t r0 = s.record().size();
  long codes;
  {
    Enc E(s);
    SCase sc = gen_case(kind, E, go);
    codes = E.mand_codes;
  }
  if (codes == 0) return;
  std::vector<uint64_t> rec(s.record().begin() + (long)r0, s.record().end());
  Src again(rec);
  again.mute();
  Enc E(again);
  E.w.bad_code = (long)s.uni(0, (uint64_t)codes - 1);
  E.w.bad_zeros = 32 + (unsigned)(s.flag() ? s.uni(0, 3) : s.u(0, 100));
  E.w.bad_to_end = s.flag();
  SCase sc = gen_case(kind, E, go);
  c.tag(kind_name(kind));
  c.nontrivial = E.w.bad_code > 0;
  for (unsigned i = (unsigned)s.uni(0, 40); i > 0; i--) E.w.u(8, 0xff);
  const Bytes& d = E.w.bytes();
  c.input(d);
  c.input((uint64_t)kind);
  if (c.want_sample)
    c.sample = c.input_desc = fmt("%s, %u zeros before code %ld: ", kind_name(kind), E.w.bad_zeros, E.w.bad_code) + pbt::hex(d, 300) + " " + sc.params;
  Exact x(d);
  BitBuffer b(x.p.get(), x.n);
  if (kind == K_SEI) {
    auto g = H265SeiMessageParser::ParseSei(&b);
    CHECK(c, g == nullptr || g->payload_state == nullptr, "SEI message with a malformed code has a payload");
  } else {
    CHECK(c, !sc.accepts(&b), fmt("%s accepted with a malformed code", kind_name(kind)));
  }
}
PROP(C28, unit, 16000, "parameter set units cut after a stored set with the same id; non-trivial when that set was stored before") {
  ParserState m;
  Units pre = gen_stream(s, m, 0, 4);
  UnitOpt o;
  o.broken = false;
  static const std::vector<int> kinds = {U_SPS, U_PPS, U_VPS, U_SLICE};
  o.only = s.pick(kinds);
  ParserState after;
  copy_state(m, after);
  GUnit u = gen_unit(s, after, o);
  if (!u.parsed) return;
  size_t top = (u.mand - 1) / 8;
  size_t n = s.flag() ? top : (size_t)s.uni(2, top);
  if (n < 2) n = 2;
  u.rbsp.resize(n);
  while (u.rbsp.size() > 2 && u.rbsp.back() == 0) u.rbsp.pop_back();
  u.ebsp = pbt::escape_rbsp(u.rbsp);
  u.what = "cut unit";
  new_expected(u);
  u.text = canon(*u.exp, no_meta());
  Units v = pre;
  v.push_back(u);
  note_units(c, v);
  ParserState st;
  Exact x(annexb(s, v).data);
  auto b = H265BitstreamParser::ParseBitstream(x.p.get(), x.n, &st, ParsingOptions());
  std::string d = diff_units(v, b->nal_units);
  CHECK(c, d.empty(), d);
  CHECK(c, canon(st) == canon(m), "stored parameter sets " + pbt::diff_text(canon(m), canon(st)));
  c.nontrivial = canon(m) != canon(ParserState()) && u.is_set();
}
PROP(C28, record, 12000, "configuration records cut anywhere; non-trivial when a whole unit remains") {
  ParserState m, st, st2;
  UnitOpt uo;
  GBox g = gen_box(s, m, uo);
  size_t n = s.uni(0, g.data.size() - 1);
  Bytes cut(g.data.begin(), g.data.begin() + (long)n);
  c.input(cut);
  if (c.want_sample) c.sample = c.input_desc = fmt("%zu of %zu bytes of ", n, g.data.size()) + pbt::hex(g.data, 300);
  Exact x(cut);
  auto b = H265ConfigurationBoxParser::ParseConfigurationBox(x.p.get(), x.n, &st, ParsingOptions());
  CHECK(c, b == nullptr, fmt("record of %zu bytes accepted with %zu", g.data.size(), n));
  // at most what came whole before the cut is known
  size_t pos = g.header_bits / 8, k = 0;
  ConfBox& e = *g.exp;
  for (size_t a = 0; a < e.numNalus.size(); a++) {
    pos += 3;
    for (unsigned i = 0; i < e.numNalus[a]; i++, k++) {
      pos += 2 + g.units[k].ebsp.size();
      if (pos > n) goto done;
      c.nontrivial = true;
      Exact y(g.units[k].ebsp);
      H265NalUnitParser::ParseNalUnit(y.p.get(), y.n, &st2, ParsingOptions());
    }
  }
done:
  ParserState none;
  std::string t = canon(st);
  CHECK(c, t == canon(st2) || t == canon(none), "parameter sets after a cut record " + pbt::diff_text(canon(st2), t));
}
// lines that only carry extension data the decoder skips
static std::string without_ext(const std::string& t) {
  std::string o;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    std::string l = t.substr(i, e - i + 1);
    if (l.find("extension_data_flag") == std::string::npos) o += l;
    i = e + 1;
  }
  return o;
}
PROP(C28, append, 30000, "complete structures followed by other bytes; every case is non-trivial") {
  static const std::vector<int> kinds = {K_VPS, K_SPS, K_PPS, K_SLICE, K_AUD};
  int kind = s.pick(kinds);
  Enc E(s);
  GenOpt go;
  go.light = s.chance(1, 2);
  SCase sc = gen_case(kind, E, go);
  Bytes d = E.w.bytes();
  unsigned n = (unsigned)s.u(1, 40);
  unsigned style = (unsigned)s.uni(0, 2);
  for (unsigned i = 0; i < n; i++) d.push_back((uint8_t)(style == 0 ? s.uni(0, 255) : style == 1 ? 0 : s.uni(0, 3)));
  c.input(d);
  c.tag(kind_name(kind));
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = fmt("%s and %u more bytes: ", kind_name(kind), n) + pbt::hex(d, 300) + " " + sc.params;
  std::string e = without_ext(sc.exp);
  Exact x(d);
  BitBuffer b(x.p.get(), x.n);
  std::string g = without_ext(sc.bb(&b));
  CHECK(c, g == e, std::string(kind_name(kind)) + " " + pbt::diff_text(e, g));
}
