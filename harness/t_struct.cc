// C09..C22: every conforming value of a syntax structure decodes to exactly
// the coded element values.
#include "kinds.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

// sub-structures are parsed at any bit position of a longer buffer and must
// stop exactly at their last bit
static void check_case(Ctx& c, Src& s, Enc& E, SCase& sc) {
  Bytes body = E.w.bytes();
  size_t bits = E.w.bits();
  c.input(body);
  c.input(sc.params);
  if (c.want_sample) {
    c.sample = std::string(kind_name(sc.kind)) + " rbsp " + pbt::hex(body, 120) + " -> " + sc.exp.substr(0, 600);
    c.input_desc = std::string(kind_name(sc.kind)) + " rbsp " + pbt::hex(body, 4000) + "\nparameters " + sc.params + "\nexpected\n" + sc.exp;
  }
  if (sc.rbsp) {
    Exact x(body);
    BitBuffer b(x.p.get(), x.n);
    std::string got = sc.bb(&b);
    CHECK(c, got == sc.exp, std::string(kind_name(sc.kind)) + " " + pbt::diff_text(sc.exp, got));
  } else {
    unsigned lead = (unsigned)s.uni(0, 15), tail = (unsigned)s.uni(0, 40);
    uint64_t fill = s.uni(0, UINT64_MAX);
    pbt::BitW w;
    w.u(lead, fill & 0xffff);
    for (size_t i = 0; i < bits; i++) w.bit((body[i / 8] >> (7 - i % 8)) & 1);
    for (unsigned i = 0; i < tail; i++) w.bit((fill >> i) & 1);
    Exact x(w.bytes());
    BitBuffer b(x.p.get(), x.n);
    b.ConsumeBits(lead);
    std::string got = sc.bb(&b);
    CHECK(c, got == sc.exp, std::string(kind_name(sc.kind)) + " at bit " + std::to_string(lead) + " " + pbt::diff_text(sc.exp, got));
    uint64_t pos = bit_pos(b);
    CHECK(c, pos == lead + bits,
          fmt("%s consumed %llu bits instead of %zu", kind_name(sc.kind), (unsigned long long)(pos - lead), bits));
  }
  if (sc.raw) {
    Exact x(pbt::escape_rbsp(body));
    std::string got = sc.raw(x.p.get(), x.n);
    CHECK(c, got == sc.exp, std::string(kind_name(sc.kind)) + " (escaped bytes) " + pbt::diff_text(sc.exp, got));
    // the same bytes, cut anywhere, through both entry points
    if (s.chance(1, 3)) {
      size_t least = std::min((E.mand + 7) / 8, body.size());
      size_t n = s.chance(2, 3) ? least : s.uni(0, body.size());
      Bytes cut(body.begin(), body.begin() + (long)n);
      Exact a(cut), z(pbt::escape_rbsp(cut));
      BitBuffer b(a.p.get(), a.n);
      std::string plain = sc.bb(&b);
      got = sc.raw(z.p.get(), z.n);
      CHECK(c, got == plain, fmt("%s, %zu of %zu bytes: escaped bytes ", kind_name(sc.kind), n, body.size()) + pbt::diff_text(plain, got));
      if (n == least) CHECK(c, plain != "null\n" || E.mand == 0, fmt("%s rejected with its %zu mandatory bits", kind_name(sc.kind), E.mand));
    }
  }
}

static SCase run_kind(Ctx& c, Src& s, int kind) {
  Enc E(s);
  SCase sc = gen_case(kind, E);
  check_case(c, s, E, sc);
  return sc;
}
template <class T>
static const T& as(const SCase& sc) {
  return *std::static_pointer_cast<T>(sc.keep);
}

PROP(C09, vps, 60000, "conforming VPS; non-trivial when it has sub-layers, layer sets or HRD parameters") {
  SCase sc = run_kind(c, s, K_VPS);
  auto& v = as<Vps>(sc);
  c.nontrivial = v.vps_max_sub_layers_minus1 > 0 || v.vps_num_layer_sets_minus1 > 0 || v.vps_num_hrd_parameters > 0;
  if (v.vps_num_hrd_parameters > 0) c.tag("hrd");
  if (v.vps_num_hrd_parameters > 1) c.tag("hrd>1");
  if (v.vps_num_layer_sets_minus1 > 0) c.tag("layer sets");
  if (v.vps_extension_flag) c.tag("extension data");
  if (v.vps_timing_info_present_flag) c.tag("timing");
}
PROP(C10, ptl, 60000, "profile_tier_level() at any bit position; non-trivial with sub-layers") {
  SCase sc = run_kind(c, s, K_PTL);
  auto& v = as<Ptl>(sc);
  c.nontrivial = v.maxNumSubLayersMinus1 > 0;
  if (!v.sub_layer.empty()) c.tag("sub-layer profile");
  if (!v.sub_layer_level_idc.empty()) c.tag("sub-layer level");
  if (!v.profilePresentFlag) c.tag("no general profile");
}
PROP(C10, profile_info, 40000, "profile fields at any bit position; non-trivial with a constraint-flag layout") {
  SCase sc = run_kind(c, s, K_PROFILE);
  auto& v = as<ProfileInfo>(sc);
  c.nontrivial = prof_is(v, {2, 4, 5, 6, 7, 8, 9, 10, 11});
  c.tag(prof_is(v, {5, 9, 10, 11}) ? "14-bit layout" : prof_is(v, {4, 6, 7, 8}) ? "34-bit layout" : prof_is(v, {2}) ? "main 10 layout" : "43-bit layout");
}
PROP(C12, sps, 40000, "conforming SPS; non-trivial with reference sets, scaling lists, VUI, long-term pictures or an extension") {
  SCase sc = run_kind(c, s, K_SPS);
  auto& v = as<Sps>(sc);
  c.nontrivial = v.num_short_term_ref_pic_sets > 0 || v.scaling_list_data || v.vui_parameters ||
                 v.num_long_term_ref_pics_sps > 0 || v.sps_extension_present_flag;
  if (v.vui_parameters) c.tag("vui");
  if (v.scaling_list_data) c.tag("scaling lists");
  if (v.num_short_term_ref_pic_sets > 0) c.tag("short-term sets");
  if (v.num_long_term_ref_pics_sps > 0) c.tag("long-term");
  if (v.sps_scc_extension) c.tag("scc");
  if (v.pcm_enabled_flag) c.tag("pcm");
  if (v.chroma_format_idc == 3) c.tag("4:4:4");
}
PROP(C13, vui, 60000, "conforming VUI at any bit position; non-trivial with timing or bitstream restrictions") {
  SCase sc = run_kind(c, s, K_VUI);
  auto& v = as<Vui>(sc);
  c.nontrivial = v.vui_timing_info_present_flag || v.bitstream_restriction_flag;
  if (v.hrd_parameters) c.tag("hrd");
  if (v.aspect_ratio_idc == 255) c.tag("extended sar");
  if (v.default_display_window_flag) c.tag("display window");
}
PROP(C13, framerate, 60000, "frame rate of a VUI; non-trivial when timing is present and the tick is not 0") {
  // any VUI, with any timing
  Enc E(s);
  auto v = gen_vui(E, (unsigned)s.uni(0, 6));
  v->vui_timing_info_present_flag = s.flag();
  v->vui_num_units_in_tick = v->vui_time_scale = 0;
  if (v->vui_timing_info_present_flag) {
    v->vui_num_units_in_tick = (uint32_t)s.u(0, kU32Max);
    v->vui_time_scale = (uint32_t)s.u(0, kU32Max);
  }
  c.input(v->vui_num_units_in_tick);
  c.input(v->vui_time_scale);
  float got = v->getFramerate();
  if (c.want_sample) c.sample = c.input_desc = fmt("present %u time_scale %u num_units %u -> %g", v->vui_timing_info_present_flag, v->vui_time_scale, v->vui_num_units_in_tick, got);
  c.nontrivial = v->vui_timing_info_present_flag && v->vui_num_units_in_tick != 0;
  double exp = c.nontrivial ? (double)v->vui_time_scale / v->vui_num_units_in_tick : 0;
  if (c.nontrivial)
    CHECK(c, got >= exp * 0.999999 && got <= exp * 1.000001, fmt("frame rate %g instead of %g", got, exp));
}
PROP(C14, hrd, 30000, "hrd_parameters() at any bit position, with and without common part; non-trivial with sub-layer HRDs") {
  SCase sc = run_kind(c, s, K_HRD);
  auto& v = as<Hrd>(sc);
  c.nontrivial = !v.sub_layer_hrd_parameters_vector.empty();
  if (v.sub_pic_hrd_params_present_flag) c.tag("sub-picture");
  if (!v.commonInfPresentFlag) c.tag("common part absent");
  if (v.nal_hrd_parameters_present_flag && v.vcl_hrd_parameters_present_flag) c.tag("nal+vcl");
  for (auto l : v.low_delay_hrd_flag)
    if (l) {
      c.tag("low delay");
      break;
    }
}
PROP(C14, sub_layer_hrd, 30000, "sub_layer_hrd_parameters() at any bit position; non-trivial with several CPBs") {
  SCase sc = run_kind(c, s, K_SUBHRD);
  c.nontrivial = as<SubHrd>(sc).CpbCnt > 1;
}
PROP(C15, st_ref_pic_set, 60000, "st_ref_pic_set() after a chain of earlier sets; non-trivial when predicted or non-empty") {
  SCase sc = run_kind(c, s, K_STRPS);
  auto& v = as<StRps>(sc);
  c.nontrivial = v.inter_ref_pic_set_prediction_flag || v.num_negative_pics + v.num_positive_pics > 0;
  if (v.inter_ref_pic_set_prediction_flag) c.tag("predicted");
  if (v.delta_idx_minus1) c.tag("delta_idx > 1");
  if (v.num_negative_pics + v.num_positive_pics == 15) c.tag("15 pictures");
}
PROP(C15, in_sps, 12000, "SPS with many sets; non-trivial with a predicted set") {
  // chains inside a real SPS
  SCase sc = run_kind(c, s, K_SPS);
  auto& v = as<Sps>(sc);
  for (auto& r : v.st_ref_pic_set) c.nontrivial |= r->inter_ref_pic_set_prediction_flag != 0;
}
PROP(C16, scaling_list, 30000, "scaling_list_data() at any bit position; non-trivial with an explicit list") {
  SCase sc = run_kind(c, s, K_SCALING);
  for (auto& l : as<Sld>(sc).scaling_list_pred_mode_flag)
    for (auto f : l) c.nontrivial |= f != 0;
}
PROP(C17, sps_ext, 60000, "each SPS extension at any bit position; non-trivial when some bit is set") {
  static const std::vector<int> ks = {K_SPSRANGE, K_SPSML, K_SPS3D, K_SPSSCC, K_SPSSCC};
  int k = s.pick(ks);
  c.tag(kind_name(k));
  run_kind(c, s, k);
  c.nontrivial = true;
}
PROP(C17, in_sps, 10000, "SPS with extensions; non-trivial with at least one extension") {
  Enc E(s);
  SpsOpt so;
  so.light = true;
  SCase sc = gen_case(K_SPS, E, GenOpt{true});
  check_case(c, s, E, sc);
  c.nontrivial = as<Sps>(sc).sps_extension_present_flag != 0;
}
PROP(C18, pps, 50000, "conforming PPS; non-trivial with tiles, scaling lists, deblocking control or an extension") {
  SCase sc = run_kind(c, s, K_PPS);
  auto& v = as<Pps>(sc);
  c.nontrivial = v.tiles_enabled_flag || v.scaling_list_data || v.deblocking_filter_control_present_flag || v.pps_extension_present_flag;
  if (v.tiles_enabled_flag) c.tag(v.uniform_spacing_flag ? "uniform tiles" : "explicit tiles");
  if (v.scaling_list_data) c.tag("scaling lists");
  if (v.pps_multilayer_extension) c.tag("multilayer");
  if (v.pps_scc_extension) c.tag("scc");
}
PROP(C19, pps_ext, 60000, "PPS multilayer and SCC extension at any bit position; non-trivial with a coded list") {
  bool ml = s.flag();
  SCase sc = run_kind(c, s, ml ? K_PPSML : K_PPSSCC);
  c.tag(kind_name(sc.kind));
  c.nontrivial = ml ? as<PpsMl>(sc).num_ref_loc_offsets > 0 : as<PpsScc>(sc).pps_num_palette_predictor_initializer > 0;
}
PROP(C20, slice, 60000, "slice segment with its SPS and PPS (and decoys) in the state; non-trivial unless an IDR I slice in one piece") {
  SCase sc = run_kind(c, s, K_SLICE);
  auto& h = *as<SliceLayer>(sc).slice_segment_header;
  c.nontrivial = h.slice_type != 2 || !is_idr(h.nal_unit_type) || !h.first_slice_segment_in_pic_flag;
  c.tag(h.dependent_slice_segment_flag ? "dependent" : h.slice_type == 0 ? "B" : h.slice_type == 1 ? "P" : "I");
  if (!h.first_slice_segment_in_pic_flag) c.tag("not first in picture");
  if (h.st_ref_pic_set) c.tag("own reference set");
  if (h.num_long_term_sps + h.num_long_term_pics) c.tag("long-term");
  if (h.pred_weight_table) c.tag("pred weight table");
  if (h.num_entry_point_offsets) c.tag("entry points");
  if (h.slice_segment_header_extension_length) c.tag("header extension");
  if (h.use_integer_mv_flag) c.tag("integer mv");
}
PROP(C20, unavailable, 20000, "slices whose PPS or SPS is not in the state while others are; non-trivial always") {
  Enc E1(s), E2(s), E(s);
  SpsOpt so;
  so.light = true;
  std::shared_ptr<Sps> sps = gen_sps(E1, so);
  PpsOpt po;
  po.sps = sps.get();
  po.light = true;
  std::shared_ptr<Pps> pps = gen_pps(E2, po);
  static const std::vector<unsigned> types = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21};
  unsigned t = s.pick(types);
  uint32_t pid = pps->pps_pic_parameter_set_id, sid = sps->sps_seq_parameter_set_id;
  unsigned kind = (unsigned)s.uni(0, 4);
  uint32_t named = pid;
  std::string what;
  ParserState st;
  if (kind == 0) {
    // the id only equals that of the stored PPS in its low bits
    unsigned w = s.pick(std::vector<unsigned>{6, 8, 16, 31});
    named = pid + ((uint32_t)(w == 31 ? 1 : s.u(1, 20)) << w);
    what = fmt("PPS id %u while %u is stored", named, pid);
  } else if (kind == 1) {
    named = (pid + 1 + (uint32_t)s.uni(0, 62)) % 64;
    what = fmt("PPS id %u while %u is stored", named, pid);
  } else if (kind == 2) {
    what = "no PPS";
  } else {
    what = kind == 3 ? "no SPS" : "another SPS";
  }
  std::shared_ptr<Pps> coded = pps;
  coded->pps_pic_parameter_set_id = named;
  auto o = gen_slice(E, t, *sps, *coded);
  coded->pps_pic_parameter_set_id = pid;
  auto put = [&](bool p, bool q) {
    st.pps.clear();
    st.sps.clear();
    if (p) st.pps[pid] = pps;
    if (q) st.sps[sid] = sps;
    if (kind == 4) st.sps[(sid + 1 + t % 15) % 16] = sps;
  };
  put(kind != 2, kind < 3);
  Bytes d = E.w.bytes();
  c.input(d);
  c.input(what);
  c.nontrivial = true;
  c.tag(kind == 0 ? "same low bits" : kind < 3 ? "PPS" : "SPS");
  if (c.want_sample) c.sample = c.input_desc = fmt("type %u, ", t) + what + ": " + pbt::hex(d, 300);
  Bytes esc = pbt::escape_rbsp(d);
  Exact x(d), y(esc);
  std::string before = canon(st);
  {
    BitBuffer b(x.p.get(), x.n);
    CHECK(c, !H265SliceSegmentLayerParser::ParseSliceSegmentLayer(&b, t, &st), "slice accepted with " + what);
  }
  {
    BitBuffer b(x.p.get(), x.n);
    CHECK(c, !H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&b, t, &st), "slice header accepted with " + what);
  }
  CHECK(c, !H265SliceSegmentLayerParser::ParseSliceSegmentLayer(y.p.get(), y.n, t, &st), "slice accepted with " + what);
  CHECK(c, !H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(y.p.get(), y.n, t, &st), "slice header accepted with " + what);
  CHECK(c, canon(st) == before, "stored parameter sets changed by a slice with " + what);
}
PROP(C21, pred_weight_table, 60000, "pred_weight_table() at any bit position; non-trivial with a coded weight") {
  SCase sc = run_kind(c, s, K_PWT);
  auto& v = as<Pwt>(sc);
  c.nontrivial = !v.delta_luma_weight_l0.empty() || !v.delta_chroma_weight_l0.empty() || !v.delta_luma_weight_l1.empty();
  if (v.b_slice) c.tag("B");
  if (v.ChromaArrayType == 0) c.tag("monochrome");
}
PROP(C21, in_slice, 20000, "slices; non-trivial with a prediction weight table") {
  SCase sc = run_kind(c, s, K_SLICE);
  c.nontrivial = as<SliceLayer>(sc).slice_segment_header->pred_weight_table != nullptr;
}
PROP(C22, long_payload, 150, "SEI messages with payloads of up to 200000 bytes; non-trivial above 65535 bytes") {
  Enc E(s);
  E.bulk = 200000;
  SCase sc = gen_case(K_SEI, E);
  check_case(c, s, E, sc);
  c.nontrivial = as<SeiMsg>(sc).payload_size > 65535;
}
PROP(C22, sei, 60000, "SEI message of any type; non-trivial with a decoded payload") {
  SCase sc = run_kind(c, s, K_SEI);
  auto& v = as<SeiMsg>(sc);
  c.nontrivial = v.payload_state != nullptr;
  unsigned t = (unsigned)v.payload_type;
  static std::map<unsigned, std::string> names;
  auto it = names.find(t);
  bool sup = std::find(sei_supported().begin(), sei_supported().end(), t) != sei_supported().end();
  if (it == names.end() && sup) it = names.emplace(t, "type " + std::to_string(t)).first;
  c.tag(sup ? it->second.c_str() : "other type");
  if (v.payload_size >= 255) c.tag("size >= 255");
}
PROP(C22, short, 20000, "SEI messages whose payload is shorter than its type requires, alone or before other bytes; non-trivial always") {
  unsigned t = s.pick(sei_supported());
  Enc P(s);
  gen_sei_payload(P, t);
  size_t bits = P.w.bits();
  if (!P.w.aligned()) P.w.trailing();
  Bytes b = P.w.bytes();
  // bytes without which the syntax is not complete
  size_t need = t == 4 ? (b[0] == 255 ? 2 : 1) : t == 5 ? 16 : (bits + 7) / 8;
  size_t size = (size_t)(s.flag() ? need - 1 : s.uni(0, need - 1));
  Bytes rest(b.begin() + (long)size, b.end());
  b.resize(size);
  unsigned after = (unsigned)s.uni(0, 2);
  BitW w;
  sei_varlen(w, t);
  sei_varlen(w, size);
  for (uint8_t x : b) w.u(8, x);
  if (after == 1)
    for (uint8_t x : rest) w.u(8, x);
  if (after == 2)
    for (unsigned i = 0; i < 200; i++) w.u(8, i % 3 ? s.uni(0, 255) : i);
  w.u(8, 0x80);
  const Bytes& d = w.bytes();
  c.input(d);
  c.nontrivial = true;
  if (c.want_sample) c.sample = c.input_desc = fmt("type %u, %zu of %zu bytes: ", t, size, need) + pbt::hex(d, 300);
  c.tag(after == 0 ? "at the end" : after == 1 ? "the rest follows" : "other bytes follow");
  Exact x(d), y(pbt::escape_rbsp(d));
  BitBuffer bb(x.p.get(), x.n);
  std::unique_ptr<SeiMsg> got[] = {H265SeiMessageParser::ParseSei(&bb), H265SeiMessageParser::ParseSei(y.p.get(), y.n)};
  for (auto& g : got) {
    CHECK(c, g != nullptr, "message rejected");
    CHECK(c, (unsigned)g->payload_type == t && g->payload_size == size, fmt("type %u size %u", (unsigned)g->payload_type, g->payload_size));
    CHECK(c, g->payload_state == nullptr, fmt("type %u: payload reported from %zu bytes, %zu are needed: ", t, size, need) + canon(*g));
  }
}
