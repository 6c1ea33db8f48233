// Generators: for each syntax structure, draw a conforming value from the
// choice source, write its bits as the standard's syntax tables order them,
// and build the parsed-state object that a correct parser must produce.
// Written from the H.265 syntax tables, not from the parser.
#pragma once
#include <algorithm>

#include "canon.h"

namespace h265nal {
using pbt::BitW;
using pbt::Bytes;
using pbt::ceil_log2;
using pbt::Ctx;
using pbt::fmt;
using pbt::Src;

typedef H265VpsParser::VpsState Vps;
typedef H265SpsParser::SpsState Sps;
typedef H265PpsParser::PpsState Pps;
typedef H265AudParser::AudState Aud;
typedef H265ProfileInfoParser::ProfileInfoState ProfileInfo;
typedef H265ProfileTierLevelParser::ProfileTierLevelState Ptl;
typedef H265HrdParametersParser::HrdParametersState Hrd;
typedef H265SubLayerHrdParametersParser::SubLayerHrdParametersState SubHrd;
typedef H265VuiParametersParser::VuiParametersState Vui;
typedef H265StRefPicSetParser::StRefPicSetState StRps;
typedef H265ScalingListDataParser::ScalingListDataState Sld;
typedef H265SpsRangeExtensionParser::SpsRangeExtensionState SpsRange;
typedef H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState SpsMl;
typedef H265Sps3dExtensionParser::Sps3dExtensionState Sps3d;
typedef H265SpsSccExtensionParser::SpsSccExtensionState SpsScc;
typedef H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState PpsMl;
typedef H265PpsSccExtensionParser::PpsSccExtensionState PpsScc;
typedef H265PredWeightTableParser::PredWeightTableState Pwt;
typedef H265SliceSegmentHeaderParser::SliceSegmentHeaderState SliceHdr;
typedef H265SliceSegmentLayerParser::SliceSegmentLayerState SliceLayer;
typedef H265SeiMessageParser::SeiMessageState SeiMsg;
typedef H265NalUnitHeaderParser::NalUnitHeaderState NalHdr;
typedef H265NalUnitPayloadParser::NalUnitPayloadState NalPayload;
typedef H265NalUnitParser::NalUnitState NalUnit;
typedef H265ConfigurationBoxParser::ConfigurationBoxState ConfBox;
typedef H265BitstreamParser::BitstreamState BitstreamSt;
typedef H265BitstreamParserState ParserState;

const uint64_t kU32Max = 0xffffffffull;
const uint64_t kUeMax = 0xfffffffeull;  // largest ue(v) of the standard

struct Enc {
  enum Mode { NONE = 0, AT_HI, OVER, AT_LO, UNDER };
  struct Lim {
    std::string key;
    bool has_under;
  };
  Src& s;
  BitW w;
  std::vector<Lim> lims;
  // restrict a validated element to a limit / push it past the limit
  std::string force_key;
  long force_occ = -1;
  Mode mode = NONE;
  uint64_t extra = 0;
  unsigned wrap = 0;  // go past a limit by a multiple of 2^wrap
  bool forced = false;
  uint64_t forced_value = 0;
  std::map<std::string, long> occ;

  long mand_codes = 0;  // Exp-Golomb codes among them
  size_t mand = 0;  // bits up to the end of the last mandatory element
  bool track = false;
  bool small_hrd = false;  // one CPB entry per sub-layer
  bool wide_qp = false;  // QPs the standard does not allow
  unsigned bulk = 0;     // bytes of a SEI payload made from one seed
  std::set<std::pair<const void*, std::string>> present;
  std::vector<std::shared_ptr<void>> keep;  // structures named in present stay alive

  explicit Enc(Src& src) : s(src) {}
  void pr(const void* p, const char* f) {
    if (!track) return;
    std::string n(f);
    size_t b = n.find('[');
    if (b != std::string::npos) n.resize(b);
    present.insert(std::make_pair(p, n));
  }
  Mode hit(const char* key, bool under) {
    lims.push_back(Lim{key, under});
    if (mode == NONE) return NONE;
    long k = occ[key]++;
    if (force_key == key && k == force_occ) {
      forced = true;
      return mode;
    }
    return NONE;
  }
  // element validated against [lo, hi] (a multiple of step); v is the value
  // of the unforced case
  uint64_t limv(const char* key, uint64_t v, uint64_t lo, uint64_t hi, uint64_t maxover = kUeMax,
                uint64_t step = 1) {
    switch (hit(key, false)) {
      case AT_HI: v = hi; break;
      case AT_LO: v = lo; break;
      case OVER: {
        // the same value plus a multiple of a power of two: what follows is
        // what belongs to the value without its upper bits
        uint64_t more = wrap ? ((1 + extra % (1ull << (32 - wrap))) << wrap) : 0;
        if (more && maxover != 63 && v + more > hi && v + more <= kUeMax) {
          w.add = (int64_t)more;
          forced_value = v + more;
          return v;
        }
        uint64_t room = maxover > hi ? (maxover - hi) / step : 1;
        if (room == 0) room = 1;
        v = hi + step * (1 + extra % room);
        break;
      }
      default: return v;
    }
    forced_value = v;
    return v;
  }
  uint64_t lim(const char* key, uint64_t lo, uint64_t hi, uint64_t maxover = kUeMax) {
    return limv(key, s.u(lo, hi), lo, hi, maxover);
  }
  int64_t slim(const char* key, int64_t lo, int64_t hi) {
    int64_t v = s.s(lo, hi);
    Mode m = hit(key, true);
    if (wrap && (m == OVER || m == UNDER)) {
      int64_t more = (int64_t)((1 + extra % (1ull << (31 - wrap))) << wrap);
      int64_t r = m == OVER ? v + more : v - more;
      if ((r < lo || r > hi) && r <= 0x7fffffffll && r >= -0x7fffffffll) {
        w.add = r - v;
        forced_value = (uint64_t)r;
        return v;
      }
    }
    switch (m) {
      case AT_HI: v = hi; break;
      case AT_LO: v = lo; break;
      case OVER: v = hi + 1 + (int64_t)(extra % (uint64_t)(0x7fffffffll - hi)); break;
      case UNDER: v = lo - 1 - (int64_t)(extra % (uint64_t)(lo + 0x7fffffffll)); break;
      default: return v;
    }
    forced_value = (uint64_t)v;
    return v;
  }
  void mandatory() {
    mand = w.bits();
    mand_codes = w.codes;
  }
};

constexpr uint64_t BITMAX(unsigned n) { return n >= 64 ? UINT64_MAX : ((1ull << (n & 63)) - 1); }
// u(n) with a given value / a drawn value
#define XUV(st, f, n, v)                         \
  do {                                           \
    uint64_t xv_ = (uint64_t)(v);                \
    (st).f = static_cast<std::decay<decltype((st).f)>::type>(xv_); \
    E.w.u((n), xv_);                             \
    E.pr(&(st), #f);                             \
  } while (0)
#define XU(st, f, n) XUV(st, f, n, E.s.u(0, BITMAX(n)))
#define XF(st, f) XUV(st, f, 1, E.s.flag())
#define XUEV(st, f, v)                           \
  do {                                           \
    uint64_t xv_ = (uint64_t)(v);                \
    (st).f = static_cast<std::decay<decltype((st).f)>::type>(xv_); \
    E.w.ue(xv_);                                 \
    E.pr(&(st), #f);                             \
  } while (0)
#define XUE(st, f, hi) XUEV(st, f, E.s.u(0, (hi)))
#define XSEV(st, f, v)                           \
  do {                                           \
    int64_t xv_ = (int64_t)(v);                  \
    (st).f = static_cast<std::decay<decltype((st).f)>::type>(xv_); \
    E.w.se(xv_);                                 \
    E.pr(&(st), #f);                             \
  } while (0)
#define XSE(st, f, lo, hi) XSEV(st, f, E.s.s((lo), (hi)))
#define XLIM(st, f, hi) XUEV(st, f, E.lim(#f, 0, (hi)))
// the same for elements appended to an array
#define PUV(st, f, n, v)                                                      \
  do {                                                                        \
    uint64_t xv_ = (uint64_t)(v);                                             \
    (st).f.push_back(static_cast<std::decay<decltype((st).f[0])>::type>(xv_)); \
    E.w.u((n), xv_);                                                          \
    E.pr(&(st), #f);                                                          \
  } while (0)
#define PU(st, f, n) PUV(st, f, n, E.s.u(0, BITMAX(n)))
#define PF(st, f) PUV(st, f, 1, E.s.flag())
#define PUEV(st, f, v)                                                        \
  do {                                                                        \
    uint64_t xv_ = (uint64_t)(v);                                             \
    (st).f.push_back(static_cast<std::decay<decltype((st).f[0])>::type>(xv_)); \
    E.w.ue(xv_);                                                              \
    E.pr(&(st), #f);                                                          \
  } while (0)
#define PUE(st, f, hi) PUEV(st, f, E.s.u(0, (hi)))
#define PSE(st, f, lo, hi)                                                    \
  do {                                                                        \
    int64_t xv_ = E.s.s((lo), (hi));                                          \
    (st).f.push_back(static_cast<std::decay<decltype((st).f[0])>::type>(xv_)); \
    E.w.se(xv_);                                                              \
    E.pr(&(st), #f);                                                          \
  } while (0)

// ------------------------------------------------------- profile tier level
inline bool prof_is(const ProfileInfo& p, std::initializer_list<unsigned> l) {
  for (unsigned k : l)
    if (p.profile_idc == k || p.profile_compatibility_flag[k] == 1) return true;
  return false;
}

// Tables A.2, A.3 and A.4...: constraint flag patterns, columns
// 14bit 12bit 10bit 8bit 422 420 mono intra one_picture lower_bit_rate,
// '-' = not part of the table.
struct ProfRow {
  int idc;
  const char* pat;
  ProfileType type;
};
inline const std::vector<ProfRow>& prof_rows() {
  // columns: 14bit 12bit 10bit 8bit 422 420 mono intra one_picture lower
  static const std::vector<ProfRow> rows = {
      // A.3.2 .. A.3.4
      {1, "..........", ProfileType::MAIN},
      {2, "--------1-", ProfileType::MAIN_10_STILL_PICTURE},
      {2, "..........", ProfileType::MAIN_10},
      {3, "..........", ProfileType::MAIN_STILL_PICTURE},
      // Table A.2
      {4, "-111111001", ProfileType::MONOCHROME},
      {4, "-110111001", ProfileType::MONOCHROME_10},
      {4, "-100111001", ProfileType::MONOCHROME_12},
      {4, "-000111001", ProfileType::MONOCHROME_16},
      {4, "-100110001", ProfileType::MAIN_12},
      {4, "-110100001", ProfileType::MAIN_422_10},
      {4, "-100100001", ProfileType::MAIN_422_12},
      {4, "-111000001", ProfileType::MAIN_444},
      {4, "-110000001", ProfileType::MAIN_444_10},
      {4, "-100000001", ProfileType::MAIN_444_12},
      {4, "-11111010-", ProfileType::MAIN_INTRA},
      {4, "-11011010-", ProfileType::MAIN_10_INTRA},
      {4, "-10011010-", ProfileType::MAIN_12_INTRA},
      {4, "-11010010-", ProfileType::MAIN_422_10_INTRA},
      {4, "-10010010-", ProfileType::MAIN_422_12_INTRA},
      {4, "-11100010-", ProfileType::MAIN_444_INTRA},
      {4, "-11000010-", ProfileType::MAIN_444_10_INTRA},
      {4, "-10000010-", ProfileType::MAIN_444_12_INTRA},
      {4, "-00000010-", ProfileType::MAIN_444_16_INTRA},
      {4, "-11100011-", ProfileType::MAIN_444_STILL_PICTURE},
      {4, "-00000011-", ProfileType::MAIN_444_16_STILL_PICTURE},
      // range extension combinations without a row of their own in Table A.2
      {4, "-11111111-", ProfileType::MONOCHROME_STILL_PICTURE},
      {4, "-11011111-", ProfileType::MONOCHROME_10_STILL_PICTURE},
      {4, "-11111011-", ProfileType::MAIN_STILL_PICTURE},
      {4, "-11011011-", ProfileType::MAIN_10_STILL_PICTURE},
      {4, "-11000011-", ProfileType::MAIN_444_10_STILL_PICTURE},
      {4, "..........", ProfileType::FREXT},
      // Table A.3
      {5, "1111000001", ProfileType::HIGH_THROUGHPUT_444},
      {5, "1110000001", ProfileType::HIGH_THROUGHPUT_444_10},
      {5, "1000000001", ProfileType::HIGH_THROUGHPUT_444_14},
      {5, "000000010-", ProfileType::HIGH_THROUGHPUT_444_16_INTRA},
      {5, "..........", ProfileType::HIGH_THROUGHPUT},
      {6, "..........", ProfileType::MULTIVIEW_MAIN},
      // H.11.1.1
      {7, "-111110001", ProfileType::SCALABLE_MAIN},
      {7, "-110110001", ProfileType::SCALABLE_MAIN_10},
      {7, "..........", ProfileType::SCALABLE},
      {8, "..........", ProfileType::_3D_MAIN},
      // Table A.5
      {9, "1111110001", ProfileType::SCREEN_EXTENDED_MAIN},
      {9, "1110110001", ProfileType::SCREEN_EXTENDED_MAIN_10},
      {9, "1111000001", ProfileType::SCREEN_EXTENDED_MAIN_444},
      {9, "1110000001", ProfileType::SCREEN_EXTENDED_MAIN_444_10},
      {9, "..........", ProfileType::SCREEN_EXTENDED},
      {10, "..........", ProfileType::MULTILAYER},
      // Table A.7
      {11, "1111000001", ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444},
      {11, "1110000001", ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10},
      {11, "1000000001", ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14},
      {11, "..........", ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT},
      {12, "..........", ProfileType::MULTIVIEW_EXTENDED},
      {13, "..........", ProfileType::MULTIVIEW_EXTENDED_10},
  };
  return rows;
}
// The profile follows from profile_space and profile_idc; the compatibility
// flags only select the syntax of the constraint flags.
inline ProfileType ref_profile_type(const ProfileInfo& p) {
  if (p.profile_space != 0) return ProfileType::UNSPECIFIED;
  const unsigned f[10] = {p.max_14bit_constraint_flag,      p.max_12bit_constraint_flag,
                          p.max_10bit_constraint_flag,      p.max_8bit_constraint_flag,
                          p.max_422chroma_constraint_flag,  p.max_420chroma_constraint_flag,
                          p.max_monochrome_constraint_flag, p.intra_constraint_flag,
                          p.one_picture_only_constraint_flag, p.lower_bit_rate_constraint_flag};
  for (auto& r : prof_rows()) {
    if (r.idc != (int)p.profile_idc) continue;
    bool ok = true;
    for (int i = 0; i < 10 && ok; i++)
      if (r.pat[i] == '0' || r.pat[i] == '1') ok = f[i] == (unsigned)(r.pat[i] - '0');
    if (ok) return r.type;
  }
  return ProfileType::UNSPECIFIED;
}

inline void gen_profile_info(Enc& E, ProfileInfo& p) {
  Src& s = E.s;
  XUV(p, profile_space, 2, s.chance(1, 6) ? s.u(1, 3) : 0);
  XF(p, tier_flag);
  XUV(p, profile_idc, 5, s.chance(3, 4) ? s.u(0, 13) : s.uni(0, 31));
  // compatibility flags: none, only the own one, or arbitrary
  unsigned kind = (unsigned)s.uni(0, 3);
  uint32_t bits = 0;
  if (kind == 1)
    bits = 1u << p.profile_idc;
  else if (kind == 2)
    bits = 1u << s.uni(0, 31);
  else if (kind == 3)
    bits = (uint32_t)s.uni(0, kU32Max);
  for (unsigned j = 0; j < 32; j++) {
    p.profile_compatibility_flag[j] = (bits >> j) & 1;
    E.w.bit(p.profile_compatibility_flag[j]);
  }
  E.pr(&p, "profile_compatibility_flag");
  XF(p, progressive_source_flag);
  XF(p, interlaced_source_flag);
  XF(p, non_packed_constraint_flag);
  XF(p, frame_only_constraint_flag);
  if (prof_is(p, {4, 5, 6, 7, 8, 9, 10, 11})) {
    // either a row of the profile tables or arbitrary flags
    unsigned f[10];
    bool table = s.chance(3, 4);
    const auto& rows = prof_rows();
    std::vector<const ProfRow*> mine;
    for (auto& r : rows)
      if (r.idc == (int)p.profile_idc && std::string(r.pat) != "..........") mine.push_back(&r);
    if (table && !mine.empty()) {
      const ProfRow* r = mine[s.uni(0, mine.size() - 1)];
      for (int i = 0; i < 10; i++)
        f[i] = r->pat[i] == '-' || r->pat[i] == '.' ? (unsigned)s.flag() : (unsigned)(r->pat[i] - '0');
      if (s.chance(1, 4)) f[s.uni(0, 9)] ^= 1;
    } else {
      for (int i = 0; i < 10; i++) f[i] = s.flag();
    }
    XUV(p, max_12bit_constraint_flag, 1, f[1]);
    XUV(p, max_10bit_constraint_flag, 1, f[2]);
    XUV(p, max_8bit_constraint_flag, 1, f[3]);
    XUV(p, max_422chroma_constraint_flag, 1, f[4]);
    XUV(p, max_420chroma_constraint_flag, 1, f[5]);
    XUV(p, max_monochrome_constraint_flag, 1, f[6]);
    XUV(p, intra_constraint_flag, 1, f[7]);
    XUV(p, one_picture_only_constraint_flag, 1, f[8]);
    XUV(p, lower_bit_rate_constraint_flag, 1, f[9]);
    if (prof_is(p, {5, 9, 10, 11})) {
      XUV(p, max_14bit_constraint_flag, 1, f[0]);
      XU(p, reserved_zero_33bits, 33);
    } else {
      XU(p, reserved_zero_34bits, 34);
    }
  } else if (prof_is(p, {2})) {
    XU(p, reserved_zero_7bits, 7);
    XF(p, one_picture_only_constraint_flag);
    XU(p, reserved_zero_35bits, 35);
  } else {
    XU(p, reserved_zero_43bits, 43);
  }
  if (prof_is(p, {1, 2, 3, 4, 5, 9, 11}))
    XF(p, inbld_flag);
  else
    XF(p, reserved_zero_bit);
  p.profile_type = ref_profile_type(p);
}

inline std::unique_ptr<Ptl> gen_ptl(Enc& E, bool profile_present, unsigned max_sub_minus1) {
  Src& s = E.s;
  auto t = make_zero<Ptl>();
  t->profilePresentFlag = profile_present;
  t->maxNumSubLayersMinus1 = max_sub_minus1;
  if (profile_present) {
    t->general = make_zero<ProfileInfo>();
    gen_profile_info(E, *t->general);
  }
  XU(*t, general_level_idc, 8);
  for (unsigned i = 0; i < max_sub_minus1; i++) {
    PF(*t, sub_layer_profile_present_flag);
    PF(*t, sub_layer_level_present_flag);
  }
  if (max_sub_minus1 > 0)
    for (unsigned i = max_sub_minus1; i < 8; i++) PUV(*t, reserved_zero_2bits, 2, s.chance(1, 4) ? s.uni(0, 3) : 0);
  for (unsigned i = 0; i < max_sub_minus1; i++) {
    if (t->sub_layer_profile_present_flag[i]) {
      auto p = make_zero<ProfileInfo>();
      gen_profile_info(E, *p);
      t->sub_layer.push_back(std::move(p));
    }
    if (t->sub_layer_level_present_flag[i]) PU(*t, sub_layer_level_idc, 8);
  }
  return t;
}

// ---------------------------------------------------------------------- HRD
inline std::unique_ptr<SubHrd> gen_sub_hrd(Enc& E, unsigned sub_id, unsigned cpb_cnt, unsigned sub_pic) {
  auto h = make_zero<SubHrd>();
  h->subLayerId = sub_id;
  h->CpbCnt = cpb_cnt;
  h->sub_pic_hrd_params_present_flag = sub_pic;
  for (unsigned i = 0; i < cpb_cnt; i++) {
    PUE(*h, bit_rate_value_minus1, kUeMax);
    PUE(*h, cpb_size_value_minus1, kUeMax);
    if (sub_pic) {
      PUE(*h, cpb_size_du_value_minus1, kUeMax);
      PUE(*h, bit_rate_du_value_minus1, kUeMax);
    } else {
      h->cpb_size_du_value_minus1.push_back(0);
      h->bit_rate_du_value_minus1.push_back(0);
    }
    PF(*h, cbr_flag);
  }
  return h;
}

inline std::unique_ptr<Hrd> gen_hrd(Enc& E, bool common, unsigned max_sub_minus1, const Hrd* prev = nullptr) {
  Src& s = E.s;
  auto h = make_zero<Hrd>();
  h->commonInfPresentFlag = common;
  h->maxNumSubLayersMinus1 = max_sub_minus1;
  if (common) {
    XF(*h, nal_hrd_parameters_present_flag);
    XF(*h, vcl_hrd_parameters_present_flag);
    if (h->nal_hrd_parameters_present_flag || h->vcl_hrd_parameters_present_flag) {
      XF(*h, sub_pic_hrd_params_present_flag);
      if (h->sub_pic_hrd_params_present_flag) {
        XU(*h, tick_divisor_minus2, 8);
        XU(*h, du_cpb_removal_delay_increment_length_minus1, 5);
        XF(*h, sub_pic_cpb_params_in_pic_timing_sei_flag);
        XU(*h, dpb_output_delay_du_length_minus1, 5);
      }
      XU(*h, bit_rate_scale, 4);
      XU(*h, cpb_size_scale, 4);
      if (h->sub_pic_hrd_params_present_flag) XU(*h, cpb_size_du_scale, 4);
      XU(*h, initial_cpb_removal_delay_length_minus1, 5);
      XU(*h, au_cpb_removal_delay_length_minus1, 5);
      XU(*h, dpb_output_delay_length_minus1, 5);
    }
  } else if (prev != nullptr) {
    // inferred from the previous hrd_parameters()
#define CP(f) h->f = prev->f;
    CP(nal_hrd_parameters_present_flag)
    CP(vcl_hrd_parameters_present_flag)
    CP(sub_pic_hrd_params_present_flag)
    CP(tick_divisor_minus2)
    CP(du_cpb_removal_delay_increment_length_minus1)
    CP(sub_pic_cpb_params_in_pic_timing_sei_flag)
    CP(dpb_output_delay_du_length_minus1)
    CP(bit_rate_scale)
    CP(cpb_size_scale)
    CP(cpb_size_du_scale)
    CP(initial_cpb_removal_delay_length_minus1)
    CP(au_cpb_removal_delay_length_minus1)
    CP(dpb_output_delay_length_minus1)
#undef CP
  }
  for (unsigned i = 0; i <= max_sub_minus1; i++) {
    PF(*h, fixed_pic_rate_general_flag);
    if (!h->fixed_pic_rate_general_flag[i])
      PF(*h, fixed_pic_rate_within_cvs_flag);
    else
      h->fixed_pic_rate_within_cvs_flag.push_back(1);  // inferred (E.3.2)
    if (h->fixed_pic_rate_within_cvs_flag[i]) {
      PUE(*h, elemental_duration_in_tc_minus1, 2047);
      h->low_delay_hrd_flag.push_back(0);
    } else {
      h->elemental_duration_in_tc_minus1.push_back(0);
      PF(*h, low_delay_hrd_flag);
    }
    if (!h->low_delay_hrd_flag[i])
      PUEV(*h, cpb_cnt_minus1, E.small_hrd ? 0 : s.chance(1, 5) ? s.u(0, 31) : s.uni(0, 2));
    else
      h->cpb_cnt_minus1.push_back(0);
    unsigned cnt = h->cpb_cnt_minus1[i] + 1;
    for (int k = 0; k < 2; k++)
      if (k == 0 ? h->nal_hrd_parameters_present_flag : h->vcl_hrd_parameters_present_flag)
        h->sub_layer_hrd_parameters_vector.push_back(
            gen_sub_hrd(E, i, cnt, h->sub_pic_hrd_params_present_flag));
  }
  return h;
}

// --------------------------------------------------------------------- tail
// extension data flags (at least min bits) + trailing bits; returns the last
// extension bit
inline unsigned gen_ext_data(Enc& E, bool present) {
  unsigned last = 0;
  if (present) {
    unsigned n = (unsigned)E.s.u(0, 40);
    for (unsigned i = 0; i < n; i++) {
      last = E.s.flag();
      E.w.bit(last);
    }
  }
  return last;
}

// ---------------------------------------------------------------------- VPS
inline std::shared_ptr<Vps> gen_vps(Enc& E, int id = -1) {
  Src& s = E.s;
  std::shared_ptr<Vps> v(make_zero<Vps>());
  XUV(*v, vps_video_parameter_set_id, 4, id >= 0 ? (uint64_t)id : s.u(0, 15));
  XF(*v, vps_base_layer_internal_flag);
  XF(*v, vps_base_layer_available_flag);
  XUV(*v, vps_max_layers_minus1, 6, s.u(0, 62));
  XUV(*v, vps_max_sub_layers_minus1, 3, s.u(0, 6));
  XF(*v, vps_temporal_id_nesting_flag);
  XUV(*v, vps_reserved_0xffff_16bits, 16, 0xffff ^ (s.chance(1, 4) ? s.uni(0, 0xffff) : 0));
  unsigned msl = v->vps_max_sub_layers_minus1;
  v->profile_tier_level = gen_ptl(E, true, msl);
  XF(*v, vps_sub_layer_ordering_info_present_flag);
  for (unsigned i = v->vps_sub_layer_ordering_info_present_flag ? 0 : msl; i <= msl; i++) {
    PUE(*v, vps_max_dec_pic_buffering_minus1, 15);
    PUE(*v, vps_max_num_reorder_pics, v->vps_max_dec_pic_buffering_minus1.back());
    PUE(*v, vps_max_latency_increase_plus1, kUeMax);
  }
  XUV(*v, vps_max_layer_id, 6, E.lim("vps_max_layer_id", 0, 62, 63));
  uint64_t sets = s.chance(1, 30) ? s.u(0, 1023) : s.uni(0, 6);
  XUEV(*v, vps_num_layer_sets_minus1, E.limv("vps_num_layer_sets_minus1", sets, 0, 1023, 1100));
  for (unsigned i = 1; i <= v->vps_num_layer_sets_minus1; i++) {
    uint64_t bits = s.uni(0, UINT64_MAX);
    v->layer_id_included_flag.emplace_back();
    for (unsigned j = 0; j <= v->vps_max_layer_id; j++) {
      v->layer_id_included_flag.back().push_back((bits >> j) & 1);
      E.w.bit((bits >> j) & 1);
    }
    E.pr(v.get(), "layer_id_included_flag");
  }
  XF(*v, vps_timing_info_present_flag);
  if (v->vps_timing_info_present_flag) {
    XU(*v, vps_num_units_in_tick, 32);
    XU(*v, vps_time_scale, 32);
    XF(*v, vps_poc_proportional_to_timing_flag);
    if (v->vps_poc_proportional_to_timing_flag)
      XUEV(*v, vps_num_ticks_poc_diff_one_minus1,
           E.limv("vps_num_ticks_poc_diff_one_minus1", s.u(0, kUeMax), 0, kUeMax, kU32Max));
    uint64_t hi = (uint64_t)v->vps_num_layer_sets_minus1 + 1;
    bool many = hi > 8 && msl <= 2 && s.chance(1, 4);
    uint64_t n = many ? s.u(0, hi) : s.uni(0, hi < 4 ? hi : 4);
    E.small_hrd = many;
    XUEV(*v, vps_num_hrd_parameters, E.limv("vps_num_hrd_parameters", n, 0, hi, hi + 3));
    for (unsigned i = 0; i < v->vps_num_hrd_parameters; i++) {
      PUE(*v, hrd_layer_set_idx, v->vps_num_layer_sets_minus1);
      if (i > 0)
        PF(*v, cprms_present_flag);
      else
        v->cprms_present_flag.push_back(1);  // inferred to be 1
      auto h = gen_hrd(E, v->cprms_present_flag[i] != 0, msl, v->hrd_parameters.get());
      E.keep.push_back(std::shared_ptr<void>(std::move(v->hrd_parameters)));
      v->hrd_parameters = std::move(h);
    }
    E.small_hrd = false;
  }
  XUV(*v, vps_extension_flag, 1, s.chance(1, 4));
  E.mandatory();
  v->vps_extension_data_flag = gen_ext_data(E, v->vps_extension_flag != 0);
  E.w.trailing();
  return v;
}

// ------------------------------------------------------------- scaling list
inline std::unique_ptr<Sld> gen_scaling_list(Enc& E) {
  Src& s = E.s;
  auto d = make_zero<Sld>();
  for (int i = 0; i < 4; i++) {
    d->scaling_list_pred_mode_flag.emplace_back(6, 0);
    d->scaling_list_pred_matrix_id_delta.emplace_back(6, 0);
    d->scaling_list_dc_coef_minus8.emplace_back(6, 0);
    d->ScalingList.emplace_back(6);
  }
  unsigned density = (unsigned)s.uni(0, 3);
  for (unsigned sz = 0; sz < 4; sz++)
    for (unsigned m = 0; m < 6; m += sz == 3 ? 3 : 1) {
      unsigned mode = density == 0 ? s.chance(1, 8) : density == 3 ? !s.chance(1, 4) : s.flag();
      E.w.bit(mode);
      d->scaling_list_pred_mode_flag[sz][m] = mode;
      E.pr(d.get(), "scaling_list_pred_mode_flag");
      if (!mode) {
        uint64_t delta = s.u(0, sz == 3 ? m / 3 : m);
        E.w.ue(delta);
        d->scaling_list_pred_matrix_id_delta[sz][m] = (uint32_t)delta;
        E.pr(d.get(), "scaling_list_pred_matrix_id_delta");
      } else {
        int next = 8;
        int n = sz == 0 ? 16 : 64;
        if (sz > 1) {
          int64_t dc = E.slim("scaling_list_dc_coef_minus8", -7, 247);
          E.w.se(dc);
          d->scaling_list_dc_coef_minus8[sz - 2][m] = (int32_t)dc;
          E.pr(d.get(), "scaling_list_dc_coef_minus8");
          next = (int)((dc + 8) & 0xff);
        }
        // runs of equal deltas keep the number of choices small
        int64_t delta = 0;
        unsigned left = 0;
        for (int i = 0; i < n; i++) {
          if (left == 0) {
            left = (unsigned)s.u(1, 16);
            delta = E.slim("scaling_list_delta_coef", -128, 127);
          } else if (delta < -128 || delta > 127) {
            delta = 0;
          }
          left--;
          E.w.se(delta);
          next = (int)(((next + delta) % 256 + 256) % 256);
          d->ScalingList[sz][m].push_back((uint32_t)next);
          E.pr(d.get(), "ScalingList");
        }
      }
    }
  return d;
}

// --------------------------------------------------- short-term ref pic set
typedef std::vector<std::pair<int64_t, unsigned>> PocList;  // (delta POC, used)
inline PocList rps_pocs(const StRps& r) {
  PocList o;
  int64_t p = 0;
  for (size_t i = 0; i < r.delta_poc_s0_minus1.size(); i++) {
    p -= (int64_t)r.delta_poc_s0_minus1[i] + 1;
    o.push_back({p, r.used_by_curr_pic_s0_flag[i]});
  }
  p = 0;
  for (size_t i = 0; i < r.delta_poc_s1_minus1.size(); i++) {
    p += (int64_t)r.delta_poc_s1_minus1[i] + 1;
    o.push_back({p, r.used_by_curr_pic_s1_flag[i]});
  }
  return o;
}

inline std::unique_ptr<StRps> gen_st_rps(Enc& E, unsigned idx, unsigned num,
                                         const std::vector<std::unique_ptr<StRps>>& sets,
                                         bool big = true) {
  Src& s = E.s;
  auto r = make_zero<StRps>();
  r->stRpsIdx = idx;
  r->num_short_term_ref_pic_sets = num;
  if (idx != 0) XF(*r, inter_ref_pic_set_prediction_flag);
  if (r->inter_ref_pic_set_prediction_flag) {
    if (idx == num)
      XUEV(*r, delta_idx_minus1,
           E.limv("delta_idx_minus1", s.u(0, idx - 1 < 3 ? idx - 1 : s.chance(1, 2) ? idx - 1 : 3), 0, idx - 1));
    XF(*r, delta_rps_sign);
    XUEV(*r, abs_delta_rps_minus1,
         E.limv("abs_delta_rps_minus1", s.flag() ? s.u(0, 32767) : s.uni(0, 7), 0, 32767));
    int64_t delta_rps = (r->delta_rps_sign ? -1 : 1) * ((int64_t)r->abs_delta_rps_minus1 + 1);
    uint64_t d = (uint64_t)r->delta_idx_minus1 + 1;
    const StRps& ref = *sets[d <= idx ? idx - d : 0];
    PocList refp = rps_pocs(ref);
    PocList neg, pos;
    unsigned kept = 0;
    for (size_t j = 0; j <= refp.size(); j++) {
      int64_t poc = (j == refp.size() ? 0 : refp[j].first) + delta_rps;
      unsigned used = s.flag();
      unsigned use = 1;
      // at most 15 pictures fit in the decoded picture buffer
      if (poc != 0 && kept >= 15) used = 0;
      PUV(*r, used_by_curr_pic_flag, 1, used);
      if (!used) {
        use = poc != 0 && kept >= 15 ? 0 : (unsigned)s.flag();
        PUV(*r, use_delta_flag, 1, use);
      } else {
        r->use_delta_flag.push_back(1);  // inferred
      }
      if (use && poc != 0) {
        kept++;
        (poc < 0 ? neg : pos).push_back({poc, used});
      }
    }
    // 7-61, 7-62: each list ordered by increasing distance
    std::sort(neg.begin(), neg.end(), [](const std::pair<int64_t, unsigned>& a, const std::pair<int64_t, unsigned>& b) { return a.first > b.first; });
    std::sort(pos.begin(), pos.end(), [](const std::pair<int64_t, unsigned>& a, const std::pair<int64_t, unsigned>& b) { return a.first < b.first; });
    r->num_negative_pics = (uint32_t)neg.size();
    r->num_positive_pics = (uint32_t)pos.size();
    int64_t prev = 0;
    for (auto& e : neg) {
      r->delta_poc_s0_minus1.push_back((uint32_t)(prev - e.first - 1));
      r->used_by_curr_pic_s0_flag.push_back(e.second);
      prev = e.first;
    }
    prev = 0;
    for (auto& e : pos) {
      r->delta_poc_s1_minus1.push_back((uint32_t)(e.first - prev - 1));
      r->used_by_curr_pic_s1_flag.push_back(e.second);
      prev = e.first;
    }
  } else {
    bool large = big && s.chance(1, 8);
    uint64_t nn = large ? s.uni(0, 15) : s.uni(0, 4);
    XUEV(*r, num_negative_pics, E.limv("num_negative_pics", nn, 0, 15, 40));
    uint64_t room = r->num_negative_pics <= 15 ? 15 - r->num_negative_pics : 0;
    uint64_t np = std::min<uint64_t>(room, large ? s.uni(0, 15) : s.uni(0, 4));
    XUEV(*r, num_positive_pics, E.limv("num_positive_pics", np, 0, room, 40));
    for (unsigned i = 0; i < r->num_negative_pics; i++) {
      PUEV(*r, delta_poc_s0_minus1,
           E.limv("delta_poc_s0_minus1", s.chance(1, 4) ? s.u(0, 32767) : s.uni(0, 7), 0, 32767));
      PF(*r, used_by_curr_pic_s0_flag);
    }
    for (unsigned i = 0; i < r->num_positive_pics; i++) {
      PUEV(*r, delta_poc_s1_minus1,
           E.limv("delta_poc_s1_minus1", s.chance(1, 4) ? s.u(0, 32767) : s.uni(0, 7), 0, 32767));
      PF(*r, used_by_curr_pic_s1_flag);
    }
  }
  return r;
}

// ---------------------------------------------------------------------- VUI
inline std::unique_ptr<Vui> gen_vui(Enc& E, unsigned msl) {
  Src& s = E.s;
  auto v = make_zero<Vui>();
  v->sps_max_sub_layers_minus1 = msl;
  XF(*v, aspect_ratio_info_present_flag);
  if (v->aspect_ratio_info_present_flag) {
    XUV(*v, aspect_ratio_idc, 8, s.flag() ? 255 : s.u(0, 254));
    if (v->aspect_ratio_idc == 255) {
      XU(*v, sar_width, 16);
      XU(*v, sar_height, 16);
    }
  }
  XF(*v, overscan_info_present_flag);
  if (v->overscan_info_present_flag) XF(*v, overscan_appropriate_flag);
  XF(*v, video_signal_type_present_flag);
  if (v->video_signal_type_present_flag) {
    XU(*v, video_format, 3);
    XF(*v, video_full_range_flag);
    XF(*v, colour_description_present_flag);
    if (v->colour_description_present_flag) {
      XU(*v, colour_primaries, 8);
      XU(*v, transfer_characteristics, 8);
      XU(*v, matrix_coeffs, 8);
    }
  }
  XF(*v, chroma_loc_info_present_flag);
  if (v->chroma_loc_info_present_flag) {
    XLIM(*v, chroma_sample_loc_type_top_field, 5);
    XLIM(*v, chroma_sample_loc_type_bottom_field, 5);
  }
  XF(*v, neutral_chroma_indication_flag);
  XF(*v, field_seq_flag);
  XF(*v, frame_field_info_present_flag);
  XF(*v, default_display_window_flag);
  if (v->default_display_window_flag) {
    XLIM(*v, def_disp_win_left_offset, 16384);
    XLIM(*v, def_disp_win_right_offset, 16384);
    XLIM(*v, def_disp_win_top_offset, 16384);
    XLIM(*v, def_disp_win_bottom_offset, 16384);
  }
  XF(*v, vui_timing_info_present_flag);
  if (v->vui_timing_info_present_flag) {
    XU(*v, vui_num_units_in_tick, 32);
    XU(*v, vui_time_scale, 32);
    XF(*v, vui_poc_proportional_to_timing_flag);
    if (v->vui_poc_proportional_to_timing_flag)
      XUEV(*v, vui_num_ticks_poc_diff_one_minus1,
           E.limv("vui_num_ticks_poc_diff_one_minus1", s.u(0, kUeMax), 0, kUeMax, kU32Max));
    XF(*v, vui_hrd_parameters_present_flag);
    if (v->vui_hrd_parameters_present_flag) v->hrd_parameters = gen_hrd(E, true, msl);
  }
  XF(*v, bitstream_restriction_flag);
  if (v->bitstream_restriction_flag) {
    XF(*v, tiles_fixed_structure_flag);
    XF(*v, motion_vectors_over_pic_boundaries_flag);
    XF(*v, restricted_ref_pic_lists_flag);
    XLIM(*v, min_spatial_segmentation_idc, 4095);
    XLIM(*v, max_bytes_per_pic_denom, 16);
    XLIM(*v, max_bits_per_min_cu_denom, 16);
    XLIM(*v, log2_max_mv_length_horizontal, 16);
    XLIM(*v, log2_max_mv_length_vertical, 15);
  }
  return v;
}

// ----------------------------------------------------------- SPS extensions
inline std::unique_ptr<SpsRange> gen_sps_range(Enc& E) {
  auto r = make_zero<SpsRange>();
  XF(*r, transform_skip_rotation_enabled_flag);
  XF(*r, transform_skip_context_enabled_flag);
  XF(*r, implicit_rdpcm_enabled_flag);
  XF(*r, explicit_rdpcm_enabled_flag);
  XF(*r, extended_precision_processing_flag);
  XF(*r, intra_smoothing_disabled_flag);
  XF(*r, high_precision_offsets_enabled_flag);
  XF(*r, persistent_rice_adaptation_enabled_flag);
  XF(*r, cabac_bypass_alignment_enabled_flag);
  return r;
}
inline std::unique_ptr<SpsMl> gen_sps_ml(Enc& E) {
  auto r = make_zero<SpsMl>();
  XF(*r, inter_view_mv_vert_constraint_flag);
  return r;
}
inline std::unique_ptr<Sps3d> gen_sps_3d(Enc& E) {
  auto r = make_zero<Sps3d>();
  for (int d = 0; d <= 1; d++) {
    PF(*r, iv_di_mc_enabled_flag);
    PF(*r, iv_mv_scal_enabled_flag);
    if (d == 0) {
      XUE(*r, log2_ivmc_sub_pb_size_minus3, 3);
      XF(*r, iv_res_pred_enabled_flag);
      XF(*r, depth_ref_enabled_flag);
      XF(*r, vsp_mc_enabled_flag);
      XF(*r, dbbp_enabled_flag);
    } else {
      XF(*r, tex_mc_enabled_flag);
      XUE(*r, log2_texmc_sub_pb_size_minus3, 3);
      XF(*r, intra_contour_enabled_flag);
      XF(*r, intra_dc_only_wedge_enabled_flag);
      XF(*r, cqt_cu_part_pred_enabled_flag);
      XF(*r, inter_dc_only_enabled_flag);
      XF(*r, skip_intra_enabled_flag);
    }
  }
  return r;
}
inline std::unique_ptr<SpsScc> gen_sps_scc(Enc& E, unsigned chroma, unsigned bdl, unsigned bdc) {
  Src& s = E.s;
  auto r = make_zero<SpsScc>();
  XF(*r, sps_curr_pic_ref_enabled_flag);
  XF(*r, palette_mode_enabled_flag);
  if (r->palette_mode_enabled_flag) {
    XLIM(*r, palette_max_size, 64);
    XLIM(*r, delta_palette_max_predictor_size, 128);
    XF(*r, sps_palette_predictor_initializers_present_flag);
    if (r->sps_palette_predictor_initializers_present_flag) {
      uint64_t n = s.chance(1, 4) ? s.u(0, 127) : s.uni(0, 5);
      XUEV(*r, sps_num_palette_predictor_initializers_minus1,
           E.limv("sps_num_palette_predictor_initializers_minus1", n, 0, 127, 140));
      for (unsigned c = 0; c < (chroma == 0 ? 1u : 3u); c++) {
        unsigned depth = 8 + (c == 0 ? bdl : bdc);
        r->sps_palette_predictor_initializers.emplace_back();
        for (unsigned i = 0; i <= r->sps_num_palette_predictor_initializers_minus1; i++) {
          uint64_t v = s.u(0, BITMAX(depth));
          E.w.u(depth, v);
          r->sps_palette_predictor_initializers.back().push_back((uint32_t)v);
        }
        E.pr(r.get(), "sps_palette_predictor_initializers");
      }
    }
  }
  XUV(*r, motion_vector_resolution_control_idc, 2, s.uni(0, 2));
  XF(*r, intra_boundary_filtering_disabled_flag);
  return r;
}

// ---------------------------------------------------------------------- SPS
struct SpsOpt {
  int id = -1;
  bool light = false;  // keep rarely relevant parts small
};
inline std::shared_ptr<Sps> gen_sps(Enc& E, SpsOpt o = SpsOpt()) {
  Src& s = E.s;
  std::shared_ptr<Sps> v(make_zero<Sps>());
  XUV(*v, sps_video_parameter_set_id, 4, s.u(0, 15));
  XUV(*v, sps_max_sub_layers_minus1, 3, o.light && !s.chance(1, 4) ? 0 : s.u(0, 6));
  unsigned msl = v->sps_max_sub_layers_minus1;
  XF(*v, sps_temporal_id_nesting_flag);
  v->profile_tier_level = gen_ptl(E, true, msl);
  XUEV(*v, sps_seq_parameter_set_id,
       E.limv("sps_seq_parameter_set_id", o.id >= 0 ? (uint64_t)o.id : s.u(0, 15), 0, 15));
  XLIM(*v, chroma_format_idc, 3);
  if (v->chroma_format_idc == 3) XF(*v, separate_colour_plane_flag);

  // block sizes first: the coded size must be a multiple of MinCbSizeY
  uint64_t min_cb = E.limv("log2_min_luma_coding_block_size_minus3", s.uni(0, 3), 0, 3);
  int64_t add_cb = E.w.add, add_diff = 0;
  E.w.add = 0;
  uint64_t hi_diff = min_cb <= 3 ? 3 - min_cb : 0;
  uint64_t diff = s.uni(min_cb == 0 ? 1 : 0, hi_diff);
  if (min_cb == 0) diff = E.limv("log2_diff_max_min_luma_coding_block_size", diff, 1, 3);
  add_diff = E.w.add;
  E.w.add = 0;
  unsigned mcb = 8u << (min_cb <= 3 ? min_cb : 3);
  unsigned ctb = mcb << (diff <= 3 ? diff : 0);
  unsigned maxu = 16888 / mcb;
  unsigned kind = (unsigned)s.uni(0, 3);
  uint64_t wc, hc;  // in CTBs
  if (kind == 0) {
    wc = s.u(1, 16888 / ctb);
    hc = s.u(1, 16888 / ctb);
  } else if (kind == 1) {
    wc = s.uni(1, 20);
    hc = s.uni(1, 12);
  } else if (kind == 2) {
    // picture sizes around a power of two CTBs
    wc = s.uni(1, 3);
    hc = s.u(1, 16888 / ctb);
  } else {
    wc = s.u(1, 16888 / ctb);
    hc = s.uni(1, 3);
  }
  unsigned r = ctb / mcb;
  uint64_t wu = std::min<uint64_t>(maxu, wc * r - (s.flag() ? s.uni(0, r - 1) : 0));
  uint64_t hu = std::min<uint64_t>(maxu, hc * r - (s.flag() ? s.uni(0, r - 1) : 0));
  XUEV(*v, pic_width_in_luma_samples,
       E.limv("pic_width_in_luma_samples", wu * mcb, mcb, maxu * mcb, kUeMax, mcb));
  XUEV(*v, pic_height_in_luma_samples,
       E.limv("pic_height_in_luma_samples", hu * mcb, mcb, maxu * mcb, kUeMax, mcb));
  XF(*v, conformance_window_flag);
  if (v->conformance_window_flag) {
    // SubWidthC * (left + right) < width, the same vertically
    unsigned sw = v->chroma_format_idc == 1 || v->chroma_format_idc == 2 ? 2 : 1;
    unsigned sh = v->chroma_format_idc == 1 ? 2 : 1;
    uint64_t W = v->pic_width_in_luma_samples, H = v->pic_height_in_luma_samples;
    uint64_t tw = (W - 1) / sw, th = (H - 1) / sh;
    uint64_t l = s.u(0, s.flag() ? std::min<uint64_t>(tw, 20) : tw);
    XUEV(*v, conf_win_left_offset, E.limv("conf_win_left_offset", l, 0, W));
    XUEV(*v, conf_win_right_offset, E.limv("conf_win_right_offset", s.u(0, tw - l), 0, W));
    uint64_t t = s.u(0, s.flag() ? std::min<uint64_t>(th, 20) : th);
    XUEV(*v, conf_win_top_offset, E.limv("conf_win_top_offset", t, 0, H));
    XUEV(*v, conf_win_bottom_offset, E.limv("conf_win_bottom_offset", s.u(0, th - t), 0, H));
  }
  XLIM(*v, bit_depth_luma_minus8, 8);
  XLIM(*v, bit_depth_chroma_minus8, 8);
  XLIM(*v, log2_max_pic_order_cnt_lsb_minus4, 12);
  XF(*v, sps_sub_layer_ordering_info_present_flag);
  uint64_t prev = 0;
  for (unsigned i = v->sps_sub_layer_ordering_info_present_flag ? 0 : msl; i <= msl; i++) {
    uint64_t d = std::max<uint64_t>(prev, s.u(0, 15));
    PUEV(*v, sps_max_dec_pic_buffering_minus1, E.limv("sps_max_dec_pic_buffering_minus1", d, 0, 15));
    prev = d;
    PUE(*v, sps_max_num_reorder_pics, d);
    PUE(*v, sps_max_latency_increase_plus1, kUeMax);
  }
  E.w.add = add_cb;
  XUEV(*v, log2_min_luma_coding_block_size_minus3, min_cb);
  E.w.add = add_diff;
  XUEV(*v, log2_diff_max_min_luma_coding_block_size, diff);
  XUE(*v, log2_min_luma_transform_block_size_minus2, 3);
  XUE(*v, log2_diff_max_min_luma_transform_block_size, 3);
  XUE(*v, max_transform_hierarchy_depth_inter, 4);
  XUE(*v, max_transform_hierarchy_depth_intra, 4);
  XUV(*v, scaling_list_enabled_flag, 1, o.light ? s.chance(1, 6) : s.flag());
  if (v->scaling_list_enabled_flag) {
    XF(*v, sps_scaling_list_data_present_flag);
    if (v->sps_scaling_list_data_present_flag) v->scaling_list_data = gen_scaling_list(E);
  }
  XF(*v, amp_enabled_flag);
  XF(*v, sample_adaptive_offset_enabled_flag);
  XF(*v, pcm_enabled_flag);
  if (v->pcm_enabled_flag) {
    XU(*v, pcm_sample_bit_depth_luma_minus1, 4);
    XU(*v, pcm_sample_bit_depth_chroma_minus1, 4);
    XUE(*v, log2_min_pcm_luma_coding_block_size_minus3, 2);
    XUE(*v, log2_diff_max_min_pcm_luma_coding_block_size, 2);
    XF(*v, pcm_loop_filter_disabled_flag);
  }
  uint64_t ns = s.chance(1, 12) ? s.u(0, 64) : s.uni(0, 6);
  XUEV(*v, num_short_term_ref_pic_sets, E.limv("num_short_term_ref_pic_sets", ns, 0, 64, 80));
  for (unsigned i = 0; i < v->num_short_term_ref_pic_sets; i++)
    v->st_ref_pic_set.push_back(
        gen_st_rps(E, i, v->num_short_term_ref_pic_sets, v->st_ref_pic_set, ns < 20));
  XF(*v, long_term_ref_pics_present_flag);
  if (v->long_term_ref_pics_present_flag) {
    uint64_t n = s.chance(1, 4) ? s.u(0, 32) : s.uni(0, 4);
    XUEV(*v, num_long_term_ref_pics_sps, E.limv("num_long_term_ref_pics_sps", n, 0, 32, 50));
    for (unsigned i = 0; i < v->num_long_term_ref_pics_sps; i++) {
      PU(*v, lt_ref_pic_poc_lsb_sps, v->log2_max_pic_order_cnt_lsb_minus4 <= 12 ? v->log2_max_pic_order_cnt_lsb_minus4 + 4 : 16);
      PF(*v, used_by_curr_pic_lt_sps_flag);
    }
  }
  XF(*v, sps_temporal_mvp_enabled_flag);
  XF(*v, strong_intra_smoothing_enabled_flag);
  XUV(*v, vui_parameters_present_flag, 1, o.light ? s.chance(1, 4) : s.flag());
  if (v->vui_parameters_present_flag) v->vui_parameters = gen_vui(E, msl);
  XF(*v, sps_extension_present_flag);
  if (v->sps_extension_present_flag) {
    XF(*v, sps_range_extension_flag);
    XF(*v, sps_multilayer_extension_flag);
    XF(*v, sps_3d_extension_flag);
    XF(*v, sps_scc_extension_flag);
    XUV(*v, sps_extension_4bits, 4, s.chance(1, 4) ? s.uni(1, 15) : 0);
  }
  if (v->sps_range_extension_flag) v->sps_range_extension = gen_sps_range(E);
  if (v->sps_multilayer_extension_flag) v->sps_multilayer_extension = gen_sps_ml(E);
  if (v->sps_3d_extension_flag) v->sps_3d_extension = gen_sps_3d(E);
  if (v->sps_scc_extension_flag)
    v->sps_scc_extension = gen_sps_scc(E, v->chroma_format_idc,
                                       std::min<uint32_t>(8, v->bit_depth_luma_minus8),
                                       std::min<uint32_t>(8, v->bit_depth_chroma_minus8));
  E.mandatory();
  v->sps_extension_data_flag = gen_ext_data(E, v->sps_extension_4bits != 0);
  E.w.trailing();
  return v;
}

// grid of a generated SPS, from the standard's equations (integer arithmetic)
struct Grid {
  uint64_t min_cb, ctb, w_mincb, h_mincb, w_ctb, h_ctb;
  explicit Grid(const Sps& v) {
    min_cb = 1ull << (v.log2_min_luma_coding_block_size_minus3 + 3);
    ctb = min_cb << v.log2_diff_max_min_luma_coding_block_size;
    w_mincb = (v.pic_width_in_luma_samples + min_cb - 1) / min_cb;
    h_mincb = (v.pic_height_in_luma_samples + min_cb - 1) / min_cb;
    w_ctb = (v.pic_width_in_luma_samples + ctb - 1) / ctb;
    h_ctb = (v.pic_height_in_luma_samples + ctb - 1) / ctb;
  }
  uint64_t ctbs() const { return w_ctb * h_ctb; }
};

// ----------------------------------------------------------- PPS extensions
inline std::unique_ptr<PpsMl> gen_pps_ml(Enc& E) {
  Src& s = E.s;
  auto r = make_zero<PpsMl>();
  XF(*r, poc_reset_info_present_flag);
  XF(*r, pps_infer_scaling_list_flag);
  if (r->pps_infer_scaling_list_flag) XUV(*r, pps_scaling_list_ref_layer_id, 6, s.u(0, 62));
  XUEV(*r, num_ref_loc_offsets, s.chance(1, 6) ? s.u(0, 62) : s.uni(0, 4));
  for (unsigned i = 0; i < r->num_ref_loc_offsets; i++) {
    PUV(*r, ref_loc_offset_layer_id, 6, s.u(0, 62));
    PF(*r, scaled_ref_layer_offset_present_flag);
    if (r->scaled_ref_layer_offset_present_flag.back()) {
      PSE(*r, scaled_ref_layer_left_offset, -16384, 16383);
      PSE(*r, scaled_ref_layer_top_offset, -16384, 16383);
      PSE(*r, scaled_ref_layer_right_offset, -16384, 16383);
      PSE(*r, scaled_ref_layer_bottom_offset, -16384, 16383);
    }
    PF(*r, ref_region_offset_present_flag);
    if (r->ref_region_offset_present_flag.back()) {
      PSE(*r, ref_region_left_offset, -16384, 16383);
      PSE(*r, ref_region_top_offset, -16384, 16383);
      PSE(*r, ref_region_right_offset, -16384, 16383);
      PSE(*r, ref_region_bottom_offset, -16384, 16383);
    }
    PF(*r, resample_phase_set_present_flag);
    if (r->resample_phase_set_present_flag.back()) {
      PUE(*r, phase_hor_luma, 31);
      PUE(*r, phase_ver_luma, 31);
      PUE(*r, phase_hor_chroma_plus8, 63);
      PUE(*r, phase_ver_chroma_plus8, 63);
    }
  }
  XUV(*r, colour_mapping_enabled_flag, 1, 0);
  return r;
}
inline std::unique_ptr<PpsScc> gen_pps_scc(Enc& E) {
  Src& s = E.s;
  auto r = make_zero<PpsScc>();
  XF(*r, pps_curr_pic_ref_enabled_flag);
  XF(*r, residual_adaptive_colour_transform_enabled_flag);
  if (r->residual_adaptive_colour_transform_enabled_flag) {
    XF(*r, pps_slice_act_qp_offsets_present_flag);
    XSE(*r, pps_act_y_qp_offset_plus5, -7, 17);
    XSE(*r, pps_act_cb_qp_offset_plus5, -7, 17);
    XSE(*r, pps_act_cr_qp_offset_plus3, -9, 15);
  }
  XF(*r, pps_palette_predictor_initializer_present_flag);
  if (r->pps_palette_predictor_initializer_present_flag) {
    XUEV(*r, pps_num_palette_predictor_initializer, s.chance(1, 5) ? s.u(0, 192) : s.uni(0, 5));
    if (r->pps_num_palette_predictor_initializer > 0) {
      XF(*r, monochrome_palette_flag);
      XUE(*r, luma_bit_depth_entry_minus8, 8);
      if (!r->monochrome_palette_flag) XUE(*r, chroma_bit_depth_entry_minus8, 8);
      for (unsigned c = 0; c < (r->monochrome_palette_flag ? 1u : 3u); c++) {
        unsigned depth = 8 + (c == 0 ? r->luma_bit_depth_entry_minus8 : r->chroma_bit_depth_entry_minus8);
        r->pps_palette_predictor_initializers.emplace_back();
        for (unsigned i = 0; i < r->pps_num_palette_predictor_initializer; i++) {
          uint64_t v = s.u(0, BITMAX(depth));
          E.w.u(depth, v);
          r->pps_palette_predictor_initializers.back().push_back((uint32_t)v);
        }
        E.pr(r.get(), "pps_palette_predictor_initializers");
      }
    }
  }
  return r;
}

// ---------------------------------------------------------------------- PPS
struct PpsOpt {
  int id = -1;
  const Sps* sps = nullptr;  // tie tiles, QP range and id to this SPS
  bool light = false;
  int sps_id = -1;  // without an SPS
};
inline std::shared_ptr<Pps> gen_pps(Enc& E, PpsOpt o = PpsOpt()) {
  Src& s = E.s;
  std::shared_ptr<Pps> v(make_zero<Pps>());
  XUEV(*v, pps_pic_parameter_set_id, o.id >= 0 ? (uint64_t)o.id : s.u(0, 63));
  XUEV(*v, pps_seq_parameter_set_id, o.sps ? (uint64_t)o.sps->sps_seq_parameter_set_id
                                                 : o.sps_id >= 0 ? (uint64_t)o.sps_id : s.u(0, 15));
  XF(*v, dependent_slice_segments_enabled_flag);
  XF(*v, output_flag_present_flag);
  XUV(*v, num_extra_slice_header_bits, 3, s.flag() ? s.u(0, 7) : 0);
  XF(*v, sign_data_hiding_enabled_flag);
  XF(*v, cabac_init_present_flag);
  XUE(*v, num_ref_idx_l0_default_active_minus1, 14);
  XUE(*v, num_ref_idx_l1_default_active_minus1, 14);
  int qpbd = o.sps ? 6 * (int)o.sps->bit_depth_luma_minus8 : 48;
  XSE(*v, init_qp_minus26, -(26 + qpbd), 25);
  XF(*v, constrained_intra_pred_flag);
  XF(*v, transform_skip_enabled_flag);
  XF(*v, cu_qp_delta_enabled_flag);
  if (v->cu_qp_delta_enabled_flag) XUE(*v, diff_cu_qp_delta_depth, 3);
  XSE(*v, pps_cb_qp_offset, -12, 12);
  XSE(*v, pps_cr_qp_offset, -12, 12);
  XF(*v, pps_slice_chroma_qp_offsets_present_flag);
  XF(*v, weighted_pred_flag);
  XF(*v, weighted_bipred_flag);
  XF(*v, transquant_bypass_enabled_flag);
  uint64_t maxc = 21, maxr = 23;
  if (o.sps) {
    Grid g(*o.sps);
    maxc = std::min<uint64_t>(maxc, g.w_ctb - 1);
    maxr = std::min<uint64_t>(maxr, g.h_ctb - 1);
  }
  XUV(*v, tiles_enabled_flag, 1, maxc + maxr > 0 ? s.flag() : 0);
  XF(*v, entropy_coding_sync_enabled_flag);
  if (v->tiles_enabled_flag) {
    XUEV(*v, num_tile_columns_minus1, s.u(maxr == 0 ? 1 : 0, maxc));
    XUEV(*v, num_tile_rows_minus1, s.u(v->num_tile_columns_minus1 == 0 ? 1 : 0, maxr));
    XF(*v, uniform_spacing_flag);
    if (!v->uniform_spacing_flag) {
      for (unsigned i = 0; i < v->num_tile_columns_minus1; i++) PUE(*v, column_width_minus1, 1054);
      for (unsigned i = 0; i < v->num_tile_rows_minus1; i++) PUE(*v, row_height_minus1, 1054);
    }
    XF(*v, loop_filter_across_tiles_enabled_flag);
  }
  XF(*v, pps_loop_filter_across_slices_enabled_flag);
  XF(*v, deblocking_filter_control_present_flag);
  if (v->deblocking_filter_control_present_flag) {
    XF(*v, deblocking_filter_override_enabled_flag);
    XF(*v, pps_deblocking_filter_disabled_flag);
    if (!v->pps_deblocking_filter_disabled_flag) {
      XSE(*v, pps_beta_offset_div2, -6, 6);
      XSE(*v, pps_tc_offset_div2, -6, 6);
    }
  }
  XUV(*v, pps_scaling_list_data_present_flag, 1, s.chance(1, o.light ? 8 : 3));
  if (v->pps_scaling_list_data_present_flag) v->scaling_list_data = gen_scaling_list(E);
  XUV(*v, lists_modification_present_flag, 1, s.chance(1, 4));
  XUE(*v, log2_parallel_merge_level_minus2, 4);
  XF(*v, slice_segment_header_extension_present_flag);
  XF(*v, pps_extension_present_flag);
  if (v->pps_extension_present_flag) {
    XUV(*v, pps_range_extension_flag, 1, 0);  // not implemented by the library
    XF(*v, pps_multilayer_extension_flag);
    XUV(*v, pps_3d_extension_flag, 1, 0);  // not implemented by the library
    XF(*v, pps_scc_extension_flag);
    XUV(*v, pps_extension_4bits, 4, s.chance(1, 4) ? s.uni(1, 15) : 0);
  }
  if (v->pps_multilayer_extension_flag) v->pps_multilayer_extension = gen_pps_ml(E);
  if (v->pps_scc_extension_flag) v->pps_scc_extension = gen_pps_scc(E);
  E.mandatory();
  v->pps_extension_data_flag = gen_ext_data(E, v->pps_extension_4bits != 0);
  E.w.trailing();
  return v;
}

// -------------------------------------------------------- pred weight table
inline std::unique_ptr<Pwt> gen_pwt(Enc& E, unsigned chroma_array_type, unsigned n0, bool b, unsigned n1,
                                    bool high_precision = false) {
  Src& s = E.s;
  auto r = make_zero<Pwt>();
  r->ChromaArrayType = chroma_array_type;
  r->num_ref_idx_l0_active_minus1 = n0;
  r->b_slice = b;
  r->num_ref_idx_l1_active_minus1 = n1;
  int64_t half = high_precision ? 32768 : 128;
  XUE(*r, luma_log2_weight_denom, 7);
  if (chroma_array_type != 0)
    XSE(*r, delta_chroma_log2_weight_denom, -(int64_t)r->luma_log2_weight_denom,
        7 - (int64_t)r->luma_log2_weight_denom);
#define LIST(L, n)                                                       \
  for (unsigned i = 0; i <= (n); i++) PF(*r, luma_weight_##L##_flag);    \
  if (chroma_array_type != 0)                                            \
    for (unsigned i = 0; i <= (n); i++) PF(*r, chroma_weight_##L##_flag); \
  for (unsigned i = 0; i <= (n); i++) {                                  \
    if (r->luma_weight_##L##_flag[i]) {                                  \
      PSE(*r, delta_luma_weight_##L, -128, 127);                         \
      PSE(*r, luma_offset_##L, -half, half - 1);                         \
    }                                                                    \
    if (chroma_array_type != 0 && r->chroma_weight_##L##_flag[i]) {      \
      r->delta_chroma_weight_##L.emplace_back();                         \
      r->delta_chroma_offset_##L.emplace_back();                         \
      for (int j = 0; j < 2; j++) {                                      \
        int64_t a = s.s(-128, 127), o = s.s(-4 * half, 4 * half - 1);    \
        E.w.se(a);                                                       \
        E.w.se(o);                                                       \
        r->delta_chroma_weight_##L.back().push_back((int32_t)a);         \
        r->delta_chroma_offset_##L.back().push_back((int32_t)o);         \
      }                                                                  \
      E.pr(r.get(), "delta_chroma_weight_" #L);                          \
      E.pr(r.get(), "delta_chroma_offset_" #L);                          \
    }                                                                    \
  }
  LIST(l0, n0)
  if (b) {
    LIST(l1, n1)
  }
#undef LIST
  return r;
}

// -------------------------------------------------------------------- slice
inline bool is_irap_range(unsigned t) { return t >= 16 && t <= 23; }
inline bool is_idr(unsigned t) { return t == 19 || t == 20; }

// Can a slice referring to this pair be encoded within the supported syntax?
inline std::unique_ptr<SliceHdr> gen_slice_header(Enc& E, unsigned nal_type, const Sps& sps, const Pps& pps,
                                                  int want_first = -1) {
  Src& s = E.s;
  auto h = make_zero<SliceHdr>();
  Grid g(sps);
  h->nal_unit_type = nal_type;
  h->collocated_from_l0_flag = 1;  // inferred
  unsigned first = want_first >= 0 ? (unsigned)want_first : (unsigned)!s.chance(1, 2);
  if (g.ctbs() <= 1) first = 1;
  XUV(*h, first_slice_segment_in_pic_flag, 1, first);
  if (is_irap_range(nal_type)) XF(*h, no_output_of_prior_pics_flag);
  XUEV(*h, slice_pic_parameter_set_id, pps.pps_pic_parameter_set_id);
  if (!h->first_slice_segment_in_pic_flag) {
    h->dependent_slice_segments_enabled_flag = pps.dependent_slice_segments_enabled_flag;
    if (pps.dependent_slice_segments_enabled_flag) XF(*h, dependent_slice_segment_flag);
    XUV(*h, slice_segment_address, ceil_log2(g.ctbs()), s.u(1, g.ctbs() - 1));
  }
  if (!h->dependent_slice_segment_flag) {
    h->num_extra_slice_header_bits = pps.num_extra_slice_header_bits;
    for (unsigned i = 0; i < pps.num_extra_slice_header_bits; i++) PF(*h, slice_reserved_flag);
    // ref_pic_lists_modification() is not implemented: only I slices then
    unsigned type = pps.lists_modification_present_flag ? 2 : (unsigned)s.uni(0, 2);
    XUEV(*h, slice_type, type);
    h->output_flag_present_flag = pps.output_flag_present_flag;
    if (pps.output_flag_present_flag) XF(*h, pic_output_flag);
    h->separate_colour_plane_flag = sps.separate_colour_plane_flag;
    if (sps.separate_colour_plane_flag) XUV(*h, colour_plane_id, 2, s.uni(0, 2));
    h->ChromaArrayType = sps.separate_colour_plane_flag ? 0 : sps.chroma_format_idc;
    unsigned lsb_len = sps.log2_max_pic_order_cnt_lsb_minus4 + 4;
    if (!is_idr(nal_type)) {
      h->log2_max_pic_order_cnt_lsb_minus4 = sps.log2_max_pic_order_cnt_lsb_minus4;
      XU(*h, slice_pic_order_cnt_lsb, lsb_len);
      XUV(*h, short_term_ref_pic_set_sps_flag, 1, sps.num_short_term_ref_pic_sets > 0 ? s.flag() : 0);
      h->num_short_term_ref_pic_sets = sps.num_short_term_ref_pic_sets;
      if (!h->short_term_ref_pic_set_sps_flag)
        h->st_ref_pic_set = gen_st_rps(E, sps.num_short_term_ref_pic_sets, sps.num_short_term_ref_pic_sets,
                                       sps.st_ref_pic_set);
      else if (sps.num_short_term_ref_pic_sets > 1)
        XUV(*h, short_term_ref_pic_set_idx, ceil_log2(sps.num_short_term_ref_pic_sets),
            s.uni(0, sps.num_short_term_ref_pic_sets - 1));
      h->long_term_ref_pics_present_flag = sps.long_term_ref_pics_present_flag;
      if (sps.long_term_ref_pics_present_flag) {
        h->num_long_term_ref_pics_sps = sps.num_long_term_ref_pics_sps;
        if (sps.num_long_term_ref_pics_sps > 0)
          XUE(*h, num_long_term_sps, std::min<uint64_t>(s.chance(1, 10) ? 16 : 8, sps.num_long_term_ref_pics_sps));
        XUE(*h, num_long_term_pics, s.chance(1, 10) ? 16 - h->num_long_term_sps : 8);
        for (unsigned i = 0; i < h->num_long_term_sps + h->num_long_term_pics; i++) {
          if (i < h->num_long_term_sps) {
            if (sps.num_long_term_ref_pics_sps > 1)
              PUV(*h, lt_idx_sps, ceil_log2(sps.num_long_term_ref_pics_sps),
                  s.uni(0, sps.num_long_term_ref_pics_sps - 1));
          } else {
            PU(*h, poc_lsb_lt, lsb_len);
            PF(*h, used_by_curr_pic_lt_flag);
          }
          PF(*h, delta_poc_msb_present_flag);
          if (h->delta_poc_msb_present_flag.back()) PUE(*h, delta_poc_msb_cycle_lt, 1u << 28);
        }
      }
      h->sps_temporal_mvp_enabled_flag = sps.sps_temporal_mvp_enabled_flag;
      if (sps.sps_temporal_mvp_enabled_flag) XF(*h, slice_temporal_mvp_enabled_flag);
    }
    h->sample_adaptive_offset_enabled_flag = sps.sample_adaptive_offset_enabled_flag;
    if (sps.sample_adaptive_offset_enabled_flag) {
      XF(*h, slice_sao_luma_flag);
      if (h->ChromaArrayType != 0) XF(*h, slice_sao_chroma_flag);
    }
    if (type != 2) {
      bool B = type == 0;
      XF(*h, num_ref_idx_active_override_flag);
      if (h->num_ref_idx_active_override_flag) {
        XUE(*h, num_ref_idx_l0_active_minus1, 14);
        if (B) XUE(*h, num_ref_idx_l1_active_minus1, 14);
      } else {
        h->num_ref_idx_l0_active_minus1 = pps.num_ref_idx_l0_default_active_minus1;
        if (B) h->num_ref_idx_l1_active_minus1 = pps.num_ref_idx_l1_default_active_minus1;
      }
      if (B) XF(*h, mvd_l1_zero_flag);
      h->cabac_init_present_flag = pps.cabac_init_present_flag;
      if (pps.cabac_init_present_flag) XF(*h, cabac_init_flag);
      if (h->slice_temporal_mvp_enabled_flag) {
        if (B) XF(*h, collocated_from_l0_flag);
        uint32_t n = h->collocated_from_l0_flag ? h->num_ref_idx_l0_active_minus1 : h->num_ref_idx_l1_active_minus1;
        if (n > 0) XUE(*h, collocated_ref_idx, n);
      }
      h->weighted_pred_flag = pps.weighted_pred_flag;
      h->weighted_bipred_flag = pps.weighted_bipred_flag;
      if ((pps.weighted_pred_flag && !B) || (pps.weighted_bipred_flag && B))
        h->pred_weight_table =
            gen_pwt(E, h->ChromaArrayType, h->num_ref_idx_l0_active_minus1, B, h->num_ref_idx_l1_active_minus1,
                    sps.sps_range_extension && sps.sps_range_extension->high_precision_offsets_enabled_flag);
      XUE(*h, five_minus_max_num_merge_cand, 4);
      if (sps.sps_scc_extension)
        h->motion_vector_resolution_control_idc = sps.sps_scc_extension->motion_vector_resolution_control_idc;
      if (h->motion_vector_resolution_control_idc == 2) XF(*h, use_integer_mv_flag);
    }
    int64_t qp = s.s(-6 * (int64_t)sps.bit_depth_luma_minus8, 51);
    if (E.wide_qp && s.flag()) qp = s.flag() ? s.s(-200, 200) : s.s(-1000000, 1000000);
    XSEV(*h, slice_qp_delta, qp - 26 - pps.init_qp_minus26);
    h->pps_slice_chroma_qp_offsets_present_flag = pps.pps_slice_chroma_qp_offsets_present_flag;
    if (pps.pps_slice_chroma_qp_offsets_present_flag) {
      XSE(*h, slice_cb_qp_offset, -12, 12);
      XSE(*h, slice_cr_qp_offset, -12, 12);
    }
    if (pps.pps_scc_extension)
      h->pps_slice_act_qp_offsets_present_flag = pps.pps_scc_extension->pps_slice_act_qp_offsets_present_flag;
    if (h->pps_slice_act_qp_offsets_present_flag) {
      XSE(*h, slice_act_y_qp_offset, -12, 12);
      XSE(*h, slice_act_cb_qp_offset, -12, 12);
      XSE(*h, slice_act_cr_qp_offset, -12, 12);
    }
    h->deblocking_filter_override_enabled_flag = pps.deblocking_filter_override_enabled_flag;
    if (pps.deblocking_filter_override_enabled_flag) XF(*h, deblocking_filter_override_flag);
    h->slice_deblocking_filter_disabled_flag = pps.pps_deblocking_filter_disabled_flag;  // inferred
    if (h->deblocking_filter_override_flag) {
      XF(*h, slice_deblocking_filter_disabled_flag);
      if (!h->slice_deblocking_filter_disabled_flag) {
        XSE(*h, slice_beta_offset_div2, -6, 6);
        XSE(*h, slice_tc_offset_div2, -6, 6);
      }
    }
    h->pps_loop_filter_across_slices_enabled_flag = pps.pps_loop_filter_across_slices_enabled_flag;
    if (pps.pps_loop_filter_across_slices_enabled_flag &&
        (h->slice_sao_luma_flag || h->slice_sao_chroma_flag || !h->slice_deblocking_filter_disabled_flag))
      XF(*h, slice_loop_filter_across_slices_enabled_flag);
  }
  h->tiles_enabled_flag = pps.tiles_enabled_flag;
  h->entropy_coding_sync_enabled_flag = pps.entropy_coding_sync_enabled_flag;
  if (pps.tiles_enabled_flag || pps.entropy_coding_sync_enabled_flag) {
    uint64_t cols = pps.num_tile_columns_minus1 + 1, rows = pps.num_tile_rows_minus1 + 1;
    uint64_t hi = !pps.tiles_enabled_flag ? g.h_ctb - 1
                  : !pps.entropy_coding_sync_enabled_flag ? cols * rows - 1
                                                          : cols * g.h_ctb - 1;
    uint64_t n = s.u(0, std::min<uint64_t>(hi, s.chance(1, 20) ? 3000 : s.chance(1, 4) ? 60 : 4));
    XUEV(*h, num_entry_point_offsets, E.limv("num_entry_point_offsets", n, 0, hi, hi + 5));
    if (h->num_entry_point_offsets > 0) {
      XUEV(*h, offset_len_minus1, E.lim("offset_len_minus1", 0, 31));
      unsigned len = std::min<uint32_t>(31, h->offset_len_minus1) + 1;
      for (unsigned i = 0; i < h->num_entry_point_offsets; i++)
        PU(*h, entry_point_offset_minus1, len);
    }
  }
  h->slice_segment_header_extension_present_flag = pps.slice_segment_header_extension_present_flag;
  if (pps.slice_segment_header_extension_present_flag) {
    XUEV(*h, slice_segment_header_extension_length, s.chance(1, 8) ? s.u(0, 256) : s.uni(0, 3));
    for (unsigned i = 0; i < h->slice_segment_header_extension_length; i++)
      PU(*h, slice_segment_header_extension_data_byte, 8);
  }
  E.mandatory();
  return h;
}
// slice header + alignment + opaque slice data
inline std::unique_ptr<SliceLayer> gen_slice(Enc& E, unsigned nal_type, const Sps& sps, const Pps& pps,
                                             int want_first = -1) {
  auto l = make_zero<SliceLayer>();
  l->nal_unit_type = nal_type;
  l->slice_segment_header = gen_slice_header(E, nal_type, sps, pps, want_first);
  E.w.trailing();  // byte_alignment() has the same bit pattern
  unsigned n = (unsigned)E.s.u(0, 24);
  unsigned kind = (unsigned)E.s.uni(0, 2);
  for (unsigned i = 0; i < n; i++)
    E.w.u(8, kind == 0 ? 0x55 : kind == 1 ? E.s.uni(0, 3) : E.s.uni(0, 255));
  if (n) E.w.u(8, 0x80);
  return l;
}

inline std::unique_ptr<Aud> gen_aud(Enc& E) {
  auto a = make_zero<Aud>();
  XUV(*a, pic_type, 3, E.s.uni(0, 7));
  E.mandatory();
  E.w.trailing();
  return a;
}

// ---------------------------------------------------------------------- SEI
// Generate the payload bits of one supported type; returns the state.
template <class P>
unsigned sei_bytes(Enc& E, P& p, unsigned n) {
  Src& s = E.s;
  if (!E.bulk) {
    for (unsigned i = 0; i < n; i++) PUV(p, payload, 8, s.uni(0, 255));
    return n;
  }
  n = (unsigned)s.u(0, E.bulk);
  uint64_t st = s.uni(0, kU32Max);
  unsigned mask = s.chance(1, 3) ? 3 : 255;
  for (unsigned i = 0; i < n; i++) PUV(p, payload, 8, pbt::splitmix(st) & mask);
  return n;
}
inline std::unique_ptr<H265SeiPayloadParser::H265SeiPayloadState> gen_sei_payload(Enc& E, unsigned type) {
  Src& s = E.s;
  switch (type) {
    case 4: {
      auto p = std::make_unique<H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XUV(*p, itu_t_t35_country_code, 8, s.flag() ? 0xff : s.uni(0, 255));
      if (p->itu_t_t35_country_code == 0xff) XU(*p, itu_t_t35_country_code_extension_byte, 8);
      unsigned n = (unsigned)(s.chance(1, 10) ? s.u(0, s.chance(1, 30) ? 20000 : 700) : s.uni(0, 20));
      sei_bytes(E, *p, n);
      return p;
    }
    case 5: {
      auto p = std::make_unique<H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XU(*p, uuid_iso_iec_11578_1, 64);
      XU(*p, uuid_iso_iec_11578_2, 64);
      unsigned n = (unsigned)(s.chance(1, 10) ? s.u(0, s.chance(1, 30) ? 20000 : 700) : s.uni(0, 20));
      sei_bytes(E, *p, n);
      return p;
    }
    case 165: {
      auto p = std::make_unique<H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XUV(*p, alpha_channel_cancel_flag, 1, s.chance(1, 5));
      if (!p->alpha_channel_cancel_flag) {
        XU(*p, alpha_channel_use_idc, 3);
        XU(*p, alpha_channel_bit_depth_minus8, 3);
        unsigned n = p->alpha_channel_bit_depth_minus8 + 9;
        XU(*p, alpha_transparent_value, n);
        XU(*p, alpha_opaque_value, n);
        XF(*p, alpha_channel_incr_flag);
        XF(*p, alpha_channel_clip_flag);
        if (p->alpha_channel_clip_flag) XF(*p, alpha_channel_clip_type_flag);
      }
      return p;
    }
    case 137: {
      auto p = std::make_unique<H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      for (int c = 0; c < 3; c++) {
        XU(*p, display_primaries_x[c], 16);
        XU(*p, display_primaries_y[c], 16);
      }
      XU(*p, white_point_x, 16);
      XU(*p, white_point_y, 16);
      XU(*p, max_display_mastering_luminance, 32);
      XU(*p, min_display_mastering_luminance, 32);
      return p;
    }
    case 144: {
      auto p = std::make_unique<H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XU(*p, max_content_light_level, 16);
      XU(*p, max_pic_average_light_level, 16);
      return p;
    }
    case 141: {
      auto p = std::make_unique<H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XUE(*p, knee_function_id, kUeMax);
      XUV(*p, knee_function_cancel_flag, 1, s.chance(1, 5));
      if (!p->knee_function_cancel_flag) {
        XF(*p, knee_function_persistence_flag);
        XU(*p, input_d_range, 32);
        XU(*p, input_disp_luminance, 32);
        XU(*p, output_d_range, 32);
        XU(*p, output_disp_luminance, 32);
        XUEV(*p, num_knee_points_minus1, s.chance(1, 6) ? s.u(0, 998) : s.uni(0, 6));
        for (unsigned i = 0; i <= p->num_knee_points_minus1; i++) {
          PU(*p, input_knee_point, 10);
          PU(*p, output_knee_point, 10);
        }
      }
      return p;
    }
    case 142: {
      auto p = std::make_unique<H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XUE(*p, colour_remap_id, kUeMax);
      XUV(*p, colour_remap_cancel_flag, 1, s.chance(1, 5));
      if (!p->colour_remap_cancel_flag) {
        XF(*p, colour_remap_persistence_flag);
        XF(*p, colour_remap_video_signal_info_present_flag);
        if (p->colour_remap_video_signal_info_present_flag) {
          XF(*p, colour_remap_full_range_flag);
          XU(*p, colour_remap_primaries, 8);
          XU(*p, colour_remap_transfer_function, 8);
          XU(*p, colour_remap_matrix_coefficients, 8);
        }
        XUV(*p, colour_remap_input_bit_depth, 8, s.uni(8, 16));
        XUV(*p, colour_remap_output_bit_depth, 8, s.uni(8, 16));
        // lut entries are coded in whole bytes
        unsigned in = (p->colour_remap_input_bit_depth + 7u) / 8 * 8;
        unsigned out = (p->colour_remap_output_bit_depth + 7u) / 8 * 8;
        p->pre_lut_coded_value.resize(3);
        p->pre_lut_target_value.resize(3);
        for (int c = 0; c < 3; c++) {
          XUV(*p, pre_lut_num_val_minus1[c], 8, s.flag() ? 0 : s.chance(1, 6) ? s.u(0, 32) : s.uni(0, 4));
          if (p->pre_lut_num_val_minus1[c] > 0)
            for (unsigned i = 0; i <= p->pre_lut_num_val_minus1[c]; i++) {
              PU(*p, pre_lut_coded_value[c], in);
              PU(*p, pre_lut_target_value[c], out);
            }
        }
        XF(*p, colour_remap_matrix_present_flag);
        if (p->colour_remap_matrix_present_flag) {
          XU(*p, log2_matrix_denom, 4);
          p->colour_remap_coeffs.resize(3);
          for (int c = 0; c < 3; c++)
            for (int i = 0; i < 3; i++) PSE(*p, colour_remap_coeffs[c], -32768, 32767);
        }
        p->post_lut_coded_value.resize(3);
        p->post_lut_target_value.resize(3);
        for (int c = 0; c < 3; c++) {
          XUV(*p, post_lut_num_val_minus1[c], 8, s.flag() ? 0 : s.chance(1, 6) ? s.u(0, 32) : s.uni(0, 4));
          if (p->post_lut_num_val_minus1[c] > 0)
            for (unsigned i = 0; i <= p->post_lut_num_val_minus1[c]; i++) {
              PU(*p, post_lut_coded_value[c], out);
              PU(*p, post_lut_target_value[c], out);
            }
        }
      }
      return p;
    }
    case 149: {
      auto p = std::make_unique<H265SeiContentColourVolumeParser::H265SeiContentColourVolumeState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XUV(*p, ccv_cancel_flag, 1, s.chance(1, 5));
      if (!p->ccv_cancel_flag) {
        XF(*p, ccv_persistence_flag);
        XF(*p, ccv_primaries_present_flag);
        XF(*p, ccv_min_luminance_value_present_flag);
        XF(*p, ccv_max_luminance_value_present_flag);
        XF(*p, ccv_avg_luminance_value_present_flag);
        XU(*p, ccv_reserved_zero_2bits, 2);
        if (p->ccv_primaries_present_flag)
          for (int c = 0; c < 3; c++) {
            XUV(*p, ccv_primaries_x[c], 32, s.uni(0, kU32Max));
            XUV(*p, ccv_primaries_y[c], 32, s.uni(0, kU32Max));
          }
        if (p->ccv_min_luminance_value_present_flag) XU(*p, ccv_min_luminance_value, 32);
        if (p->ccv_max_luminance_value_present_flag) XU(*p, ccv_max_luminance_value, 32);
        if (p->ccv_avg_luminance_value_present_flag) XU(*p, ccv_avg_luminance_value, 32);
      }
      return p;
    }
    case 147: {
      auto p = std::make_unique<H265SeiAlternativeTransferCharacteristicsParser::H265SeiAlternativeTransferCharacteristicsState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XU(*p, preferred_transfer_characteristics, 8);
      return p;
    }
    case 148: {
      auto p = std::make_unique<H265SeiAmbientViewingEnvironmentParser::H265SeiAmbientViewingEnvironmentState>();
      ZeroV z;
      Visitor<ZeroV>::visit(z, *p);
      XU(*p, ambient_illuminance, 32);
      XU(*p, ambient_light_x, 16);
      XU(*p, ambient_light_y, 16);
      return p;
    }
    default: {
      auto p = std::make_unique<H265SeiUnknownParser::H265SeiUnknownState>();
      unsigned n = (unsigned)(s.chance(1, 8) ? s.u(0, 800) : s.uni(0, 20));
      n = sei_bytes(E, *p, n);
      if (n == 0) return nullptr;
      return p;
    }
  }
}
inline const std::vector<unsigned>& sei_supported() {
  static const std::vector<unsigned> v = {4, 5, 137, 141, 142, 144, 147, 148, 149, 165};
  return v;
}
inline void sei_varlen(BitW& w, uint64_t v) {
  while (v >= 255) {
    w.u(8, 255);
    v -= 255;
  }
  w.u(8, v);
}
// size 0 payloads are valid only for types whose syntax is empty; the library
// keeps no payload for them.
inline std::unique_ptr<SeiMsg> gen_sei(Enc& E, int type = -1) {
  Src& s = E.s;
  auto m = std::make_unique<SeiMsg>();
  unsigned t;
  if (type >= 0) {
    t = (unsigned)type;
  } else if (s.chance(3, 4)) {
    t = sei_supported()[s.uni(0, sei_supported().size() - 1)];
  } else {
    t = (unsigned)(s.flag() ? s.uni(0, 255) : s.u(0, s.chance(1, 10) ? 100000 : 2000));
  }
  Enc P(s);
  P.track = E.track;
  P.bulk = E.bulk;
  m->payload_type = static_cast<SeiType>(t);
  m->payload_state = gen_sei_payload(P, t);
  for (auto& e : P.present) E.present.insert(e);
  size_t need = P.w.bits();
  if (!P.w.aligned()) P.w.trailing();
  // reserved payload extension data, only where the payload length does not
  // decide the number of payload bytes
  bool sized = t == 4 || t == 5 || std::find(sei_supported().begin(), sei_supported().end(), t) == sei_supported().end();
  if (!sized && s.chance(1, 6)) {
    unsigned n = (unsigned)s.u(1, 300);
    for (unsigned i = 0; i < n; i++) P.w.u(8, i + 1 == n ? 0x80 : 0x5a);
  }
  m->payload_size = (uint32_t)P.w.bytes().size();
  sei_varlen(E.w, t);
  sei_varlen(E.w, m->payload_size);
  size_t head = E.w.bits();
  for (uint8_t b : P.w.bytes()) E.w.u(8, b);
  E.mand = head + need;
  E.pr(m.get(), "payload_type");
  E.pr(m.get(), "payload_size");
  E.w.trailing();
  return m;
}

}  // namespace h265nal
