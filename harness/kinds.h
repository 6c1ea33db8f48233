// Catalogue of syntax structures: one generated case of each kind carries its
// encoded bits, the expected parsed state and the ways to parse it.
#pragma once
#include "dumptree.h"
#include "gen.h"
#include "rtc_common.h"

namespace h265nal {

// ------------------------------------------------------------- text dumping
struct MemFile {
  char* buf = nullptr;
  size_t len = 0;
  FILE* f;
  MemFile() { f = open_memstream(&buf, &len); }
  ~MemFile() {
    if (f) fclose(f);
    free(buf);
  }
  std::string str() {
    fclose(f);
    f = nullptr;
    return std::string(buf, len);
  }
};
#if defined(FDUMP_DEFINE)
template <class T>
auto dump_obj(const T& t, FILE* f, int ind, const ParsingOptions& o, int)
    -> decltype(t.fdump(f, ind, o), void()) {
  t.fdump(f, ind, o);
}
template <class T>
void dump_obj(const T& t, FILE* f, int ind, const ParsingOptions&, long) {
  t.fdump(f, ind);
}
template <class T>
std::string dump_str(const T& t, int ind, const ParsingOptions& o = ParsingOptions()) {
  MemFile m;
  dump_obj(t, m.f, ind, o, 0);
  return m.str();
}
#endif

// ---------------------------------------------------------------- the kinds
enum Kind {
  K_VPS, K_SPS, K_PPS, K_SLICE, K_AUD, K_SEI, K_PTL, K_PROFILE, K_VUI, K_HRD, K_SUBHRD, K_STRPS, K_SCALING,
  K_SPSRANGE, K_SPSML, K_SPS3D, K_SPSSCC, K_PPSML, K_PPSSCC, K_PWT, K_COUNT
};
inline const char* kind_name(int k) {
  static const char* n[] = {"vps", "sps", "pps", "slice", "aud", "sei", "profile_tier_level", "profile_info", "vui",
                            "hrd", "sub_layer_hrd", "st_ref_pic_set", "scaling_list_data", "sps_range", "sps_multilayer",
                            "sps_3d", "sps_scc", "pps_multilayer", "pps_scc", "pred_weight_table"};
  return n[k];
}

struct SCase {
  int kind = 0;
  std::string params;  // parsing parameters
  std::string exp;     // canonical text of the expected state
  std::function<std::string(BitBuffer*)> bb;
  std::function<std::string(const uint8_t*, size_t)> raw;  // escaped bytes
  std::function<bool(BitBuffer*)> accepts;
  std::function<std::string(int)> dump;  // dump of the expected object
  std::function<void(FILE*, int)> dump_to;
  std::function<std::string()> content;  // canonical text of the object now
  std::function<ETree()> tree;           // its content
  std::shared_ptr<void> keep;            // expected object
  bool rbsp = false;                     // ends with trailing bits
  std::vector<std::shared_ptr<void>> ctx;
};

struct GenOpt {
  bool light = false;
};

// expr: parse expression over bit_buffer b / over (d, n)
#define CASE_(obj, BB, RAW)                                             \
  do {                                                                  \
    auto sp_ = std::shared_ptr<std::remove_reference<decltype(*obj)>::type>(std::move(obj)); \
    sc.exp = canon(*sp_);                                               \
    sc.bb = [=](BitBuffer* b) { return canon(BB); };                    \
    sc.accepts = [=](BitBuffer* b) { return (BB) != nullptr; };         \
    sc.raw = [=](const uint8_t* d, size_t n) { return canon(RAW); };    \
    DUMP_                                                               \
    sc.tree = [=]() { return etree(*sp_); };                            \
    sc.content = [=]() { return canon(*sp_); };                         \
    sc.keep = sp_;                                                      \
  } while (0)
#if defined(FDUMP_DEFINE)
#define DUMP_                                                \
  sc.dump = [=](int ind) { return dump_str(*sp_, ind); };    \
  sc.dump_to = [=](FILE* f, int ind) { dump_obj(*sp_, f, ind, ParsingOptions(), 0); };
#else
#define DUMP_
#endif

inline SCase gen_case(int kind, Enc& E, GenOpt go = GenOpt()) {
  Src& s = E.s;
  SCase sc;
  sc.kind = kind;
  switch (kind) {
    case K_VPS: {
      auto o = gen_vps(E);
      sc.rbsp = true;
      CASE_(o, H265VpsParser::ParseVps(b), H265VpsParser::ParseVps(d, n));
      break;
    }
    case K_SPS: {
      SpsOpt so;
      so.light = go.light;
      auto o = gen_sps(E, so);
      sc.rbsp = true;
      CASE_(o, H265SpsParser::ParseSps(b), H265SpsParser::ParseSps(d, n));
      break;
    }
    case K_PPS: {
      PpsOpt po;
      po.light = go.light;
      auto o = gen_pps(E, po);
      sc.rbsp = true;
      CASE_(o, H265PpsParser::ParsePps(b), H265PpsParser::ParsePps(d, n));
      break;
    }
    case K_SLICE: {
      Enc E1(s), E2(s);
      SpsOpt so;
      so.light = true;
      std::shared_ptr<Sps> sps = gen_sps(E1, so);
      PpsOpt po;
      po.sps = sps.get();
      po.light = true;
      std::shared_ptr<Pps> pps = gen_pps(E2, po);
      auto st = std::make_shared<H265BitstreamParserState>();
      st->sps[sps->sps_seq_parameter_set_id] = sps;
      st->pps[pps->pps_pic_parameter_set_id] = pps;
      // decoys under other ids must not matter
      if (s.chance(1, 3)) {
        Enc E3(s), E4(s);
        SpsOpt so2;
        so2.light = true;
        so2.id = (int)((sps->sps_seq_parameter_set_id + 1 + s.uni(0, 13)) % 16);
        std::shared_ptr<Sps> sps2 = gen_sps(E3, so2);
        PpsOpt po2;
        po2.sps = sps2.get();
        po2.light = true;
        po2.id = (int)((pps->pps_pic_parameter_set_id + 1 + s.uni(0, 61)) % 64);
        std::shared_ptr<Pps> pps2 = gen_pps(E4, po2);
        st->sps[so2.id] = sps2;
        st->pps[po2.id] = pps2;
      }
      static const std::vector<unsigned> types = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21};
      unsigned t = s.pick(types);
      auto o = gen_slice(E, t, *sps, *pps);
      sc.params = "nal_unit_type " + std::to_string(t) + "\nSPS:\n" + canon(*sps) + "PPS:\n" + canon(*pps);
      sc.ctx.push_back(sps);
      sc.ctx.push_back(pps);
      sc.rbsp = true;
      auto sts = st.get();
      sc.ctx.push_back(st);
      CASE_(o, H265SliceSegmentLayerParser::ParseSliceSegmentLayer(b, t, sts),
            H265SliceSegmentLayerParser::ParseSliceSegmentLayer(d, n, t, sts));
      break;
    }
    case K_AUD: {
      auto o = gen_aud(E);
      sc.rbsp = true;
      CASE_(o, H265AudParser::ParseAud(b), H265AudParser::ParseAud(d, n));
      break;
    }
    case K_SEI: {
      auto o = gen_sei(E);
      sc.rbsp = true;
      CASE_(o, H265SeiMessageParser::ParseSei(b), H265SeiMessageParser::ParseSei(d, n));
      break;
    }
    case K_PTL: {
      bool pres = !s.chance(1, 6);
      unsigned msl = (unsigned)s.uni(0, 6);
      auto o = gen_ptl(E, pres, msl);
      E.mandatory();
      sc.params = fmt("profilePresentFlag %d maxNumSubLayersMinus1 %u", pres, msl);
      CASE_(o, H265ProfileTierLevelParser::ParseProfileTierLevel(b, pres, msl),
            H265ProfileTierLevelParser::ParseProfileTierLevel(d, n, pres, msl));
      break;
    }
    case K_PROFILE: {
      auto o = make_zero<ProfileInfo>();
      gen_profile_info(E, *o);
      E.mandatory();
      CASE_(o, H265ProfileInfoParser::ParseProfileInfo(b), H265ProfileInfoParser::ParseProfileInfo(d, n));
      break;
    }
    case K_VUI: {
      unsigned msl = (unsigned)s.uni(0, 6);
      auto o = gen_vui(E, msl);
      E.mandatory();
      sc.params = fmt("sps_max_sub_layers_minus1 %u", msl);
      CASE_(o, H265VuiParametersParser::ParseVuiParameters(b, msl),
            H265VuiParametersParser::ParseVuiParameters(d, n, msl));
      break;
    }
    case K_HRD: {
      bool common = !s.chance(1, 3);
      unsigned msl = (unsigned)s.uni(0, 6);
      std::shared_ptr<Hrd> prev;
      if (!common && s.flag()) {
        Enc E1(s);
        prev = std::shared_ptr<Hrd>(gen_hrd(E1, true, (unsigned)s.uni(0, 2)));
        sc.ctx.push_back(prev);
      }
      auto o = gen_hrd(E, common, msl, prev.get());
      E.mandatory();
      sc.params = fmt("common %d maxNumSubLayersMinus1 %u prev %d", common, msl, prev != nullptr);
      const Hrd* pv = prev.get();
      CASE_(o, H265HrdParametersParser::ParseHrdParameters(b, common, msl, pv),
            H265HrdParametersParser::ParseHrdParameters(d, n, common, msl));
      if (pv) sc.raw = nullptr;
      break;
    }
    case K_SUBHRD: {
      unsigned id = (unsigned)s.uni(0, 6), cnt = (unsigned)s.uni(1, 32), sub = s.flag();
      auto o = gen_sub_hrd(E, id, cnt, sub);
      E.mandatory();
      sc.params = fmt("subLayerId %u CpbCnt %u sub_pic %u", id, cnt, sub);
      CASE_(o, H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(b, id, cnt, sub),
            H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(d, n, id, cnt, sub));
      break;
    }
    case K_STRPS: {
      // a chain of sets; the last one is the case, either one of the SPS's or
      // the slice header's (idx == num)
      unsigned prior = (unsigned)s.uni(0, 8);
      Enc E1(s);
      auto sets = std::make_shared<std::vector<std::unique_ptr<StRps>>>();
      for (unsigned i = 0; i < prior; i++) sets->push_back(gen_st_rps(E1, i, 64, *sets, false));
      unsigned num = s.flag() ? prior : prior + 1 + (unsigned)s.uni(0, 20);
      auto o = gen_st_rps(E, prior, num, *sets);
      E.mandatory();
      sc.params = fmt("stRpsIdx %u num_short_term_ref_pic_sets %u\n", prior, num);
      for (auto& p : *sets) sc.params += canon(*p);
      sc.ctx.push_back(sets);
      auto* pv = sets.get();
      CASE_(o, H265StRefPicSetParser::ParseStRefPicSet(b, prior, num, pv, 15),
            H265StRefPicSetParser::ParseStRefPicSet(d, n, prior, num, pv, 15));
      break;
    }
    case K_SCALING: {
      auto o = gen_scaling_list(E);
      E.mandatory();
      CASE_(o, H265ScalingListDataParser::ParseScalingListData(b), H265ScalingListDataParser::ParseScalingListData(d, n));
      break;
    }
#define SIMPLE(K, g, C, P)                 \
  case K: {                                \
    auto o = g(E);                         \
    E.mandatory();                         \
    CASE_(o, C::P(b), C::P(d, n));         \
    break;                                 \
  }
      SIMPLE(K_SPSRANGE, gen_sps_range, H265SpsRangeExtensionParser, ParseSpsRangeExtension)
      SIMPLE(K_SPSML, gen_sps_ml, H265SpsMultilayerExtensionParser, ParseSpsMultilayerExtension)
      SIMPLE(K_SPS3D, gen_sps_3d, H265Sps3dExtensionParser, ParseSps3dExtension)
      SIMPLE(K_PPSML, gen_pps_ml, H265PpsMultilayerExtensionParser, ParsePpsMultilayerExtension)
      SIMPLE(K_PPSSCC, gen_pps_scc, H265PpsSccExtensionParser, ParsePpsSccExtension)
#undef SIMPLE
    case K_SPSSCC: {
      unsigned cf = (unsigned)s.uni(0, 3), bl = (unsigned)s.uni(0, 8), bc = (unsigned)s.uni(0, 8);
      auto o = gen_sps_scc(E, cf, bl, bc);
      E.mandatory();
      sc.params = fmt("chroma_format_idc %u bit_depth_minus8 %u %u", cf, bl, bc);
      CASE_(o, H265SpsSccExtensionParser::ParseSpsSccExtension(b, cf, bl, bc),
            H265SpsSccExtensionParser::ParseSpsSccExtension(d, n, cf, bl, bc));
      break;
    }
    case K_PWT: {
      unsigned cat = (unsigned)s.uni(0, 3), n0 = (unsigned)s.uni(0, 14), n1 = (unsigned)s.uni(0, 14);
      bool bs = s.flag();
      if (!bs) n1 = 0;
      auto o = gen_pwt(E, cat, n0, bs, n1, s.chance(1, 4));
      E.mandatory();
      sc.params = fmt("ChromaArrayType %u n0 %u b %d n1 %u", cat, n0, bs, n1);
      CASE_(o, H265PredWeightTableParser::ParsePredWeightTable(b, cat, n0, bs, n1),
            H265PredWeightTableParser::ParsePredWeightTable(d, n, cat, n0, bs, n1));
      break;
    }
  }
  return sc;
}

// exact-size heap copy, so that reads past the end are detected
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size() ? b.size() : 1]), n(b.size()) {
    if (n) memcpy(p.get(), b.data(), n);
  }
};

inline uint64_t bit_pos(BitBuffer& b) {
  size_t by, bi;
  b.GetCurrentOffset(&by, &bi);
  return (uint64_t)by * 8 + bi;
}

}  // namespace h265nal
