// Parse operations that return canonical text; compiled once against the full
// library (namespace h265nal) and once against the small-footprint library
// (namespace h265nal_small).
#pragma once
#include "h265_utils.h"
#include "kinds.h"

namespace h265nal {

inline std::string state_text(const H265BitstreamParserState& st) {
  std::string o;
  for (auto& p : st.vps) o += fmt("vps %u ", p.first) + canon(*p.second);
  for (auto& p : st.sps) o += fmt("sps %u ", p.first) + canon(*p.second);
  for (auto& p : st.pps) o += fmt("pps %u ", p.first) + canon(*p.second);
  return o;
}

struct ApiSession {
  H265BitstreamParserState st;
};

// op: what to parse; p: parameters; the text of the result
inline std::string api_run(ApiSession& se, int op, const uint8_t* d, size_t n, const std::vector<uint64_t>& p) {
  auto par = [&](size_t i) -> uint64_t { return i < p.size() ? p[i] : 0; };
  ParsingOptions po;
  po.add_offset = par(0) & 1;
  po.add_length = par(0) & 2;
  po.add_parsed_length = par(0) & 4;
  po.add_checksum = par(0) & 8;
  po.add_resolution = par(0) & 16;
  std::string o;
  switch (op) {
    case 0: {
      auto b = H265BitstreamParser::ParseBitstream(d, n, &se.st, po);
      if (!b) return "null\n";
      for (auto& u : b->nal_units) o += canon(*u);
      return o + state_text(se.st);
    }
    case 1: {
      auto b = H265BitstreamParser::ParseBitstreamNALULength(d, n, (size_t)par(1), &se.st, po);
      if (!b) return "null\n";
      for (auto& u : b->nal_units) o += canon(*u);
      return o + state_text(se.st);
    }
    case 2: {
      auto u = par(1) ? H265NalUnitParser::ParseNalUnit(d, n, &se.st, po) : H265NalUnitParser::ParseNalUnitUnescaped(d, n, &se.st, po);
      return (u ? canon(*u) : "null\n") + state_text(se.st);
    }
    case 3: {
      auto b = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, &se.st, po);
      return (b ? canon(*b) : "null\n") + state_text(se.st);
    }
    case 4: {
      for (int32_t q : H265Utils::GetSliceQpY(d, n, &se.st)) o += fmt("%d ", q);
      return o + "\n" + state_text(se.st);
    }
    case 5: {
      for (auto& e : H265BitstreamParser::FindNaluIndices(d, n))
        o += fmt("(%zu,%zu,%zu) ", e.start_offset, e.payload_start_offset, e.payload_size);
      return o;
    }
    default: break;
  }
  // single structures, from unescaped bytes
  BitBuffer bb(d, n);
  BitBuffer* b = &bb;
  switch (op) {
    case 10: o = canon(H265VpsParser::ParseVps(b)); break;
    case 11: o = canon(H265SpsParser::ParseSps(b)); break;
    case 12: o = canon(H265PpsParser::ParsePps(b)); break;
    case 13: o = canon(H265AudParser::ParseAud(b)); break;
    case 14: o = canon(H265SeiMessageParser::ParseSei(b)); break;
    case 15: o = canon(H265ProfileTierLevelParser::ParseProfileTierLevel(b, par(0) & 1, (unsigned)par(1) % 7)); break;
    case 16: o = canon(H265VuiParametersParser::ParseVuiParameters(b, (unsigned)par(1) % 7)); break;
    case 17: o = canon(H265HrdParametersParser::ParseHrdParameters(b, par(0) & 1, (unsigned)par(1) % 7, nullptr)); break;
    case 18: o = canon(H265ScalingListDataParser::ParseScalingListData(b)); break;
    case 19: o = canon(H265SpsRangeExtensionParser::ParseSpsRangeExtension(b)); break;
    case 20: o = canon(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(b)); break;
    case 21: o = canon(H265Sps3dExtensionParser::ParseSps3dExtension(b)); break;
    case 22:
      o = canon(H265SpsSccExtensionParser::ParseSpsSccExtension(b, (unsigned)par(0) % 4, (unsigned)par(1) % 9, (unsigned)par(2) % 9));
      break;
    case 23: o = canon(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(b)); break;
    case 24: o = canon(H265PpsSccExtensionParser::ParsePpsSccExtension(b)); break;
    case 25:
      o = canon(H265PredWeightTableParser::ParsePredWeightTable(b, (unsigned)par(0) % 4, (unsigned)par(1) % 15, par(2) & 1, (unsigned)par(3) % 15));
      break;
    case 26: {
      std::vector<std::unique_ptr<StRps>> none;
      o = canon(H265StRefPicSetParser::ParseStRefPicSet(b, 0, 1 + (unsigned)par(0) % 3, &none, 15));
      break;
    }
    default: break;
  }
  return o + fmt("at %llu\n", (unsigned long long)bit_pos(bb));
}

}  // namespace h265nal
