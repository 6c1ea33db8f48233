// Runs arbitrary byte programs against every entry point of the library and
// checks what no input may cause: memory out of proportion to the input,
// memory left behind, excessive CPU time. Crashes, undefined behaviour and
// failed assertions end the process (sanitizers, assert).
#pragma once
#include <sanitizer/allocator_interface.h>
#include <time.h>

#include "api_impl.h"

namespace h265nal {

// ------------------------------------------------------------------- memory
struct MemMeter {
  bool on = false;
  int64_t live = 0, peak = 0;
  uint64_t single = 0;
};
inline MemMeter& mem_meter() {
  static thread_local MemMeter m;
  return m;
}
inline void mem_on_malloc(const volatile void*, size_t n) {
  MemMeter& m = mem_meter();
  if (!m.on) return;
  m.live += (int64_t)n;
  if (m.live > m.peak) m.peak = m.live;
  if (n > m.single) m.single = n;
}
inline void mem_on_free(const volatile void* p) {
  MemMeter& m = mem_meter();
  if (!m.on || !p) return;
  m.live -= (int64_t)__sanitizer_get_allocated_size(p);
}
inline void mem_install() {
  static bool done = false;
  if (!done) __sanitizer_install_malloc_and_free_hooks(mem_on_malloc, mem_on_free);
  done = true;
}
inline double cpu_now() {
  struct timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// A stream that swallows output and counts it.
struct NullFile {
  FILE* f;
  NullFile() {
    cookie_io_functions_t io = {nullptr, [](void*, const char*, size_t n) -> ssize_t { return (ssize_t)n; }, nullptr, nullptr};
    f = fopencookie(nullptr, "w", io);
  }
};
inline FILE* null_file() {
  static NullFile n;
  return n.f;
}

struct ExerciseLimits {
  double mem_base = 256 << 10, mem_per_byte = 2048;  // live memory of one delivery
  double single_base = 128 << 10, single_per_byte = 512;                  // one allocation
  double cpu_base = 3.0, cpu_per_byte = 50e-6;
};
struct ExerciseStats {
  unsigned deliveries = 0, objects = 0, qps = 0, payloads = 0;
  double mem_ratio = 0, single_ratio = 0, cpu = 0;
};

struct Exerciser {
  static const unsigned kOps = 40;
  ExerciseLimits lim;
  ExerciseStats st;
  std::string why;  // not empty: a limit was broken

  template <class T>
  void dump(const T& t, unsigned opt) {
    ParsingOptions o;
    o.add_offset = opt & 1;
    o.add_length = opt & 2;
    o.add_parsed_length = opt & 4;
    o.add_checksum = opt & 8;
    o.add_resolution = opt & 16;
    dump_obj(t, null_file(), opt & 32 ? (int)(opt >> 6 & 3) : -1, o, 0);
    fflush(null_file());
    st.objects++;
  }
  template <class P>
  void dump_ptr(const P& p, unsigned opt) {
    if (p) dump(*p, opt);
  }

  static void profile_name(const H265ProfileInfoParser::ProfileInfoState& q) {
    std::string name;
    profileTypeToString(q.GetProfileType(), name);
  }

  void payload(const std::unique_ptr<H265NalUnitPayloadParser::NalUnitPayloadState>& p, unsigned type, const ParsingOptions& o) {
    if (!p) return;
    p->fdump(null_file(), 0, type, o);
    fflush(null_file());
    st.objects++;
  }

  // one delivery
  void deliver(H265BitstreamParserState& s, unsigned op, unsigned p0, unsigned p1, const uint8_t* src, size_t n) {
    // an exact copy, so that reads past the end are seen
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n ? n : 1]);
    if (n) memcpy(copy.get(), src, n);
    const uint8_t* d = copy.get();
    ParsingOptions o;
    o.add_offset = p0 & 1;
    o.add_length = p0 & 2;
    o.add_parsed_length = p0 & 4;
    o.add_checksum = p0 & 8;
    o.add_resolution = p0 & 16;
    unsigned dopt = p0;
    st.deliveries++;
    switch (op % kOps) {
      case 0:
      case 1:
      case 2: {
        auto b = H265BitstreamParser::ParseBitstream(d, n, &s, o);
        if (b) {
          for (auto& u : b->nal_units) dump_ptr(u, dopt);
          b->fdump(null_file(), p1 & 1 ? 0 : -1);
          st.payloads += (unsigned)b->nal_units.size();
        }
        break;
      }
      case 3:
      case 4: {
        auto b = H265BitstreamParser::ParseBitstreamNALULength(d, n, p1 % 16 == 15 ? (size_t)p0 << 56 : p1 % 16, &s, o);
        if (b) {
          for (auto& u : b->nal_units) dump_ptr(u, dopt);
          st.payloads += (unsigned)b->nal_units.size();
        }
        break;
      }
      case 5: dump_ptr(H265NalUnitParser::ParseNalUnit(d, n, &s, o), dopt); break;
      case 6: dump_ptr(H265NalUnitParser::ParseNalUnitUnescaped(d, n, &s, o), dopt); break;
      case 7:
      case 8: dump_ptr(H265ConfigurationBoxParser::ParseConfigurationBox(d, n, &s, o), dopt); break;
      case 9:
      case 10:
      case 11: {
#ifdef RTP_DEFINE
        auto r = H265RtpParser::ParseRtp(d, n, &s);
        dump_ptr(r, dopt);
        if (r) {
          auto q = H265Utils::GetSliceQpY(r, &s);
          if (q) st.qps++;
        }
#endif
        break;
      }
      case 12: st.qps += (unsigned)H265Utils::GetSliceQpY(d, n, &s).size(); break;
      case 13: {
        BitBuffer b(d, n);
        dump_ptr(H265NalUnitParser::ParseNalUnit(&b, &s, o), dopt);
        break;
      }
      case 14: {
        auto v = UnescapeRbsp(d, n);
        H265BitstreamParser::FindNaluIndices(d, n);
        H265BitstreamParser::FindNaluIndicesExplicitFraming(d, n);
        break;
      }
      case 15: {
#ifdef RTP_DEFINE
        switch (p1 % 3) {
          case 0: dump_ptr(H265RtpApParser::ParseRtpAp(d, n, &s), dopt); break;
          case 1: dump_ptr(H265RtpFuParser::ParseRtpFu(d, n, &s), dopt); break;
          default: dump_ptr(H265RtpSingleParser::ParseRtpSingle(d, n, &s), dopt);
        }
#endif
        break;
      }
      // single structures from unescaped bytes
      case 16: { BitBuffer b(d, n); dump_ptr(H265VpsParser::ParseVps(&b), dopt); break; }
      case 17: { BitBuffer b(d, n); dump_ptr(H265SpsParser::ParseSps(&b), dopt); break; }
      case 18: { BitBuffer b(d, n); dump_ptr(H265PpsParser::ParsePps(&b), dopt); break; }
      case 19: { BitBuffer b(d, n); dump_ptr(H265SliceSegmentLayerParser::ParseSliceSegmentLayer(&b, p1 % 24, &s), dopt); break; }
      case 20: { BitBuffer b(d, n); dump_ptr(H265AudParser::ParseAud(&b), dopt); break; }
      case 21: { BitBuffer b(d, n); dump_ptr(H265SeiMessageParser::ParseSei(&b), dopt); break; }
      case 22: { BitBuffer b(d, n); dump_ptr(H265ProfileTierLevelParser::ParseProfileTierLevel(&b, p1 & 8, (p1 & 7) % 7), dopt); break; }
      case 23: { BitBuffer b(d, n); dump_ptr(H265VuiParametersParser::ParseVuiParameters(&b, p1 % 7), dopt); break; }
      case 24: {
        BitBuffer b(d, n);
        auto h = H265HrdParametersParser::ParseHrdParameters(&b, 1, p1 % 7, nullptr);
        dump_ptr(h, dopt);
        dump_ptr(H265HrdParametersParser::ParseHrdParameters(&b, 0, p1 % 7, h.get()), dopt);
        dump_ptr(H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(&b, p1 % 7, 1 + p1 % 32, p1 >> 7), dopt);
        break;
      }
      case 25: { BitBuffer b(d, n); dump_ptr(H265ScalingListDataParser::ParseScalingListData(&b), dopt); break; }
      case 26: {
        // a chain of sets, each possibly predicted from the one before
        BitBuffer b(d, n);
        std::vector<std::unique_ptr<StRps>> sets;
        unsigned num = p1 % 65;
        for (unsigned i = 0; i <= num; i++) {
          auto r = H265StRefPicSetParser::ParseStRefPicSet(&b, i, num, &sets, p0 % 17);
          if (!r) break;
          dump(*r, dopt);
          sets.push_back(std::move(r));
        }
        break;
      }
      case 27: {
        BitBuffer b(d, n);
        switch (p1 % 6) {
          case 0: dump_ptr(H265SpsRangeExtensionParser::ParseSpsRangeExtension(&b), dopt); break;
          case 1: dump_ptr(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(&b), dopt); break;
          case 2: dump_ptr(H265Sps3dExtensionParser::ParseSps3dExtension(&b), dopt); break;
          case 3: dump_ptr(H265SpsSccExtensionParser::ParseSpsSccExtension(&b, p0 % 4, (p1 / 6) % 9, (p0 / 4) % 9), dopt); break;
          case 4: dump_ptr(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(&b), dopt); break;
          default: dump_ptr(H265PpsSccExtensionParser::ParsePpsSccExtension(&b), dopt);
        }
        break;
      }
      case 28: {
        BitBuffer b(d, n);
        dump_ptr(H265PredWeightTableParser::ParsePredWeightTable(&b, p0 % 4, p1 % 15, p0 >> 7, (p1 >> 4) % 15), dopt);
        break;
      }
      // the same from escaped bytes
      case 29:
        switch (p1 % 6) {
          case 0: dump_ptr(H265VpsParser::ParseVps(d, n), dopt); break;
          case 1: dump_ptr(H265SpsParser::ParseSps(d, n), dopt); break;
          case 2: dump_ptr(H265PpsParser::ParsePps(d, n), dopt); break;
          case 3: dump_ptr(H265SliceSegmentLayerParser::ParseSliceSegmentLayer(d, n, (p1 / 6) % 24, &s), dopt); break;
          case 4: dump_ptr(H265SeiMessageParser::ParseSei(d, n), dopt); break;
          default: dump_ptr(H265AudParser::ParseAud(d, n), dopt);
        }
        break;
      case 30: {
        // bit buffer operations driven by the bytes
        BitBuffer b(d + n / 2, n - n / 2);
        for (size_t i = 0; i < n / 2 && i < 64; i++) {
          uint32_t v = 0;
          int32_t w = 0;
          uint64_t q = 0;
          uint8_t e = 0;
          uint16_t h = 0;
          switch (d[i] % 12) {
            case 0: b.ReadBits(1 + d[i] / 4, v); break;
            case 1: b.PeekBits(1 + d[i] / 4, v); break;
            case 2: b.ConsumeBits(d[i]); break;
            case 3: b.ConsumeBytes(d[i] / 16); break;
            case 4: b.ReadExponentialGolomb(v); break;
            case 5: b.ReadSignedExponentialGolomb(w); break;
            case 6: b.Seek(d[i], d[i] % 9); break;
            case 7: b.ReadUInt8(e); break;
            case 8: b.ReadUInt16(h); break;
            case 9: b.ReadUInt32(v); break;
            case 10: b.ReadNonSymmetric(2 + (uint32_t)d[i] * 0x007fffffu, v); break;
            default: b.ReadBits(1 + d[i] / 2, q);
          }
        }
        break;
      }
      // more structures from escaped bytes
      case 31:
      case 32:
        switch (p1 % 12) {
          case 0: dump_ptr(H265ProfileTierLevelParser::ParseProfileTierLevel(d, n, p0 & 8, (p0 & 7) % 7), dopt); break;
          case 1: {
            auto q = H265ProfileInfoParser::ParseProfileInfo(d, n);
            dump_ptr(q, dopt);
            if (q) profile_name(*q);
            break;
          }
          case 2: dump_ptr(H265VuiParametersParser::ParseVuiParameters(d, n, p0 % 7), dopt); break;
          case 3: dump_ptr(H265HrdParametersParser::ParseHrdParameters(d, n, p0 & 8, (p0 & 7) % 7), dopt); break;
          case 4: dump_ptr(H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(d, n, p0 % 7, 1 + p0 % 32, p0 >> 7), dopt); break;
          case 5: dump_ptr(H265ScalingListDataParser::ParseScalingListData(d, n), dopt); break;
          case 6: dump_ptr(H265PredWeightTableParser::ParsePredWeightTable(d, n, p0 % 4, p0 % 15, p0 >> 7, (p0 >> 3) % 15), dopt); break;
          case 7: {
            std::vector<std::unique_ptr<StRps>> none;
            dump_ptr(H265StRefPicSetParser::ParseStRefPicSet(d, n, 0, 1 + p0 % 64, &none, p0 % 17), dopt);
            break;
          }
          case 8: dump_ptr(H265NalUnitHeaderParser::ParseNalUnitHeader(d, n), dopt); break;
          case 9: {
            NalUnitType t;
            if (H265NalUnitHeaderParser::GetNalUnitType(d, n, t)) {
              (void)NalUnitTypeToString(t);
            }
            break;
          }
          case 10: payload(H265NalUnitPayloadParser::ParseNalUnitPayload(d, n, p0 % 64, &s), p0 % 64, o); break;
          default: dump_ptr(H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(d, n, p0 % 64, &s), dopt);
        }
        break;
      case 33:
        switch (p1 % 6) {
          case 0: dump_ptr(H265SpsRangeExtensionParser::ParseSpsRangeExtension(d, n), dopt); break;
          case 1: dump_ptr(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(d, n), dopt); break;
          case 2: dump_ptr(H265Sps3dExtensionParser::ParseSps3dExtension(d, n), dopt); break;
          case 3: dump_ptr(H265SpsSccExtensionParser::ParseSpsSccExtension(d, n, p0 % 4, (p1 / 6) % 9, (p0 / 4) % 9), dopt); break;
          case 4: dump_ptr(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(d, n), dopt); break;
          default: dump_ptr(H265PpsSccExtensionParser::ParsePpsSccExtension(d, n), dopt);
        }
        break;
      // with a state of their own
      case 34: {
        auto b = p1 & 1 ? H265BitstreamParser::ParseBitstreamNALULength(d, n, p1 / 2 % 9, o) : H265BitstreamParser::ParseBitstream(d, n, o);
        if (b) {
          for (auto& u : b->nal_units) dump_ptr(u, dopt);
          b->fdump(null_file(), 0);
        }
        break;
      }
      case 35: {
        if (p1 & 1) {
          dump_ptr(H265NalUnitParser::ParseNalUnit(d, n, &s), dopt);
        } else {
          BitBuffer b(d, n);
          dump_ptr(H265NalUnitParser::ParseNalUnit(&b, &s), dopt);
        }
        break;
      }
      case 36: {
        BitBuffer b(d, n);
        switch (p1 % 4) {
          case 0: payload(H265NalUnitPayloadParser::ParseNalUnitPayload(&b, p0 % 64, &s), p0 % 64, o); break;
          case 1: dump_ptr(H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&b, p0 % 64, &s), dopt); break;
          case 2: {
            auto q = H265ProfileInfoParser::ParseProfileInfo(&b);
            dump_ptr(q, dopt);
            if (q) profile_name(*q);
            break;
          }
          default: dump_ptr(H265NalUnitHeaderParser::ParseNalUnitHeader(&b), dopt);
        }
        break;
      }
#ifdef RTP_DEFINE
      case 37: {
        BitBuffer b(d, n);
        switch (p1 % 4) {
          case 0: dump_ptr(H265RtpApParser::ParseRtpAp(&b, &s), dopt); break;
          case 1: dump_ptr(H265RtpFuParser::ParseRtpFu(&b, &s), dopt); break;
          case 2: dump_ptr(H265RtpSingleParser::ParseRtpSingle(&b, &s), dopt); break;
          default: dump_ptr(H265RtpParser::ParseRtp(&b, &s), dopt);
        }
        break;
      }
#endif
      case 38: {
        // questions about ids and types that may not exist
        for (size_t i = 0; i + 4 <= n && i < 64; i += 4) {
          uint32_t v = (uint32_t)d[i] << 24 | (uint32_t)d[i + 1] << 16 | (uint32_t)d[i + 2] << 8 | d[i + 3];
          if (p0 & 1) v &= 63;
          (void)s.GetVps(v);
          (void)s.GetSps(v);
          (void)s.GetPps(v);
          (void)NalUnitTypeToString(v);
          IsSliceSegment(v);
          IsNalUnitTypeVcl(v);
          IsNalUnitTypeNonVcl(v);
          IsNalUnitTypeUnspecified(v);
        }
        BitBuffer b(d, n);
        auto k = NaluChecksum::GetNaluChecksum(&b);
        if (k) (void)k->GetPrintableChecksum();
        BitBuffer c(d, n);
        dump_ptr(H265ConfigurationBoxParser::ParseConfigurationBox(&c, &s, o), dopt);
        break;
      }
      default: {
        // the state itself
        for (auto& p : s.vps) dump_ptr(p.second, dopt);
        for (auto& p : s.sps) dump_ptr(p.second, dopt);
        for (auto& p : s.pps) dump_ptr(p.second, dopt);
      }
    }
  }

  bool step(H265BitstreamParserState& s, unsigned op, unsigned p0, unsigned p1, const uint8_t* d, size_t n) {
    mem_install();
    null_file();
    MemMeter& m = mem_meter();
    m.on = true;
    int64_t live0 = m.live;
    m.peak = m.live;
    m.single = 0;
    double t0 = cpu_now();
    deliver(s, op, p0, p1, d, n);
    double t = cpu_now() - t0;
    m.on = false;
    double used = (double)(m.peak - live0);
    st.mem_ratio = std::max(st.mem_ratio, used / (double)(n + 64));
    st.single_ratio = std::max(st.single_ratio, (double)m.single / (double)(n + 64));
    st.cpu = std::max(st.cpu, t);
    if (used > lim.mem_base + lim.mem_per_byte * (double)n)
      why = fmt("operation %u on %zu bytes used %.0f bytes of memory", op % kOps, n, used);
    else if ((double)m.single > lim.single_base + lim.single_per_byte * (double)n)
      why = fmt("operation %u on %zu bytes allocated %llu bytes at once", op % kOps, n, (unsigned long long)m.single);
    else if (t > lim.cpu_base + lim.cpu_per_byte * (double)n)
      why = fmt("operation %u on %zu bytes used %.1f s of CPU time", op % kOps, n, t);
    return why.empty();
  }

  struct Step {
    unsigned op, p0, p1;
    Bytes d;
  };
  // everything is released at the end; memory still held then is a leak
  bool run(const std::vector<Step>& prog) {
    MemMeter& m = mem_meter();
    for (int round = 0; round < 2; round++) {
      int64_t before = m.live;
      {
        m.on = true;
        std::unique_ptr<H265BitstreamParserState> s(new H265BitstreamParserState);
        m.on = false;
        for (auto& x : prog)
          if (!step(*s, x.op, x.p0, x.p1, x.d.data(), x.d.size())) break;
        m.on = true;
        s.reset();
        m.on = false;
      }
      int64_t left = m.live - before;
      m.live = 0;
      if (!why.empty()) return false;
      if (left <= 0) return true;
      // something initialised once is no leak: it does not happen again
      if (round == 1) why = fmt("%lld bytes of memory left behind", (long long)left);
    }
    return why.empty();
  }

  static std::vector<Step> decode(const uint8_t* p, size_t n) {
    std::vector<Step> v;
    size_t i = 0;
    while (i + 5 <= n && v.size() < 12) {
      Step x;
      x.op = p[i];
      x.p0 = p[i + 1];
      x.p1 = p[i + 2];
      size_t len = p[i + 3] | (size_t)p[i + 4] << 8;
      i += 5;
      len = std::min(len, n - i);
      x.d.assign(p + i, p + i + len);
      i += len;
      v.push_back(std::move(x));
    }
    return v;
  }
  static Bytes encode(const std::vector<Step>& v) {
    Bytes o;
    for (auto& x : v) {
      size_t n = std::min<size_t>(x.d.size(), 65535);
      o.insert(o.end(), {(uint8_t)x.op, (uint8_t)x.p0, (uint8_t)x.p1, (uint8_t)n, (uint8_t)(n >> 8)});
      o.insert(o.end(), x.d.begin(), x.d.begin() + (long)n);
    }
    return o;
  }
};

}  // namespace h265nal
