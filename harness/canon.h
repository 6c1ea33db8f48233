// Visitors over the parsed-state structs: canonical text and zeroing.
#pragma once
#include <array>
#include <type_traits>

#include "core.h"
#include "fields.h"
#include "h265_bitstream_parser.h"
#include "h265_configuration_box_parser.h"
#include "h265_nal_unit_parser.h"
#ifdef RTP_DEFINE
#include "h265_rtp_parser.h"
#endif

namespace h265nal {
// The namespace is renamed with -Dh265nal=... in the reduced build, so
// everything that touches library types lives inside it.

struct CanonOpt {
  bool meta = true;       // offset, length, parsed_length, checksum
  bool checksum = true;
};

template <class V>
struct Visitor {
#define X(C, S, L)                       \
  static void visit(V& v, C::S& s) {     \
    L(FIELD_)                            \
  }
#define FIELD_(f) v.field(#f, s.f);
  ALL_STATES(X)
#ifdef RTP_DEFINE
  ALL_RTP_STATES(X)
#endif
#undef FIELD_
#undef X
};

// ------------------------------------------------------------------- zero
struct ZeroV {
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type field(
      const char*, T& x) {
    x = static_cast<T>(0);
  }
  template <class T>
  void field(const char*, std::vector<T>& x) {
    x.clear();
  }
  template <class T, size_t N>
  void field(const char* n, std::array<T, N>& x) {
    for (auto& e : x) field(n, e);
  }
  template <class T, size_t N>
  void field(const char* n, T (&x)[N]) {
    for (auto& e : x) field(n, e);
  }
  template <class T>
  void field(const char*, std::unique_ptr<T>& x) {
    x.reset();
  }
  template <class T>
  void field(const char*, std::shared_ptr<T>& x) {
    x.reset();
  }
};
template <class S>
std::unique_ptr<S> make_zero() {
  auto p = std::make_unique<S>();
  ZeroV z;
  Visitor<ZeroV>::visit(z, *p);
  return p;
}

// ------------------------------------------------------------------ canon
struct CanonV {
  std::string out;
  CanonOpt opt;

  void num(uint64_t x) {
    char b[24];
    int i = 24;
    do {
      b[--i] = (char)('0' + x % 10);
      x /= 10;
    } while (x);
    out.append(b + i, (size_t)(24 - i));
  }
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type val(T x) {
    out += ' ';
    int64_t s = (int64_t)x;
    if (std::is_signed<T>::value && s < 0) {
      out += '-';
      num((uint64_t)(-s));
    } else {
      num((uint64_t)x);
    }
  }
  void begin(const char* n) {
    out += n;
    out += " {\n";
  }
  void end() { out += "}\n"; }

  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type field(
      const char* n, const T& x) {
    out += n;
    out += ':';
    val(x);
    out += '\n';
  }
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value>::type field(const char* n,
                                                                    const std::vector<T>& x) {
    out += n;
    out += "[]:";
    for (T e : x) val(e);
    out += '\n';
  }
  template <class T, size_t N>
  void field(const char* n, const std::array<T, N>& x) {
    out += n;
    out += "[]:";
    for (T e : x) val(e);
    out += '\n';
  }
  template <class T, size_t N>
  void field(const char* n, const T (&x)[N]) {
    out += n;
    out += "[]:";
    for (T e : x) val(e);
    out += '\n';
  }
  template <class T>
  typename std::enable_if<!std::is_arithmetic<T>::value>::type field(const char* n,
                                                                     const std::vector<T>& x) {
    begin(n);
    for (const T& e : x) field("-", e);
    end();
  }
  template <class T>
  void ptr(const char* n, T* x) {
    if (x == nullptr) {
      out += n;
      out += ": null\n";
      return;
    }
    begin(n);
    put(*x);
    end();
  }
  template <class T>
  void field(const char* n, const std::unique_ptr<T>& x) {
    ptr(n, x.get());
  }
  template <class T>
  void field(const char* n, const std::shared_ptr<T>& x) {
    ptr(n, x.get());
  }
  template <class S>
  void put(S& s) {
    Visitor<CanonV>::visit(*this, s);
  }
  void put(H265SeiMessageParser::SeiMessageState& s) {
    field("payload_type", (int)s.payload_type);
    field("payload_size", s.payload_size);
    field("payload_state", s.payload_state);
  }
  void put(H265SeiPayloadParser::H265SeiPayloadState& s) {
#define SEI(P)                                                   \
  if (auto* q = dynamic_cast<H265Sei##P##Parser::H265Sei##P##State*>(&s)) { \
    begin(#P);                                                   \
    put(*q);                                                     \
    end();                                                       \
    return;                                                      \
  }
    SEI(UserDataRegisteredItuTT35)
    SEI(UserDataUnregistered)
    SEI(AlphaChannelInfo)
    SEI(MasteringDisplayColourVolume)
    SEI(ContentLightLevelInfo)
    SEI(KneeFunctionInfo)
    SEI(ColourRemappingInfo)
    SEI(ContentColourVolume)
    SEI(AlternativeTransferCharacteristics)
    SEI(AmbientViewingEnvironment)
    SEI(Unknown)
#undef SEI
    out += "unknown-sei-state\n";
  }
  void put(NaluChecksum& s) {
    out += "checksum[]:";
    for (int i = 0; i < s.GetLength(); i++) val((unsigned)(uint8_t)s.GetChecksum()[i]);
    out += '\n';
  }
  void put(H265NalUnitParser::NalUnitState& s) {
    if (opt.meta) {
      field("offset", s.offset);
      field("length", s.length);
      field("parsed_length", s.parsed_length);
    }
    if (opt.checksum) field("checksum", s.checksum);
    field("nal_unit_header", s.nal_unit_header);
    field("nal_unit_payload", s.nal_unit_payload);
  }
  void put(H265BitstreamParser::BitstreamState& s) { field("nal_units", s.nal_units); }
  void put(H265BitstreamParserState& s) {
    begin("vps_map");
    for (auto& e : s.vps) {
      field("id", e.first);
      field("v", e.second);
    }
    end();
    begin("sps_map");
    for (auto& e : s.sps) {
      field("id", e.first);
      field("v", e.second);
    }
    end();
    begin("pps_map");
    for (auto& e : s.pps) {
      field("id", e.first);
      field("v", e.second);
    }
    end();
  }
};

template <class S>
std::string canon(const S& s, CanonOpt o = CanonOpt()) {
  CanonV v;
  v.opt = o;
  v.put(const_cast<S&>(s));
  return std::move(v.out);
}
template <class S>
std::string canon(const std::unique_ptr<S>& s, CanonOpt o = CanonOpt()) {
  return s ? canon(*s, o) : std::string("null\n");
}
template <class S>
std::string canon(const std::shared_ptr<S>& s, CanonOpt o = CanonOpt()) {
  return s ? canon(*s, o) : std::string("null\n");
}

}  // namespace h265nal
