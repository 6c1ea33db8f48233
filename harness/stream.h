// Generators of NAL units, streams, configuration records and RTP packets,
// with a reference model of the parameter-set state.
#pragma once
#include "kinds.h"

namespace h265nal {

inline CanonOpt no_meta() {
  CanonOpt o;
  o.meta = false;
  o.checksum = false;
  return o;
}

// Draws a structure twice from the same choices: the second time one validated
// element is pushed to (mode AT_*) or past (OVER, UNDER) its limit.
struct TwoPass {
  bool ok = false;
  std::string key;
  uint64_t value = 0;
  std::unique_ptr<Src> src;
  std::unique_ptr<Enc> E;
};
template <class G>
TwoPass two_pass(Src& s, Enc::Mode mode, G gen, bool skip_at = false) {
  TwoPass t;
  size_t r0 = s.record().size();
  Enc E1(s);
  gen(E1);
  std::vector<uint64_t> rec(s.record().begin() + (long)r0, s.record().end());
  // elements in order of their first occurrence, each with its count
  std::vector<std::pair<std::string, unsigned>> keys;
  for (auto& l : E1.lims) {
    if ((mode == Enc::UNDER || mode == Enc::AT_LO) && !l.has_under) continue;
    if (skip_at && l.key.compare(0, 9, "conf_win_") == 0) continue;
    bool found = false;
    for (auto& k : keys)
      if (k.first == l.key) {
        k.second++;
        found = true;
      }
    if (!found) keys.push_back(std::make_pair(l.key, 1u));
  }
  if (keys.empty()) return t;
  auto& k = keys[s.uni(0, keys.size() - 1)];
  t.src.reset(new Src(rec));
  t.src->mute();
  t.E.reset(new Enc(*t.src));
  t.E->mode = mode;
  t.E->force_key = k.first;
  t.E->force_occ = (long)s.uni(0, k.second - 1);
  t.E->extra = s.chance(1, 2) ? 0 : s.u(0, kU32Max);
  static const std::vector<unsigned> wraps = {8, 16, 8, 16, 24, 31, 7, 30};
  if (s.chance(1, 3)) {
    t.E->wrap = s.pick(wraps);
    t.E->extra = s.chance(2, 3) ? s.uni(0, 3) : s.u(0, kU32Max);
  }
  gen(*t.E);
  t.key = k.first;
  t.ok = t.E->forced;
  t.value = t.E->forced_value;
  return t;
}

// ---------------------------------------------------------------- NAL units
struct GUnit {
  unsigned type = 0, layer = 0, tid = 1, fbit = 0;
  Bytes rbsp;  // two header bytes and the unescaped payload
  Bytes ebsp;  // the bytes in the stream
  std::shared_ptr<NalUnit> exp;
  std::string text;      // canonical text of the expected unit (without metadata)
  bool parsed = false;   // a payload is expected
  bool wild = false;     // the expected result is not modelled
  bool absent = false;   // too short for a header: no unit at all
  size_t mand = 16;      // bits up to the last mandatory element
  bool has_qp = false;
  int64_t qp = 0;
  const char* what = "";
  std::vector<std::shared_ptr<void>> keep;
  // how a parameter set was drawn, to draw it again with a small difference
  int kind = -1;
  std::vector<uint64_t> choices;
  int id = -1, sps_id = -1;
  bool light = true;
  std::shared_ptr<Sps> for_sps;
  // whether the unit, received again, is expected to give the same result
  std::function<bool(const ParserState&)> again;
  bool is_set() const { return type >= 32 && type <= 34; }
};

inline void finish_unit(GUnit& u, const BitW& w) {
  const Bytes& b = w.bytes();
  u.rbsp.clear();
  u.rbsp.push_back((uint8_t)(u.fbit << 7 | u.type << 1 | u.layer >> 5));
  u.rbsp.push_back((uint8_t)((u.layer & 31) << 3 | u.tid));
  u.rbsp.insert(u.rbsp.end(), b.begin(), b.end());
  u.ebsp = pbt::escape_rbsp(u.rbsp);
}
inline void new_expected(GUnit& u) {
  u.exp = std::make_shared<NalUnit>();
  u.exp->offset = u.exp->length = u.exp->parsed_length = 0;
  u.exp->nal_unit_header = make_zero<NalHdr>();
  u.exp->nal_unit_header->forbidden_zero_bit = u.fbit;
  u.exp->nal_unit_header->nal_unit_type = u.type;
  u.exp->nal_unit_header->nuh_layer_id = u.layer;
  u.exp->nal_unit_header->nuh_temporal_id_plus1 = u.tid;
  u.exp->nal_unit_payload = make_zero<NalPayload>();
}
inline void draw_header(Src& s, GUnit& u) {
  u.layer = s.chance(1, 5) ? (unsigned)s.uni(0, 63) : 0;
  u.tid = s.chance(1, 4) ? (unsigned)s.uni(1, 7) : 1;
  // values no encoder sends, but a damaged or newer stream can hold
  u.fbit = s.chance(1, 30);
}
inline const std::vector<unsigned>& slice_types() {
  static const std::vector<unsigned> t = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21};
  return t;
}
inline const std::vector<unsigned>& opaque_types() {
  static const std::vector<unsigned> t = {10, 11, 12, 13, 14, 15, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 36, 37, 38, 41,
                                          42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63};
  return t;
}
inline bool is_slice_type(unsigned t) { return t <= 9 || (t >= 16 && t <= 21); }

struct UnitOpt {
  bool wild = false;      // arbitrary payload bytes
  bool wild_sets = false; // also in parameter set units: the model no longer applies
  bool broken = true;     // broken sets, truncated and orphan slices
  bool rtp = false;       // only types a single packet can carry (0..47)
  unsigned slice_weight = 8;
  int only = -1;          // one kind only
  bool track = false;
  bool wide_qp = false;
  std::set<std::pair<const void*, std::string>>* present = nullptr;
  // what was sent before: sent again as it was, or sets slightly changed
  std::vector<GUnit>* past = nullptr;
  unsigned max_unit = 40000;  // bytes of an opaque unit
  unsigned array_units = 0;   // one array of a record holds this many
};
enum UnitKind { U_VPS, U_SPS, U_PPS, U_SLICE, U_SEI, U_AUD, U_OPAQUE, U_HEADER, U_CUTSET, U_BADSET, U_ORPHAN, U_CUTSLICE, U_WILD };

inline unsigned small_id(Src& s, unsigned small, unsigned all) {
  return (unsigned)(s.chance(1, 10) ? s.uni(0, all) : s.uni(0, small));
}
// payload bytes that do not end in 00
inline void random_payload(Src& s, BitW& w, unsigned max) {
  unsigned n = (unsigned)s.u(0, max);
  unsigned kind = (unsigned)s.uni(0, 2);
  for (unsigned i = 0; i < n; i++) {
    uint64_t b = kind == 0 ? s.uni(0, 255) : kind == 1 ? s.uni(0, 3) : (s.flag() ? 0 : s.uni(0, 255));
    if (i + 1 == n && b == 0) b = 0x80;
    w.u(8, b);
  }
}
// long, from few choices: bytes of a seeded sequence, dense in 00..03 or not
inline Bytes long_bytes(Src& s, unsigned max) {
  unsigned n = (unsigned)s.u(0, max);
  uint64_t st = s.uni(0, kU32Max);
  static const uint8_t masks[] = {0xff, 3, 0, 1};
  unsigned kind = (unsigned)s.uni(0, 4);
  if (kind == 4) {
    // quiet bytes, and special ones here and there, mostly around multiples
    // of powers of two
    Bytes b(n, (uint8_t)s.uni(4, 255));
    if (s.flag())
      for (auto& x : b) x = (uint8_t)(4 + pbt::splitmix(st) % 252);
    static const Bytes special[] = {{0, 0, 3}, {0, 0, 3, 0, 0, 3}, {0, 0, 1}, {0, 0, 0, 1}, {0, 0, 0, 0}, {0, 0, 2}, {0, 0, 3, 1}, {0, 3}, {3}};
    // a run of zeros as long as a counter is wide, and what may follow it
    if (s.chance(1, 3)) {
      size_t z = ((size_t)1 << s.uni(6, 17)) + s.uni(0, 6) - 3, at = (size_t)s.u(0, n);
      for (size_t i = 0; i < z && at + i < n; i++) b[at + i] = 0;
      static const uint8_t next[] = {3, 1, 3, 2, 3};
      if (at + z < n) b[at + z] = next[s.uni(0, 4)];
    }
    for (unsigned k = (unsigned)s.uni(1, 20); k > 0; k--) {
      const Bytes& z = special[s.uni(0, 8)];
      uint64_t step = 1ull << s.uni(3, 16);
      uint64_t at = s.flag() ? s.u(0, n) : step * s.u(0, n / step) + s.uni(0, 8) - 4;
      for (size_t i = 0; i < z.size(); i++)
        if (at + i < n) b[at + i] = z[i];
    }
    return b;
  }
  uint8_t mask = masks[kind];
  unsigned mix = (unsigned)s.uni(0, 1);
  Bytes b;
  for (unsigned i = 0; i < n; i++) {
    uint64_t h = pbt::splitmix(st);
    uint8_t x = (uint8_t)(h & mask);
    if (mix && (h >> 40) % 3 == 0) x = (uint8_t)(h >> 16);
    b.push_back(x);
  }
  return b;
}
// keep the first n bytes, n as large as allowed with a last byte that is not 0
inline BitW cut_payload(const BitW& w, size_t n) {
  const Bytes& b = w.bytes();
  while (n > 0 && b[n - 1] == 0) n--;
  BitW o;
  for (size_t i = 0; i < n; i++) o.u(8, b[i]);
  return o;
}
// PPSs of the model whose SPS is there too
inline std::vector<unsigned> usable_pps(const ParserState& m) {
  std::vector<unsigned> o;
  for (auto& p : m.pps)
    if (m.sps.count(p.second->pps_seq_parameter_set_id)) o.push_back(p.first);
  return o;
}

inline void apply_set(const GUnit& u, ParserState& m) {
  if (u.wild) return;
  auto& p = *u.exp->nal_unit_payload;
  if (p.vps) m.vps[p.vps->vps_video_parameter_set_id] = p.vps;
  if (p.sps) m.sps[p.sps->sps_seq_parameter_set_id] = p.sps;
  if (p.pps) m.pps[p.pps->pps_pic_parameter_set_id] = p.pps;
}
// Draws the next unit and applies it to the model.
inline GUnit gen_unit(Src& s, ParserState& m, const UnitOpt& o = UnitOpt()) {
  const GUnit* like = nullptr;
  std::unique_ptr<Src> varied;
  if (o.past && !o.past->empty() && s.chance(1, 6)) {
    const GUnit& p = s.flag() ? o.past->back() : s.pick(*o.past);
    bool fits = (o.only < 0 || o.only == p.kind) && !(o.rtp && p.type > 47);
    if (fits && p.choices.size() > 0 && s.chance(2, 3)) {
      // the same set but for one or two of its choices
      std::vector<uint64_t> rec = p.choices;
      for (unsigned k = (unsigned)s.uni(1, 2); k > 0; k--) {
        // towards the end, more of the set stays as it was
        size_t i = s.flag() ? rec.size() - 1 - s.uni(0, std::min<size_t>(rec.size() - 1, 20)) : s.uni(0, rec.size() - 1);
        rec[i] = s.flag() ? rec[i] ^ 1 : s.u(0, kU32Max);
      }
      varied.reset(new Src(rec));
      varied->mute();
      like = &p;
    } else if (fits && p.again && p.again(m)) {
      apply_set(p, m);
      return p;
    }
  }
  GUnit u;
  draw_header(s, u);
  std::vector<unsigned> usable = usable_pps(m);
  std::vector<int> menu;
  auto add = [&](int k, unsigned n) {
    for (unsigned i = 0; i < n; i++) menu.push_back(k);
  };
  if (o.only >= 0) {
    add(o.only, 1);
  } else {
    // simplest first
    add(U_AUD, 1);
    add(U_OPAQUE, 2);
    add(U_VPS, 2);
    add(U_SPS, m.sps.empty() ? 8 : 2);
    add(U_PPS, m.sps.empty() ? 1 : usable.empty() ? 10 : 3);
    if (!usable.empty()) add(U_SLICE, o.slice_weight);
    add(U_SEI, 2);
    add(U_HEADER, 1);
    if (o.broken) {
      add(U_CUTSET, 1);
      add(U_BADSET, 1);
      add(U_ORPHAN, 1);
      if (!usable.empty()) add(U_CUTSLICE, 1);
    }
    if (o.wild) add(U_WILD, 4);
  }
  int k = menu[s.uni(0, menu.size() - 1)];
  if (k == U_CUTSLICE && usable.empty()) k = U_ORPHAN;
  if (k == U_SLICE && usable.empty()) k = U_ORPHAN;
  if (like) k = like->kind;
  u.kind = k;
  u.again = [](const ParserState&) { return true; };
  size_t rec0 = 0;
  auto begin_set = [&](int id, bool light, int sps_id, std::shared_ptr<Sps> sps) {
    u.id = like ? like->id : id;
    u.light = like ? like->light : light;
    u.sps_id = like ? like->sps_id : sps_id;
    u.for_sps = like ? like->for_sps : sps;
    rec0 = (varied ? *varied : s).record().size();
  };
  auto end_set = [&]() {
    auto& r = (varied ? *varied : s).record();
    u.choices.assign(r.begin() + (long)rec0, r.end());
  };
  Enc E(varied ? *varied : s);
  E.track = o.track;
  E.wide_qp = o.wide_qp;
  switch (k) {
    case U_VPS: {
      u.type = 32;
      u.what = "vps";
      new_expected(u);
      begin_set((int)small_id(s, 2, 15), true, -1, nullptr);
      auto v = gen_vps(E, u.id);
      end_set();
      u.exp->nal_unit_payload->vps = v;
      m.vps[v->vps_video_parameter_set_id] = v;
      break;
    }
    case U_SPS: {
      u.type = 33;
      u.what = "sps";
      new_expected(u);
      SpsOpt so;
      int id = (int)small_id(s, 2, 15);
      begin_set(id, !s.chance(1, 6), -1, nullptr);
      so.id = u.id;
      so.light = u.light;
      auto v = gen_sps(E, so);
      end_set();
      u.exp->nal_unit_payload->sps = v;
      m.sps[v->sps_seq_parameter_set_id] = v;
      break;
    }
    case U_PPS: {
      u.type = 34;
      u.what = "pps";
      new_expected(u);
      PpsOpt po;
      int id = (int)small_id(s, 3, 63), sps_id = -1;
      bool light = !s.chance(1, 6);
      std::shared_ptr<Sps> keep;
      if (!m.sps.empty() && !s.chance(1, 6)) {
        auto it = m.sps.begin();
        std::advance(it, (long)s.uni(0, m.sps.size() - 1));
        keep = it->second;
      } else {
        sps_id = (int)small_id(s, 2, 15);
      }
      begin_set(id, light, sps_id, keep);
      po.id = u.id;
      po.light = u.light;
      po.sps = u.for_sps.get();
      if (!po.sps) po.sps_id = u.sps_id;
      auto v = gen_pps(E, po);
      end_set();
      u.exp->nal_unit_payload->pps = v;
      m.pps[v->pps_pic_parameter_set_id] = v;
      break;
    }
    case U_SLICE:
    case U_CUTSLICE: {
      u.type = s.pick(slice_types());
      u.what = "slice";
      new_expected(u);
      unsigned id = usable[s.uni(0, usable.size() - 1)];
      auto pps = m.pps[id];
      auto sps = m.sps[pps->pps_seq_parameter_set_id];
      auto v = gen_slice(E, u.type, *sps, *pps);
      u.again = [pps, sps, id](const ParserState& q) {
        auto p = q.pps.find(id);
        if (p == q.pps.end() || p->second != pps) return false;
        auto r = q.sps.find(pps->pps_seq_parameter_set_id);
        return r != q.sps.end() && r->second == sps;
      };
      if (k == U_SLICE) {
        u.has_qp = true;
        u.qp = 26 + (int64_t)pps->init_qp_minus26 + v->slice_segment_header->slice_qp_delta;
        u.exp->nal_unit_payload->slice_segment_layer = std::move(v);
      } else {
        u.what = "cut slice";
        E.w = cut_payload(E.w, s.uni(0, (E.mand - 1) / 8));
      }
      break;
    }
    case U_ORPHAN: {
      // a slice whose PPS, or the SPS of its PPS, is not there
      u.type = s.pick(slice_types());
      u.what = "orphan slice";
      new_expected(u);
      Enc E1(s), E2(s);
      SpsOpt so;
      so.light = true;
      so.id = (int)small_id(s, 2, 15);
      auto sps = gen_sps(E1, so);
      PpsOpt po;
      po.light = true;
      po.sps = sps.get();
      po.id = (int)small_id(s, 3, 63);
      while (std::find(usable.begin(), usable.end(), (unsigned)po.id) != usable.end()) po.id++;
      auto pps = gen_pps(E2, po);
      gen_slice(E, u.type, *sps, *pps);
      unsigned id = (unsigned)po.id;
      u.again = [id](const ParserState& q) {
        auto p = q.pps.find(id);
        return p == q.pps.end() || !q.sps.count(p->second->pps_seq_parameter_set_id);
      };
      break;
    }
    case U_SEI: {
      u.type = (unsigned)s.uni(39, 40);
      u.what = "sei";
      new_expected(u);
      if (s.chance(1, 60)) E.bulk = o.max_unit;
      u.exp->nal_unit_payload->sei = gen_sei(E);
      break;
    }
    case U_AUD: {
      u.type = 35;
      u.what = "aud";
      new_expected(u);
      u.exp->nal_unit_payload->aud = gen_aud(E);
      break;
    }
    case U_OPAQUE: {
      u.type = s.pick(opaque_types());
      if (o.rtp && u.type > 47) u.type = 41 + u.type % 7;
      u.what = "opaque";
      new_expected(u);
      if (s.chance(1, 40)) {
        u.what = "long opaque";
        for (uint8_t b : long_bytes(s, s.chance(1, 4) ? o.max_unit : 40000)) E.w.u(8, b);
        E.w.u(8, 0x80);
      } else {
        random_payload(s, E.w, 40);
      }
      break;
    }
    case U_HEADER: {
      u.type = (unsigned)s.uni(0, o.rtp ? 47 : 63);
      u.what = "header only";
      new_expected(u);
      break;
    }
    case U_CUTSET: {
      u.what = "cut parameter set";
      u.type = (unsigned)s.uni(32, 34);
      new_expected(u);
      if (u.type == 32) {
        gen_vps(E, (int)small_id(s, 2, 15));
      } else if (u.type == 33) {
        SpsOpt so;
        so.id = (int)small_id(s, 2, 15);
        so.light = true;
        gen_sps(E, so);
      } else {
        PpsOpt po;
        po.id = (int)small_id(s, 3, 63);
        po.sps_id = (int)small_id(s, 2, 15);
        po.light = true;
        gen_pps(E, po);
      }
      size_t top = (E.mand - 1) / 8;
      E.w = cut_payload(E.w, s.flag() ? top : s.uni(0, top));
      break;
    }
    case U_BADSET: {
      u.what = "invalid parameter set";
      u.type = (unsigned)s.uni(32, 33);
      new_expected(u);
      unsigned type = u.type;
      int id = (int)small_id(s, 2, 15);
      TwoPass t = two_pass(s, Enc::OVER, [=](Enc& e) {
        if (type == 32) {
          gen_vps(e, id);
        } else {
          SpsOpt so;
          so.id = id;
          so.light = true;
          gen_sps(e, so);
        }
      });
      if (t.ok) {
        E.w = t.E->w;
        for (int i = 0; i < 12; i++) E.w.u(8, 0x91 + i * 7);
      }
      break;
    }
    case U_WILD: {
      unsigned t = (unsigned)s.uni(0, 9);
      u.type = t < 3 ? (o.wild_sets ? 32 + t : 35 + t) : t < 6 ? s.pick(slice_types()) : t < 7 ? 39 + (unsigned)s.flag() : (unsigned)s.uni(0, o.rtp ? 47 : 63);
      if (!o.wild_sets && u.type >= 32 && u.type <= 34) u.type += 3;
      u.what = "arbitrary bytes";
      u.wild = true;
      random_payload(s, E.w, 60);
      break;
    }
  }
  finish_unit(u, E.w);
  if (!u.wild) {
    auto& p = *u.exp->nal_unit_payload;
    u.parsed = p.vps || p.sps || p.pps || p.aud || p.sei || p.slice_segment_layer;
    if (u.parsed) u.mand = 16 + E.mand;
    u.text = canon(*u.exp, no_meta());
  }
  if (o.present && u.parsed) {
    o.present->insert(E.present.begin(), E.present.end());
    u.keep = E.keep;
  }
  if (like) u.what = u.type == 32 ? "vps sent again changed" : u.type == 33 ? "sps sent again changed" : "pps sent again changed";
  if (o.past) o.past->push_back(u);
  return u;
}

typedef std::vector<GUnit> Units;
// many small units: delimiters, bare headers, and what was there before again
inline void add_many(Src& s, ParserState& m, const UnitOpt& oo, unsigned max, Units* v) {
  UnitOpt o = oo;
  o.past = nullptr;
  for (unsigned n = (unsigned)s.u(1, max); n > 0; n--) {
    const GUnit* p = oo.past && !oo.past->empty() ? &(*oo.past)[s.uni(0, oo.past->size() - 1)] : nullptr;
    if (p && p->ebsp.size() < 100 && !(o.rtp && p->type > 47) && s.flag() && p->again && p->again(m)) {
      apply_set(*p, m);
      v->push_back(*p);
    } else {
      o.only = s.flag() ? U_AUD : U_HEADER;
      v->push_back(gen_unit(s, m, o));
    }
  }
}
inline Units gen_units(Src& s, ParserState& m, unsigned lo, unsigned hi, const UnitOpt& oo = UnitOpt()) {
  Units v, past;
  UnitOpt o = oo;
  if (!o.past) o.past = &past;
  unsigned n = (unsigned)s.uni(lo, hi);
  for (unsigned i = 0; i < n; i++) {
    v.push_back(gen_unit(s, m, o));
    // the same again and again
    if (hi > 1 && s.chance(1, 60)) {
      GUnit u = v.back();
      unsigned k = (unsigned)s.u(1, 40);
      for (; k > 0 && u.ebsp.size() < 400 && u.again && u.again(m); k--) {
        apply_set(u, m);
        v.push_back(u);
      }
    }
  }
  return v;
}
// a stream that starts with a usable pair of parameter sets
inline Units gen_stream(Src& s, ParserState& m, unsigned lo, unsigned hi, const UnitOpt& oo = UnitOpt()) {
  Units v, past;
  UnitOpt o = oo;
  if (!o.past) o.past = &past;
  if (!s.chance(1, 6)) {
    UnitOpt a = o;
    a.only = U_SPS;
    v.push_back(gen_unit(s, m, a));
    a.only = U_PPS;
    v.push_back(gen_unit(s, m, a));
  }
  o.max_unit = 200000;
  Units t = gen_units(s, m, lo, hi, o);
  if (s.chance(1, 120)) add_many(s, m, o, 600, &t);
  for (auto& u : t) v.push_back(std::move(u));
  return v;
}

inline void copy_state(const ParserState& a, ParserState& b) {
  b.vps = a.vps;
  b.sps = a.sps;
  b.pps = a.pps;
}

inline std::string describe(const Units& v, size_t max = 6) {
  std::string o;
  for (size_t i = 0; i < v.size(); i++) {
    if (i == max) {
      o += fmt("... %zu units", v.size());
      break;
    }
    o += fmt("[%s type %u layer %u tid %u: ", v[i].what, v[i].type, v[i].layer, v[i].tid) + pbt::hex(v[i].ebsp, 100) + "] ";
  }
  return o;
}
template <class C>
void note_units(C& c, const Units& v) {
  for (auto& u : v) {
    c.input(u.ebsp);
    c.tag(u.what);
  }
  if (c.want_sample) {
    c.sample = describe(v);
    c.input_desc = describe(v, 40);
  }
}

// ------------------------------------------------------------------ framing
struct Framed {
  Bytes data;
  std::vector<size_t> start, off, len;  // prefix, header, length of each unit
};
inline void put_bytes(Bytes& d, const Bytes& b) { d.insert(d.end(), b.begin(), b.end()); }
// 3- and 4-byte start codes, as the standard's byte stream format
inline Framed annexb(Src& s, const Units& v) {
  Framed f;
  unsigned style = (unsigned)s.uni(0, 3);
  // now and then, units too short for a header, which yield nothing
  bool tiny = style != 3 && s.chance(1, 12);
  for (size_t i = 0; i < v.size(); i++) {
    while (tiny && s.chance(1, 3)) {
      f.data.insert(f.data.end(), {0, 0, 1});
      if (s.flag()) f.data.push_back((uint8_t)s.uni(1, 255));
    }
    if (i == 0 && style == 3)
      for (unsigned z = (unsigned)s.uni(0, 4); z > 0; z--) f.data.push_back(0);
    bool four = style == 0 ? true : style == 1 ? false : s.flag();
    // a zero byte before the start code belongs to it
    if (four) f.data.push_back(0);
    size_t st = f.data.size();
    if (st > 0 && f.data[st - 1] == 0) st--;
    f.start.push_back(st);
    f.data.push_back(0);
    f.data.push_back(0);
    f.data.push_back(1);
    f.off.push_back(f.data.size());
    f.len.push_back(v[i].ebsp.size());
    put_bytes(f.data, v[i].ebsp);
  }
  return f;
}
inline Framed length_prefixed(const Units& v, unsigned width, Src* tiny = nullptr) {
  Framed f;
  if (tiny && !tiny->chance(1, 12)) tiny = nullptr;
  for (auto& u : v) {
    while (tiny && tiny->chance(1, 3)) {
      f.data.insert(f.data.end(), width - 1, 0);
      f.data.push_back(1);
      f.data.push_back((uint8_t)tiny->uni(0, 255));
    }
    f.start.push_back(f.data.size());
    size_t n = u.ebsp.size();
    for (unsigned i = width; i-- > 0;) f.data.push_back(i >= 8 ? 0 : (uint8_t)(n >> (8 * i)));
    f.off.push_back(f.data.size());
    f.len.push_back(n);
    put_bytes(f.data, u.ebsp);
  }
  return f;
}
inline unsigned min_width(const Units& v) {
  size_t mx = 0;
  for (auto& u : v) mx = std::max(mx, u.ebsp.size());
  unsigned w = 1;
  while ((mx >> (8 * w)) != 0) w++;
  return w;
}

inline ParsingOptions gen_options(Src& s) {
  ParsingOptions o;
  o.add_offset = s.flag();
  o.add_length = s.flag();
  o.add_parsed_length = s.flag();
  o.add_checksum = s.flag();
  o.add_resolution = s.flag();
  return o;
}

// compare parsed units with the expected ones; empty = equal
template <class L>
std::string diff_units(const Units& v, const L& got) {
  if (got.size() != v.size()) return fmt("%zu units instead of %zu", got.size(), v.size());
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].wild) continue;
    if (v[i].absent) {
      if (got[i] != nullptr) return fmt("unit %zu of %zu bytes accepted", i, v[i].ebsp.size());
      continue;
    }
    if (got[i] == nullptr) return fmt("unit %zu missing", i);
    std::string t = canon(*got[i], no_meta());
    if (t != v[i].text) return fmt("unit %zu (%s, type %u) ", i, v[i].what, v[i].type) + pbt::diff_text(v[i].text, t);
  }
  return "";
}

// ------------------------------------------------------------- long streams
// Thousands of units from a small pool: what is expected of each is known, and
// the stream follows from few choices.
struct LongStream {
  Units pool;
  std::vector<uint32_t> seq;  // indices into the pool
  std::unique_ptr<ParserState> m{new ParserState};  // at the end
  const GUnit& at(size_t i) const { return pool[seq[i]]; }
  size_t size() const { return seq.size(); }
};
// counts around powers of two, where a narrow counter would wrap
inline unsigned long_count(Src& s) {
  static const unsigned near[] = {256, 512, 1024, 4096, 8192, 65536};
  unsigned k = (unsigned)s.uni(0, 7);
  if (k < 6) return near[k] + (unsigned)s.uni(0, 40);
  return (unsigned)(k == 6 ? s.uni(300, 6000) : s.uni(65536, 80000));
}
inline LongStream gen_long(Src& s, unsigned n, const std::vector<int>& kinds, bool far = false) {
  LongStream l;
  unsigned epochs = (unsigned)s.uni(1, 3);
  for (unsigned e = 0; e < epochs; e++) {
    UnitOpt o;
    o.max_unit = 300;
    std::vector<uint32_t> again;
    std::vector<uint32_t> sets;
    auto add = [&](int kind) {
      o.only = kind;
      l.pool.push_back(gen_unit(s, *l.m, o));
      l.seq.push_back((uint32_t)l.pool.size() - 1);
      return (uint32_t)l.pool.size() - 1;
    };
    if (e == 0 || s.flag()) sets.push_back(add(U_SPS));
    for (unsigned k = (unsigned)s.uni(1, 3); k > 0; k--) sets.push_back(add(U_PPS));
    if (s.flag()) sets.push_back(add(U_VPS));
    for (uint32_t i : sets) {
      // received again as it is, a set in force changes nothing
      auto& p = *l.pool[i].exp->nal_unit_payload;
      bool holds = p.vps ? l.m->vps[p.vps->vps_video_parameter_set_id] == p.vps
                         : p.sps ? l.m->sps[p.sps->sps_seq_parameter_set_id] == p.sps
                                 : l.m->pps[p.pps->pps_pic_parameter_set_id] == p.pps;
      if (holds && l.pool[i].ebsp.size() < 300) again.push_back(i);
    }
    std::vector<uint32_t> mine;
    for (unsigned k = (unsigned)s.uni(3, 9); k > 0; k--) {
      uint32_t i = add(s.pick(kinds));
      if (l.pool[i].ebsp.size() < 300) mine.push_back(i);
    }
    if (mine.empty()) mine.push_back(add(U_AUD));
    uint64_t st = s.uni(0, kU32Max);
    unsigned rare = (unsigned)s.uni(2, 40);
    size_t until = (size_t)n * (e + 1) / epochs;
    while (l.seq.size() < until) {
      uint64_t h = pbt::splitmix(st);
      bool set = !again.empty() && (h >> 32) % rare == 0;
      l.seq.push_back(set ? again[h % again.size()] : mine[h % mine.size()]);
    }
  }
  if (far) {
    // a few large units, so that the others lie beyond 2^24 bytes
    GUnit u;
    u.type = s.pick(opaque_types());
    u.what = "large opaque";
    new_expected(u);
    u.ebsp = {(uint8_t)(u.type << 1), 1};
    u.ebsp.resize((1u << 23) + (size_t)s.u(0, 300000), (uint8_t)s.uni(4, 255));
    u.rbsp = u.ebsp;
    u.text = canon(*u.exp, no_meta());
    l.pool.push_back(u);
    size_t x = (size_t)s.uni(0, l.seq.size() - 1);
    for (int k = 0; k < 2; k++) l.seq.insert(l.seq.begin() + (long)x, (uint32_t)l.pool.size() - 1);
  }
  return l;
}
inline std::vector<int> all_kinds() {
  return {U_AUD, U_OPAQUE, U_SLICE, U_SLICE, U_SEI, U_HEADER, U_CUTSET, U_BADSET, U_ORPHAN, U_CUTSLICE};
}
// width 0: start codes
inline Framed frame_long(Src& s, const LongStream& l, unsigned width, size_t from = 0, size_t to = SIZE_MAX) {
  Framed f;
  uint64_t st = s.uni(0, kU32Max);
  for (size_t i = from; i < std::min(to, l.size()); i++) {
    const Bytes& b = l.at(i).ebsp;
    f.start.push_back(f.data.size());
    if (width == 0) {
      if (pbt::splitmix(st) & 1) f.data.push_back(0);
      f.data.insert(f.data.end(), {0, 0, 1});
    }
    for (unsigned k = width; k-- > 0;) f.data.push_back(k >= 8 ? 0 : (uint8_t)(b.size() >> (8 * k)));
    f.off.push_back(f.data.size());
    f.len.push_back(b.size());
    put_bytes(f.data, b);
  }
  return f;
}
inline unsigned min_width(const LongStream& l) { return min_width(l.pool); }
// whether unit i of many is compared in full: the first and last ones, those
// around powers of two, and some of the others
inline bool looked_at(size_t i, size_t n, uint64_t& st) {
  if (i < 20 || n - i < 60) return true;
  for (unsigned k = 8; k <= 17; k++) {
    size_t p = (size_t)1 << k;
    if (i + 2 >= p && i <= p + 2) return true;
  }
  return pbt::splitmix(st) % (n > 10000 ? 60 : 10) == 0;
}
template <class L>
std::string diff_long(const LongStream& l, const L& got, uint64_t seed, size_t from = 0, size_t to = SIZE_MAX) {
  to = std::min(to, l.size());
  if (got.size() != to - from) return fmt("%zu units instead of %zu", got.size(), to - from);
  for (size_t i = from; i < to; i++) {
    const GUnit& u = l.at(i);
    auto& g = got[i - from];
    if (g == nullptr) return fmt("unit %zu missing", i);
    auto& h = g->nal_unit_header;
    if (!h || h->nal_unit_type != u.type || h->nuh_layer_id != u.layer || h->nuh_temporal_id_plus1 != u.tid)
      return fmt("header of unit %zu of %zu", i, l.size());
    if (!looked_at(i, l.size(), seed)) continue;
    std::string t = canon(*g, no_meta());
    if (t != u.text) return fmt("unit %zu of %zu (%s, type %u) ", i, l.size(), u.what, u.type) + pbt::diff_text(u.text, t);
  }
  return "";
}
template <class C>
void note_long(C& c, const LongStream& l) {
  for (auto& u : l.pool) {
    c.input(u.ebsp.size() < 100000 ? u.ebsp : Bytes(u.ebsp.begin(), u.ebsp.begin() + 10));
    c.tag(u.what);
  }
  c.input((uint64_t)l.size());
  c.tag(l.size() > 65536 ? "more than 65536 units" : l.size() > 1024 ? "more than 1024 units" : "at most 1024 units");
  if (c.want_sample) {
    c.sample = fmt("%zu units of ", l.size()) + describe(l.pool, 4);
    c.input_desc = fmt("%zu units of ", l.size()) + describe(l.pool, 40);
  }
}

// --------------------------------------------------------------------- hvcC
struct GBox {
  Bytes data;
  std::shared_ptr<ConfBox> exp;  // without the NAL units
  Units units;
  std::string text;
  size_t header_bits = 0;
  std::vector<size_t> array_at;  // first byte of each array
};
// Units appended to the arrays are parsed in order against the model.
inline GBox gen_box(Src& s, ParserState& m, const UnitOpt& uo = UnitOpt()) {
  GBox g;
  Enc E(s);
  E.track = uo.track;
  g.exp = std::shared_ptr<ConfBox>(make_zero<ConfBox>());
  ConfBox& b = *g.exp;
  XUV(b, configurationVersion, 8, 1);
  XU(b, general_profile_space, 2);
  XF(b, general_tier_flag);
  XU(b, general_profile_idc, 5);
  for (int i = 0; i < 32; i++) XUV(b, general_profile_compatibility_flags[i], 1, s.flag());
  XU(b, general_constraint_indicator_flags, 48);
  XU(b, general_level_idc, 8);
  XUV(b, reserved1, 4, 15);
  XU(b, min_spatial_segmentation_idc, 12);
  XUV(b, reserved2, 6, 63);
  XU(b, parallelismType, 2);
  XUV(b, reserved3, 6, 63);
  XU(b, chroma_format_idc, 2);
  XUV(b, reserved4, 5, 31);
  XU(b, bit_depth_luma_minus8, 3);
  XUV(b, reserved5, 5, 31);
  XU(b, bit_depth_chroma_minus8, 3);
  XU(b, avgFrameRate, 16);
  XU(b, constantFrameRate, 2);
  XU(b, numTemporalLayers, 3);
  XF(b, temporalIdNested);
  XU(b, lengthSizeMinusOne, 2);
  XUV(b, numOfArrays, 8, uo.array_units ? s.uni(1, 3) : s.chance(1, 20) ? s.u(0, 255) : s.uni(0, 4));
  unsigned big = uo.array_units ? (unsigned)s.uni(0, b.numOfArrays - 1) : 255;
  Units pool;
  g.header_bits = E.w.bits();
  bool many = b.numOfArrays > 6;
  for (unsigned j = 0; j < b.numOfArrays; j++) {
    g.array_at.push_back(E.w.bits() / 8);
    PF(b, array_completeness);
    PUV(b, reserved6, 1, 0);
    static const std::vector<unsigned> at = {32, 33, 34, 39, 40};
    PUV(b, NAL_unit_type, 6, s.chance(1, 4) ? s.uni(0, 63) : s.pick(at));
    unsigned n = (unsigned)(j == big && uo.array_units ? uo.array_units : many ? (s.chance(1, 20) ? 1 : 0) : s.chance(1, 60) ? s.u(4, 600) : s.uni(0, 3));
    PUV(b, numNalus, 16, n);
    b.nalUnitLength.emplace_back();
    b.nalUnit.emplace_back();
    bool bulk = n > 3;
    for (unsigned i = 0; i < n; i++) {
      UnitOpt o = uo;
      // mostly the kind of unit the array announces
      unsigned t = b.NAL_unit_type.back();
      if (!s.chance(1, 4)) o.only = t == 32 ? U_VPS : t == 33 ? U_SPS : t == 34 ? U_PPS : t == 39 || t == 40 ? U_SEI : -1;
      GUnit u;
      // a large array repeats a few units
      if (n > 600 && i >= 20) {
        if (pool.empty()) pool.assign(g.units.end() - 20, g.units.end());
        u = pool[(i * 2654435761u >> 16) % 20];
      } else if (s.chance(1, 25)) {
        // too short for a NAL unit header: stays in the list without a result
        u.what = "tiny";
        u.absent = true;
        unsigned len = (unsigned)s.uni(0, 1);
        for (unsigned q = 0; q < len; q++) u.ebsp.push_back((uint8_t)s.uni(0, 255));
      } else {
        if (bulk) o.only = s.flag() ? U_AUD : U_HEADER;
        u = gen_unit(s, m, o);
      }
      E.w.u(16, u.ebsp.size());
      b.nalUnitLength.back().push_back((uint32_t)u.ebsp.size());
      for (uint8_t x : u.ebsp) E.w.u(8, x);
      g.units.push_back(std::move(u));
    }
  }
  b.nalUnit.clear();
  if (uo.present) uo.present->insert(E.present.begin(), E.present.end());
  g.data = E.w.bytes();
  g.text = canon(b);
  return g;
}

// compare a parsed record with the expected one; empty = equal
inline std::string diff_box(const GBox& g, ConfBox& got) {
  std::vector<std::vector<std::unique_ptr<NalUnit>>> units = std::move(got.nalUnit);
  got.nalUnit.clear();
  std::string t = canon(got);
  if (t != g.text) {
    got.nalUnit = std::move(units);
    return "record " + pbt::diff_text(g.text, t);
  }
  std::string why;
  if (units.size() != got.numNalus.size()) why = "number of arrays with NAL units";
  std::vector<const NalUnit*> flat;
  for (size_t j = 0; j < units.size(); j++) {
    if (why.empty() && units[j].size() != got.numNalus[j]) why = fmt("array %zu holds %zu units", j, units[j].size());
    for (auto& u : units[j]) flat.push_back(u.get());
  }
  if (why.empty()) why = diff_units(g.units, flat);
  got.nalUnit = std::move(units);
  return why;
}

#ifdef RTP_DEFINE
// ---------------------------------------------------------------------- RTP
typedef H265RtpParser::RtpState Rtp;
struct GPacket {
  enum Form { SINGLE, AP, FU, OTHER } form = SINGLE;
  Bytes data;
  Units units;             // what the packet carries (FU: the fragmented unit)
  unsigned layer = 0, tid = 1, ptype = 0, fbit = 0;
  bool start = false, end = false;
  size_t frag_bytes = 0;   // FU: escaped bytes carried
  bool modelled = true;
};
inline void packet_header(GPacket& p, unsigned type) {
  p.ptype = type;
  p.data.push_back((uint8_t)(p.fbit << 7 | type << 1 | p.layer >> 5));
  p.data.push_back((uint8_t)((p.layer & 31) << 3 | p.tid));
}
inline void rtp_header_of(Src& s, GPacket& p) {
  p.layer = s.chance(1, 5) ? (unsigned)s.uni(0, 63) : 0;
  p.tid = s.chance(1, 4) ? (unsigned)s.uni(1, 7) : 1;
  // set when one of the units has it set
  p.fbit = s.chance(1, 6);
}
inline GPacket rtp_single(const GUnit& u) {
  GPacket p;
  p.form = GPacket::SINGLE;
  p.layer = u.layer;
  p.tid = u.tid;
  p.fbit = u.fbit;
  p.ptype = u.type;
  p.units.push_back(u);
  p.data = u.ebsp;
  return p;
}
inline GPacket rtp_ap(Src& s, const Units& v) {
  GPacket p;
  p.form = GPacket::AP;
  rtp_header_of(s, p);
  packet_header(p, 48);
  for (auto& u : v) {
    p.data.push_back((uint8_t)(u.ebsp.size() >> 8));
    p.data.push_back((uint8_t)u.ebsp.size());
    put_bytes(p.data, u.ebsp);
    p.units.push_back(u);
  }
  return p;
}
// one fragment: bytes [a, b) of the escaped payload of u
inline GPacket rtp_fu(const GUnit& u, size_t a, size_t b, bool start, bool end) {
  GPacket p;
  p.form = GPacket::FU;
  p.layer = u.layer;
  p.tid = u.tid;
  p.fbit = u.fbit;
  packet_header(p, 49);
  p.data.push_back((uint8_t)(start << 7 | end << 6 | u.type));
  p.data.insert(p.data.end(), u.ebsp.begin() + 2 + (long)a, u.ebsp.begin() + 2 + (long)b);
  p.start = start;
  p.end = end;
  p.frag_bytes = b - a;
  p.units.push_back(u);
  return p;
}
inline std::string hdr_text(unsigned type, unsigned layer, unsigned tid, unsigned fbit) {
  return fmt("%stype %u layer %u tid %u", fbit ? "forbidden bit set, " : "", type, layer, tid);
}
inline std::string hdr_text(const std::unique_ptr<NalHdr>& h) {
  if (!h) return "no header";
  return fmt("%stype %u layer %u tid %u", h->forbidden_zero_bit ? "forbidden bit set, " : "", h->nal_unit_type,
             h->nuh_layer_id, h->nuh_temporal_id_plus1);
}
inline std::string payload_text(const std::unique_ptr<NalPayload>& p) { return p ? canon(*p, no_meta()) : "null\n"; }

// compare a parsed packet with the expected one; empty = equal
inline std::string diff_packet(const GPacket& p, const Rtp* r) {
  if (!r) return "packet rejected";
  std::string h = hdr_text(p.ptype, p.layer, p.tid, p.fbit);
  if (hdr_text(r->nal_unit_header) != h) return "packet header " + hdr_text(r->nal_unit_header) + " instead of " + h;
  if ((r->rtp_single != nullptr) != (p.form == GPacket::SINGLE) || (r->rtp_ap != nullptr) != (p.form == GPacket::AP) ||
      (r->rtp_fu != nullptr) != (p.form == GPacket::FU))
    return "wrong packet form";
  if (p.form == GPacket::SINGLE) {
    const GUnit& u = p.units[0];
    if (hdr_text(r->rtp_single->nal_unit_header) != h) return "single header " + hdr_text(r->rtp_single->nal_unit_header);
    std::string t = payload_text(r->rtp_single->nal_unit_payload), e = payload_text(u.exp->nal_unit_payload);
    if (t != e) return fmt("single (%s) payload ", u.what) + pbt::diff_text(e, t);
  } else if (p.form == GPacket::AP) {
    auto& a = *r->rtp_ap;
    if (hdr_text(a.header) != h) return "AP header " + hdr_text(a.header);
    if (a.nal_unit_sizes.size() != p.units.size() || a.nal_unit_headers.size() != p.units.size() ||
        a.nal_unit_payloads.size() != p.units.size())
      return fmt("AP with %zu units instead of %zu", a.nal_unit_sizes.size(), p.units.size());
    for (size_t i = 0; i < p.units.size(); i++) {
      const GUnit& u = p.units[i];
      if (a.nal_unit_sizes[i] != u.ebsp.size()) return fmt("AP unit %zu size %zu instead of %zu", i, a.nal_unit_sizes[i], u.ebsp.size());
      std::string uh = hdr_text(u.type, u.layer, u.tid, u.fbit);
      if (hdr_text(a.nal_unit_headers[i]) != uh) return fmt("AP unit %zu header ", i) + hdr_text(a.nal_unit_headers[i]) + " instead of " + uh;
      std::string t = payload_text(a.nal_unit_payloads[i]), e = payload_text(u.exp->nal_unit_payload);
      if (t != e) return fmt("AP unit %zu (%s) payload ", i, u.what) + pbt::diff_text(e, t);
    }
  } else if (p.form == GPacket::FU) {
    auto& f = *r->rtp_fu;
    const GUnit& u = p.units[0];
    if (hdr_text(f.header) != h) return "FU header " + hdr_text(f.header);
    if (f.s_bit != (p.start ? 1u : 0u) || f.e_bit != (p.end ? 1u : 0u) || f.fu_type != u.type)
      return fmt("FU fields s %u e %u type %u", f.s_bit, f.e_bit, f.fu_type);
    if (!p.start) {
      if (f.nal_unit_payload) return "later fragment with a payload";
    } else if (p.modelled) {
      std::string t = payload_text(f.nal_unit_payload), e = payload_text(u.exp->nal_unit_payload);
      if (t != e) return fmt("FU (%s) payload ", u.what) + pbt::diff_text(e, t);
    }
  }
  return "";
}

// escaped bytes needed to hold the first `bits` bits of the unescaped unit
inline size_t escaped_need(const GUnit& u, size_t bits) {
  size_t want = (bits + 7) / 8, have = 0, i = 0;
  int zeros = 0;
  while (i < u.ebsp.size() && have < want) {
    if (zeros >= 2 && u.ebsp[i] == 3) {
      zeros = 0;
    } else {
      zeros = u.ebsp[i] == 0 ? zeros + 1 : 0;
      have++;
    }
    i++;
  }
  return i;
}
// a start fragment: whole unit, or for slices any length that holds the header
inline GPacket gen_start_fragment(Src& s, const GUnit& u) {
  size_t n = u.ebsp.size() - 2, from = n;
  if (u.parsed && is_slice_type(u.type)) from = escaped_need(u, u.mand) - 2;
  size_t b = s.flag() ? n : (size_t)s.uni(from, n);
  return rtp_fu(u, 0, b, true, s.chance(1, 6));
}

inline GPacket gen_packet(Src& s, ParserState& m, const UnitOpt& base) {
  UnitOpt uo = base;
  if (s.chance(1, 30)) {
    // PACI and the reserved types: only the header is read
    GPacket p;
    p.form = GPacket::OTHER;
    rtp_header_of(s, p);
    packet_header(p, (unsigned)s.uni(50, 63));
    ParserState scratch;
    copy_state(m, scratch);
    put_bytes(p.data, gen_unit(s, scratch, uo).ebsp);
    p.data.resize(s.flag() ? p.data.size() : (size_t)s.uni(2, p.data.size()));
    return p;
  }
  switch (s.uni(0, 4)) {
    case 0: {
      uo.rtp = true;
      return rtp_single(gen_unit(s, m, uo));
    }
    case 1:
    case 2: {
      Units v = gen_units(s, m, s.chance(1, 10) ? 0 : 1, 5, uo);
      if (s.chance(1, 40)) add_many(s, m, uo, 400, &v);
      return rtp_ap(s, v);
    }
    case 3: return gen_start_fragment(s, gen_unit(s, m, uo));
    default: {
      ParserState scratch;
      copy_state(m, scratch);
      GUnit u = gen_unit(s, scratch, uo);
      size_t n = u.ebsp.size() - 2;
      size_t a = (size_t)s.uni(0, n), b = (size_t)s.uni(a, n);
      return rtp_fu(u, a, b, false, s.flag());
    }
  }
}
#endif

}  // namespace h265nal
