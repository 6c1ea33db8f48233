// Programs of deliveries for the hostile-input checks: conforming structures
// with some elements replaced by extreme values, damaged bytes, arbitrary
// bytes, and slices that refer to whatever parameter sets were accepted.
#pragma once
#include "hostile.h"
#include "stream.h"

namespace h265nal {

inline void damage(Src& s, Bytes& d, unsigned max) {
  for (unsigned k = (unsigned)s.uni(0, max); k > 0 && !d.empty(); k--) {
    size_t i = (size_t)s.uni(0, d.size() - 1);
    switch (s.uni(0, 7)) {
      case 0: d[i] ^= (uint8_t)(1u << s.uni(0, 7)); break;
      case 1: d[i] = (uint8_t)s.u(0, 255); break;
      case 2: d.resize(i); break;
      case 3: d.insert(d.begin() + (long)i, (uint8_t)s.u(0, 255)); break;
      case 4: d.erase(d.begin() + (long)i); break;
      case 5: {  // a run of one value
        size_t n = std::min<size_t>(d.size() - i, (size_t)s.u(1, 40));
        uint8_t v = s.flag() ? 0xff : 0;
        for (size_t q = 0; q < n; q++) d[i + q] = v;
        break;
      }
      case 6: {  // repeat a piece
        size_t n = std::min<size_t>(d.size() - i, (size_t)s.u(1, 20));
        Bytes p(d.begin() + (long)i, d.begin() + (long)(i + n));
        d.insert(d.begin() + (long)i, p.begin(), p.end());
        break;
      }
      default: {  // an exponential-Golomb code at a random bit
        BitW w;
        size_t bit = (size_t)s.uni(0, 7);
        for (size_t q = 0; q < i; q++) w.put(8, d[q]);
        w.put((unsigned)bit, d[i] >> (8 - bit));
        w.ue(s.u(0, 0x1ffffffffull));
        while (!w.aligned()) w.put(1, s.flag());
        size_t used = w.bytes().size();
        Bytes o = w.bytes();
        if (used < d.size()) o.insert(o.end(), d.begin() + (long)used, d.end());
        d = o;
      }
    }
  }
}

// a slice written for the sets in the given state
inline bool slice_for(Src& s, const H265BitstreamParserState& st, GUnit* u) {
  std::vector<std::pair<const Sps*, const Pps*>> v;
  for (auto& p : st.pps) {
    auto i = st.sps.find(p.second->pps_seq_parameter_set_id);
    if (i != st.sps.end()) v.push_back(std::make_pair(i->second.get(), p.second.get()));
  }
  if (v.empty()) return false;
  auto& x = v[s.uni(0, v.size() - 1)];
  Enc E(s);
  u->type = s.pick(slice_types());
  draw_header(s, *u);
  u->what = "slice";
  try {
    gen_slice(E, u->type, *x.first, *x.second);
    finish_unit(*u, E.w);
  } catch (const pbt::TooLong&) {
    return false;
  }
  return true;
}

struct HostileScope {
  HostileScope(Src& s, unsigned den) {
    pbt::hostile().s = den ? &s : nullptr;
    pbt::hostile().den = den;
    pbt::hostile().hits = 0;
    pbt::hostile().max_bits = 400000;
  }
  ~HostileScope() {
    pbt::hostile().s = nullptr;
    pbt::hostile().max_bits = 0;
  }
};

// Draws a program. The generator follows the real state so that later slices
// reach deep into the parser even when the sets are extreme.
inline std::vector<Exerciser::Step> gen_program(Src& s, unsigned max_steps) {
  std::vector<Exerciser::Step> prog;
  H265BitstreamParserState st;
  ParserState m;
  unsigned n = (unsigned)s.uni(1, max_steps);
  static const std::vector<unsigned> dens = {0, 12, 40, 120, 400};
  unsigned den = s.pick(dens);
  for (unsigned k = 0; k < n; k++) {
    Exerciser::Step x;
    x.p0 = (unsigned)s.uni(0, 255);
    x.p1 = (unsigned)s.uni(0, 255);
    bool sets = false;
    unsigned kind = (unsigned)s.uni(0, 9);
    try {
      HostileScope h(s, den);
      UnitOpt uo;
      uo.wild = true;
      uo.wild_sets = true;
      if (kind <= 4) {
        // units for a stream, length prefixes, a packet, a record
        Units v;
        unsigned nu = (unsigned)s.uni(1, 4);
        for (unsigned i = 0; i < nu; i++) {
          GUnit u;
          // slices only for sets the parser accepted; the model's sets may say
          // something else than the bytes
          UnitOpt o = uo;
          o.slice_weight = 0;
          o.broken = false;
          if (s.flag() && slice_for(s, st, &u)) {
            v.push_back(std::move(u));
            continue;
          }
          ParserState none;
          v.push_back(gen_unit(s, none, o));
        }
        switch (kind) {
          case 0:
          case 1: x.op = 0; x.d = annexb(s, v).data; sets = true; break;
          case 2: {
            x.op = 3;
            unsigned w = (unsigned)s.uni(min_width(v), 8);
            x.p1 = s.chance(1, 8) ? x.p1 : w;
            x.d = length_prefixed(v, w).data;
            sets = true;
            break;
          }
          case 3: {
            x.op = 9;
            unsigned f = (unsigned)s.uni(0, 3);
            if (f == 0) {
              x.d = v[0].ebsp;
            } else if (f == 1 || v[0].ebsp.size() < 2) {
              x.d = rtp_ap(s, v).data;
            } else {
              size_t pn = v[0].ebsp.size() - 2;
              x.d = rtp_fu(v[0], 0, (size_t)s.uni(0, pn), s.chance(3, 4), s.flag()).data;
            }
            sets = true;
            break;
          }
          default:
            x.op = s.flag() ? 5 : 6;
            x.d = x.op == 5 ? v[0].ebsp : v[0].rbsp;
            sets = true;
        }
      } else if (kind == 5) {
        x.op = 7;
        x.d = gen_box(s, m, uo).data;
        m.vps.clear();
        m.sps.clear();
        m.pps.clear();
        sets = true;
      } else if (kind <= 7) {
        Enc E(s);
        int sk = (int)s.uni(0, K_COUNT - 1);
        try {
          gen_case(sk, E);
        } catch (const pbt::TooLong&) {
        }
        static const unsigned op[] = {16, 17, 18, 19, 20, 21, 22, 22, 23, 24, 24, 26, 25, 27, 27, 27, 27, 27, 27, 28};
        static const unsigned sub[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 0};
        x.op = op[sk];
        if (x.op == 27) x.p1 = x.p1 / 6 * 6 % 250 + sub[sk];
        x.d = E.w.bytes();
        if (s.chance(1, 3)) {
          // from escaped bytes, or through the other entry points
          static const unsigned eop[] = {29, 29, 29, 29, 29, 29, 32, 32, 32, 32, 32, 32, 32, 33, 33, 33, 33, 33, 33, 32};
          static const unsigned esub[] = {0, 1, 2, 3, 5, 4, 0, 1, 2, 3, 4, 7, 5, 0, 1, 2, 3, 4, 5, 6};
          x.op = eop[sk];
          unsigned mod = x.op == 32 ? 12 : 6;
          if (sk == K_SLICE && s.flag()) {
            x.op = 32;
            mod = 12;
            x.p1 = x.p1 % 240 / mod * mod + 11;
          } else {
            x.p1 = x.p1 % 240 / mod * mod + esub[sk];
          }
          x.d = pbt::escape_rbsp(x.d);
        }
      } else if (kind == 8) {
        x.op = (unsigned)s.uni(0, Exerciser::kOps - 1);
        size_t len = (size_t)s.u(0, 200);
        unsigned rk = (unsigned)s.uni(0, 2);
        for (size_t i = 0; i < len; i++)
          x.d.push_back((uint8_t)(rk == 0 ? s.uni(0, 255) : rk == 1 ? s.uni(0, 3) : (s.flag() ? 0xff : 0)));
      } else {
        // the same bytes through another entry point, or slice QPs
        if (!prog.empty() && s.flag()) {
          x = prog[s.uni(0, prog.size() - 1)];
          x.op = (unsigned)s.uni(0, Exerciser::kOps - 1);
        } else {
          GUnit u;
          Units v;
          if (slice_for(s, st, &u)) v.push_back(std::move(u));
          if (v.empty()) v.push_back(gen_unit(s, m, uo));
          x.op = 12;
          x.d = annexb(s, v).data;
        }
      }
    } catch (const pbt::TooLong&) {
    }
    if (s.chance(1, 3)) damage(s, x.d, 4);
    if (sets && k + 1 < n) {
      Exerciser e;
      e.deliver(st, x.op, x.p0, x.p1, x.d.data(), x.d.size());
    }
    prog.push_back(std::move(x));
  }
  return prog;
}

}  // namespace h265nal
