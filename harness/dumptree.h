// Expected content of a text dump: the parsed state as a tree of named values,
// and the comparison of a dump in indented form with it.
#pragma once
#include "canon.h"

namespace h265nal {

struct EVal {
  bool arr = false;
  std::string v;
  std::vector<EVal> k;
  void flat(std::vector<std::string>& o) const {
    if (!arr) o.push_back(v);
    for (auto& e : k) e.flat(o);
  }
};
struct ENode {
  std::string name;  // as the dump names the structure
  const void* ptr = nullptr;
  std::map<std::string, EVal> vals;
  std::vector<std::shared_ptr<ENode>> kids;
  std::map<std::string, std::string> text;  // derived leaves
};
typedef std::shared_ptr<ENode> ETree;

#define X(C, S, L) \
  inline const char* state_name(const C::S*) { return #S; }
ALL_STATES(X)
#ifdef RTP_DEFINE
ALL_RTP_STATES(X)
#endif
#undef X

// SliceSegmentHeaderState -> slice_segment_header
inline std::string node_name(const std::string& state) {
  static const std::map<std::string, std::string> special = {
      {"Sps3dExtensionState", "sps_3d_extension"},
      {"H265SeiUserDataRegisteredItuTT35State", "user_data_registered_itu_t_t35"},
      {"H265SeiUnknownState", "unimplemented"},
  };
  auto f = special.find(state);
  if (f != special.end()) return f->second;
  std::string s = state.substr(0, state.size() - 5), o;
  if (s.compare(0, 7, "H265Sei") == 0) s = s.substr(7);
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] >= 'A' && s[i] <= 'Z') {
      if (i) o += '_';
      o += (char)(s[i] - 'A' + 'a');
    } else {
      o += s[i];
    }
  }
  return o;
}

struct TreeV {
  ENode* n = nullptr;

  template <class T>
  static typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, EVal>::type val(const T& x) {
    EVal e;
    e.v = std::is_signed<T>::value || std::is_enum<T>::value ? std::to_string((long long)x) : std::to_string((unsigned long long)x);
    return e;
  }
  template <class T>
  static EVal val(const std::vector<T>& x) {
    EVal e;
    e.arr = true;
    for (const T& i : x) e.k.push_back(val(i));
    return e;
  }
  template <class T, size_t N>
  static EVal val(const std::array<T, N>& x) {
    EVal e;
    e.arr = true;
    for (const T& i : x) e.k.push_back(val(i));
    return e;
  }
  template <class T, size_t N>
  static EVal val(const T (&x)[N]) {
    EVal e;
    e.arr = true;
    for (const T& i : x) e.k.push_back(val(i));
    return e;
  }
  // structures
  template <class T>
  void kid(const char* f, T* p) {
    if (!p) return;
    n->kids.push_back(tree(*p));
    if (!strcmp(f, "general") || !strcmp(f, "sub_layer")) n->kids.back()->name = f;
  }
  template <class T>
  void field(const char* f, std::unique_ptr<T>& x) {
    kid(f, x.get());
  }
  template <class T>
  void field(const char* f, std::shared_ptr<T>& x) {
    kid(f, x.get());
  }
  template <class T>
  void field(const char* f, std::vector<std::unique_ptr<T>>& x) {
    for (auto& e : x) kid(f, e.get());
  }
  template <class T>
  void field(const char* f, std::vector<std::shared_ptr<T>>& x) {
    for (auto& e : x) kid(f, e.get());
  }
  template <class T>
  void field(const char* f, std::vector<std::vector<std::unique_ptr<T>>>& x) {
    for (auto& e : x) field(f, e);
  }
  template <class T>
  void field(const char* f, T& x) {
    n->vals[f] = val(x);
  }

  template <class S>
  static ETree base(S& s, const std::string& name) {
    ETree t = std::make_shared<ENode>();
    t->name = name;
    t->ptr = &s;
    return t;
  }
  template <class S>
  static ETree tree(S& s) {
    ETree t = base(s, node_name(state_name(&s)));
    TreeV v;
    v.n = t.get();
    Visitor<TreeV>::visit(v, s);
    extra(*t, s);
    return t;
  }
  static ETree tree(H265SeiMessageParser::SeiMessageState& s) {
    ETree t = base(s, "sei message");
    t->vals["payload_type"] = val((int)s.payload_type);
    t->vals["payload_size"] = val(s.payload_size);
    if (s.payload_state) t->kids.push_back(tree(*s.payload_state));
    return t;
  }
  static ETree tree(H265SeiPayloadParser::H265SeiPayloadState& s) {
#define SEI(P) \
  if (auto* q = dynamic_cast<H265Sei##P##Parser::H265Sei##P##State*>(&s)) return tree(*q);
    SEI(UserDataRegisteredItuTT35)
    SEI(UserDataUnregistered)
    SEI(AlphaChannelInfo)
    SEI(MasteringDisplayColourVolume)
    SEI(ContentLightLevelInfo)
    SEI(KneeFunctionInfo)
    SEI(ColourRemappingInfo)
    SEI(ContentColourVolume)
    SEI(AlternativeTransferCharacteristics)
    SEI(AmbientViewingEnvironment)
    SEI(Unknown)
#undef SEI
    return base(s, "unknown sei state");
  }
  static ETree tree(H265NalUnitParser::NalUnitState& s) {
    ETree t = base(s, "nal_unit");
    char b[80];
    snprintf(b, sizeof b, "0x%08zx", s.offset);
    t->text["offset"] = b;
    t->text["length"] = std::to_string(s.length);
    t->text["parsed_length"] = std::to_string(s.parsed_length);
    if (s.checksum) {
      std::string h = "0x";
      for (int i = 0; i < s.checksum->GetLength(); i++) {
        snprintf(b, sizeof b, "%02x", (unsigned)(uint8_t)s.checksum->GetChecksum()[i]);
        h += b;
      }
      t->text["checksum"] = h;
    }
    t->kids.push_back(tree(*s.nal_unit_header));
    t->kids.push_back(tree(*s.nal_unit_payload));
    return t;
  }
  // what the dump derives from the values
  template <class S>
  static void extra(ENode&, S&) {}
  static std::string scaled(uint64_t v, double by, int digits, const char* unit) {
    char b[80];
    snprintf(b, sizeof b, "%llu (%.*f%s)", (unsigned long long)v, digits, v * by, unit);
    return b;
  }
  static void extra(ENode& n, H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState& s) {
    for (int c = 0; c < 3; c++) {
      n.text["display_primaries[" + std::to_string(c) + "]_x"] = scaled(s.display_primaries_x[c], 0.00002, 5, "");
      n.text["display_primaries[" + std::to_string(c) + "]_y"] = scaled(s.display_primaries_y[c], 0.00002, 5, "");
    }
    n.text["white_point_x"] = scaled(s.white_point_x, 0.00002, 5, "");
    n.text["white_point_y"] = scaled(s.white_point_y, 0.00002, 5, "");
    n.text["max_display_mastering_luminance"] = scaled(s.max_display_mastering_luminance, 0.0001, 4, " cd/m^2");
    n.text["min_display_mastering_luminance"] = scaled(s.min_display_mastering_luminance, 0.0001, 4, " cd/m^2");
    n.vals.clear();
  }
  static void extra(ENode& n, H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState& s) {
    n.text["max_content_light_level"] = std::to_string(s.max_content_light_level) + " cd/m^2";
    n.text["max_pic_average_light_level"] = std::to_string(s.max_pic_average_light_level) + " cd/m^2";
    n.vals.clear();
  }
  static void extra(ENode& n, H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState& s) {
    char b[80];
    unsigned long long a = s.uuid_iso_iec_11578_1, c = s.uuid_iso_iec_11578_2;
    snprintf(b, sizeof b, "%08llx-%04llx-%04llx-%04llx-%012llx", a >> 32, (a >> 16) & 0xffff, a & 0xffff, c >> 48, c & 0xffffffffffffull);
    n.text["uuid_iso_iec_11578"] = b;
    n.text["payload_size"] = std::to_string(s.payload.size());
    n.vals.erase("uuid_iso_iec_11578_1");
    n.vals.erase("uuid_iso_iec_11578_2");
  }
  static void extra(ENode& n, H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State& s) {
    n.text["payload_size"] = std::to_string(s.payload.size());
  }
  static void extra(ENode& n, H265SeiUnknownParser::H265SeiUnknownState& s) {
    n.text["payload_size"] = std::to_string(s.payload.size());
  }
  static void extra(ENode& n, H265VpsParser::VpsState& s) {
    char b[16];
    snprintf(b, sizeof b, "0x%04x", s.vps_reserved_0xffff_16bits);
    n.text["vps_reserved_0xffff_16bits"] = b;
    n.vals.erase("vps_reserved_0xffff_16bits");
  }
  static void extra(ENode& n, H265ProfileInfoParser::ProfileInfoState& s) {
    n.text["profile"] = profile_text((int)s.profile_type);
    n.vals.erase("profile_type");
  }
  static void extra(ENode& n, H265SpsParser::SpsState& s) {
    int sw = 1, sh = 1;
    if (s.separate_colour_plane_flag == 0) {
      if (s.chroma_format_idc == 1) sw = sh = 2;
      if (s.chroma_format_idc == 2) sw = 2;
    }
    n.text["width"] = std::to_string((int)s.pic_width_in_luma_samples - sw * (int)(s.conf_win_left_offset + s.conf_win_right_offset));
    n.text["height"] = std::to_string((int)s.pic_height_in_luma_samples - sh * (int)(s.conf_win_top_offset + s.conf_win_bottom_offset));
  }
  static std::string profile_text(int t);
};
template <class S>
ETree etree(const S& s) {
  return TreeV::tree(const_cast<S&>(s));
}

// names of the profiles
inline const std::map<int, std::string>& profile_names() {
  static const std::map<int, std::string> m = {
      {0, "Unspecified"}, {1, "Main"}, {2, "Main 10"}, {3, "Main Still Picture"}, {4, "FRExt"}, {5, "High Throughput"},
      {6, "Multiview Main"}, {7, "Scalable"}, {8, "3D-Main"}, {9, "Screen-Extended"}, {10, "Multilayer (Annex F)"},
      {11, "Screen-Extended High-Throughput"}, {12, "Multiview Extended"}, {13, "Multiview Extended 10"},
      {100, "Main 10 Still Picture"}, {101, "Monochrome (8-bit)"}, {102, "Monochrome (10-bit)"}, {103, "Monochrome (12-bit)"},
      {104, "Monochrome (16-bit)"}, {105, "Main 12"}, {106, "Main 4:2:2 10"}, {107, "Main 4:2:2 12"}, {108, "Main 4:4:4"},
      {109, "Main 4:4:4 10"}, {110, "Main 4:4:4 12"}, {111, "Main Intra"}, {112, "Main 10 Intra"}, {113, "Main 12 Intra"},
      {114, "Main 4:2:2 10 Intra"}, {115, "Main 4:2:2 12 Intra"}, {116, "Main 4:4:4 Intra"}, {117, "Main 4:4:4 10 Intra"},
      {118, "Main 4:4:4 12 Intra"}, {119, "Main 4:4:4 16 Intra"}, {120, "Main 4:4:4 Still Picture"},
      {121, "Main 4:4:4 16 Still Picture"}, {122, "High Throughput 4:4:4"}, {123, "High Throughput 4:4:4 10"},
      {124, "High Throughput 4:4:4 14"}, {125, "High Throughput 4:4:4 16 Intra"}, {126, "Scalable Main"},
      {127, "Scalable Main 10"}, {128, "Screen-Extended Main"}, {129, "Screen-Extended Main 10"},
      {130, "Screen-Extended Main 4:4:4"}, {131, "Screen-Extended Main 4:4:4 10"},
      {132, "Screen-Extended High Throughput 4:4:4"}, {133, "Screen-Extended High Throughput 4:4:4 10"},
      {134, "Screen-Extended High Throughput 4:4:4 14"}, {150, "Monochrome (8-bit) Still Picture"},
      {151, "Monochrome (10-bit) Still Picture"}, {152, "Main 4:4:4 10 Still Picture"}};
  return m;
}
inline std::string TreeV::profile_text(int t) {
  auto e = profile_names().find(t);
  return e == profile_names().end() ? "Unknown" : e->second;
}

// ------------------------------------------------------------ dump reading
struct DumpReader {
  std::vector<std::string> lines;
  size_t pos = 0;
  const std::set<std::pair<const void*, std::string>>* present = nullptr;
  std::string why;
  size_t leaves = 0;

  explicit DumpReader(const std::string& text) {
    size_t i = 0;
    while (i < text.size()) {
      size_t e = text.find('\n', i);
      if (e == std::string::npos) e = text.size();
      size_t a = i;
      while (a < e && text[a] == ' ') a++;
      size_t b = e;
      while (b > a && text[b - 1] == ' ') b--;
      if (b > a) lines.push_back(text.substr(a, b - a));
      i = e + 1;
    }
  }
  bool bad(const std::string& m) {
    if (why.empty()) why = m;
    return false;
  }
  static std::vector<std::string> words(const std::string& t) {
    std::vector<std::string> o;
    size_t i = 0;
    while (i < t.size()) {
      if (t[i] == ' ') {
        i++;
        continue;
      }
      size_t e = t.find(' ', i);
      if (e == std::string::npos) e = t.size();
      o.push_back(t.substr(i, e - i));
      i = e;
    }
    return o;
  }
  static std::string short_list(const std::vector<std::string>& v) {
    std::string o;
    for (size_t i = 0; i < v.size() && i < 24; i++) o += (i ? " " : "") + v[i];
    if (v.size() > 24) o += " ...";
    return o;
  }
  // one structure, its opening line already consumed
  bool node(const ENode& n, const std::string& path) {
    std::vector<bool> used(n.kids.size(), false);
    std::map<std::string, std::set<size_t>> seen;  // element numbers; SIZE_MAX: the whole
    std::map<std::string, size_t> occ;
    std::set<std::string> texts;
    bool in_list = false;
    for (;;) {
      if (pos >= lines.size()) {
        if (path.empty()) break;
        return bad("dump ends inside " + path);
      }
      std::string l = lines[pos++];
      if (l == "}") {
        if (in_list) {
          in_list = false;
          continue;
        }
        break;
      }
      if (l.back() == '{' && l.find('{') == l.size() - 1 && l.compare(l.size() - 3 > l.size() ? 0 : l.size() - 3, 3, ": {") != 0) {
        std::string name = l.substr(0, l.size() - 2);
        // a list of structures with a wrapper of its own
        if (name == "sub_layer_hrd_parameters_vector" && !in_list) {
          in_list = true;
          continue;
        }
        size_t k = 0;
        while (k < n.kids.size() && (used[k] || n.kids[k]->name != name)) k++;
        if (k == n.kids.size()) return bad("dump has a structure " + path + "/" + name + " that is not in the parse");
        used[k] = true;
        if (!node(*n.kids[k], path + "/" + name)) return false;
        continue;
      }
      // a value
      leaves++;
      size_t nb = l.find_first_of(":{");
      // names such as pre_lut_coded_value[0]
      if (nb == std::string::npos) return bad("line [" + l + "] in " + path);
      std::string name = l.substr(0, nb);
      while (!name.empty() && name.back() == ' ') name.pop_back();
      std::string rest = l.substr(l[nb] == ':' ? nb + 1 : nb);
      while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
      auto tx = n.text.find(name);
      if (tx != n.text.end()) {
        if (rest != tx->second) return bad(path + "/" + name + ": dump says [" + rest + "] instead of [" + tx->second + "]");
        texts.insert(name);
        continue;
      }
      std::vector<size_t> idx;
      size_t lb = name.find('[');
      std::string f = name.substr(0, lb);
      while (lb != std::string::npos) {
        idx.push_back((size_t)strtoul(name.c_str() + lb + 1, nullptr, 10));
        lb = name.find('[', lb + 1);
      }
      auto it = n.vals.find(f);
      if (it == n.vals.end() && n.vals.count(f + "s") && n.vals.at(f + "s").arr) it = n.vals.find(f + "s");
      if (it == n.vals.end()) return bad("dump has a value " + path + "/" + name + " that is not in the parse");
      const EVal* v = &it->second;
      bool brace = !rest.empty() && rest[0] == '{';
      size_t o = occ[it->first]++;
      if (!v->arr && o > 0) return bad("dump has the value " + path + "/" + name + " twice");
      if (v->arr && idx.empty() && !brace) idx.push_back(o);
      for (size_t i : idx) {
        if (!v->arr || i >= v->k.size()) return bad(path + "/" + name + ": no such element");
        v = &v->k[i];
      }
      if (brace != v->arr) return bad(path + "/" + name + ": a list printed as a value or the reverse");
      if (!brace) {
        if (rest != v->v) return bad(path + "/" + name + ": dump says [" + rest + "] instead of [" + v->v + "]");
      } else {
        std::vector<std::string> got = words(rest), nums, exp;
        int depth = 0;
        for (auto& w : got) {
          if (w == "{")
            depth++;
          else if (w == "}")
            depth--;
          else
            nums.push_back(w);
        }
        if (depth != 0) return bad(path + "/" + name + ": unbalanced braces");
        v->flat(exp);
        if (nums != exp) return bad(path + "/" + name + ": dump says [" + short_list(nums) + "] instead of [" + short_list(exp) + "]");
      }
      // a list is complete when it was printed whole or all its elements were
      if (idx.empty())
        seen[it->first].insert(SIZE_MAX);
      else if (idx.size() == 1)
        seen[it->first].insert(idx[0]);
      else
        seen[it->first].insert(SIZE_MAX);
    }
    for (size_t k = 0; k < n.kids.size(); k++)
      if (!used[k]) return bad("dump lacks the structure " + path + "/" + n.kids[k]->name);
    if (present) {
      for (auto& e : n.vals) {
        if (!whole.count(n.name) && !present->count(std::make_pair(n.ptr, e.first))) continue;
        if (e.second.arr && e.second.k.empty()) continue;
        auto sn = seen.find(e.first);
        bool all = sn != seen.end() && (!e.second.arr || sn->second.count(SIZE_MAX));
        if (sn != seen.end() && !all) {
          // every element that holds something
          all = true;
          for (size_t i = 0; i < e.second.k.size(); i++) {
            std::vector<std::string> fl;
            e.second.k[i].flat(fl);
            if (!fl.empty() && !sn->second.count(i)) all = false;
          }
        }
        if (!all) return bad("dump lacks the value " + path + "/" + e.first);
      }
    }
    for (auto& t : n.text)
      if (!texts.count(t.first) && !optional.count(t.first)) return bad("dump lacks the value " + path + "/" + t.first);
    return true;
  }
  // structures whose values are always there
  std::set<std::string> whole = {"nal_unit_header", "sei message", "rtp_ap", "rtp_fu"};
  // leaves controlled by the dump options
  std::set<std::string> optional;

  // the whole dump is one structure; empty = equal
  std::string read(const ENode& n) {
    pos = 0;
    if (lines.empty()) return "empty dump";
    if (lines[0] == n.name + " {") {
      pos = 1;
      if (node(n, n.name) && pos != lines.size()) bad("text after the end of the dump: " + lines[pos]);
    } else if (n.name == "profile_info") {
      // its structure name is written by the enclosing dump
      node(n, "");
    } else {
      bad("dump starts with [" + lines[0] + "] instead of " + n.name);
    }
    return why;
  }
};
}  // namespace h265nal
