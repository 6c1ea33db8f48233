// C38: parsing and dumping have no effect besides their results.
#include <fcntl.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <iostream>

#include "gen_hostile.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

namespace {

// lowest descriptor number that is free: higher when one was left open
int free_fd() {
  int d = open("/dev/null", O_RDONLY | O_CLOEXEC);
  if (d >= 0) close(d);
  return d;
}
// What the process can see of a call: its standard output goes to memory
// between construction and done().
struct Watch {
  static int mem() {
    static int fd = memfd_create("out", MFD_CLOEXEC);
    return fd;
  }
  int saved, first;
  std::string locale, out;
  Watch() {
    fflush(stdout);
    std::cout.flush();
    if (ftruncate(mem(), 0) != 0) abort();
    lseek(mem(), 0, SEEK_SET);
    first = free_fd();
    locale = setlocale(LC_ALL, nullptr);
    saved = fcntl(1, F_DUPFD_CLOEXEC, 500);
    if (saved < 0 || dup2(mem(), 1) < 0) abort();
  }
  // what changed, or nothing
  std::string done() {
    fflush(stdout);
    std::cout.flush();
    struct stat a, b;
    bool moved = fstat(1, &a) != 0 || fstat(mem(), &b) != 0 || a.st_ino != b.st_ino || a.st_dev != b.st_dev;
    off_t n = lseek(mem(), 0, SEEK_END);
    out.assign((size_t)n, 0);
    if (pread(mem(), &out[0], (size_t)n, 0) != (ssize_t)n) abort();
    dup2(saved, 1);
    close(saved);
    saved = -1;
    if (moved) return "standard output was closed or replaced";
    if (ferror(stdout)) return "standard output is in an error state";
    if (free_fd() != first) return fmt("descriptors left open or closed: the first free one is %d, was %d", free_fd(), first);
    if (locale != setlocale(LC_ALL, nullptr)) return "the locale changed";
    return "";
  }
  std::string silent() {
    std::string why = done();
    if (!why.empty()) return why;
    return out.empty() ? "" : "written to standard output: " + out.substr(0, 300);
  }
  ~Watch() {
    if (saved >= 0) done();
  }
};

// a file in memory with some content, opened at a position inside
struct Scratch {
  int fd;
  FILE* f;
  std::string old;
  size_t at;
  char buf[512];
  Scratch(Src& s) {
    fd = memfd_create("dump", MFD_CLOEXEC);
    unsigned n = (unsigned)s.u(0, 3000);
    for (unsigned i = 0; i < n; i++) old += (char)('A' + i % 26);
    at = s.chance(1, 3) ? n : (size_t)s.uni(0, n);
    if (fd < 0 || write(fd, old.data(), n) != (ssize_t)n) abort();
    f = fdopen(fd, "r+");
    if (!f) abort();
    switch (s.uni(0, 3)) {
      case 0: setvbuf(f, nullptr, _IONBF, 0); break;
      case 1: setvbuf(f, buf, _IOLBF, sizeof buf); break;
      case 2: setvbuf(f, buf, _IOFBF, sizeof buf); break;
    }
    if (fseek(f, (long)at, SEEK_SET) != 0) abort();
  }
  // the file holds what was there, overwritten by text from the position on
  std::string holds(const std::string& text) {
    if (ferror(f)) return "the file is in an error state";
    if (ftell(f) != (long)(at + text.size())) return fmt("the file is at %ld, not at %zu + %zu", ftell(f), at, text.size());
    if (fputs("#END#", f) < 0 || fflush(f) != 0) return "the file does not take more text";
    std::string want = old.substr(0, at) + text + "#END#", got;
    if (want.size() < old.size()) want += old.substr(want.size());
    off_t n = lseek(fd, 0, SEEK_END);
    got.assign((size_t)n, 0);
    if (pread(fd, &got[0], got.size(), 0) != (ssize_t)n) return "cannot read the file";
    if (got != want) return "the file holds something else: " + pbt::diff_text(want, got);
    return "";
  }
  ~Scratch() { fclose(f); }
};

typedef std::function<void(FILE*)> Dump;
// empty when dumping only writes the text, where and as often as asked
std::string dump_effects(Src& s, const Dump& dump, const std::function<std::string()>& content) {
  std::string before = content(), text, why;
  {
    Watch w;
    MemFile f;
    dump(f.f);
    text = f.str();
    why = w.silent();
  }
  if (!why.empty()) return "dump to memory: " + why;
  {
    Scratch t(s);
    Watch w;
    dump(t.f);
    why = w.silent();
    if (why.empty()) why = t.holds(text);
  }
  if (!why.empty()) return "dump into a file: " + why;
  if (s.chance(1, 3)) {
    Watch w;
    dump(stdout);
    why = w.done();
    if (why.empty() && w.out != text) why = pbt::diff_text(text, w.out);
    if (!why.empty()) return "dump to standard output: " + why;
  }
  if (s.chance(1, 4)) {
    // a file that takes nothing
    FILE* f = fopen(s.flag() ? "/dev/full" : "/dev/null", s.flag() ? "w" : "r");
    if (f) {
      if (s.flag()) setvbuf(f, nullptr, _IONBF, 0);
      Watch w;
      dump(f);
      why = w.silent();
      fclose(f);
      if (!why.empty()) return "dump into a full file: " + why;
    }
  }
  MemFile f;
  dump(f.f);
  std::string again = f.str();
  if (again != text) return "second dump differs: " + pbt::diff_text(text, again);
  std::string after = content();
  if (after != before) return "the dump changed the object: " + pbt::diff_text(before, after);
  return "";
}

// a parser call under watch, on memory whose surroundings must stay
template <class F>
auto watched(Ctx& c, const Bytes& d, const char* what, F parse) -> decltype(parse((const uint8_t*)nullptr)) {
  Exact x(d);
  Watch w;
  auto r = parse((const uint8_t*)x.p.get());
  std::string why = w.silent();
  CHECK(c, why.empty(), std::string("parse of ") + what + ": " + why);
  CHECK(c, std::equal(d.begin(), d.end(), x.p.get()), std::string("parse of ") + what + " changed its input");
  return r;
}
template <class T>
void dumped(Ctx& c, Src& s, const T& r, const char* what) {
  ParsingOptions pd = gen_options(s);
  int ind = s.chance(1, 3) ? -1 : (int)s.uni(0, 4);
  std::string why = dump_effects(s, [&](FILE* f) { dump_obj(r, f, ind, pd, 0); }, [&]() { return canon(r); });
  CHECK(c, why.empty(), std::string(what) + ": " + why);
}

}  // namespace

PROP(C38, structures, 20000, "conforming structures of every kind, parsed and dumped; non-trivial when the structure has more than 4 bytes") {
  int kind = (int)s.uni(0, K_COUNT - 1);
  Enc E(s);
  SCase sc = gen_case(kind, E);
  Bytes d = E.w.bytes();
  c.input(d);
  c.input(sc.params);
  c.tag(kind_name(kind));
  if (c.want_sample) c.sample = c.input_desc = std::string(kind_name(kind)) + " " + pbt::hex(d, 200) + " " + sc.params;
  // damaged ones too: error paths have no effects either
  if (s.chance(1, 3) && !d.empty()) {
    c.tag("damaged");
    damage(s, d, 200);
  }
  if (d.empty()) d.push_back(0);
  std::string got = watched(c, d, kind_name(kind), [&](const uint8_t* p) {
    BitBuffer b(p, d.size());
    return sc.bb(&b);
  });
  int ind = s.chance(1, 3) ? -1 : (int)s.uni(0, 4);
  std::string why = dump_effects(s, [&](FILE* f) { sc.dump_to(f, ind); }, [&]() { return sc.content(); });
  CHECK(c, why.empty(), std::string(kind_name(kind)) + ": " + why);
  c.nontrivial = d.size() > 4;
}

PROP(C38, units, 3000, "histories of units, streams, records and packets, parsed and dumped; non-trivial with at least three deliveries") {
  ParserState m, st;
  UnitOpt uo;
  uo.wild = true;
  uo.wild_sets = true;
  gen_stream(s, m, 0, 2, uo);
  copy_state(m, st);
  unsigned n = (unsigned)s.uni(1, 5);
  c.nontrivial = n >= 3;
  for (unsigned i = 0; i < n; i++) {
    ParsingOptions po = gen_options(s);
    unsigned k = (unsigned)s.uni(0, 5);
    Bytes d;
    unsigned width = 0;
    switch (k) {
      case 0: d = annexb(s, gen_units(s, m, 1, 4, uo)).data; break;
      case 1: {
        Units v = gen_units(s, m, 1, 4, uo);
        width = (unsigned)s.uni(min_width(v), 8);
        d = length_prefixed(v, width, &s).data;
        break;
      }
      case 2: d = gen_unit(s, m, uo).ebsp; break;
      case 3: d = gen_box(s, m, uo).data; break;
      case 4: d = gen_packet(s, m, uo).data; break;
      default: d = annexb(s, gen_units(s, m, 1, 4, uo)).data;
    }
    c.input(d);
    static const char* names[] = {"a stream", "a length-prefixed stream", "a unit", "a record", "a packet", "slice QPs"};
    c.tag(names[k]);
    if (c.want_sample) {
      c.sample += std::string(names[k]) + " " + pbt::hex(d, 80) + " ";
      c.input_desc += std::string(names[k]) + " " + pbt::hex(d, 1000) + "\n";
    }
    switch (k) {
      case 0:
      case 1: {
        auto r = watched(c, d, names[k], [&](const uint8_t* p) {
          return k == 0 ? H265BitstreamParser::ParseBitstream(p, d.size(), &st, po)
                        : H265BitstreamParser::ParseBitstreamNALULength(p, d.size(), width, &st, po);
        });
        if (!r) break;
        for (auto& u : r->nal_units) dumped(c, s, *u, "unit of a stream");
        std::string why = dump_effects(s, [&](FILE* f) { r->fdump(f, 0); },
                                       [&]() {
                                         std::string t;
                                         for (auto& u : r->nal_units) t += canon(*u);
                                         return t;
                                       });
        CHECK(c, why.empty(), "stream: " + why);
        break;
      }
      case 2: {
        auto r = watched(c, d, names[k], [&](const uint8_t* p) { return H265NalUnitParser::ParseNalUnit(p, d.size(), &st, po); });
        if (r) dumped(c, s, *r, names[k]);
        break;
      }
      case 3: {
        auto r = watched(c, d, names[k], [&](const uint8_t* p) { return H265ConfigurationBoxParser::ParseConfigurationBox(p, d.size(), &st, po); });
        if (r) dumped(c, s, *r, names[k]);
        break;
      }
      case 4: {
        auto r = watched(c, d, names[k], [&](const uint8_t* p) { return H265RtpParser::ParseRtp(p, d.size(), &st); });
        if (!r) break;
        dumped(c, s, *r, names[k]);
        Watch w;
        std::string before = canon(*r) + canon(st);
        H265Utils::GetSliceQpY(r, &st);
        std::string why = w.silent();
        CHECK(c, why.empty(), "slice QP of a packet: " + why);
        CHECK(c, before == canon(*r) + canon(st), "the slice QP of a packet changed the packet or the state");
        break;
      }
      default: watched(c, d, names[k], [&](const uint8_t* p) { return H265Utils::GetSliceQpY(p, d.size(), &st); });
    }
  }
  // the stored sets can be dumped like any other structure
  for (auto& p : st.vps) dumped(c, s, *p.second, "stored vps");
  for (auto& p : st.sps) dumped(c, s, *p.second, "stored sps");
  for (auto& p : st.pps) dumped(c, s, *p.second, "stored pps");
}

PROP(C38, programs, 6000, "histories of extreme, damaged and arbitrary deliveries; non-trivial when something was parsed and printed") {
  auto prog = gen_program(s, 6);
  for (auto& x : prog) {
    c.input(x.d);
    c.input(x.op);
    c.input(x.p0 << 8 | x.p1);
    if (c.want_sample) {
      std::string t = fmt("[op %u p0 %u p1 %u ", x.op % Exerciser::kOps, x.p0, x.p1);
      c.sample += t + pbt::hex(x.d, 60) + "] ";
      c.input_desc += t + pbt::hex(x.d, 4000) + "]\n";
    }
  }
  Exerciser e;
  Watch w;
  e.run(prog);
  std::string why = w.silent();
  CHECK(c, why.empty(), why);
  c.nontrivial = e.st.objects > 0;
}
