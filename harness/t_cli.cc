// C32, C33: the command-line tool, run in a forked child (its main() is linked
// in under the name cli_main), against the library parse and dump (C32) and an
// independent model of the length report (C33).
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <climits>
#include <fstream>
#include <sstream>

#include "names.h"
#include "stream.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

int cli_main(int argc, char** argv);

// ------------------------------------------------------------------ running
struct Scratch {
  std::vector<std::string> files;
  std::string name(const char* what) {
    std::string n = std::string(what) + "." + std::to_string(getpid());
    files.push_back(n);
    unlink(n.c_str());
    return n;
  }
  std::string file(const char* what, const Bytes& b) {
    std::string n = name(what);
    std::ofstream f(n, std::ios::binary);
    f.write((const char*)b.data(), (std::streamsize)b.size());
    return n;
  }
  ~Scratch() {
    for (auto& f : files) unlink(f.c_str());
  }
};
static bool slurp(const std::string& path, std::string* out) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  std::stringstream ss;
  ss << f.rdbuf();
  *out = ss.str();
  return true;
}
struct Run {
  int status = 0;  // exit status, 1000 + signal
  std::string out, err;
};
// step > 0: the input comes through a pipe, that many bytes at a time
static Run run_cli(Scratch& sc, const std::vector<std::string>& args, const Bytes* input, size_t step = 0) {
  std::string so = sc.name("stdout"), se = sc.name("stderr"), si;
  si = input && !step ? sc.file("stdin", *input) : "/dev/null";
  fflush(nullptr);
  int pp[2] = {-1, -1};
  pid_t feeder = -1;
  if (input && step && pipe(pp) == 0) {
    feeder = fork();
    if (feeder == 0) {
      close(pp[0]);
      signal(SIGPIPE, SIG_DFL);
      alarm(60);
      for (size_t i = 0; i < input->size(); i += step) {
        size_t n = std::min(step, input->size() - i), done = 0;
        while (done < n) {
          ssize_t w = write(pp[1], input->data() + i + done, n - done);
          if (w <= 0) _exit(1);
          done += (size_t)w;
        }
        if (i / step < 20) usleep(200);
      }
      _exit(0);
    }
    close(pp[1]);
  }
  pid_t pid = fork();
  if (pid == 0) {
    int fo = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int fe = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int fi = pp[0] >= 0 ? pp[0] : open(si.c_str(), O_RDONLY);
    dup2(fi, 0);
    dup2(fo, 1);
    dup2(fe, 2);
    stderr = fdopen(2, "w");
    setvbuf(stderr, nullptr, _IONBF, 0);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    alarm(60);
    std::vector<std::vector<char>> store;
    store.push_back({'h', '2', '6', '5', 'n', 'a', 'l', 0});
    for (auto& a : args) {
      std::vector<char> v(a.begin(), a.end());
      v.push_back(0);
      store.push_back(v);
    }
    std::vector<char*> argv;
    for (auto& v : store) argv.push_back(v.data());
    argv.push_back(nullptr);
    int rc = cli_main((int)store.size(), argv.data());
    fflush(stdout);
    _exit(rc & 0xff);
  }
  Run r;
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (pp[0] >= 0) close(pp[0]);
  if (feeder > 0) {
    int fs = 0;
    while (waitpid(feeder, &fs, 0) < 0 && errno == EINTR) {
    }
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  slurp(so, &r.out);
  slurp(se, &r.err);
  return r;
}

// ------------------------------------------------------------------ options
struct Opts {
  int debug = 0;
  bool length_mode = false;
  bool one_line = true;
  bool off = false, len = false, plen = false, sum = false, res = false, contents = false;
  int width = -1;
  int fps = 30;
  std::vector<std::string> args;

  ParsingOptions parsing() const {
    ParsingOptions p;
    p.add_offset = off || contents;
    p.add_length = len || contents || length_mode;
    p.add_parsed_length = plen;
    p.add_checksum = sum;
    p.add_resolution = res;
    return p;
  }
  std::string text() const {
    std::string o;
    for (auto& a : args) o += (o.empty() ? "" : " ") + a;
    return o;
  }
};
static void value_opt(Src& s, Opts& o, const char* name, const std::string& v) {
  if (s.flag()) {
    o.args.push_back(std::string("--") + name + "=" + v);
  } else {
    o.args.push_back(std::string("--") + name);
    o.args.push_back(v);
  }
}
static void file_opt(Src& s, Opts& o, char sh, const char* name, const std::string& v) {
  switch (s.uni(0, 3)) {
    case 0: o.args.push_back(std::string("-") + sh); o.args.push_back(v); break;
    case 1: o.args.push_back(std::string("-") + sh + v); break;
    case 2: o.args.push_back(std::string("--") + name); o.args.push_back(v); break;
    default: o.args.push_back(std::string("--") + name + "=" + v);
  }
}
// one option that needs no file; which: -1 any
static void toggle(Src& s, Opts& o, bool length_report, int width_last) {
  struct T {
    const char* on;
    const char* off;
    bool Opts::*f;
  };
  static const T t[] = {{"--as-one-line", "--no-as-one-line", &Opts::one_line},
                        {"--add-offset", "--no-add-offset", &Opts::off},
                        {"--add-length", "--no-add-length", &Opts::len},
                        {"--add-parsed-length", "--no-add-parsed-length", &Opts::plen},
                        {"--add-checksum", "--no-add-checksum", &Opts::sum},
                        {"--add-resolution", "--no-add-resolution", &Opts::res},
                        {"--add-contents", "--no-add-contents", &Opts::contents}};
  (void)length_report;
  unsigned k = (unsigned)s.uni(0, 19);
  if (k < 14) {
    const T& x = t[k / 2];
    bool v = s.flag();
    o.args.push_back(v ? x.on : x.off);
    o.*(x.f) = v;
  } else if (k < 16) {
    o.length_mode = s.flag();
    o.args.push_back(o.length_mode ? "--dump-length" : "--dump-all");
  } else if (k == 16) {
    static const std::vector<std::string> q = {"-d", "--debug", "-q", "--quiet", "-dq", "-qd", "-dd"};
    const std::string& a = s.pick(q);
    o.args.push_back(a);
    if (a == "-d" || a == "--debug") o.debug++;
    if (a == "-q" || a == "--quiet" || a == "-dq") o.debug = 0;
    if (a == "-qd") o.debug = 1;
    if (a == "-dd") o.debug += 2;
  } else if (k == 17) {
    o.fps = (int)(s.flag() ? s.uni(0, 120) : s.u(0, INT_MAX));
    value_opt(s, o, "frames-per-second", std::to_string(o.fps));
  } else {
    // framing; a later option may override it
    o.width = width_last != INT_MIN && s.flag() ? width_last : (int)s.uni(0, 9) - 1;
    value_opt(s, o, "nalu-length-bytes", std::to_string(o.width));
  }
}

// ------------------------------------------------------------------ oracle
static std::string contents_text(const Bytes& in, const NalUnit& u) {
  std::string o = " contents {";
  for (size_t i = 0; i < u.length; i++) {
    if (u.offset + i >= in.size()) break;
    o += fmt(" %02x", in[u.offset + i]);
    if (i % 16 == 15) o += " ";
  }
  return o + " }";
}
struct Expect {
  bool ok = true;
  std::string out;
};
static Expect expected(const Opts& o, const Bytes* box, const Bytes* in) {
  Expect e;
  ParserState st;
  ParsingOptions po = o.parsing();
  int ind = o.one_line ? -1 : 0;
  if (box) {
    auto b = H265ConfigurationBoxParser::ParseConfigurationBox(box->data(), box->size(), &st, po);
    if (box->empty() || !b) {
      e.ok = false;
      return e;
    }
    e.out += dump_str(*b, ind, po) + "\n";
  }
  if (in) {
    if (in->empty()) {
      e.ok = false;
      return e;
    }
    auto b = o.width < 0 ? H265BitstreamParser::ParseBitstream(in->data(), in->size(), &st, po)
                         : H265BitstreamParser::ParseBitstreamNALULength(in->data(), in->size(), (size_t)o.width, &st, po);
    for (auto& u : b->nal_units) {
      e.out += dump_str(*u, ind, po);
      if (o.contents) e.out += contents_text(*in, *u);
      e.out += "\n";
    }
  }
  return e;
}
static std::string first_diff(const std::string& e, const std::string& g) {
  size_t i = 0;
  while (i < e.size() && i < g.size() && e[i] == g[i]) i++;
  size_t a = i > 60 ? i - 60 : 0;
  return fmt("at %zu of %zu/%zu: expected [", i, e.size(), g.size()) + e.substr(a, 160) + "] got [" + g.substr(a, 160) + "]";
}

// where the tool writes
struct Sink {
  std::string path;  // empty: stdout
};
static Sink draw_sink(Src& s, Opts& o, Scratch& sc) {
  Sink k;
  switch (s.uni(0, 3)) {
    case 0:
    case 1: break;
    case 2: {
      k.path = s.flag() ? sc.name("out") : sc.file("out", Bytes(s.uni(1, 9000), 'x'));
      if (s.chance(1, 3)) {
        // overridden by the later one
        file_opt(s, o, 'o', "outfile", sc.name("out0"));
      }
      file_opt(s, o, 'o', "outfile", k.path);
      break;
    }
    default: file_opt(s, o, 'o', "outfile", "-");
  }
  return k;
}
static void fail_if(Ctx& c, bool bad, const std::string& what, const Opts& o, const Run& r) {
  if (bad) c.fail(what + "\narguments: " + o.text() + fmt("\nexit status %d", r.status) + "\nstderr: " + r.err.substr(0, 500));
}
static void check_output(Ctx& c, const std::string& want, const Opts& o, const Run& r, const Sink& k) {
  fail_if(c, r.status != 0, "the tool failed", o, r);
  std::string got = r.out;
  if (!k.path.empty()) {
    fail_if(c, o.debug < 2 && !r.out.empty(), "output on stdout although a file was given: " + r.out.substr(0, 200), o, r);
    got.clear();
    fail_if(c, !slurp(k.path, &got), "no output file", o, r);
  }
  if (o.debug >= 2 && k.path.empty()) {
    // informative lines come first
    bool ok = got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0;
    fail_if(c, !ok, "output does not end with the dump: " + first_diff(want, got), o, r);
    return;
  }
  fail_if(c, got != want, "output differs " + first_diff(want, got), o, r);
}

// ------------------------------------------------------------------ C32
PROP(C32, dump, 2600, "runs of the tool that dump everything; non-trivial with at least three units dumped") {
  Scratch sc;
  Opts o;
  ParserState m;
  UnitOpt uo;
  uo.wild = true;
  bool use_box = s.chance(1, 3), use_in = !use_box || !s.chance(1, 4);
  Bytes box, in;
  size_t units = 0;
  if (use_box) {
    GBox g = gen_box(s, m);
    box = g.data;
    units += g.units.size();
    c.input(box);
    c.tag("hvcC");
  }
  int width = INT_MIN;
  if (use_in) {
    Units v = gen_stream(s, m, 1, 6, uo);
    note_units(c, v);
    units += v.size();
    switch (s.uni(0, 3)) {
      case 0:
      case 1:
        in = annexb(s, v).data;
        width = -1;
        break;
      case 2:
        width = (int)s.uni(min_width(v), 8);
        in = length_prefixed(v, (unsigned)width).data;
        break;
      default:
        in = v.back().ebsp;
        width = 0;
    }
    if (s.chance(1, 8)) in.resize((size_t)s.uni(1, in.size()));
    c.tag(width < 0 ? "annexb" : width == 0 ? "single unit" : "length prefixed");
  }
  std::string inf = use_in ? sc.file("in", in) : "", boxf = use_box ? sc.file("box", box) : "";
  // options in random order, some set more than once
  unsigned n = (unsigned)s.uni(0, 8);
  unsigned at_in = (unsigned)s.uni(0, n), at_box = (unsigned)s.uni(0, n), at_out = (unsigned)s.uni(0, n);
  Sink k;
  bool from_stdin = false;
  for (unsigned i = 0; i <= n; i++) {
    if (i == at_in && use_in) {
      if (s.chance(1, 6)) file_opt(s, o, 'i', "infile", sc.name("nosuch"));  // overridden below
      from_stdin = s.chance(1, 6);
      file_opt(s, o, 'i', "infile", from_stdin ? "-" : inf);
    }
    if (i == at_box && use_box) {
      if (s.chance(1, 6)) value_opt(s, o, "hvcc-file", sc.name("nosuch"));
      value_opt(s, o, "hvcc-file", boxf);
    }
    if (i == at_out) k = draw_sink(s, o, sc);
    if (i < n) toggle(s, o, false, width);
  }
  if (use_in && width != o.width && !s.chance(1, 10)) {
    o.width = width;
    value_opt(s, o, "nalu-length-bytes", std::to_string(width));
  }
  if (o.length_mode) {
    o.length_mode = false;
    o.args.push_back("--dump-all");
  }
  if (s.chance(1, 12)) o.args.push_back(s.flag() ? "extra" : "--");
  Expect e = expected(o, use_box ? &box : nullptr, use_in ? &in : nullptr);
  for (auto& a : o.args) c.input(a);
  if (from_stdin) c.tag("stdin");
  if (!k.path.empty()) c.tag("output file");
  if (o.contents) c.tag("contents");
  if (o.debug > 1) c.tag("debug");
  c.sample = o.text() + " input " + pbt::hex(in, 60);
  c.input_desc = o.text() + "\ninput " + pbt::hex(in, 4000) + "\nbox " + pbt::hex(box, 2000);
  Run r = run_cli(sc, o.args, from_stdin ? &in : nullptr, from_stdin && s.flag() ? s.u(1, 5000) : 0);
  CHECK(c, e.ok, "generated box rejected by the library");
  check_output(c, e.out, o, r, k);
  c.nontrivial = units >= 3;
}

PROP(C32, errors, 1200, "runs of the tool that must be refused; non-trivial always") {
  Scratch sc;
  Opts o;
  ParserState m;
  Units v = gen_stream(s, m, 1, 3);
  Bytes in = annexb(s, v).data;
  std::string inf = sc.file("in", in);
  GBox g = gen_box(s, m);
  Bytes box = g.data;
  unsigned kind = (unsigned)s.uni(0, 10);
  static const char* names[] = {"missing input", "empty input", "missing box", "empty box", "unparseable box",
                                "bad number", "unknown option", "no input", "unwritable output", "directory as input", "directory as box"};
  c.tag(names[kind]);
  unsigned n = (unsigned)s.uni(0, 4), at = (unsigned)s.uni(0, n);
  Sink k;
  bool give_in = true, give_box = s.chance(1, 4);
  std::string boxf = sc.file("box", box);
  Bytes empty;
  if (kind == 0) inf = s.flag() ? sc.name("nosuch") : "nosuchdir." + std::to_string(getpid()) + "/in";
  if (kind == 1) inf = sc.file("empty", empty);
  if (kind >= 2 && kind <= 4) {
    give_box = true;
    give_in = s.flag();
    if (kind == 2) boxf = sc.name("nosuch");
    if (kind == 3) boxf = sc.file("box", empty);
    if (kind == 4) {
      // cut inside the record's mandatory part, or arbitrary bytes that cannot be one
      Bytes b = box;
      b.resize((size_t)s.uni(1, std::min<size_t>(b.size() - 1, 22)));
      ParserState t;
      CHECK(c, !H265ConfigurationBoxParser::ParseConfigurationBox(b.data(), b.size(), &t, ParsingOptions()), "cut record accepted");
      boxf = sc.file("box", b);
    }
  }
  if (kind == 9 || kind == 10) {
    std::string dir = "dir." + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    if (kind == 9) inf = dir;
    if (kind == 10) boxf = dir;
    give_box = give_box || kind == 10;
    if (kind == 10) give_in = s.flag();
  }
  if (kind == 7) give_in = give_box = false;
  for (unsigned i = 0; i <= n; i++) {
    if (i == at) {
      if (give_in) file_opt(s, o, 'i', "infile", inf);
      if (give_box) value_opt(s, o, "hvcc-file", boxf);
      if (kind == 5) {
        bool fps = s.flag();
        static const std::vector<std::string> bad = {"", "abc", "1x", "x1", "2147483648", "99999999999999999999",
                                                     "-99999999999999999999", "-2", "1.5", "0x4", "--1", "4 "};
        static const std::vector<std::string> badf = {"", "abc", "30x", "x1", "2147483648", "99999999999999999999",
                                                      "-1", "29.97", "-30", "0x1e", "3e1"};
        std::string b = s.chance(1, 4) ? std::to_string(fps ? -(int64_t)s.u(1, INT_MAX) : -(int64_t)s.u(2, INT_MAX))
                        : s.chance(1, 4) ? std::to_string((uint64_t)INT_MAX + s.u(1, 1ull << 40))
                                         : s.pick(fps ? badf : bad);
        value_opt(s, o, fps ? "frames-per-second" : "nalu-length-bytes", b);
      }
      if (kind == 6) {
        static const std::vector<std::string> bad = {"--no-such-option", "-z", "--add-nothing", "-5", "--dump", "-dz", "--add-", "-o", "--infile"};
        o.args.push_back(s.pick(bad));
        // an option without its argument is only at fault at the end
        if (o.args.back() == "-o" || o.args.back() == "--infile") break;
      }
      if (kind == 8) file_opt(s, o, 'o', "outfile", "nosuchdir." + std::to_string(getpid()) + "/out");
      else if (kind != 6) k = draw_sink(s, o, sc);
    }
    if (i < n) toggle(s, o, false, INT_MIN);
  }
  for (auto& a : o.args) c.input(a);
  c.sample = std::string(names[kind]) + ": " + o.text();
  c.input_desc = c.sample + "\ninput " + pbt::hex(in, 1000) + "\nbox " + pbt::hex(box, 1000);
  Run r = run_cli(sc, o.args, nullptr);
  fail_if(c, r.status == 0, std::string("the tool accepted: ") + names[kind], o, r);
  fail_if(c, r.status == 86 || r.status == 77 || r.status >= 1000, std::string("the tool crashed: ") + names[kind], o, r);
  fail_if(c, o.debug < 2 && !r.out.empty(), std::string("output although refused (") + names[kind] + "): " + r.out.substr(0, 200), o, r);
  if (kind == 9 || kind == 10) rmdir(("dir." + std::to_string(getpid())).c_str());
  std::string of;
  if (!k.path.empty() && slurp(k.path, &of))
    fail_if(c, of.find('{') != std::string::npos, std::string("dump although refused (") + names[kind] + "): " + of.substr(0, 200), o, r);
  c.nontrivial = true;
}

PROP(C32, large, 16, "inputs of more than a megabyte or of thousands of units, half of them with a large record; non-trivial with more than 256 units or a megabyte") {
  Scratch sc;
  Opts o;
  bool far = s.flag();
  LongStream l = gen_long(s, far ? (unsigned)s.uni(3, 30) : (unsigned)s.uni(257, 4500), all_kinds());
  if (far) {
    GUnit u;
    u.type = s.pick(opaque_types());
    u.what = "large opaque";
    u.ebsp = {(uint8_t)(u.type << 1), 1};
    u.ebsp.resize((1u << 20) + (size_t)s.u(0, 300000), (uint8_t)s.uni(4, 255));
    l.pool.push_back(u);
    l.seq.insert(l.seq.begin() + (long)s.uni(0, l.size() - 1), (uint32_t)l.pool.size() - 1);
  }
  note_long(c, l);
  unsigned width = s.flag() ? 0 : (unsigned)s.uni(min_width(l), 8);
  Bytes in = frame_long(s, l, width).data, box;
  bool from_stdin = s.flag(), use_box = s.flag();
  if (use_box) {
    ParserState m;
    UnitOpt uo;
    uo.array_units = (unsigned)s.uni(14000, 40000);
    box = gen_box(s, m, uo).data;
    c.input(box);
  }
  std::string inf = from_stdin ? "-" : sc.file("in", in);
  file_opt(s, o, 'i', "infile", inf);
  for (unsigned k = (unsigned)s.uni(0, 5); k > 0; k--) toggle(s, o, false, width ? (int)width : -1);
  o.width = width ? (int)width : -1;
  value_opt(s, o, "nalu-length-bytes", std::to_string(o.width));
  o.length_mode = false;
  o.args.push_back("--dump-all");
  o.contents = s.flag();
  o.args.push_back(o.contents ? "--add-contents" : "--no-add-contents");
  if (use_box) value_opt(s, o, "hvcc-file", sc.file("box", box));
  Sink k = draw_sink(s, o, sc);
  for (auto& a : o.args) c.input(a);
  c.sample = o.text() + " " + c.sample;
  c.input_desc = o.text() + "\n" + c.input_desc;
  if (use_box) c.sample += fmt(", box of %zu bytes", box.size());
  Expect e = expected(o, use_box ? &box : nullptr, &in);
  CHECK(c, e.ok, "generated box rejected by the library");
  Run r = run_cli(sc, o.args, from_stdin ? &in : nullptr);
  check_output(c, e.out, o, r, k);
  c.nontrivial = true;
}
PROP(C32, info, 240, "runs that ask for the version or the help text; non-trivial always") {
  Scratch sc;
  Opts o;
  ParserState m;
  std::string inf = sc.file("in", annexb(s, gen_stream(s, m, 1, 3)).data);
  unsigned n = (unsigned)s.uni(0, 4), at = (unsigned)s.uni(0, n);
  bool version = s.flag(), given = s.flag();
  if (given) file_opt(s, o, 'i', "infile", inf);
  Sink k;
  for (unsigned i = 0; i <= n; i++) {
    if (i == at) o.args.push_back(version ? "--version" : s.flag() ? "--help" : "-h");
    if (i < n) toggle(s, o, false, INT_MIN);
  }
  if (s.chance(1, 3)) k = draw_sink(s, o, sc);
  for (auto& a : o.args) c.input(a);
  c.tag(version ? "version" : "help");
  c.sample = c.input_desc = o.text();
  Run r = run_cli(sc, o.args, nullptr);
  fail_if(c, r.status >= 1000 || r.status == 86 || r.status == 77, "the tool crashed", o, r);
  fail_if(c, r.out.find('{') != std::string::npos, "a dump although only information was asked for: " + r.out.substr(0, 200), o, r);
  std::string of;
  if (!k.path.empty() && slurp(k.path, &of))
    fail_if(c, of.find('{') != std::string::npos, "a dump although only information was asked for: " + of.substr(0, 200), o, r);
  if (version) {
    fail_if(c, r.status != 0, "asking for the version fails", o, r);
    fail_if(c, r.out.compare(0, 9, "version: ") != 0 || r.out.size() < 12 || r.out.find('\n') != r.out.size() - 1, "version: " + r.out.substr(0, 200), o, r);
  } else {
    fail_if(c, r.err.find("--nalu-length-bytes") == std::string::npos || r.err.find("--add-checksum") == std::string::npos,
            "no list of the options", o, r);
  }
  c.nontrivial = true;
}

// ------------------------------------------------------------------ C33
struct Report {
  std::string text;
  uint64_t frames = 0, rows = 0;
};
static Report length_report(const std::vector<const GUnit*>& v, const std::vector<size_t>& lens, uint64_t fps) {
  Report r;
  r.text =
      "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,"
      "slice_segment_address,slice_pic_order_cnt_lsb\n";
  // group first: a frame ends where the next first slice begins
  uint64_t frame = 0, bytes = 0;
  unsigned last = 0;
  auto end_frame = [&]() {
    if (bytes == 0) return false;
    r.text += "," + std::to_string(frame) + "," + std::to_string(last) + ",frame,," + std::to_string(bytes * 8 * fps) + ",,,\n";
    r.frames++;
    bytes = 0;
    return true;
  };
  for (size_t i = 0; i < v.size(); i++) {
    const GUnit& u = *v[i];
    std::string cols = ",,";
    if (is_slice_type(u.type)) {
      auto& l = u.exp->nal_unit_payload->slice_segment_layer;
      if (l) {
        auto& h = *l->slice_segment_header;
        if (h.first_slice_segment_in_pic_flag && end_frame()) frame++;
        cols = std::to_string(h.first_slice_segment_in_pic_flag) + "," + std::to_string(h.slice_segment_address) + "," +
               std::to_string(h.slice_pic_order_cnt_lsb);
      }
      bytes += lens[i];
      last = u.type;
    }
    r.text += std::to_string(i) + "," + std::to_string(frame) + "," + std::to_string(u.type) + "," + nal_type_name(u.type) + "," +
              std::to_string(lens[i]) + ",," + cols + "\n";
    r.rows++;
  }
  end_frame();
  return r;
}

static Report length_report(const Units& v, const std::vector<size_t>& lens, uint64_t fps) {
  std::vector<const GUnit*> p;
  for (auto& u : v) p.push_back(&u);
  return length_report(p, lens, fps);
}
PROP(C33, report, 4000, "length reports of generated streams; non-trivial with at least two frames") {
  Scratch sc;
  Opts o;
  ParserState m;
  bool use_box = s.chance(1, 6);
  Bytes box;
  std::string pre;
  if (use_box) {
    GBox g = gen_box(s, m);
    box = g.data;
  }
  UnitOpt uo;
  uo.slice_weight = 20;
  Units v = gen_stream(s, m, 1, 10, uo);
  note_units(c, v);
  if (use_box) c.input(box);
  Framed f;
  int width = -1;
  if (s.chance(1, 3)) {
    width = (int)s.uni(min_width(v), 8);
    f = length_prefixed(v, (unsigned)width);
  } else {
    f = annexb(s, v);
  }
  std::string inf = sc.file("in", f.data), boxf = use_box ? sc.file("box", box) : "";
  unsigned n = (unsigned)s.uni(0, 6), at = (unsigned)s.uni(0, n);
  Sink k;
  bool from_stdin = s.chance(1, 8);
  for (unsigned i = 0; i <= n; i++) {
    if (i == at) {
      file_opt(s, o, 'i', "infile", from_stdin ? "-" : inf);
      if (use_box) value_opt(s, o, "hvcc-file", boxf);
      k = draw_sink(s, o, sc);
    }
    if (i < n) toggle(s, o, true, width);
  }
  if (o.width != width) {
    o.width = width;
    value_opt(s, o, "nalu-length-bytes", std::to_string(width));
  }
  if (!o.length_mode) {
    o.length_mode = true;
    o.args.push_back("--dump-length");
  }
  for (auto& a : o.args) c.input(a);
  c.sample = o.text() + " " + describe(v);
  c.input_desc = o.text() + "\n" + describe(v, 40) + "\ninput " + pbt::hex(f.data, 4000) + "\nbox " + pbt::hex(box, 1000);
  if (use_box) {
    Expect e = expected(o, &box, nullptr);
    CHECK(c, e.ok, "generated box rejected by the library");
    pre = e.out;
  }
  Report rep = length_report(v, f.len, (uint64_t)o.fps);
  Run r = run_cli(sc, o.args, from_stdin ? &f.data : nullptr, from_stdin && s.flag() ? s.u(1, 5000) : 0);
  check_output(c, pre + rep.text, o, r, k);
  if (rep.frames > 2) c.tag("three frames or more");
  if (o.fps > 1000000) c.tag("high frame rate");
  c.nontrivial = rep.frames >= 2;
}

PROP(C33, many, 60, "length reports of streams of thousands of units; non-trivial with more than 256 frames") {
  Scratch sc;
  Opts o;
  ParserState m;
  UnitOpt uo;
  uo.broken = false;
  uo.max_unit = 300;
  Units v, pool;
  uo.only = U_SPS;
  v.push_back(gen_unit(s, m, uo));
  uo.only = U_PPS;
  v.push_back(gen_unit(s, m, uo));
  unsigned np = (unsigned)s.uni(2, 6);
  for (unsigned i = 0; i < np; i++) {
    uo.only = U_SLICE;
    pool.push_back(gen_unit(s, m, uo));
  }
  uo.only = U_AUD;
  pool.push_back(gen_unit(s, m, uo));
  unsigned n = (unsigned)(s.chance(1, 5) ? s.uni(60000, 140000) : s.uni(300, 4000));
  Framed f;
  uint64_t st = s.uni(0, UINT32_MAX);
  bool prefixed = s.flag();
  unsigned width = (unsigned)s.uni(4, 8);
  // the units and the bytes
  std::vector<const GUnit*> seq;
  for (auto& u : v) seq.push_back(&u);
  for (unsigned i = 0; i < n; i++) seq.push_back(&pool[pbt::splitmix(st) % pool.size()]);
  std::vector<size_t> lens;
  Bytes data;
  for (auto* u : seq) {
    if (prefixed)
      for (unsigned k = 0; k < width; k++) data.push_back(width - k > 8 ? 0 : (uint8_t)((uint64_t)u->ebsp.size() >> 8 * (width - k - 1)));
    else
      for (uint8_t b : {0, 0, 1}) data.push_back(b);
    data.insert(data.end(), u->ebsp.begin(), u->ebsp.end());
    lens.push_back(u->ebsp.size());
  }
  note_units(c, v);
  note_units(c, pool);
  c.tag(n > 65536 ? "more than 65536 units" : prefixed ? "prefixes" : "start codes");
  std::string inf = sc.file("in", data);
  o.fps = (int)s.u(0, INT_MAX);
  o.args = {"-i", inf, "--dump-length", "--frames-per-second", std::to_string(o.fps)};
  if (prefixed) o.args.push_back("--nalu-length-bytes"), o.args.push_back(std::to_string(width));
  o.length_mode = true;
  for (auto& a : o.args) c.input(a);
  c.sample = o.text() + fmt(" %u units of ", n) + describe(pool);
  c.input_desc = c.sample + "\n" + describe(v, 40) + "\n" + describe(pool, 40);
  Report rep = length_report(seq, lens, (uint64_t)o.fps);
  Run r = run_cli(sc, o.args, nullptr);
  check_output(c, rep.text, o, r, Sink());
  c.nontrivial = rep.frames > 256;
}
