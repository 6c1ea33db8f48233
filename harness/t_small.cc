// C36: the small-footprint build against the full build, and the tool built
// in that configuration.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>

#include "api_impl.h"
#include "stream.h"
using namespace h265nal;
using pbt::Ctx;
using pbt::Src;

namespace small_api {
void* open();
void close(void*);
std::string run(void*, int op, const uint8_t* d, size_t n, const std::vector<uint64_t>& p);
}  // namespace small_api
int cli_main(int argc, char** argv);

struct Both {
  ApiSession full;
  void* small = small_api::open();
  ~Both() { small_api::close(small); }
  std::string step(Ctx& c, const char* what, int op, const Bytes& d, const std::vector<uint64_t>& p) {
    Exact x(d), y(d);
    std::string a = api_run(full, op, x.p.get(), x.n, p);
    std::string b = small_api::run(small, op, y.p.get(), y.n, p);
    if (a != b) c.fail(std::string(what) + ": the builds differ " + pbt::diff_text(a, b));
    return a;
  }
};
// damage bytes: replace, cut, repeat, drop
static void mutate(Src& s, Bytes& d) {
  for (unsigned k = (unsigned)s.uni(0, 4); k > 0 && !d.empty(); k--) {
    size_t i = (size_t)s.uni(0, d.size() - 1);
    switch (s.uni(0, 4)) {
      case 0: d[i] ^= (uint8_t)(1u << s.uni(0, 7)); break;
      case 1: d[i] = (uint8_t)s.u(0, 255); break;
      case 2: d.resize(i); break;
      case 3: d.insert(d.begin() + (long)i, (uint8_t)s.u(0, 255)); break;
      default: d.erase(d.begin() + (long)i);
    }
  }
}

PROP(C36, streams, 10000, "histories of streams, units and records given to both builds; non-trivial when a payload was decoded") {
  Both b;
  ParserState m;
  UnitOpt uo;
  uo.wild = true;
  uo.wild_sets = true;
  unsigned n = (unsigned)s.uni(1, 4);
  for (unsigned i = 0; i < n; i++) {
    unsigned k = (unsigned)s.uni(0, 5);
    std::vector<uint64_t> p{s.uni(0, 31), 0};
    Bytes d;
    if (k == 3) {
      d = gen_box(s, m, uo).data;
      c.tag("hvcC");
    } else if (k == 2) {
      GUnit u = gen_unit(s, m, uo);
      p[1] = s.uni(0, 1);
      d = p[1] ? u.ebsp : u.rbsp;
      c.tag(u.what);
    } else {
      Units v = gen_stream(s, m, 1, 5, uo);
      for (auto& u : v) c.tag(u.what);
      if (k == 1) {
        p[1] = s.chance(1, 8) ? s.uni(0, 9) : s.uni(min_width(v), 8);
        d = length_prefixed(v, (unsigned)p[1]).data;
      } else {
        d = annexb(s, v).data;
      }
    }
    if (s.chance(1, 3)) mutate(s, d);
    c.input(d);
    if (c.want_sample) {
      c.sample += fmt("op %u ", k) + pbt::hex(d, 60) + " ";
      c.input_desc += fmt("op %u ", k) + pbt::hex(d, 2000) + "\n";
    }
    std::string r = b.step(c, "history", (int)k, d, p);
    c.nontrivial |= r.find("_unit_type") != std::string::npos || r.size() > 400;
  }
}

PROP(C36, structures, 30000, "single structures, valid, cut and damaged; non-trivial when something was decoded") {
  static const int op_of[] = {10, 11, 12, -1, 13, 14, 15, -1, 16, 17, -1, 26, 18, 19, 20, 21, 22, 23, 24, 25};
  int kind = (int)s.uni(0, K_COUNT - 1);
  int op = op_of[kind];
  if (op < 0) op = 10 + (int)s.uni(0, 16);
  Enc E(s);
  SCase sc = gen_case(kind, E);
  Bytes d = E.w.bytes();
  if (s.chance(1, 2)) mutate(s, d);
  if (s.chance(1, 10)) d.resize((size_t)s.uni(0, d.size()));
  std::vector<uint64_t> p{s.uni(0, 3), s.uni(0, 14), s.uni(0, 8), s.uni(0, 14)};
  c.input(d);
  c.input((uint64_t)op);
  c.tag(kind_name(kind));
  c.sample = c.want_sample ? fmt("op %d ", op) + pbt::hex(d, 100) : "";
  if (c.want_sample) c.input_desc = fmt("op %d ", op) + pbt::hex(d, 3000);
  Both b;
  std::string r = b.step(c, kind_name(kind), op, d, p);
  c.nontrivial = r.compare(0, 4, "null") != 0;
}

// the tool of the small build prints nothing but its status is the same
PROP(C36, tool, 800, "runs of the small-footprint tool; non-trivial with at least two units") {
  ParserState m;
  UnitOpt uo;
  uo.wild = true;
  Units v = gen_stream(s, m, 1, 5, uo);
  note_units(c, v);
  c.nontrivial = v.size() >= 2;
  bool lp = s.flag();
  Bytes d = lp ? length_prefixed(v, 4).data : annexb(s, v).data;
  bool use_box = s.chance(1, 3), bad = use_box && s.flag();
  Bytes box;
  if (use_box) {
    box = gen_box(s, m).data;
    if (bad) box.resize((size_t)s.uni(1, 22));
  }
  bool missing = s.chance(1, 6);
  std::string inf = fmt("small_in.%d", (int)getpid()), boxf = fmt("small_box.%d", (int)getpid());
  unlink(inf.c_str());
  auto put = [](const std::string& n, const Bytes& b) {
    std::ofstream f(n, std::ios::binary);
    f.write((const char*)b.data(), (std::streamsize)b.size());
  };
  if (!missing) put(inf, d);
  if (use_box) put(boxf, box);
  std::vector<std::string> args{"h265nal", "-i", inf};
  if (lp) args.push_back("--nalu-length-bytes=4");
  if (use_box) args.push_back("--hvcc-file=" + boxf);
  if (s.flag()) args.push_back("--dump-length");
  if (s.flag()) args.push_back("--add-contents");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    alarm(60);
    std::vector<char*> av;
    for (auto& a : args) av.push_back(&a[0]);
    av.push_back(nullptr);
    _exit(cli_main((int)args.size(), av.data()) & 0xff);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  unlink(inf.c_str());
  unlink(boxf.c_str());
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0, crash = !WIFEXITED(st) || WEXITSTATUS(st) == 86;
  CHECK(c, !crash, fmt("the small-footprint tool crashed, status %x", st));
  CHECK(c, ok == (!missing && !bad), fmt("the small-footprint tool ended with status %x", st));
}
