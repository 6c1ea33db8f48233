// Driver of the property-based checks: generates cases from a seed over
// several worker processes, attributes failures and crashes to a case,
// shrinks the choice list, replays it and reports.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>

#include "core.h"

using namespace pbt;

// set by a harness unit that can write a seed corpus for the fuzzer
void (*pbt_make_corpus)(const std::string& dir, uint64_t seed) = nullptr;

std::vector<Prop>& pbt::registry() {
  static std::vector<Prop> r;
  return r;
}

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:"
         "max_allocation_size_mb=512:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:"
         "handle_abort=1:malloc_context_size=8:quarantine_size_mb=16:print_summary=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=86"; }
#endif

// present in coverage builds only
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:history_size=4"; }

namespace {

// the library's own messages are not wanted; sanitizer reports go to fd 2
void quiet() {
  cookie_io_functions_t io = {nullptr,
                              [](void*, const char* b, size_t n) -> ssize_t {
                                if (memmem(b, n, "Assertion", 9) && write(2, b, n) < 0) return -1;
                                return (ssize_t)n;
                              },
                              nullptr, nullptr};
  FILE* f = fopencookie(nullptr, "w", io);
  if (f) stderr = f;
}

#ifndef PBT_WORKERS
#define PBT_WORKERS 8
#endif
const int kWorkers = PBT_WORKERS;
const int kCaseCpuSeconds = 20;

struct Slot {
  volatile uint64_t idx;
  volatile uint64_t done;
};
struct Shared {
  volatile int stop;
  Slot slot[64];
};

double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t idx) {
  std::string k = std::string(p.id) + "/" + p.part;
  uint64_t h = fnv(k.data(), k.size());
  uint64_t x = h ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1B54A32D192ED03ull);
  splitmix(x);
  return splitmix(x);
}

void on_prof(int) {
  static const char m[] = "CASE-TIMEOUT: one case used more than the CPU limit\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(77);
}
void arm(int sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// runs one case in this process; true = property held
bool run_case(const Prop& p, Src& s, Ctx& c, std::string* msg) {
  try {
    p.fn(s, c);
    return true;
  } catch (const PropFail& f) {
    *msg = f.msg;
  } catch (const std::exception& e) {
    *msg = std::string("uncaught exception: ") + e.what();
  }
  return false;
}

std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void spit(const std::string& path, const std::string& s) {
  std::ofstream f(path, std::ios::binary);
  f << s;
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch > 0x7e) {
      o += fmt("\\u%04x", ch);
    } else {
      o += (char)ch;
    }
  }
  return o;
}

std::string crash_summary(const std::string& err, int status) {
  std::string o;
  const char* keys[] = {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "SUMMARY:", "CASE-TIMEOUT", "terminate called"};
  std::stringstream ss(err);
  std::string line;
  int n = 0;
  while (std::getline(ss, line) && n < 4)
    for (auto k : keys)
      if (line.find(k) != std::string::npos) {
        if (!o.empty()) o += " | ";
        o += line.substr(0, 300);
        n++;
        break;
      }
  if (o.empty()) {
    if (WIFSIGNALED(status))
      o = fmt("killed by signal %d", WTERMSIG(status));
    else
      o = fmt("exited with status %d", WEXITSTATUS(status));
    o += " " + err.substr(0, 300);
  }
  return "process died: " + o;
}

struct Outcome {
  bool failed = false;
  std::string msg, desc;
  std::vector<uint64_t> choices;
  bool crash = false;
};

std::string g_dir;
uint64_t* g_mirror = nullptr;
const size_t kMirror = 1u << 22;

// run one case in a forked child
Outcome exec_case(const Prop& p, const std::vector<uint64_t>* list, uint64_t seed, bool want_desc = true) {
  std::string errf = g_dir + "/exec.err", outf = g_dir + "/exec.out";
  unlink(outf.c_str());
  g_mirror[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
  quiet();
    choice_mirror().mem = g_mirror;
    choice_mirror().cap = kMirror;
    arm(kCaseCpuSeconds);
    Src s = list ? Src(*list) : Src(seed);
    Ctx c;
    c.want_sample = want_desc;
    std::string msg;
    bool ok = run_case(p, s, c, &msg);
    if (ok) _exit(0);
    spit(outf, msg + '\0' + c.input_desc);
    _exit(1);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  o.choices.assign(g_mirror + 1, g_mirror + 1 + g_mirror[0]);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
    std::string t = slurp(outf);
    size_t z = t.find('\0');
    o.msg = t.substr(0, z);
    if (z != std::string::npos) o.desc = t.substr(z + 1);
  } else {
    o.crash = true;
    o.msg = crash_summary(slurp(errf), st);
  }
  return o;
}

// simpler = shorter, then lexicographically smaller
std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> cur, double budget) {
  double end = now() + budget;
  auto fails = [&](const std::vector<uint64_t>& v, std::vector<uint64_t>* norm) {
    Outcome o = exec_case(p, &v, 0, false);
    if (o.failed && norm) *norm = o.choices;
    return o.failed;
  };
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](const std::vector<uint64_t>& v) {
    std::vector<uint64_t> n;
    if (!fails(v, &n)) return false;
    std::vector<uint64_t> cand = better(n, v) ? n : v;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!better(cand, cur)) return false;
    cur = cand;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t i = cur.size(); i > 0 && now() < end;) {
        size_t a = i > len ? i - len : 0;
        if (a >= cur.size()) {
          i = cur.size();
          if (i == 0) break;
          continue;
        }
        std::vector<uint64_t> v(cur.begin(), cur.begin() + (long)a);
        if (i < cur.size()) v.insert(v.end(), cur.begin() + (long)i, cur.end());
        if (attempt(v)) progress = true;
        i = a;
      }
      if (len == 1) break;
    }
    // zero chunks
    for (size_t len = std::max<size_t>(1, cur.size() / 4); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i < cur.size() && now() < end; i += len) {
        std::vector<uint64_t> v = cur;
        bool nz = false;
        for (size_t k = i; k < std::min(i + len, v.size()); k++) {
          nz |= v[k] != 0;
          v[k] = 0;
        }
        if (nz && attempt(v)) progress = true;
      }
      if (len == 1) break;
    }
    // lower single values
    for (size_t i = 0; i < cur.size() && now() < end; i++) {
      uint64_t lo = 0;
      while (i < cur.size() && cur[i] > lo && now() < end) {
        std::vector<uint64_t> v = cur;
        uint64_t mid = lo + (cur[i] - lo) / 2;
        v[i] = mid;
        if (attempt(v))
          progress = true;
        else if (mid == lo && lo + 1 >= cur[i])
          break;
        else
          lo = mid + 1;
        if (lo >= (i < cur.size() ? cur[i] : 0)) break;
      }
    }
  }
  return cur;
}

struct Stats {
  uint64_t evals = 0, nontrivial = 0;
  std::vector<uint64_t> sigs;
  std::map<std::string, uint64_t> tags;
  std::vector<std::string> samples;
};

void put_stats(const std::string& path, const Stats& st) {
  std::ofstream f(path, std::ios::binary);
  f << st.evals << " " << st.nontrivial << " " << st.sigs.size() << " " << st.tags.size() << " " << st.samples.size() << "\n";
  f.write((const char*)st.sigs.data(), (std::streamsize)(st.sigs.size() * 8));
  for (auto& t : st.tags) f << t.second << " " << t.first << "\n";
  for (auto& t : st.samples) f << t.size() << "\n" << t << "\n";
}
bool get_stats(const std::string& path, Stats& into) {
  std::ifstream f(path, std::ios::binary);
  uint64_t ev, nt, ns, ntag, nsam;
  if (!(f >> ev >> nt >> ns >> ntag >> nsam)) return false;
  f.get();
  into.evals += ev;
  into.nontrivial += nt;
  size_t old = into.sigs.size();
  into.sigs.resize(old + ns);
  f.read((char*)(into.sigs.data() + old), (std::streamsize)(ns * 8));
  for (uint64_t i = 0; i < ntag; i++) {
    uint64_t n;
    std::string name;
    f >> n;
    f.get();
    std::getline(f, name);
    into.tags[name] += n;
  }
  for (uint64_t i = 0; i < nsam; i++) {
    size_t n;
    f >> n;
    f.get();
    std::string t(n, ' ');
    f.read(&t[0], (std::streamsize)n);
    f.get();
    into.samples.push_back(t);
  }
  return true;
}

void worker(const Prop& p, uint64_t seed, int w, uint64_t cases, double deadline, Shared* sh, uint64_t start,
            const std::string& base) {
  int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 2);
  quiet();
  Stats st;
  std::set<uint64_t> seen;
  uint64_t idx = start;
  for (; idx < cases; idx += kWorkers) {
    if ((idx / kWorkers) % 16 == 0 && (now() > deadline || sh->stop)) break;
    sh->slot[w].idx = idx;
    arm(kCaseCpuSeconds);
    Src s(case_seed(seed, p, idx));
    Ctx c;
    c.want_sample = st.samples.size() < 2 && idx >= 5 * kWorkers;
    std::string msg;
    bool ok = run_case(p, s, c, &msg);
    st.evals++;
    if (c.nontrivial) {
      st.nontrivial++;
      seen.insert(c.sig);
      if (c.want_sample && !c.sample.empty()) st.samples.push_back(c.sample);
    }
    for (auto& t : c.tags) st.tags[t.first] += t.second;
    if (!ok) {
      sh->stop = 1;
      spit(base + ".fail", std::to_string(idx) + "\n" + msg);
      break;
    }
  }
  arm(0);
  sh->slot[w].idx = idx;
  st.sigs.assign(seen.begin(), seen.end());
  put_stats(base + ".stats", st);
  sh->slot[w].done = 1;
  if (__llvm_profile_write_file) __llvm_profile_write_file();
  _exit(0);
}

struct Known {
  std::string part, text;
};
std::vector<Known> g_known;
std::set<std::string> g_known_hit;

int report(const Prop& p, const std::string& replay_dir, const std::vector<uint64_t>& ch, const std::string& msg,
           const std::string& desc, uint64_t seed, long hist_w, long hist_idx) {
  std::string body = "{\n \"property\": \"" + std::string(p.id) + "\",\n \"part\": \"" + p.part + "\",\n \"message\": \"" +
                     jesc(msg) + "\",\n \"input\": \"" + jesc(desc) + "\",\n";
  if (hist_idx >= 0)
    body += fmt(" \"history\": [%llu, %ld, %ld],\n", (unsigned long long)seed, hist_w, hist_idx);
  body += " \"choices\": [";
  for (size_t i = 0; i < ch.size(); i++) body += (i ? "," : "") + std::to_string(ch[i]);
  body += "]\n}\n";
  uint64_t h = fnv(body.data(), body.size());
  mkdir(replay_dir.c_str(), 0777);
  std::string path = replay_dir + "/" + p.id + "_" + p.part + fmt("_%08x.json", (unsigned)(h ^ (h >> 32)));
  spit(path, body);
  printf("property %s part %s: %s\n", p.id, p.part, msg.c_str());
  if (!desc.empty()) printf("input: %.2000s\n", desc.c_str());
  printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
  fflush(stdout);
  return 1;
}

// re-run cases start, start+kWorkers, ..., idx of one worker in one child
Outcome exec_history(const Prop& p, uint64_t seed, int w, uint64_t start, uint64_t idx) {
  std::string errf = g_dir + "/exec.err", outf = g_dir + "/exec.out";
  unlink(outf.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
  quiet();
    for (uint64_t i = start; i <= idx; i += kWorkers) {
      arm(kCaseCpuSeconds);
      Src s(case_seed(seed, p, i));
      Ctx c;
      std::string msg;
      if (!run_case(p, s, c, &msg)) {
        spit(outf, msg);
        _exit(1);
      }
    }
    _exit(0);
  }
  (void)w;
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  o.msg = WIFEXITED(st) && WEXITSTATUS(st) == 1 ? slurp(outf) : crash_summary(slurp(errf), st);
  return o;
}

// 1 violation, 0 none, 2 not reproduced
int handle_failure(const Prop& p, uint64_t seed, int w, uint64_t idx, const std::string& first_msg,
                   const std::string& replay_dir, std::string* note) {
  Outcome o = exec_case(p, nullptr, case_seed(seed, p, idx));
  if (!o.failed) {
    // perhaps the failure needs the cases before it (state kept by the code)
    for (int k = 0; k < 2; k++) {
      Outcome h = exec_history(p, seed, w, (uint64_t)w, idx);
      if (h.failed) return report(p, replay_dir, {}, "after the preceding cases of the same process: " + h.msg, "", seed, w, (long)idx);
    }
    for (int k = 0; k < 20 && !o.failed; k++) o = exec_case(p, nullptr, case_seed(seed, p, idx));
    if (!o.failed) {
      *note = "not reproduced: " + first_msg;
      // a failed expectation or a sanitizer report was seen on real code and
      // counts (a race, memory contents); running out of time or being ended
      // from outside does not
      for (auto k : {"CASE-TIMEOUT", "killed by signal", "exited with status", "out of memory"})
        if (first_msg.find(k) != std::string::npos) return 2;
      return report(p, replay_dir, {}, "seen once, not on repetition: " + first_msg, "", seed, w, (long)idx);
    }
  }
  std::vector<uint64_t> ch = o.choices;
#ifndef PBT_NO_SHRINK
  if (ch.size() < kMirror - 2) ch = shrink(p, ch, 25.0);
#endif
  int hits = 0;
  Outcome r;
  for (int k = 0; k < 3; k++) {
    Outcome t = exec_case(p, &ch, 0);
    if (t.failed) {
      hits++;
      r = t;
    }
  }
  if (hits < 3 && hits == 0) {
    ch = o.choices;
    r = o;
  }
  for (auto& kf : g_known)
    if (kf.part == p.part && r.msg.find(kf.text) != std::string::npos) {
      g_known_hit.insert(kf.part + ": " + kf.text);
      return 3;
    }
  return report(p, replay_dir, ch, r.msg, r.desc, seed, -1, -1);
}

std::vector<uint64_t> parse_choices(const std::string& j, const char* key) {
  std::vector<uint64_t> v;
  size_t a = j.find(std::string("\"") + key + "\": [");
  if (a == std::string::npos) return v;
  a = j.find('[', a) + 1;
  size_t b = j.find(']', a);
  std::stringstream ss(j.substr(a, b - a));
  std::string t;
  while (std::getline(ss, t, ',')) v.push_back(strtoull(t.c_str(), nullptr, 10));
  return v;
}
std::string parse_str(const std::string& j, const char* key) {
  size_t a = j.find(std::string("\"") + key + "\": \"");
  if (a == std::string::npos) return "";
  a = j.find('"', a + strlen(key) + 3) + 1;
  return j.substr(a, j.find('"', a) - a);
}

}  // namespace

int main(int argc, char** argv) {
  std::string id, out, replay_dir = "replay", replay, only_part, known, corpus;
  uint64_t seed = 1;
  double scale = 1, wall = 60;
  g_dir = "/tmp";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") id = v;
    else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(v.c_str());
    else if (a == "--wall") wall = atof(v.c_str());
    else if (a == "--out") out = v;
    else if (a == "--replay-dir") replay_dir = v;
    else if (a == "--dir") g_dir = v;
    else if (a == "--replay") replay = v;
    else if (a == "--part") only_part = v;
    else if (a == "--make-corpus") corpus = v;
    else if (a == "--known") known = v;
  }
  if (!corpus.empty()) {
    quiet();
    if (pbt_make_corpus) pbt_make_corpus(corpus, seed);
    return 0;
  }
  signal(SIGPROF, on_prof);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  g_mirror = (uint64_t*)mmap(nullptr, kMirror * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  if (!replay.empty()) {
    std::string j = slurp(replay);
    id = parse_str(j, "property");
    std::string part = parse_str(j, "part");
    for (auto& p : registry())
      if (id == p.id && part == p.part) {
        std::vector<uint64_t> h = parse_choices(j, "history");
        std::vector<uint64_t> ch = parse_choices(j, "choices");
        Outcome o = h.size() == 3 ? exec_history(p, h[0], (int)h[1], h[1], h[2]) : exec_case(p, &ch, 0);
        if (o.failed) {
          printf("property %s part %s: %s\n", p.id, p.part, o.msg.c_str());
          if (!o.desc.empty()) printf("input: %.4000s\n", o.desc.c_str());
          printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
          return 1;
        }
        printf("replay passes\n");
        return 0;
      }
    fprintf(stderr, "no such property part\n");
    return 2;
  }
  if (!known.empty()) {
    std::stringstream ss(known);
    std::string line;
    while (std::getline(ss, line, '\n')) {
      size_t a = line.find('\t');
      if (a != std::string::npos) g_known.push_back(Known{line.substr(0, a), line.substr(a + 1)});
    }
  }

  double t0 = now();
  std::string json = "{\"parts\": [";
  int rc = 0;
  bool first = true;
  size_t nparts = 0;
  for (auto& p : registry())
    if (id == p.id && (only_part.empty() || only_part == p.part)) nparts++;
  if (nparts == 0) {
    fprintf(stderr, "no property %s\n", id.c_str());
    return 2;
  }
  for (auto& p : registry()) {
    if (id != p.id || (!only_part.empty() && only_part != p.part)) continue;
    uint64_t cases = (uint64_t)((double)p.quick_cases * scale);
    if (cases < 8) cases = 8;
    double deadline = now() + wall / (double)nparts * 1.0;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(kWorkers);
    double p0 = now();
    auto base = [&](int w) { return g_dir + "/" + p.id + "_" + p.part + "_w" + std::to_string(w); };
    for (int w = 0; w < kWorkers; w++) {
      unlink((base(w) + ".fail").c_str());
      unlink((base(w) + ".stats").c_str());
      pids[w] = fork();
      if (pids[w] == 0) worker(p, seed, w, cases, deadline, sh, (uint64_t)w, base(w));
    }
    Stats st;
    std::string note;
    bool violated = false;
    for (int w = 0; w < kWorkers; w++) {
      int ws = 0;
      while (waitpid(pids[w], &ws, 0) < 0 && errno == EINTR) {
      }
      uint64_t idx = sh->slot[w].idx;
      if (sh->slot[w].done) {
        get_stats(base(w) + ".stats", st);
        std::string f = slurp(base(w) + ".fail");
        if (!f.empty() && !violated) {
          uint64_t fi = strtoull(f.c_str(), nullptr, 10);
          std::string n;
          int r = handle_failure(p, seed, w, fi, f.substr(f.find('\n') + 1), replay_dir, &n);
          if (r == 1) violated = true;
          if (!n.empty()) note += n + "; ";
        }
      } else {
        sh->stop = 1;
        st.evals += idx / kWorkers + 1;
        if (!violated) {
          std::string n;
          int r = handle_failure(p, seed, w, idx, crash_summary(slurp(base(w) + ".err"), ws), replay_dir, &n);
          if (r == 1) violated = true;
          if (!n.empty()) note += n + "; ";
        }
      }
      unlink((base(w) + ".fail").c_str());
      unlink((base(w) + ".stats").c_str());
      unlink((base(w) + ".err").c_str());
    }
    munmap(sh, sizeof(Shared));
    if (violated) rc = 1;
    std::sort(st.sigs.begin(), st.sigs.end());
    st.sigs.erase(std::unique(st.sigs.begin(), st.sigs.end()), st.sigs.end());
    double wall_s = now() - p0;
    printf("part %s: %llu cases, %llu distinct non-trivial, %.1f s%s%s\n", p.part, (unsigned long long)st.evals,
           (unsigned long long)st.sigs.size(), wall_s, note.empty() ? "" : " NOTE ", note.c_str());
    if (!first) json += ", ";
    first = false;
    json += "{\"part\": \"" + std::string(p.part) + "\", \"evaluations\": " + std::to_string(st.evals) +
            ", \"planned\": " + std::to_string(cases) + ", \"nontrivial\": " + std::to_string(st.nontrivial) +
            ", \"distinct_nontrivial\": " + std::to_string(st.sigs.size()) + ", \"rule\": \"" + jesc(p.rule) +
            "\", \"wall_s\": " + fmt("%.2f", wall_s) + ", \"note\": \"" + jesc(note) + "\", \"classes\": {";
    bool f2 = true;
    for (auto& t : st.tags) {
      json += std::string(f2 ? "" : ", ") + "\"" + jesc(t.first) + "\": " + std::to_string(t.second);
      f2 = false;
    }
    json += "}, \"samples\": [";
    for (size_t i = 0; i < st.samples.size() && i < 4; i++) {
      std::string t = st.samples[i];
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      json += (i ? ", \"" : "\"") + jesc(t) + "\"";
    }
    json += "]}";
  }
  json += "], \"known_hit\": [";
  bool f3 = true;
  for (auto& k : g_known_hit) {
    json += std::string(f3 ? "\"" : ", \"") + jesc(k) + "\"";
    f3 = false;
  }
  json += "], \"wall_s\": " + fmt("%.2f", now() - t0) + "}\n";
  if (!out.empty()) spit(out, json);
  return rc;
}
