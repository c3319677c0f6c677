#include "core.h"
#include "wrap.h"
#include <exception>
#include <cerrno>
#include <cstdarg>
#include <chrono>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
#include <algorithm>
#include <sstream>
#include <fstream>

Feat g_feat;
std::string g_dir;
bool g_thorough = false;
static int g_result_fd = -1;
enum { RC_OK = 0, RC_VIOL = 77, RC_HARNESS = 78 };

std::vector<Property> &registry() { static std::vector<Property> r; return r; }

static double now_s() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- cases
std::string Case::text() const {
  std::string s;
  for (auto &o : ops) {
    s += o.name;
    for (long v : o.a) { s += ' '; s += std::to_string(v); }
    s += '\n';
  }
  return s;
}
Case Case::parse(const std::string &t) {
  Case c;
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    Op o;
    ls >> o.name;
    long v;
    while (ls >> v) o.a.push_back(v);
    c.ops.push_back(o);
  }
  return c;
}
uint64_t Case::hash() const {
  uint64_t h = 1469598103934665603ULL;
  for (char ch : text()) { h ^= (unsigned char)ch; h *= 1099511628211ULL; }
  return h;
}

// ---------------------------------------------------------------- helpers
Bytes fill_bytes(uint64_t seed, size_t n) {
  Bytes b(n, 0);
  Rng r(seed * 2654435761u + 12345);
  size_t i = 0;
  while (i < n) {
    uint64_t v = r.next();
    size_t k = std::min<size_t>(8, n - i);
    memcpy(&b[i], &v, k);
    i += k;
  }
  return b;
}
std::string hexs(const Bytes &b, size_t maxn) {
  std::string s;
  char t[4];
  for (size_t i = 0; i < b.size() && i < maxn; i++) { snprintf(t, 4, "%02x", (unsigned char)b[i]); s += t; }
  if (b.size() > maxn) s += "..(" + std::to_string(b.size()) + ")";
  return s;
}
Bytes read_file(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
void write_file(const std::string &p, const Bytes &b) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(b.data(), (std::streamsize)b.size());
  f.close();
  if (!f) vharness("cannot write %s", p.c_str());
}
bool file_exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
long file_size(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0 ? (long)st.st_size : -1; }

std::string status_text(int st) {
  char b[96];
  if (st == -1) return "timed out";
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
  return b;
}

// ---------------------------------------------------------------- child side
static void send_all(int fd, const char *p, size_t n) {
  while (n) {
    ssize_t k = write(fd, p, n);
    if (k < 0) { if (errno == EINTR) continue; return; }
    p += k; n -= (size_t)k;
  }
}
static void vreport(char kind, const char *fmt, va_list ap) {
  char buf[4000];
  int n = vsnprintf(buf + 1, sizeof buf - 2, fmt, ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof buf - 3) n = sizeof buf - 3;
  buf[0] = kind;
  for (int i = 1; i <= n; i++) if (buf[i] == '\n') buf[i] = ' ';
  buf[n + 1] = '\n';
  if (g_result_fd >= 0) send_all(g_result_fd, buf, (size_t)n + 2);
  else fwrite(buf, 1, (size_t)n + 2, stderr);
}
bool g_mute = false;             // a failed comparison ends the case without a verdict
[[noreturn]] static void vpass() {
  std::string s = "Fmuted 1\nD\n";
  if (g_result_fd >= 0) send_all(g_result_fd, s.data(), s.size());
  _exit(0);
}
void vfail(const char *fmt, ...) {
  if (g_mute) vpass();
  va_list ap; va_start(ap, fmt); vreport('V', fmt, ap); va_end(ap);
  _exit(RC_VIOL);
}
void vharness(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vreport('H', fmt, ap); va_end(ap);
  _exit(RC_HARNESS);
}

SubResult run_sub(const std::function<void(const std::function<void(const Bytes &)> &)> &f, int timeout_s) {
  int p[2];
  if (pipe(p)) vharness("pipe: %s", strerror(errno));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) vharness("fork: %s", strerror(errno));
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p[0]);
    g_stop_ok = true;
    std::set_terminate([] { _exit(134); });
    f([&](const Bytes &b) { send_all(p[1], b.data(), b.size()); });
    _exit(0);
  }
  close(p[1]);
  SubResult r{0, false, {}};
  double end = now_s() + timeout_s;
  for (;;) {
    struct pollfd pf{p[0], POLLIN, 0};
    int left = (int)((end - now_s()) * 1000);
    if (left <= 0) { r.timed_out = true; break; }
    int k = poll(&pf, 1, left);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { r.timed_out = true; break; }
    char buf[65536];
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n <= 0) break;
    r.out.append(buf, (size_t)n);
  }
  close(p[0]);
  if (r.timed_out) kill(pid, SIGKILL);
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
  return r;
}

// ---------------------------------------------------------------- runner
static void rm_tree(const std::string &d) {
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (struct dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
    else unlink(p.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}

struct Outcome {
  enum K { OK, VIOL, HARNESS } k = OK;
  std::string msg;
  Feat feat;
};

static Outcome run_case(const Property &P, const Case &c, const std::string &dir, int timeout_s, bool keep_err) {
  Outcome o;
  rm_tree(dir);
  mkdir(dir.c_str(), 0700);
  int p[2];
  if (pipe(p)) { o.k = Outcome::HARNESS; o.msg = "pipe"; return o; }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { o.k = Outcome::HARNESS; o.msg = "fork"; close(p[0]); close(p[1]); return o; }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGTERM, SIG_DFL);
    signal(SIGINT, SIG_DFL);
    close(p[0]);
    g_result_fd = fcntl(p[1], F_DUPFD_CLOEXEC, 200);
    close(p[1]);
    setpgid(0, 0);
    g_dir = dir;
    int fd = open(keep_err ? (dir + "/../stderr.txt").c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    // a case that runs away is stopped before it takes the machine's memory
    bool large = !strcmp(P.id, "C21");
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rl.rlim_cur = rl.rlim_max = large ? (rlim_t)20 << 30 : (rlim_t)3 << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    if (!large && strcmp(P.id, "C25")) {
      rl.rlim_cur = rl.rlim_max = (rlim_t)2 << 30;
      setrlimit(RLIMIT_FSIZE, &rl);
    }
    g_feat.clear();
    P.run(c);
    std::string s;
    for (auto &kv : g_feat) s += "F" + kv.first + " " + std::to_string(kv.second) + "\n";
    s += "D\n";
    send_all(g_result_fd, s.data(), s.size());
    _exit(0);
  }
  close(p[1]);
  std::string out;
  bool to = false;
  double end = now_s() + timeout_s;
  for (;;) {
    struct pollfd pf{p[0], POLLIN, 0};
    int left = (int)((end - now_s()) * 1000);
    if (left <= 0) { to = true; break; }
    int k = poll(&pf, 1, left);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { to = true; break; }
    char buf[65536];
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n <= 0) break;
    out.append(buf, (size_t)n);
  }
  close(p[0]);
  kill(-pid, SIGKILL);
  if (to) kill(pid, SIGKILL);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  kill(-pid, SIGKILL);
  bool done = false;
  std::istringstream in(out);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'V' && o.k != Outcome::VIOL) { o.k = Outcome::VIOL; o.msg = line.substr(1); }
    else if (line[0] == 'H') { o.k = Outcome::HARNESS; o.msg = line.substr(1); }
    else if (line[0] == 'D') done = true;
    else if (line[0] == 'F') {
      size_t sp = line.rfind(' ');
      o.feat[line.substr(1, sp - 1)] = atol(line.c_str() + sp + 1);
    }
  }
  if (o.k == Outcome::OK && !done) {
    o.k = Outcome::VIOL;
    if (to) o.msg = "no answer within " + std::to_string(timeout_s) + " s (hang or deadlock)";
    else o.msg = "the library ended the process: " + status_text(st);
  }
  return o;
}

static bool is_hang(const std::string &m) { return m.find("no answer within") != std::string::npos; }

// ---- shrinking
static Case shrink(const Property &P, Case c, const std::string &dir, double budget_s, std::string &msg, long &tried) {
  double end = now_s() + budget_s;
  int to = std::max(5, P.timeout_s);
  auto fails = [&](const Case &k) {
    tried++;
    Outcome o = run_case(P, k, dir, to, false);
    if (o.k == Outcome::VIOL) { msg = o.msg; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    // drop blocks of operations
    for (size_t blk = std::max<size_t>(1, (c.ops.size() - 1) / 2); blk >= 1 && now_s() < end; blk /= 2) {
      for (size_t i = 1; i < c.ops.size() && now_s() < end;) {
        Case k = c;
        size_t e = std::min(k.ops.size(), i + blk);
        k.ops.erase(k.ops.begin() + (long)i, k.ops.begin() + (long)e);
        if (k.ops.size() < c.ops.size() && fails(k)) { c = k; progress = true; }
        else i += blk;
      }
      if (blk == 1) break;
    }
    // shrink numbers
    for (size_t i = 0; i < c.ops.size() && now_s() < end; i++)
      for (size_t j = 0; j < c.ops[i].a.size() && now_s() < end; j++) {
        long v = c.ops[i].a[j];
        std::vector<long> cand;
        if (v != 0) cand.push_back(0);
        if (v > 1) { cand.push_back(1); cand.push_back(v / 2); cand.push_back(v - 1); }
        for (long w : cand) {
          if (now_s() >= end) break;
          if (w == c.ops[i].a[j]) continue;
          Case k = c;
          k.ops[i].a[j] = w;
          if (fails(k)) { c = k; progress = true; j--; break; }
        }
      }
  }
  return c;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o;
}

// Every directory below is created by this process and removed by it.
static std::string make_scratch() {
  const char *bases[] = {getenv("VF_SCRATCH"), "/dev/shm", "/tmp"};
  for (const char *b : bases) {
    if (!b) continue;
    std::string t = std::string(b) + "/vf.XXXXXX";
    std::vector<char> v(t.begin(), t.end());
    v.push_back(0);
    if (mkdtemp(v.data())) return v.data();
  }
  fprintf(stderr, "cannot create a scratch directory\n");
  exit(2);
}

static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  const Property *P = nullptr;
  if (argc > 2) for (auto &q : registry()) if (std::string(argv[2]) == q.id) P = &q;
  if (mode == "list") { for (auto &q : registry()) printf("%s\n", q.id); return 0; }
  if (!P) { fprintf(stderr, "usage: vf run|replay|gen PROP [file|index]\n"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  uint64_t seed = 1;
  if (const char *s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
  std::string tier = "quick";
  if (const char *s = getenv("VERIF_TIER")) if (std::string(s) == "thorough") tier = s;
  g_thorough = tier == "thorough";
  if (mode == "gen") {
    uint64_t i = argc > 3 ? strtoull(argv[3], nullptr, 10) : 0;
    Rng r(mix64(mix64(seed, Case::parse(P->id).hash()), i));
    printf("%s", P->gen(r, i).text().c_str());
    return 0;
  }
  std::string scratch = make_scratch();
  if (mode == "replay") {
    Case c = Case::parse(read_file(argv[3]));
    Outcome o = run_case(*P, c, scratch + "/r", P->timeout_s * 2, true);
    if (argc > 4) printf("%s", read_file(scratch + "/stderr.txt").c_str());
    printf("%s %s\n", o.k == Outcome::OK ? "OK" : o.k == Outcome::VIOL ? "VIOLATED" : "HARNESS", o.msg.c_str());
    for (auto &kv : o.feat) printf("  %s=%ld\n", kv.first.c_str(), kv.second);
    rm_tree(scratch);
    return o.k == Outcome::VIOL ? 1 : o.k == Outcome::OK ? 0 : 2;
  }
  // ---- run
  const char *evdir = getenv("VF_EVIDENCE");
  const char *rpdir = getenv("VF_REPLAYS");
  signal(SIGTERM, on_term);
  signal(SIGINT, on_term);
  double t0 = now_s();
  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  int J = P->jobs ? P->jobs : (int)std::max(1L, std::min(16L, ncpu));
  long ncases = g_thorough ? P->thorough_cases : P->quick_cases;
  double budget = g_thorough ? P->thorough_s : P->quick_s;
  if (const char *s = getenv("VF_BUDGET_S")) budget = atof(s);
  if (const char *s = getenv("VF_CASES")) ncases = atol(s);
  int pp[2];
  if (pipe(pp)) return 2;
  std::vector<pid_t> kids;
  for (int w = 0; w < J; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(pp[0]);
      std::string dir = scratch + "/w" + std::to_string(w);
      mkdir(dir.c_str(), 0700);
      for (long i = w; i < ncases && now_s() - t0 < budget && !g_stop; i += J) {
        Rng r(mix64(mix64(seed, Case::parse(P->id).hash()), (uint64_t)i));
        Case c = P->gen(r, (uint64_t)i);
        double s = now_s();
        Outcome o = run_case(*P, c, dir + "/c", P->timeout_s, false);
        if (o.k == Outcome::HARNESS) o = run_case(*P, c, dir + "/c", P->timeout_s, false);
        double el = now_s() - s;
        std::string m;
        if (o.k == Outcome::OK) {
          bool nt = P->nontrivial(o.feat);
          m = "R " + std::to_string(i) + " " + std::to_string(nt) + " " + std::to_string(c.hash()) + " " + std::to_string((long)(el * 1e6));
          for (auto &kv : o.feat) m += " " + kv.first + "=" + std::to_string(kv.second);
        } else
          m = std::string(o.k == Outcome::VIOL ? "V " : "H ") + std::to_string(i) + " " + o.msg;
        if (m.size() > 3900) m.resize(3900);
        m += "\n";
        send_all(pp[1], m.data(), m.size());
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  close(pp[1]);
  long evals = 0, slow_us = 0;
  std::set<uint64_t> nontriv;
  Feat tot;
  std::map<std::string, long> cases_with;
  std::vector<long> sample_idx;
  std::vector<std::string> sample_feat;
  long viol_idx = -1, harness_errs = 0, unreproduced = 0;
  Case viol_case;
  std::string viol_msg, harness_msg;
  std::string acc;
  for (;;) {
    char buf[65536];
    ssize_t n = read(pp[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) { if (g_stop) break; continue; }
    if (n <= 0) break;
    acc.append(buf, (size_t)n);
    size_t nl;
    while ((nl = acc.find('\n')) != std::string::npos) {
      std::string l = acc.substr(0, nl);
      acc.erase(0, nl + 1);
      std::istringstream in(l);
      std::string k;
      long idx;
      in >> k >> idx;
      if (k == "R") {
        int nt; uint64_t h; long us;
        in >> nt >> h >> us;
        evals++;
        if (getenv("VF_SLOW") && us > atof(getenv("VF_SLOW")) * 1e6) fprintf(stderr, "slow case %ld: %.1f s\n", idx, us / 1e6);
        slow_us = std::max(slow_us, us);
        std::string kv, fs;
        while (in >> kv) {
          size_t e = kv.find('=');
          long v = atol(kv.c_str() + e + 1);
          tot[kv.substr(0, e)] += v;
          if (v) cases_with[kv.substr(0, e)]++;
          fs += kv + " ";
        }
        if (nt && nontriv.insert(h).second && sample_idx.size() < 4) { sample_idx.push_back(idx); sample_feat.push_back(fs); }
      } else if (k == "V") {
        std::string m1;
        std::getline(in, m1);
        if (viol_idx >= 0) continue;
        // the failure has to come back from the case alone
        Rng r(mix64(mix64(seed, Case::parse(P->id).hash()), (uint64_t)idx));
        Case c = P->gen(r, (uint64_t)idx);
        // a hang costs the whole limit per attempt: one attempt with twice the limit decides
        bool hang = is_hang(m1);
        int rep = 0, att = 0, need = P->nondet || hang ? 1 : 3, most = hang ? 1 : P->nondet ? 40 : 3;
        for (; att < most && rep < need; att++) {
          double rs = now_s();
          Outcome o = run_case(*P, c, scratch + "/r", P->timeout_s * 2, false);
          if (now_s() - rs > 15) need = 1;      // slow cases: failing twice is enough
          if (o.k == Outcome::VIOL) { rep++; viol_msg = o.msg; }
          else if (!P->nondet) break;
        }
        if (rep >= need) { viol_idx = idx; viol_case = c; }
        else {
          unreproduced++;
          fprintf(stderr, "case %ld failed once and not again (%d of %d): %s\n", idx, rep, att, m1.c_str());
        }
      } else if (k == "H") { harness_errs++; std::getline(in, harness_msg); }
    }
    if (viol_idx >= 0) break;
  }
  for (pid_t k : kids) kill(k, SIGTERM);
  // workers finish the case at hand, whose children are bounded by timeouts
  if (viol_idx >= 0 || g_stop) {
    for (pid_t k : kids) kill(k, SIGKILL);
  }
  close(pp[0]);
  for (pid_t k : kids) while (waitpid(k, nullptr, 0) < 0 && errno == EINTR) {}
  int rc = 0;
  std::string replay;
  long shrink_tried = 0;
  if (viol_idx >= 0) {
    Case c = viol_case;
    {
      double sb = g_thorough ? 120 : 60;
      if (is_hang(viol_msg)) sb = 30;
      if (getenv("VF_NOSHRINK")) sb = 0;
      Case s = shrink(*P, c, scratch + "/r", sb, viol_msg, shrink_tried);
      int again = 0;
      bool hang = is_hang(viol_msg);
      if (hang) again = 2;
      for (int i = 0; i < (hang ? 1 : 6) && again < 3; i++) {
        double rs = now_s();
        Outcome o = run_case(*P, s, scratch + "/r", P->timeout_s * 2, false);
        if (o.k == Outcome::VIOL) { again += now_s() - rs > 15 ? 3 : 1; viol_msg = o.msg; }
      }
      if (again < 3 && !P->nondet) s = c;
      std::string dir = rpdir ? rpdir : ".";
      mkdir(dir.c_str(), 0755);
      replay = dir + "/" + P->id + "-" + std::to_string(seed) + ".case";
      std::ofstream f(replay);
      f << "# property " << P->id << "\n# " << viol_msg << "\n# replay: bash /verif/run.sh replay " << P->id << " " << replay << "\n" << s.text();
      f.close();
      printf("property %s violated by case %ld (seed %llu): %s\n", P->id, viol_idx, (unsigned long long)seed, viol_msg.c_str());
      printf("minimised to %zu operations:\n%s", s.ops.size(), s.text().size() < 4000 ? s.text().c_str() : "(see replay file)\n");
      printf("VIOLATION property=%s replay=%s\n", P->id, replay.c_str());
      rc = 1;
    }
  }
  double wall = now_s() - t0;
  if (evdir) {
    mkdir(evdir, 0755);
    std::ofstream f(std::string(evdir) + "/" + P->id + ".json");
    f << "{\n \"property\": \"" << P->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"" << P->level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals
      << ",\n  \"distinct_nontrivial\": " << nontriv.size() << ",\n  \"rule\": \"" << jesc(P->rule) << "\",\n  \"unreproduced\": " << unreproduced << ",\n  \"slowest_case_ms\": " << slow_us / 1000
      << ",\n  \"harness_errors\": " << harness_errs << ",\n  \"shrink_attempts\": " << shrink_tried << ",\n  \"totals\": {";
    bool first = true;
    for (auto &kv : tot) { f << (first ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second; first = false; }
    f << "},\n  \"cases_with\": {";
    first = true;
    for (auto &kv : cases_with) { f << (first ? "" : ", ") << "\"" << jesc(kv.first) << "\": " << kv.second; first = false; }
    f << "},\n  \"samples\": [";
    for (size_t i = 0; i < sample_idx.size(); i++) {
      Rng r(mix64(mix64(seed, Case::parse(P->id).hash()), (uint64_t)sample_idx[i]));
      std::string t = P->gen(r, (uint64_t)sample_idx[i]).text();
      if (t.size() > 1500) t = t.substr(0, 1500) + "... (" + std::to_string(t.size()) + " bytes of case text)";
      f << (i ? ",\n   " : "\n   ") << "{\"case\": " << sample_idx[i] << ", \"features\": \"" << jesc(sample_feat[i]) << "\", \"ops\": \"" << jesc(t) << "\"}";
    }
    f << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < P->assumptions.size(); i++) f << (i ? ", " : "") << "\"" << jesc(P->assumptions[i]) << "\"";
    f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  rm_tree(scratch);
  printf("%s %s seed=%llu: %ld cases, %zu distinct non-trivial, %.1f s%s\n", P->id, tier.c_str(), (unsigned long long)seed, evals,
         nontriv.size(), wall, harness_errs ? " (harness errors!)" : "");
  if (rc == 0 && (harness_errs > 0)) { fprintf(stderr, "harness error: %s\n", harness_msg.c_str()); rc = 2; }
  if (rc == 0 && evals == 0) { fprintf(stderr, "nothing was evaluated\n"); rc = 2; }
  return rc;
}
