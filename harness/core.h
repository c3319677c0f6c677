// Property-based testing core: deterministic generator, textual cases, forked
// execution, shrinking, evidence.  See DESIGN.md.
#ifndef VF_CORE_H
#define VF_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  template <class T> const T &pick(const std::vector<T> &l) { return l[below(l.size())]; }
  // index drawn with the given integer weights
  int weighted(const std::vector<int> &w) {
    long t = 0;
    for (int x : w) t += x;
    long r = (long)below((uint64_t)t);
    for (size_t i = 0; i < w.size(); i++) {
      if (r < w[i]) return (int)i;
      r -= w[i];
    }
    return (int)w.size() - 1;
  }
};
inline uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15u));
  r.next();
  return r.next() ^ b;
}

// ---------------------------------------------------------------- cases
struct Op {
  std::string name;
  std::vector<long> a;
  Op() {}
  Op(const std::string &n, std::vector<long> v = {}) : name(n), a(std::move(v)) {}
  long at(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Case {
  std::vector<Op> ops;   // ops[0] is always the configuration line
  void add(const std::string &n, std::vector<long> v = {}) { ops.emplace_back(n, std::move(v)); }
  std::string text() const;
  static Case parse(const std::string &t);
  uint64_t hash() const;
};

// ---------------------------------------------------------------- execution
typedef std::map<std::string, long> Feat;
// in the child: report a violation and stop.
[[noreturn]] void vfail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// in the child: the harness itself cannot go on (never a violation).
[[noreturn]] void vharness(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define VCHECK(c, ...) do { if (!(c)) vfail(__VA_ARGS__); } while (0)
extern Feat g_feat;             // counters of the running case
extern std::string g_dir;       // scratch directory of the running case
extern bool g_thorough;

struct Property {
  const char *id;
  const char *rule;
  Case (*gen)(Rng &, uint64_t index);
  void (*run)(const Case &);
  bool (*nontrivial)(const Feat &);
  int timeout_s;       // per case, wall clock
  long quick_cases, thorough_cases;  // upper bounds on cases
  int quick_s, thorough_s;           // wall budget for generation
  int jobs;            // worker processes (0: one per core)
  const char *level;
  std::vector<std::string> assumptions;
  bool nondet = false; // schedule dependent: one reproduction in many replays counts
};
std::vector<Property> &registry();
struct Registrar { explicit Registrar(const Property &p) { registry().push_back(p); } };

// ---------------------------------------------------------------- helpers
typedef std::string Bytes;      // arbitrary bytes
Bytes fill_bytes(uint64_t seed, size_t n);
std::string hexs(const Bytes &b, size_t maxn = 24);
Bytes read_file(const std::string &p);
void write_file(const std::string &p, const Bytes &b);
bool file_exists(const std::string &p);
long file_size(const std::string &p);
// Run f in a forked grandchild.  Returns the wait status (-1: timed out).
// The grandchild may send a byte string back.
struct SubResult { int status; bool timed_out; Bytes out; };
SubResult run_sub(const std::function<void(const std::function<void(const Bytes &)> &)> &f,
                  int timeout_s);
std::string status_text(int status);
#endif
