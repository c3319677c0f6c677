// Sizes beyond 32 bits: data of 4 GB and more, and files whose pages lie far
// beyond 4 GB (sparse tables with very many buckets).
#include "core.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/statvfs.h>
#include <sys/un.h>
#include <unistd.h>
extern "C" {
#include "ffdb_db.h"
}
static long F(const Feat &f, const char *k) { auto i = f.find(k); return i == f.end() ? 0 : i->second; }

// ---- contents: one period of pseudo-random bytes, repeated through a mapping
namespace {
const long PER = 1021L * 4096;
struct Alias {
  unsigned char *b = nullptr;
  long n = 0;
  void need(long bytes) {
    if (bytes <= n) return;
    int fd = memfd_create("contents", 0);
    if (fd < 0 || ftruncate(fd, PER)) vharness("no memory file");
    unsigned char *p = (unsigned char *)mmap(nullptr, PER, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) vharness("cannot map the contents");
    Rng r(4711);
    for (long i = 0; i < PER / 8; i++) ((uint64_t *)p)[i] = r.next();
    munmap(p, PER);
    long k = bytes / PER + 2;
    b = (unsigned char *)mmap(nullptr, (size_t)(k * PER), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) vharness("cannot map the contents");
    for (long i = 0; i < k; i++)
      if (mmap(b + i * PER, PER, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vharness("cannot map the contents");
    ::close(fd);
    n = (k - 1) * PER;
  }
};
struct Datum { long size, off; };    // the bytes from place off of the contents
struct Big {
  std::string path = g_dir + "/db";
  unsigned bsize = 4096, nb = 4;
  long cache = 0;
  int rearr = 0;
  FFDB_DB *db = nullptr;
  bool ro = false;
  Alias al;
  std::map<std::string, Datum> m;
  const unsigned char *bytes(const Datum &d) { al.need(d.size + PER); return al.b + d.off % PER; }
  void open(bool create, bool rdonly) {
    FFDB_HASHINFO h;
    memset(&h, 0, sizeof h);
    h.bsize = bsize; h.nbuckets = nb; h.cachesize = (unsigned long)cache; h.rearrangepages = rearr; h.userinfolen = 100; h.numconfigs = 1;
    db = ffdb_dbopen(path.c_str(), rdonly ? O_RDONLY : create ? O_RDWR | O_CREAT : O_RDWR, 0600, &h);
    VCHECK(db, "the database cannot be opened");
    ro = rdonly;
  }
  void close() { int rc = db->close(db); db = nullptr; VCHECK(rc == 0, "closing returned %d", rc); }
  void put(const std::string &k, const Datum &d, unsigned flags = 0) {
    FFDB_DBT a, b;
    a.data = (void *)k.data(); a.size = (long)k.size();
    b.data = (void *)bytes(d); b.size = d.size;
    int rc = db->put(db, &a, &b, flags);
    auto it = m.find(k);
    bool must = !ro && (it == m.end() || (flags != FFDB_NOOVERWRITE && d.size <= it->second.size));
    if (must) { VCHECK(rc == 0, "storing %ld bytes returned %d", d.size, rc); m[k] = d; g_feat[it == m.end() ? "insert" : "replace"]++; }
    else { VCHECK(rc != 0, "a datum of %ld bytes that must be refused was accepted", d.size); g_feat["refused"]++; }
  }
  void same(const void *p, long size, const Datum &d, const char *what) {
    VCHECK(size == d.size, "%s gives %ld bytes instead of %ld", what, size, d.size);
    const unsigned char *w = bytes(d);
    for (long i = 0; i < size; i += PER) VCHECK(!memcmp((const char *)p + i, w + i, (size_t)std::min(PER, size - i)), "%s gives wrong bytes from place %ld of %ld on", what, i, size);
  }
  void get(const std::string &k, int own = 0) {
    FFDB_DBT a, b;
    a.data = (void *)k.data(); a.size = (long)k.size();
    b.data = nullptr; b.size = 0;
    auto it = m.find(k);
    void *buf = nullptr;
    if (own && it != m.end()) {
      b.size = it->second.size + (own == 1 ? 0 : own == 2 ? 1 : -1);
      if (b.size <= 0) b.size = 1;
      buf = mmap(nullptr, (size_t)b.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (buf == MAP_FAILED) vharness("no memory for %ld bytes", (long)b.size);
      b.data = buf;
    }
    long had = b.size;
    int rc = db->get(db, &a, &b, 0);
    if (it == m.end()) { VCHECK(rc != 0, "a key that was never stored was found"); return; }
    if (buf && had < it->second.size) { VCHECK(rc != 0, "a lookup into %ld bytes of a datum of %ld bytes succeeded", had, it->second.size); munmap(buf, (size_t)had); return; }
    VCHECK(rc == 0, "a stored key with %ld bytes was not found (%d)", it->second.size, rc);
    same(b.data, b.size, it->second, "a lookup");
    if (buf) munmap(buf, (size_t)had); else free(b.data);
    g_feat["got"]++;
    if (it->second.size > 0xffffffffL) g_feat["got_huge"]++;
  }
  void walk(int back) {
    ffdb_cursor_t *c;
    VCHECK(db->cursor(db, &c, FFDB_KEY_CURSOR) == 0, "no cursor");
    std::set<std::string> seen;
    for (;;) {
      FFDB_DBT a, b;
      memset(&a, 0, sizeof a);
      memset(&b, 0, sizeof b);
      int rc = c->get(c, &a, &b, back ? (seen.empty() ? FFDB_LAST : FFDB_PREV) : FFDB_NEXT);
      if (rc == FFDB_NOT_FOUND) break;
      VCHECK(rc == 0, "a traversal returned %d", rc);
      std::string k((char *)a.data, (size_t)a.size);
      auto it = m.find(k);
      VCHECK(it != m.end() && seen.insert(k).second, "a traversal gives a key twice or a wrong one");
      same(b.data, b.size, it->second, "a traversal");
      free(a.data);
      free(b.data);
    }
    VCHECK(seen.size() == m.size(), "a traversal gives %zu keys instead of %zu", seen.size(), m.size());
    c->close(c);
    g_feat["walk"]++;
  }
  void all() { for (auto &kv : m) get(kv.first); get("no such key"); }
};
std::string bk(long k) { return (k % 3 == 0 ? "key" : "another key ") + std::to_string(k); }
long sz_of(long e, long d) { return std::max(0L, (1L << std::min(36L, std::max(0L, e))) + d); }
// huge cases take memory for the file and for a datum: two at a time, and only where there is room
int g_slot = -1;
bool room(long bytes) {
  long avail = 0;
  FILE *f = fopen("/proc/meminfo", "r");
  char line[200];
  while (f && fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %ld kB", &avail) == 1) break;
  if (f) fclose(f);
  struct statvfs v;
  if (statvfs(g_dir.c_str(), &v)) return false;
  long disk = (long)v.f_bavail * (long)v.f_frsize / 1024;
  return avail > bytes / 1024 * 2 + (3 << 20) && disk > bytes / 1024 + (1 << 20);
}
void slot() {
  // an abstract socket name is a lock that ends with the process
  for (int round = 0; round < 1500; round++) {
    for (int k = 0; k < 2; k++) {
      int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
      struct sockaddr_un u;
      memset(&u, 0, sizeof u);
      u.sun_family = AF_UNIX;
      snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "vf-big-datum-%d", k);
      if (fd >= 0 && bind(fd, (struct sockaddr *)&u, sizeof u) == 0) { g_slot = fd; return; }
      if (fd >= 0) ::close(fd);
    }
    usleep(200000);
  }
}
}

// kind 0: cfg 0 bshift nbshift nbadd cache rearr         kind 1: cfg 1 bshift 0 0 cache rearr
static Case gen21(Rng &r, uint64_t index) {
  Case c;
  bool huge = index == 0 || index == 9 || (g_thorough && index % 64 == 5);
  if (huge) {
    c.add("cfg", {1, r.chance(60) ? 16 : r.range(12, 16), r.range(0, 4), 0, r.chance(50) ? 0 : 1L << r.range(16, 24), r.range(0, 1)});
    long nb = r.range(0, 8);
    for (long i = 0; i < nb; i++) c.add("put", {r.range(1, 40), r.range(0, 300), (long)r.below(1 << 20), 0});
    // sizes about 4 GB; the most telling ones lie just above
    auto sz = [&](bool rep) -> std::vector<long> {
      long e = rep && r.chance(30) ? r.range(10, 31) : 32;
      long d = r.chance(60) ? r.range(0, 40) : r.chance(50) ? r.range(41, 70000) : r.chance(60) ? r.range(100000, 200000000) : -r.range(1, 3);
      return {e, d};
    };
    auto s = sz(false);
    if (s[1] < 0) s[1] = -s[1];
    c.add("big", {s[0], s[1], (long)r.below(1 << 20)});
    nb = r.range(0, 8);
    for (long i = 0; i < nb; i++) c.add("put", {r.range(1, 40), r.range(0, 300), (long)r.below(1 << 20), 0});
    if (index == 9 || (g_thorough && r.chance(50))) {
      auto t = sz(true);
      if (t[0] == 32 && t[1] > s[1] && r.chance(80)) t[1] = s[1] - r.range(0, 2);
      c.add("big", {t[0], t[1], (long)r.below(1 << 20)});
    }
    if (r.chance(30)) c.add("sync");
    c.add("reopen", {r.range(0, 1), r.range(0, 1)});
    if (index == 9) { if (r.chance(50)) c.add("walk", {r.range(0, 1)}); else c.add("getb", {r.range(0, 3)}); }
    else c.add("getb", {r.range(0, 2)});
    return c;
  }
  // tables whose buckets, data and overflow pages lie beyond 2, 4 and more GB
  long bsh = r.range(9, 16);
  long want = r.chance(70) ? r.range(31, 33) : r.range(34, 39);          // log2 of the bytes the buckets take
  long nsh = std::min(28L, std::max(1L, want - bsh));
  c.add("cfg", {0, bsh, nsh, r.chance(40) ? 0 : r.chance(50) ? r.range(1, 3) : (long)r.below(1UL << nsh), r.chance(50) ? 0 : 1L << r.range(12, 22), r.range(0, 1)});
  int n = (int)r.range(10, 120);
  long keys = r.chance(50) ? 60 : 2000;
  for (int i = 0; i < n; i++) {
    long k = r.range(0, keys), off = (long)r.below(1 << 20);
    long sz = r.chance(70) ? r.range(0, 300) : r.chance(80) ? r.range(0, 3L << bsh) : r.range(0, 20L << bsh);
    switch (r.weighted({50, 6, 4, 12, 4, 6})) {
      case 0: c.add("put", {k, sz, off, 0}); break;
      case 1: c.add("put", {k, sz, off, 1}); break;
      case 2: c.add("many", {k, r.range(2, 200), r.range(0, 400)}); break;
      case 3: c.add("get", {k, r.range(0, 3)}); break;
      case 4: c.add("sync"); break;
      default: c.add("reopen", {r.chance(30), r.range(0, 1)});
    }
  }
  if (r.chance(6) && want <= 32) c.add("walk", {r.range(0, 1)});
  return c;
}
static void run21(const Case &c) {
  if (c.ops.empty()) return;
  const Op &cf = c.ops[0];
  bool huge = cf.at(0) == 1;
  Big B;
  B.bsize = 1u << std::min(16L, std::max(9L, cf.at(1)));
  B.nb = (unsigned)((1UL << std::min(28L, std::max(0L, cf.at(2)))) + (unsigned long)std::max(0L, cf.at(3)));
  B.cache = std::max(0L, cf.at(4)); B.rearr = cf.at(5) & 1;
  if (huge) {
    slot();
    if (g_slot < 0 || !room(9L << 29)) { g_feat["no_room"]++; return; }
  }
  B.open(true, false);
  for (const Op &o : c.ops) {
    if (o.name == "put") B.put(bk(o.at(0)), {std::min(1L << 24, std::max(0L, o.at(1))), o.at(2)}, o.at(3) & 1 ? FFDB_NOOVERWRITE : 0);
    else if (o.name == "many") { for (long i = 0; i < std::min(1000L, o.at(1)); i++) B.put(bk(o.at(0) + i * 7), {std::max(0L, std::min(5000L, o.at(2))), i * 13}); }
    else if (o.name == "get") B.get(bk(o.at(0)), (int)o.at(1) & 3);
    else if (o.name == "big") B.put("the big one", {sz_of(o.at(0), o.at(1)), o.at(2)});
    else if (o.name == "getb") B.get("the big one", (int)o.at(0) & 3);
    else if (o.name == "sync") { if (!B.ro) VCHECK(B.db->sync(B.db, 0) == 0, "a flush failed"); }
    else if (o.name == "walk") B.walk((int)o.at(0) & 1);
    else if (o.name == "reopen") { B.close(); B.rearr = o.at(1) & 1; B.open(false, o.at(0) & 1); g_feat["reopened"]++; }
  }
  if (huge) {
    for (auto &kv : B.m) if (kv.first[0] != 't') B.get(kv.first);
    B.close();
    g_feat["huge"]++;
    return;
  }
  B.all();
  B.close();
  long sz = file_size(B.path);
  if (sz > (1L << 31)) g_feat["over_2GB"]++;
  if (sz > (1L << 32)) g_feat["over_4GB"]++;
  B.open(false, true);
  B.all();
  B.close();
}
static Registrar R21({"C21", "a datum of more than 4 GB was stored and read back, or at least 5 keys were stored in a file of more than 2 GB and read back after reopening",
  gen21, run21, [](const Feat &f) { return F(f, "got_huge") > 0 || (F(f, "huge") && F(f, "replace")) || (F(f, "over_2GB") && F(f, "insert") >= 5); },
  400, 100000, 1000000, 30, 600, 0, "exploration",
  {"data of 4 GB and more are tried on page sizes of 4096 to 65536 bytes, in few cases for their cost, and only where memory for two of them is free", "the checksum of a datum of 4 GB or more covers only the bytes that its length modulo 2^32 counts: damage in the rest is not claimed to be found"}});
