// Memory and descriptors: what an open database may hold, and that nothing stays behind.
#include "dbrun.h"
#include "p_util.h"
#include "wrap.h"
#include "AllConfStoreDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "ConfDataStoreMultipleDB.h"
#include "DBString.h"
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>

static long open_fds() {
  long n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static void empty_dir(const std::string &p) {
  DIR *d = opendir(p.c_str());
  if (!d) return;
  std::vector<std::string> sub;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    sub.push_back(p + "/" + n);
  }
  closedir(d);
  for (auto &s : sub) {
    if (unlink(s.c_str()) != 0) { empty_dir(s); rmdir(s.c_str()); }
  }
}
static const int kRepeat[] = {3, 5, 9, 10, 11, 13, 15, 16, 16, 16, 17, 17, 18, 18, 19, 19, 20, 23, 24, 24};
static const Property *prop_of(long k) {
  for (int x : kRepeat)
    if (x == k) {
      char id[8];
      snprintf(id, sizeof id, "C%02ld", k);
      for (auto &p : registry()) if (!strcmp(p.id, id)) return &p;
    }
  return nullptr;
}

static Case gen26(Rng &r, uint64_t) {
  if (r.chance(45)) {
    long k = kRepeat[r.below(sizeof kRepeat / sizeof kRepeat[0])];
    const Property *q = prop_of(k);
    Case c;
    c.add("of", {k});
    if (q) for (auto &o : q->gen(r, r.next()).ops) c.ops.push_back(o);
    return c;
  }
  if (r.chance(12)) {
    Case c;
    long page = 1024L << r.range(0, 3), mb = r.chance(25);
    // class, number of files, page size, cache, cache in MB, entries, size, seed
    c.add("store", {r.range(0, 4), r.range(1, 3), page, mb ? r.range(1, 2) : r.chance(20) ? r.range(1, page) : page * r.range(1, 12), mb, mb ? r.range(2000, 5000) : r.range(20, 400), r.range(100, 1500), (long)r.below(1 << 20)});
    return c;
  }
  Profile p;
  p.put = 20; p.rep = 10; p.getp = 14; p.geta = 4; p.bulk = 16; p.scan = 5; p.sync = 3; p.reopen = 5; p.ro = 3; p.trunc = 1; p.meta = 5; p.verify = 2;
  p.cursor = 10; p.max_ops = 40; p.big_pct = 15; p.huge_page_pct = 0;
  Case h = gen_history(r, p);
  Cfg cfg = Cfg::from(h.ops[0]);
  long pg = cfg.page();
  auto tight = [&]() -> long { return r.chance(15) ? r.range(1, pg) : pg * r.range(1, 12); };
  h.ops[0].a[2] = tight();
  for (auto &o : h.ops) if (o.name == "reopen") { while (o.a.size() < 4) o.a.push_back(0); o.a[2] = tight(); o.a[3] = r.chance(30); }
  Case c;
  c.add("limit");
  for (auto &o : h.ops) c.ops.push_back(o);
  return c;
}

extern bool g_mute;
static void run_repeat(const Case &c) {
  const Property *q = prop_of(c.ops[0].at(0));
  if (!q) return;
  Case in;
  in.ops.assign(c.ops.begin() + 1, c.ops.end());
  if (in.ops.empty()) return;
  std::string top = g_dir;
  g_mute = true;                      // what the inner property finds is its own affair
  long live[4] = {0}, fds[4] = {0}, blk[4] = {0};
  const int N = 4;
  mem_start();
  for (int i = 0; i < N; i++) {
    g_dir = top;
    { q->run(in); }
    empty_dir(top);
    MemUse m = mem_use();
    live[i] = m.c_live + m.cpp_live;
    blk[i] = m.blocks;
    fds[i] = open_fds();
  }
  g_mute = false;
  g_feat["repeat"]++;
  g_feat["repeat_C" + std::to_string(c.ops[0].at(0))]++;
  // tables of the process that grow once are filled in the first rounds
  VCHECK(fds[2] == fds[1] && fds[3] == fds[2], "a round of %s leaves file descriptors open: %ld, %ld, %ld after rounds 2, 3 and 4", q->id, fds[1], fds[2], fds[3]);
  VCHECK(!(live[2] > live[1] && live[3] > live[2]), "every round of %s, all stores closed and destroyed, leaves more memory in use: %ld, %ld, %ld bytes (%ld, %ld, %ld blocks) after rounds 2, 3 and 4",
         q->id, live[1], live[2], live[3], blk[1], blk[2], blk[3]);
}

// one run of the history; gives what was still allocated after a close
static long limit_round(const Case &c) {
  long left = 0;
  Cfg cfg = Cfg::from(c.ops[1]);
  cfg.defaults = 0;                   // those come with a cache of 128 MB
  if (cfg.cache < 1) cfg.cache = 1;
  const long pg = cfg.page();
  long cache = cfg.cache;
  DbRun d(g_dir + "/db", cfg);
  long fd0 = open_fds();
  mem_start();
  long biggest = 0;
  // what a handle of this configuration holds before anything is stored: tables and the pages of the metadata
  long base = 0;
  {
    FFDB_HASHINFO h = cfg.info(cfg.rearr, 1);
    FFDB_DB *e = ffdb_dbopen((g_dir + "/empty").c_str(), O_RDWR | O_CREAT, 0600, &h);
    if (!e) return 0;
    base = mem_use().c_live;
    e->close(e);
    unlink((g_dir + "/empty").c_str());
  }
  auto judge = [&](const std::string &what) {
    MemUse m = mem_use();
    // the cache asked for; pages of open cursors; pages that one operation uses at a time; bookkeeping of each page
    long pages = cache / pg + 1 + 3 * (long)d.cur.size() + 12;
    long limit = base + pages * (pg + 400) + 4000;
    VCHECK(m.c_live <= limit, "after %s an open database holds %ld bytes, with a cache limit of %ld bytes of pages of %ld bytes (%ld bytes before anything was stored, %zu cursors: at most %ld expected)", what.c_str(),
           m.c_live, cache, pg, base, d.cur.size(), limit);
    VCHECK(m.c_peak <= limit + 2 * biggest + 4 * pg + 4000, "during %s an open database held %ld bytes, with a cache limit of %ld bytes and data of at most %ld bytes", what.c_str(), m.c_peak, cache, biggest);
    mem_peak_reset();
    if (d.db) { long sz = file_size(d.path); if (sz > 2 * (limit - base)) g_feat["beyond"]++; }
  };
  auto closed = [&] {
    MemUse m = mem_use();
    left = std::max(left, m.c_live);
    VCHECK(open_fds() == fd0, "after closing the database a file descriptor is still open (%ld, %ld before opening)", open_fds(), fd0);
    g_feat["closed"]++;
  };
  d.after_close = closed;
  g_mute = true;
  d.open(0, cfg.rearr, cache, true);
  g_mute = false;
  judge("open");
  for (size_t i = 2; i < c.ops.size(); i++) {
    Op o = c.ops[i];
    if (o.name == "reopen") { while (o.a.size() < 4) o.a.push_back(0); if (o.a[2] < 1) o.a[2] = 1; cache = o.a[2]; }
    if (o.name == "put" || o.name == "bulk") biggest = std::max(biggest, o.at(o.name == "put" ? 3 : 4) + (o.name == "bulk" ? o.at(7) : 0));
    if (o.name == "sync") o.a = {0};
    g_mute = true;
    d.after_close = [&] { g_mute = false; closed(); g_mute = true; };
    d.exec(o);
    g_mute = false;
    judge(o.name);
  }
  g_mute = true;
  d.close();
  g_mute = false;
  return left;
}
static void run_limit(const Case &c) {
  if (c.ops.size() < 2) return;
  long left = 0;
  // what is allocated once for the whole process is there after the first round only
  for (int i = 0; i < 3; i++) {
    left = limit_round(c);
    if (left <= 0) return;
    empty_dir(g_dir);
  }
  VCHECK(0, "after closing the database %ld bytes of it are still allocated, every time", left);
}
// the classes: the cache size set before opening is kept to
template <class T> static void set_cache(T &t, const Op &o) { if (o.at(4)) t.setCacheSizeMB((unsigned)o.at(3)); else t.setCacheSize((unsigned)o.at(3)); }
static void set_cache(FILEDB::AllConfStoreMultipleDB<FILEDB::StringKey, FILEDB::UserData> &t, const Op &o) { t.setCacheSize((unsigned)(o.at(4) ? o.at(3) << 20 : o.at(3))); }
static void run_store(const Case &c) {
  using namespace FILEDB;
  Op o = c.ops[0];
  long kind = o.at(0) % 5, files = kind >= 3 ? std::min(std::max(1L, o.at(1)), 4L) : 1, page = std::max(1024L, std::min(o.at(2), 8192L));
  long n = std::min(o.at(5), 6000L), sz = std::min(std::max(1L, o.at(6)), 4000L);
  while (o.a.size() < 8) o.a.push_back(0);
  o.a[3] = std::max(1L, std::min(o.a[3], 4L << 20));
  if (o.a[4]) o.a[3] = std::min(o.a[3], 3L);
  long cache = o.a[4] ? o.a[3] << 20 : o.a[3];
  std::vector<std::string> f;
  bool ens = kind == 2 || kind == 4;
  for (long i = 0; i < files; i++) {
    f.push_back(g_dir + "/s" + std::to_string(i));
    auto fill = [&](auto &d) {
      d.setPageSize((unsigned)page);
      d.setNumberBuckets(16);
      if (d.open(f.back(), O_RDWR | O_CREAT, 0600) != 0) return;
      for (long k = 0; k < n; k++) {
        StringKey key("k" + std::to_string(k * files + i));
        UserData v(std::string((size_t)sz, (char)('a' + k % 26)));
        if constexpr (std::is_same<std::decay_t<decltype(d)>, AllConfStoreDB<StringKey, UserData>>::value) d.insert(key, std::vector<UserData>(1, v));
        else d.insert(key, v);
      }
      d.close();
    };
    if (ens) { AllConfStoreDB<StringKey, UserData> d(std::vector<int>(1, 5)); fill(d); }
    else { ConfDataStoreDB<StringKey, UserData> d; fill(d); }
  }
  long total = 0;
  for (auto &x : f) total += file_size(x);
  Rng r((uint64_t)o.at(7));
  mem_start();
  auto use = [&](auto &d, auto &&look) {
    long base = mem_use().c_live;
    long limit = base + files * ((cache / page + 13) * (page + 400) + 4000) + 2 * sz + 4 * page;
    mem_peak_reset();
    for (long q = 0; q < n * files + 50; q++) {
      StringKey key("k" + std::to_string(r.below((uint64_t)(n * files + 2))));
      look(d, key);
    }
    MemUse m = mem_use();
    VCHECK(m.c_peak <= limit, "%ld open database%s of class %ld held %ld bytes, with a cache limit of %ld bytes each and pages of %ld bytes (%ld when they were opened: at most %ld expected)", files, files > 1 ? "s" : "", kind,
           m.c_peak, cache, page, base, limit);
    if (total > 2 * (limit - base)) g_feat["beyond"]++;
  };
  auto get1 = [](auto &d, const StringKey &k) { UserData v; d.get(k, v); };
  auto getv = [](auto &d, const StringKey &k) { std::vector<UserData> v; d.get(k, v); };
  if (kind == 0) { ConfDataStoreDB<StringKey, UserData> d; set_cache(d, o); if (d.open(f[0], O_RDONLY, 0400) == 0) use(d, get1); d.close(); }
  else if (kind == 1) { ConfDataStoreDBSimple d; set_cache(d, o); if (d.open(f[0], O_RDONLY, 0400) == 0) use(d, [](auto &e, const StringKey &k) { UserData v; e.template get<StringKey, UserData>(k, v); }); d.close(); }
  else if (kind == 2) { AllConfStoreDB<StringKey, UserData> d; set_cache(d, o); if (d.open(f[0], O_RDONLY, 0400) == 0) use(d, getv); d.close(); }
  else if (kind == 3) { ConfDataStoreMultipleDB<StringKey, UserData> d; set_cache(d, o); if (d.open(f) == 0) use(d, get1); d.close(); }
  else { AllConfStoreMultipleDB<StringKey, UserData> d; set_cache(d, o); if (d.open(f) == 0) use(d, getv); d.close(); }
  g_feat["closed"]++;
  g_feat["store" + std::to_string(kind)]++;
}
static void run26(const Case &c) {
  if (c.ops.empty()) return;
  if (c.ops[0].name == "store") { run_store(c); return; }
  if (c.ops[0].name == "of") run_repeat(c);
  else run_limit(c);
}
static Registrar R26({"C26", "a database whose file is more than twice the allowed memory was used under a cache limit and closed, or a program over the classes of the library was run four times in one process",
  gen26, run26, [](const Feat &f) { return (F(f, "beyond") > 0 && F(f, "closed") > 0) || F(f, "repeat") > 0; },
  90, 100000, 1000000, 40, 500, 0, "exploration",
  {"memory is what malloc, calloc, realloc, strdup and operator new hand out; thread stacks and the C library's own buffers are not counted",
   "no read or write of the file fails", "a page needs at most 400 bytes of bookkeeping, one operation 12 pages at a time, an open cursor 3"}});
