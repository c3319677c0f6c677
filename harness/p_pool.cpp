// The page cache by itself: page contents over any history, and exclusive use
// of a page among threads.
#include "core.h"
#include "wrap.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <thread>
#include <unistd.h>
extern "C" {
#include "ffdb_db.h"
#include "ffdb_pagepool.h"
}

// cfg pagesize-shift cache filter byfd rdonly?
static long F(const Feat &f, const char *k) { auto i = f.find(k); return i == f.end() ? 0 : i->second; }
static Case gen25(Rng &r, uint64_t) {
  Case c;
  long cache = r.chance(70) ? r.range(0, 6) : r.chance(70) ? r.range(7, 30) : r.range(31, 200);
  c.add("cfg", {r.chance(80) ? r.range(9, 11) : r.range(9, 16), cache, r.range(0, 1), r.range(0, 1)});
  bool many = r.chance(20);
  bool far = r.chance(25);
  bool threads = r.chance(35), faults = !threads && r.chance(40);
  int n = (int)(many ? r.range(100, 400) : r.range(5, 80));
  if (threads) n = (int)r.range(3, 40);
  for (int i = 0; i < n; i++) {
    int w = r.weighted({20, 8, 6, 30, 20, 14, 5, 5, 6, 3, 2, 2, faults ? 4 : 0, faults ? 4 : 0, far ? 4 : 0, 1});
    long x = (long)r.below(1 << 20), seed = (long)r.below(1 << 30);
    switch (w) {
      case 0: c.add("new", {seed, r.range(0, 3)}); break;                 // next number
      case 1: c.add("req", {r.chance(80) ? r.range(1, 4) : r.range(1, 60), seed, r.range(0, 3)}); break;  // number given, ahead of the end by so many
      case 2: c.add("crt", {r.chance(80) ? r.range(1, 4) : r.range(1, 60), seed, r.range(0, 3)}); break;  // made by get with CREATE
      case 3: c.add("chk", {x, r.range(0, 3)}); break;                    // get and compare; hold it or not
      case 4: c.add("mod", {x, seed, r.range(0, 3)}); break;              // get, change
      case 5: c.add("put", {x, r.range(0, 1)}); break;                    // give a held page back
      case 6: c.add("chg", {x, r.chance(60) ? r.range(1, 3) : 0, seed}); break;  // change the number
      case 7: c.add("del", {x, seed, r.range(0, 1)}); break;              // drop from the cache
      case 8: c.add("sync"); break;
      case 9: c.add("reopen", {r.chance(70) ? cache : r.range(0, 40), r.range(0, 1)}); break;
      case 10: c.add("ro", {r.range(0, 20), seed}); break;
      case 12: c.add("fault", {r.range(0, 4), r.range(0, 3), r.chance(70) ? r.range(1, 2) : r.range(3, 50)}); break;
      case 13: c.add("heal"); break;
      case 15: c.add("badopen", {r.range(0, 5), r.range(0, 1), r.range(1, 400)}); break;   // opens that cannot be done
      case 14: c.add("far", {r.chance(75) ? r.range(31, 32) : r.range(28, 40), r.range(-3, 3), seed, r.range(0, 3)}); break;   // a page about this power of two of bytes into the file
      default: c.add("vac", {x}); break;                                  // read a number whose page was moved away
    }
  }
  if (threads) c.add("threads", {r.range(2, 8), r.range(1, 6), r.chance(70) ? r.range(20, 200) : r.range(200, 1500), (long)r.below(1 << 30), r.chance(30) ? 0 : r.range(1, 400), r.range(0, 4)});
  return c;
}

static int open_fds() {
  int n = 0;
  for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0;
  return n;
}
// An open that cannot be done: reported, and nothing stays open
static void bad_open(long kind, bool byfd, long x, unsigned psz, unsigned cache) {
  std::string path = g_dir + "/other";
  unlink(path.c_str());
  const char *old = g_fault.path;
  g_fault.path = nullptr;
  unsigned flags = FFDB_CREATE, size = psz;
  bool missing = kind == 3 && !byfd, asdir = kind == 4;
  if (asdir) path = g_dir;
  else if (!missing) write_file(path, Bytes(kind == 2 ? (size_t)psz * 2 + (size_t)x : (size_t)psz * 2, 7));
  if (kind == 0) flags = 1u << 30;
  else if (kind == 1) size = x & 1 ? psz + (unsigned)x : x & 2 ? 0 : psz - 1;
  else if (missing) flags = 0;
  if (asdir) flags = FFDB_RDONLY;
  if (byfd && (kind == 0 || kind == 3)) { g_fault.path = old; return; }
  int before = open_fds(), fd = -1, rc;
  ffdb_pagepool_t *p = nullptr;
  VCHECK(ffdb_pagepool_create(&p, 0) == 0, "creating a page cache failed");
  if (byfd) {
    fd = ::open(path.c_str(), asdir ? O_RDONLY : O_RDWR);
    if (fd < 0) vharness("cannot open %s", path.c_str());
    errno = 0;
    rc = ffdb_pagepool_open_fd(p, fd, size, cache);
  } else {
    errno = 0;
    rc = ffdb_pagepool_open(p, path.c_str(), flags, 0600, size, cache);
  }
  static const char *what[] = {"flags that are none", "a page size that is none", "a file that is no whole number of pages", "a file that is not there", "a directory"};
  VCHECK(rc != 0, "opening a page cache with %s reported success", what[kind]);
  if (byfd) {
    VCHECK(fcntl(fd, F_GETFD) >= 0, "a refused open of a page cache closed the caller's file");
    ::close(fd);
  }
  ffdb_pagepool_close(p);
  int after = open_fds();
  VCHECK(after == before, "a refused open of a page cache (%s) left %d files open", what[kind], after - before);
  g_fault.path = old;
  g_feat["refused_open"]++;
}
namespace {
struct Held { unsigned pg; void *mem; bool dirty; };
unsigned g_psz;
unsigned char fb(unsigned pg, unsigned i) { return (unsigned char)(pg * 31 + i * 7 + 129); }
void filt(void *arg, pgno_t pg, void *mem) {
  if (arg != (void *)&g_psz) vfail("the page filter was called with another argument than it was given");
  for (unsigned i = 0; i < g_psz; i++) ((unsigned char *)mem)[i] ^= fb(pg, i);
}
struct Pool {
  std::string path;
  unsigned psz, cache;
  bool filter, byfd, ro = false;
  int fd = -1;
  ffdb_pagepool_t *p = nullptr;
  std::map<unsigned, Bytes> m;       // what each page holds
  std::set<unsigned> vacated;
  long top = -1;                     // no page with a larger number was ever touched
  std::vector<Held> held;
  Bytes zeros(unsigned pg) { Bytes b(psz, 0); if (filter) filt(&g_psz, pg, &b[0]); return b; }
  void open() {
    g_fault.path = path.c_str();      // an open of the file makes it the target of faults
    int rc = ffdb_pagepool_create(&p, 0);
    VCHECK(rc == 0, "creating a page cache returned %d", rc);
    if (byfd) {
      fd = ::open(path.c_str(), ro ? O_RDONLY : O_RDWR | O_CREAT, 0600);
      if (fd < 0) vharness("cannot open %s", path.c_str());
      rc = ffdb_pagepool_open_fd(p, fd, psz, cache);
    } else rc = ffdb_pagepool_open(p, path.c_str(), ro ? FFDB_RDONLY : FFDB_CREATE, 0600, psz, cache);
    // a renumbering that reported failure may have left part of a page at the end of the file
    if (rc != 0 && chgfailed && file_size(path) % psz) { if (byfd) ::close(fd); lost = true; return; }
    VCHECK(rc == 0, "opening a page cache on a file returned %d", rc);
    if (byfd) g_fault.fd = fd;
    if (filter) ffdb_pagepool_filter(p, filt, filt, &g_psz);
  }
  void drop_held() { while (!held.empty()) put(held.size() - 1, false); }
  bool chgfailed = false;
  bool lost = false;                 // a close reported failure: what it held is gone
  long hits() { return g_fault.hit_read + g_fault.hit_write; }
  void heal() { g_fault.armed = false; }
  void close() {
    drop_held();
    long h0 = hits();
    int rc = ffdb_pagepool_close(p);
    VCHECK(rc == 0 || hits() > h0, "closing a page cache returned %d", rc);
    heal();
    p = nullptr;
    if (rc != 0) { lost = true; g_feat["failed"]++; if (byfd) ::close(fd); return; }
    if (byfd) ::close(fd);
    fd = -1;
    file_check("after the close");
  }
  void file_check(const char *when) {
    long fsz = file_size(path);
    int ffd = g_fault.fd;                  // opening it here makes no difference to the faults
    int rfd = ::open(path.c_str(), O_RDONLY);
    g_fault.fd = ffd;
    if (rfd < 0) vharness("cannot open %s", path.c_str());
    VCHECK(hits() > 0 || fsz % psz == 0, "the file has %ld bytes, no multiple of the page size, %s", fsz, when);
    bool armed = g_fault.armed;
    g_fault.armed = false;
    for (auto &kv : m) {
      bool pinned = false;
      for (auto &h : held) pinned |= h.pg == kv.first;
      if (pinned) continue;
      Bytes got(psz, 0);
      VCHECK(pread(rfd, &got[0], psz, (off_t)kv.first * psz) == (ssize_t)psz, "page %u is not in the file %s", kv.first, when);
      if (filter) filt(&g_psz, kv.first, &got[0]);
      VCHECK(got == kv.second, "page %u in the file differs from what was put %s", kv.first, when);
    }
    ::close(rfd);
    g_fault.armed = armed;
    g_feat["filecheck"]++;
  }
  void check_held() {
    for (auto &h : held) VCHECK(!memcmp(h.mem, m[h.pg].data(), psz), "page %u, in use, was changed or reused meanwhile", h.pg);
  }
  void put(size_t i, bool dirty) {
    Held h = held[i];
    held.erase(held.begin() + (long)i);
    VCHECK(!memcmp(h.mem, m[h.pg].data(), psz), "page %u, in use, was changed or reused meanwhile", h.pg);
    int rc = ffdb_pagepool_put_page(p, h.mem, (!ro && (dirty || h.dirty)) ? FFDB_PAGE_DIRTY : 0);
    VCHECK(rc == 0, "giving back page %u returned %d", h.pg, rc);
  }
  // mode bit 0: keep it, bit 1: the dirty flag already on get
  void done(unsigned pg, void *mem, bool dirty, long mode) {
    held.push_back({pg, mem, dirty});
    if (!(mode & 1) || held.size() > 12) put(held.size() - 1, false);
  }
  void fresh(unsigned pg, void *mem, long seed, long mode) {
    bool clean = true;
    for (int i = 0; i < 32; i++) clean &= ((char *)mem)[i] == 0;
    VCHECK(clean, "a new page does not begin with zero bytes");
    VCHECK(!m.count(pg), "a new page was given the number %u of an existing one", pg);
    for (auto &h : held) VCHECK(h.mem != mem, "a new page shares the memory of page %u, which is in use", h.pg);
    m[pg] = fill_bytes((uint64_t)seed, psz);
    memcpy(mem, m[pg].data(), psz);
    top = std::max(top, (long)pg);
    done(pg, mem, true, mode);
    g_feat["created"]++;
  }
  bool pick(long x, unsigned &pg) {
    if (m.empty()) return false;
    auto it = m.begin();
    std::advance(it, (long)((size_t)x % m.size()));
    pg = it->first;
    return true;
  }
  void *get(unsigned pg, unsigned flags) {
    void *mem = nullptr;
    pgno_t q = pg;
    long h0 = g_fault.hit_read;
    int rc = ffdb_pagepool_get_page(p, &q, flags, &mem);
    if (rc != 0 && g_fault.hit_read > h0) {
      g_feat["failed"]++;
      heal();
      rc = ffdb_pagepool_get_page(p, &q, flags, &mem);     // and works when the fault is gone
    }
    VCHECK(rc == 0 && mem, "getting page %u returned %d", pg, rc);
    VCHECK(q == pg, "getting page %u gave number %u", pg, q);
    VCHECK(!memcmp(mem, m[pg].data(), psz), "page %u differs from what was put", pg);
    for (auto &h : held) VCHECK((h.pg == pg) == (h.mem == mem), "page %u and page %u, in use, do not have memory as they should", pg, h.pg);
    g_feat["got"]++;
    return mem;
  }
};
}

static void run25(const Case &c) {
  if (c.ops.empty()) return;
  const Op &cf = c.ops[0];
  Pool P;
  P.path = g_dir + "/pages";
  g_psz = P.psz = 1u << std::min(16l, std::max(9l, cf.at(0, 9)));
  P.cache = (unsigned)std::max(0l, cf.at(1)); P.filter = cf.at(2) & 1; P.byfd = cf.at(3) & 1;
  P.open();
  for (const Op &o : c.ops) {
    if (P.lost) break;
    unsigned pg = 0;
    void *mem = nullptr;
    pgno_t q = 0;
    if (P.m.size() > 400) break;
    if (o.name == "new") {
      int rc = ffdb_pagepool_new_page(P.p, &q, o.at(1) & 2 ? FFDB_PAGE_DIRTY : 0, &mem);
      VCHECK(rc == 0 && mem, "a new page was refused with %d", rc);
      P.fresh(q, mem, o.at(0), o.at(1));
    } else if (o.name == "req") {
      q = (pgno_t)(P.top + std::min(100l, std::max(1l, o.at(0))));
      pgno_t w = q;
      int rc = ffdb_pagepool_new_page(P.p, &q, FFDB_PAGE_REQUEST | (o.at(2) & 2 ? FFDB_PAGE_DIRTY : 0), &mem);
      VCHECK(rc == 0 && mem && q == w, "a new page with number %u was refused with %d (number %u)", w, rc, q);
      P.fresh(q, mem, o.at(1), o.at(2));
    } else if (o.name == "crt") {
      q = (pgno_t)(P.top + std::min(100l, std::max(1l, o.at(0))));
      pgno_t w = q;
      int rc = ffdb_pagepool_get_page(P.p, &q, FFDB_PAGE_CREATE | (o.at(2) & 2 ? FFDB_PAGE_DIRTY : 0), &mem);
      VCHECK(rc == 0 && mem && q == w, "page %u was not made on demand (%d, number %u)", w, rc, q);
      P.fresh(q, mem, o.at(1), o.at(2));
    } else if (o.name == "far") {
      long e = std::min(40l, std::max(20l, o.at(0)));
      long to = (1L << e) / (long)P.psz + std::min(100l, std::max(-100l, o.at(1)));
      if (to <= P.top || to > 0xfffffff0L) continue;
      q = (pgno_t)to;
      int rc = ffdb_pagepool_new_page(P.p, &q, FFDB_PAGE_REQUEST | (o.at(3) & 2 ? FFDB_PAGE_DIRTY : 0), &mem);
      VCHECK(rc == 0 && mem && q == (pgno_t)to, "a new page with number %ld was refused with %d (number %u)", to, rc, q);
      P.fresh(q, mem, o.at(2), o.at(3));
      g_feat["far"]++;
    } else if (o.name == "chk") {
      if (!P.pick(o.at(0), pg)) continue;
      mem = P.get(pg, o.at(1) & 2 ? FFDB_PAGE_CREATE : 0);
      P.done(pg, mem, false, o.at(1));
    } else if (o.name == "mod") {
      if (!P.pick(o.at(0), pg)) continue;
      mem = P.get(pg, o.at(2) & 2 ? FFDB_PAGE_DIRTY : 0);
      P.m[pg] = fill_bytes((uint64_t)o.at(1), P.psz);
      memcpy(mem, P.m[pg].data(), P.psz);
      P.done(pg, mem, true, o.at(2));
      g_feat["changed"]++;
    } else if (o.name == "put") {
      if (!P.held.empty()) P.put((size_t)o.at(0) % P.held.size(), o.at(1) & 1);
    } else if (o.name == "chg") {
      if (!P.pick(o.at(0), pg)) continue;
      bool inuse = false;
      for (auto &h : P.held) inuse |= h.pg == pg;
      if (inuse) continue;
      unsigned to = (unsigned)(P.top + std::min(20l, std::max(1l, o.at(1))));
      if (o.at(1) == 0) {
        if (P.vacated.empty()) continue;
        to = *P.vacated.begin();
        P.vacated.erase(to);
      }
      mem = P.get(pg, 0);
      long h0 = P.hits();
      int rc = ffdb_pagepool_change_page(P.p, mem, to);
      VCHECK(rc == 0 || P.hits() > h0, "changing the number of page %u returned %d", pg, rc);
      if (rc) { g_feat["failed"]++; P.chgfailed = true; }
      P.m[to] = P.m[pg];
      P.m.erase(pg);
      if (rc == 0) P.vacated.insert(pg);
      P.top = std::max(P.top, (long)to);
      g_feat["renumbered"]++;
    } else if (o.name == "del") {
      if (!P.pick(o.at(0), pg)) continue;
      bool inuse = false;
      for (auto &h : P.held) inuse |= h.pg == pg;
      if (inuse) {
        P.heal();
        // in use twice: refused, and still in use
        mem = P.get(pg, 0);
        int rc = ffdb_pagepool_delete(P.p, mem);
        VCHECK(rc != 0, "a page in use elsewhere was dropped");
        P.done(pg, mem, false, 0);
        continue;
      }
      mem = P.get(pg, o.at(2) & 1 ? FFDB_PAGE_DIRTY : 0);
      if (o.at(2) & 1) { P.m[pg] = fill_bytes((uint64_t)o.at(1), P.psz); memcpy(mem, P.m[pg].data(), P.psz); }
      long h0 = P.hits();
      int rc = ffdb_pagepool_delete(P.p, mem);
      if (rc && P.hits() > h0) { P.done(pg, mem, false, 0); g_feat["failed"]++; continue; }   // still there
      VCHECK(rc == 0, "dropping page %u from the cache returned %d", pg, rc);
      g_feat["dropped"]++;
    } else if (o.name == "sync") {
      long h0 = g_fault.hit_write;
      int rc = ffdb_pagepool_sync(P.p);
      if (rc && g_fault.hit_write > h0) { g_feat["failed"]++; continue; }
      VCHECK(rc == 0, "a flush failed");
      P.file_check("after a flush");
    } else if (o.name == "fault") {
      long k = o.at(0);
      g_fault.nread = g_fault.nwrite = 0;
      g_fault.read_at = g_fault.write_at = -1;
      (k == 0 || k == 1 ? g_fault.read_at : g_fault.write_at) = std::max(0l, o.at(1));
      g_fault.read_n = g_fault.write_n = std::max(1l, o.at(2));
      g_fault.short_read = k == 1; g_fault.short_write = k == 3; g_fault.enospc = k == 4;
      g_fault.armed = true;
    } else if (o.name == "badopen") {
      bad_open(std::min(4l, std::max(0l, o.at(0))), o.at(1) & 1, std::min(400l, std::max(1l, o.at(2))), P.psz, P.cache);
    } else if (o.name == "heal") {
      P.heal();
    } else if (o.name == "reopen") {
      P.close();
      P.cache = (unsigned)std::max(0l, o.at(0)); P.byfd = o.at(1) & 1;
      if (P.lost) break;
      P.vacated.clear();
      P.open();
      if (P.lost) break;
      g_feat["reopened"]++;
    } else if (o.name == "ro") {
      P.close();
      if (P.lost) break;
      bool small = file_size(P.path) < (64 << 20);
      long sizebefore = file_size(P.path);
      Bytes before = small ? read_file(P.path) : Bytes();
      P.ro = true;
      P.open();
      if (P.lost) break;
      Rng r((uint64_t)o.at(1));
      for (long k = 0; k < std::min(100l, o.at(0)); k++) {
        if (!P.pick((long)r.below(1 << 20), pg)) break;
        mem = nullptr;
        q = pg;
        if (r.chance(20)) {
          int rc = ffdb_pagepool_get_page(P.p, &q, FFDB_PAGE_DIRTY, &mem);
          VCHECK(rc != 0, "a page of a read-only file was given out for change");
        }
        P.done(pg, P.get(pg, 0), false, r.range(0, 1));
      }
      P.close();
      VCHECK(file_size(P.path) == sizebefore && (!small || read_file(P.path) == before), "a read-only page cache changed the file");
      P.ro = false;
      P.vacated.clear();
      P.open();
    } else if (o.name == "vac") {
      if (P.vacated.empty()) continue;
      auto it = P.vacated.begin();
      std::advance(it, (long)((size_t)o.at(0) % P.vacated.size()));
      pg = *it;
      q = pg;
      P.heal();
      int rc = ffdb_pagepool_get_page(P.p, &q, 0, &mem);
      VCHECK(rc == 0 && mem, "reading number %u, whose page was moved away, returned %d", pg, rc);
      VCHECK(!memcmp(mem, P.zeros(pg).data(), P.psz), "number %u, whose page was moved away, does not read as zeros", pg);
      ffdb_pagepool_put_page(P.p, mem, 0);
      P.vacated.erase(pg);          // it is in the cache now
      g_feat["vacated"]++;
    } else if (o.name == "threads") {
      // counters in pages; each step owns its page from get to put
      P.drop_held();
      P.heal();
      int nt = (int)std::min(8l, std::max(1l, o.at(0))), np = (int)std::min(20l, std::max(1l, o.at(1)));
      long steps = std::min(5000l, o.at(2));
      int rdpct = (int)std::min(5l, std::max(0l, o.at(5))) * 15;
      std::vector<unsigned> pgs;
      for (int k = 0; k < np; k++) {
        int rc = ffdb_pagepool_new_page(P.p, &q, FFDB_PAGE_DIRTY, &mem);
        VCHECK(rc == 0, "a new page was refused with %d", rc);
        VCHECK(!P.m.count(q), "a new page was given the number %u of an existing one", q);
        memset(mem, 0, P.psz);
        ffdb_pagepool_put_page(P.p, mem, FFDB_PAGE_DIRTY);
        P.m[q] = Bytes(P.psz, 0);
        P.top = std::max(P.top, (long)q);
        pgs.push_back(q);
      }
      std::vector<std::atomic<long>> cnt((size_t)np);
      for (auto &x : cnt) x = 0;
      std::atomic<int> ready{0};
      g_jitter = (int)std::min(1000l, std::max(0l, o.at(4)));
      std::vector<std::thread> ts;
      unsigned words = P.psz / 8;
      for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
          Rng r((uint64_t)o.at(3) * 16 + (uint64_t)t);
          t_jitter = r.next();
          ready++;
          while (ready.load() < nt) std::this_thread::yield();
          for (long s = 0; s < steps; s++) {
            size_t k = r.below((uint64_t)np);
            bool rd = r.chance(rdpct);
            pgno_t n = pgs[k];
            void *mm = nullptr;
            bool early = r.chance(50);
            int rc = ffdb_pagepool_get_page(P.p, &n, !rd && early ? FFDB_PAGE_DIRTY : 0, &mm);
            VCHECK(rc == 0 && mm, "a thread getting page %u received %d", n, rc);
            long *w = (long *)mm;
            for (unsigned i = 1; i < words; i++) VCHECK(w[i] == w[0], "page %u is half changed when a thread gets it", n);
            VCHECK(w[0] == cnt[k].load(), "page %u holds count %ld when a thread gets it, %ld were made", n, w[0], cnt[k].load());
            bool twice = r.chance(10);
            if (twice) {
              void *m2 = nullptr;
              pgno_t n2 = n;
              rc = ffdb_pagepool_get_page(P.p, &n2, 0, &m2);
              VCHECK(rc == 0 && m2 == mm, "a thread getting the page it holds received %d", rc);
              rc = ffdb_pagepool_put_page(P.p, m2, 0);
            }
            if (!rd) {
              long v = w[0] + 1;
              for (unsigned i = 0; i < words; i++) {
                w[i] = v;
                if (i == words / 2 && r.chance(10)) std::this_thread::yield();
              }
              cnt[k].store(v);
            }
            rc = ffdb_pagepool_put_page(P.p, mm, !rd ? FFDB_PAGE_DIRTY : 0);
            VCHECK(rc == 0, "a thread giving back page %u received %d", n, rc);
            if (r.chance(3)) VCHECK(ffdb_pagepool_sync(P.p) == 0, "a flush among threads failed");
          }
        });
      for (auto &t : ts) t.join();
      g_jitter = 0;
      for (int k = 0; k < np; k++) {
        long v = cnt[(size_t)k].load();
        for (unsigned i = 0; i < words; i++) memcpy(&P.m[pgs[(size_t)k]][i * 8], &v, 8);
        g_feat["t_steps"] += v;
      }
      g_feat["threads"] = nt;
    }
    P.check_held();
  }
  if (P.lost) return;
  for (auto &kv : P.m) { void *mem = P.get(kv.first, 0); P.done(kv.first, mem, false, 0); }
  P.close();
  if (P.lost) return;
  P.open();
  if (P.lost) return;
  for (auto &kv : P.m) { void *mem = P.get(kv.first, 0); P.done(kv.first, mem, false, 0); }
  P.close();
  if ((long)P.m.size() > (long)P.cache) g_feat["evicting"] = 1;
}
static Registrar R25({"C25", "more pages than the cache holds were made and at least 5 gets were compared, or two or more threads made at least 20 changes",
  gen25, run25, [](const Feat &f) { return (F(f, "evicting") && F(f, "got") >= 5) || (F(f, "threads") >= 2 && F(f, "t_steps") >= 20); },
  60, 200000, 2000000, 25, 300, 0, "exploration",
  {"a number is asked for as a new page only when no page had it before", "a thread holds one page at a time"}, true});
