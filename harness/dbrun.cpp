#include "dbrun.h"
#include "p_util.h"
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

bool g_sync_plain = false;
// ---------------------------------------------------------------- functions
static unsigned fnv(const void *p, unsigned n) {
  const unsigned char *c = (const unsigned char *)p;
  unsigned h = 2166136261u;
  for (unsigned i = 0; i < n; i++) { h ^= c[i]; h *= 16777619u; }
  return h;
}
static unsigned h_const(const void *, unsigned) { return 7; }
static unsigned h_few(const void *p, unsigned n) { return fnv(p, n) & 0x13; }
static unsigned h_fnv(const void *p, unsigned n) { return fnv(p, n); }
static unsigned h_len(const void *, unsigned n) { return n; }
static unsigned h_high(const void *p, unsigned n) { return fnv(p, n) & 0xffffff00u; }
static unsigned h_ci(const void *p, unsigned n) {
  const unsigned char *c = (const unsigned char *)p;
  unsigned h = 2166136261u;
  for (unsigned i = 0; i < n; i++) { h ^= (unsigned char)tolower(c[i]); h *= 16777619u; }
  return h;
}
static unsigned h_skew(const void *p, unsigned n) {
  unsigned f = fnv(p, n);
  return (f & 7) ? (f & ~0x3fu) : f;   // most keys share the low six bits
}
// the function the library uses when none is given (FNV-1 with a zero start), which existing files depend on
static unsigned h_def(const void *p, unsigned n) {
  const unsigned char *c = (const unsigned char *)p;
  unsigned h = 0;
  for (unsigned i = 0; i < n; i++) { h *= 16777619u; h ^= c[i]; }
  return h;
}

hash_fn hash_of(int k) {
  static const hash_fn t[NHASH] = {nullptr, h_const, h_few, h_fnv, h_len, h_high, h_ci, h_skew};
  return t[((k % NHASH) + NHASH) % NHASH];
}
hash_fn hash_ref(int k) { hash_fn h = hash_of(k); return h ? h : h_def; }
static int c_ci(const FFDB_DBT *a, const FFDB_DBT *b) {
  if (a->size != b->size) return a->size < b->size ? -1 : 1;
  for (long i = 0; i < a->size; i++) {
    int x = tolower(((unsigned char *)a->data)[i]), y = tolower(((unsigned char *)b->data)[i]);
    if (x != y) return x < y ? -1 : 1;
  }
  return 0;
}
static int c_mem(const FFDB_DBT *a, const FFDB_DBT *b) {
  long n = std::min(a->size, b->size);
  int r = n ? memcmp(a->data, b->data, (size_t)n) : 0;
  if (r) return r;
  return a->size < b->size ? -1 : a->size > b->size ? 1 : 0;
}
cmp_fn cmp_of(int k) {
  static const cmp_fn t[NCMP] = {nullptr, c_ci, c_mem};
  return t[((k % NCMP) + NCMP) % NCMP];
}
// keys equal under the comparison must hash alike, so the case-insensitive
// comparison is only used with hashes that ignore case
bool is_ci(int hashk, int cmpk) {
  hashk = ((hashk % NHASH) + NHASH) % NHASH;
  return cmp_of(cmpk) == c_ci && (hashk == 6 || hashk == 1 || hashk == 4);
}

// ---------------------------------------------------------------- config
Cfg Cfg::from(const Op &o) {
  Cfg c;
  c.bsize = o.at(0, 512);
  c.nbuckets = o.at(1, 4);
  c.cache = o.at(2, 0);
  c.rearr = o.at(3, 1);
  c.uinfolen = o.at(4, 0);
  c.nconf = o.at(5, 0);
  c.hashk = o.at(6, 0);
  c.cmpk = o.at(7, 0);
  c.defaults = o.at(8, 0);
  // keep shrunk configurations inside the documented domain
  if (c.bsize != 0 && c.bsize < 257) c.bsize = 512;
  if (c.bsize > 1048576) c.bsize = 1048576;
  if (c.nbuckets < 0) c.nbuckets = 0;
  if (c.nbuckets > 5000) c.nbuckets = 5000;
  c.uinfolen = std::max(0L, std::min(c.uinfolen, 60000L));
  c.nconf = std::max(0L, std::min(c.nconf, 400L));
  if (c.cache < 0) c.cache = 0;
  return c;
}
Op Cfg::op() const { return Op("cfg", {bsize, nbuckets, cache, rearr, uinfolen, nconf, hashk, cmpk, defaults}); }
unsigned Cfg::page() const {
  if (defaults || bsize == 0) return 4096;
  unsigned p = 1;
  while (p < (unsigned)bsize) p <<= 1;
  return p;
}
FFDB_HASHINFO Cfg::info(long rearr_now, long cache_now) const {
  FFDB_HASHINFO h;
  memset(&h, 0, sizeof h);
  h.bsize = (unsigned)bsize;
  h.nbuckets = (unsigned)nbuckets;
  h.cachesize = (unsigned long)cache_now;
  h.rearrangepages = (int)rearr_now;
  h.userinfolen = (unsigned)uinfolen;
  h.numconfigs = (unsigned)nconf;
  h.hash = hash_of((int)hashk);
  h.cmp = is_ci((int)hashk, (int)cmpk) ? c_ci : (cmp_of((int)cmpk) == c_ci ? nullptr : cmp_of((int)cmpk));
  return h;
}

Bytes key_bytes(bool ci, long kid, long ksz) {
  if (ksz == 0) return Bytes();
  if (ksz < 1) ksz = 1;
  if (ci) {
    long base = kid / 2;
    bool up = kid & 1;
    Bytes b((size_t)ksz, 'a');
    Rng r((uint64_t)base * 77 + 3);
    for (auto &ch : b) { ch = (char)('a' + r.below(26)); }
    for (size_t i = 0; i < b.size(); i++) if (up && (i % 3) != 1) b[i] = (char)toupper(b[i]);
    return b;
  }
  switch (kid % 4) {
  case 0: {                     // printable, the number first
    Bytes b = "key" + std::to_string(kid) + "/";
    while ((long)b.size() < ksz) b += (char)('A' + (b.size() * 7 + (size_t)kid) % 50);
    // the tail identifies the key when the head is cut
    if ((long)b.size() > ksz) { b = std::to_string(kid); while ((long)b.size() < ksz) b = "0" + b; b = b.substr(b.size() - (size_t)ksz); }
    return b;
  }
  case 1: {                     // a long common prefix, difference in the last bytes
    Bytes b((size_t)ksz, '\0');
    uint64_t v = (uint64_t)kid;
    for (long i = ksz - 1; i >= 0 && v; i--) { b[(size_t)i] = (char)(v & 0xff); v >>= 8; }
    return b;
  }
  default: return fill_bytes((uint64_t)kid + 1000003, (size_t)ksz);   // prefixes of each other for equal kid
  }
}
Bytes data_bytes(long seed, long n) {
  if (n < 0) n = 0;
  switch (seed % 8) {
  case 0: return Bytes((size_t)n, '\0');
  case 1: return Bytes((size_t)n, (char)0xff);
  default: return fill_bytes((uint64_t)seed, (size_t)n);
  }
}
Bytes Model::canon(const Bytes &k) const {
  if (!ci) return k;
  Bytes b = k;
  for (auto &ch : b) ch = (char)tolower((unsigned char)ch);
  return b;
}
ffdb_config_info_t make_config(long seed, long index) {
  ffdb_config_info_t c;
  memset(&c, 0, sizeof c);
  Rng r((uint64_t)seed * 131 + (uint64_t)index);
  c.config = (int)(1000 + index * 10 + (long)(seed % 7));
  c.index = (int)index;
  c.inserted = (int)r.below(2);
  c.type = (int)r.next();
  c.mtime = (int)r.next();
  size_t n = r.below(128);
  for (size_t i = 0; i < n; i++) c.fname[i] = (char)(33 + r.below(90));
  return c;
}
bool same_config(const ffdb_config_info_t &a, const ffdb_config_info_t &b) {
  return a.config == b.config && a.index == b.index && a.inserted == b.inserted && a.type == b.type && a.mtime == b.mtime &&
         !memcmp(a.fname, b.fname, sizeof a.fname);
}

// ---------------------------------------------------------------- raw calls
// Buffers handed to the library are exact-size heap blocks, so that an access
// outside them is visible to the address sanitizer.
struct Exact {
  unsigned char *p;
  explicit Exact(const Bytes &b) { p = (unsigned char *)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); }
  ~Exact() { free(p); }
  Exact(const Exact &) = delete;
};
static int do_put(FFDB_DB *db, const Bytes &k, const Bytes &d, unsigned flag) {
  Exact ek(k), ed(d);
  FFDB_DBT key, data;
  key.data = ek.p; key.size = (long)k.size();
  data.data = ed.p; data.size = (long)d.size();
  int rc = db->put(db, &key, &data, flag);
  VCHECK(!memcmp(ek.p, k.data(), k.size()) && (d.empty() || !memcmp(ed.p, d.data(), d.size())), "put changed the caller's key or data buffer");
  return rc;
}
// buf 0: the library allocates; 1: exact space; 2: larger space; 3: too small
static int do_get(FFDB_DB *db, const Bytes &k, int buf, size_t want, Bytes &out) {
  Exact ek(k);
  FFDB_DBT key, data;
  key.data = ek.p; key.size = (long)k.size();
  size_t sz = 0;
  if (buf == 1) sz = want;
  else if (buf == 2) sz = want + 1 + want / 3;
  else if (buf == 3) sz = want > 1 ? want - 1 - (want > 8 ? want / 2 : 0) : 0;
  unsigned char *b = nullptr;
  data.data = nullptr; data.size = 0;
  const size_t G = 32;
  if (sz > 0) {
    b = (unsigned char *)malloc(sz + G);
    memset(b, 0xA5, sz + G);
    data.data = b; data.size = (long)sz;
  }
  int rc = db->get(db, &key, &data, 0);
  if (b) for (size_t i = 0; i < G; i++) VCHECK(b[sz + i] == 0xA5, "get wrote past the caller's %zu-byte buffer", sz);
  if (rc == 0) {
    if (b) VCHECK(data.data == b, "get replaced the caller's buffer");
    VCHECK(data.size >= 0 && (!b || (size_t)data.size <= sz), "get returned size %ld for a buffer of %zu", data.size, sz);
    out.assign((char *)data.data, (size_t)data.size);
  }
  if (!b && rc == 0) free(data.data);
  if (b) free(b);
  return rc;
}

// ---------------------------------------------------------------- DbRun
DbRun::DbRun(const std::string &p, const Cfg &c) : path(p), cfg(c) { model.ci = is_ci((int)c.hashk, (int)c.cmpk); }

void DbRun::open(int md, long rearr, long cache, bool create) {
  if (md == 1 && check_ro_bytes) ro_before = read_file(path);
  FFDB_HASHINFO h = cfg.info(rearr, cache);
  int fl = md == 1 ? O_RDONLY : O_RDWR;
  if (create) fl |= O_CREAT;
  if (md == 2) fl |= O_TRUNC;
  db = ffdb_dbopen(path.c_str(), fl, 0600, cfg.defaults && !model.ci && cfg.hashk % NHASH == 0 ? nullptr : &h);
  VCHECK(db != nullptr, "opening the database (mode %d, session %ld) failed: %s", md, sessions, strerror(errno));
  if (md == 2) {
    model.m.clear();
    model.uinfo_set = model.cfg_set = false;
    model.uinfo.clear();
  }
  mode = md == 1 ? 1 : 0;
  if (md != 1 && sessions) g_feat["reopen_rw"]++;
  if (md == 1) g_feat["reopen_ro"]++;
  if (md == 2) g_feat["trunc"]++;
  sessions++;
}
void DbRun::close_cursors() {
  for (auto &kv : cur)
    if (kv.second.c) {
      int rc = kv.second.c->close(kv.second.c);
      VCHECK(rc == 0, "closing a cursor returned %d", rc);
    }
  cur.clear();
}
void DbRun::close() {
  if (!db) return;
  close_cursors();
  int rc = db->close(db);
  db = nullptr;
  VCHECK(rc == 0, "close returned %d", rc);
  if (mode == 1 && check_ro_bytes) {
    Bytes now = read_file(path);
    VCHECK(now == ro_before, "a read-only session changed the file (%zu -> %zu bytes)", ro_before.size(), now.size());
    g_feat["ro_unchanged"]++;
  }
  if (after_close) after_close();
}

void DbRun::put(long kid, long ksz, long dseed, long dsz, int flag) {
  Bytes k = key_bytes(model.ci, kid, ksz), d = data_bytes(dseed, dsz);
  Bytes ck = model.canon(k);
  unsigned f = flag == 1 ? FFDB_NOOVERWRITE : flag == 2 ? 3u : 0u;
  auto it = model.m.find(ck);
  bool expect_ok = true;
  const char *why = "";
  if (k.size() > maxkey()) { expect_ok = false; why = "key longer than a page can hold"; }
  else if (flag == 2) { expect_ok = false; why = "invalid flag"; }
  else if (mode == 1) { expect_ok = false; why = "read-only handle"; }
  else if (it != model.m.end()) {
    if (flag == 1) { expect_ok = false; why = "key exists and FFDB_NOOVERWRITE was given"; }
    else if (d.size() > it->second.second.size()) { expect_ok = false; why = "replacement larger than the stored data"; }
  }
  // inserting while a cursor is open is outside the contract
  if (!cur.empty() && expect_ok && it == model.m.end()) close_cursors();
  int rc = do_put(db, k, d, f);
  if (!expect_ok) {
    VCHECK(rc != 0, "put of key %s (%zu bytes data) returned success although it must be refused: %s", hexs(k).c_str(), d.size(), why);
    g_feat["put_refused"]++;
    // the refusal leaves what is stored alone
    if (k.size() <= maxkey()) get(k, 0);
    return;
  }
  VCHECK(rc == 0, "put of key %s (%zu bytes key, %zu bytes data, %s) returned %d", hexs(k).c_str(), k.size(), d.size(),
         it == model.m.end() ? "new" : "replacement", rc);
  if (it == model.m.end()) { model.m[ck] = {k, d}; g_feat["insert"]++; if (d.size() > cfg.page()) g_feat["insert_multipage"]++; }
  else { it->second.second = d; g_feat["replace"]++; if (d.size() > cfg.page()) g_feat["replace_multipage"]++; }
}
void DbRun::get(const Bytes &k, int buf) {
  auto it = model.m.find(model.canon(k));
  Bytes out;
  size_t want = it == model.m.end() ? 40 : it->second.second.size();
  if (want == 0 || (buf == 3 && want < 2)) buf = 0;
  int rc = do_get(db, k, buf, want, out);
  if (it == model.m.end()) {
    VCHECK(rc == FFDB_NOT_FOUND, "get of a key never stored (%s) returned %d%s", hexs(k).c_str(), rc, rc == 0 ? " with data" : "");
    g_feat["get_absent"]++;
    return;
  }
  if (buf == 3) {
    VCHECK(rc != 0, "get into a buffer smaller than the %zu-byte datum returned success", want);
    g_feat["get_small_buf"]++;
    return;
  }
  VCHECK(rc == 0, "get of stored key %s (%zu bytes) returned %d", hexs(k).c_str(), k.size(), rc);
  VCHECK(out.size() == want, "get of key %s returned %zu bytes instead of %zu", hexs(k).c_str(), out.size(), want);
  VCHECK(out == it->second.second, "get of key %s returned wrong bytes: %s instead of %s", hexs(k).c_str(), hexs(out).c_str(), hexs(it->second.second).c_str());
  g_feat["get_present"]++;
}

// one step of a cursor; returns the library's status
static int cstep(FFDB_DB *, ffdb_cursor_t *c, unsigned fl, bool withdata, int kbuf, size_t maxkey, Bytes &k, Bytes &d) {
  FFDB_DBT key, data;
  key.data = nullptr; key.size = 0;
  unsigned char *kb = nullptr;
  if (kbuf == 1) { kb = (unsigned char *)malloc(maxkey); key.data = kb; key.size = (long)maxkey; }
  data.data = nullptr; data.size = 0;
  int rc = c->get(c, &key, withdata ? &data : nullptr, fl);
  if (rc == 0) {
    k.assign((char *)key.data, (size_t)key.size);
    if (withdata) d.assign((char *)data.data, (size_t)data.size);
    if (!kb) free(key.data);
    if (withdata) free(data.data);
  }
  free(kb);
  return rc;
}
static void check_item(const Model &m, std::set<Bytes> &seen, const Bytes &k, const Bytes &d, bool withdata, const char *what) {
  auto it = m.m.find(m.canon(k));
  VCHECK(it != m.m.end(), "%s returned key %s (%zu bytes) that is not stored", what, hexs(k).c_str(), k.size());
  VCHECK(it->second.first == k, "%s returned key bytes %s, stored were %s", what, hexs(k).c_str(), hexs(it->second.first).c_str());
  VCHECK(seen.insert(m.canon(k)).second, "%s returned key %s twice", what, hexs(k).c_str());
  if (withdata) VCHECK(d == it->second.second, "%s returned wrong data for key %s: %zu bytes %s, stored %zu bytes %s", what, hexs(k).c_str(),
                       d.size(), hexs(d).c_str(), it->second.second.size(), hexs(it->second.second).c_str());
}
static void scan_db(FFDB_DB *db, const Model &m, size_t maxkey, int dir, bool withdata, int kbuf, int startflag, const char *what) {
  ffdb_cursor_t *c = nullptr;
  int rc = db->cursor(db, &c, FFDB_KEY_CURSOR);
  VCHECK(rc == 0 && c, "%s: cannot open a cursor (%d)", what, rc);
  std::set<Bytes> seen;
  unsigned first = startflag ? (dir ? FFDB_LAST : FFDB_FIRST) : (dir ? FFDB_PREV : FFDB_NEXT);
  unsigned fl = first;
  for (size_t n = 0;; n++) {
    VCHECK(n <= m.m.size(), "%s returned more items than are stored (%zu)", what, m.m.size());
    Bytes k, d;
    rc = cstep(db, c, fl, withdata, kbuf, maxkey, k, d);
    if (rc == FFDB_NOT_FOUND) break;
    VCHECK(rc == 0, "%s failed with %d after %zu of %zu items", what, rc, n, m.m.size());
    check_item(m, seen, k, d, withdata, what);
    fl = dir ? FFDB_PREV : FFDB_NEXT;
  }
  VCHECK(seen.size() == m.m.size(), "%s returned %zu of %zu stored keys", what, seen.size(), m.m.size());
  // the end stays the end
  if (startflag) {
    Bytes k, d;
    rc = cstep(db, c, fl = dir ? FFDB_PREV : FFDB_NEXT, withdata, kbuf, maxkey, k, d);
    VCHECK(rc == FFDB_NOT_FOUND, "%s: stepping again past the end returned %d", what, rc);
  }
  rc = c->close(c);
  VCHECK(rc == 0, "closing a cursor returned %d", rc);
}
void DbRun::scan(int dir, int withdata, int kbuf) {
  scan_db(db, model, maxkey(), dir & 1, withdata & 1, kbuf & 1, (kbuf >> 1) & 1, dir & 1 ? "backward scan" : "forward scan");
  g_feat[dir & 1 ? "scan_back" : "scan_fwd"]++;
}

// A cursor that changes direction: the keys have one order, and every step goes
// to the neighbour in it.
void DbRun::zigzag(long seed, long steps, int withdata, int kbuf) {
  std::vector<Bytes> seq;
  ffdb_cursor_t *c = nullptr;
  int rc = db->cursor(db, &c, FFDB_KEY_CURSOR);
  VCHECK(rc == 0 && c, "opening a cursor returned %d", rc);
  std::set<Bytes> seen;
  for (;;) {
    VCHECK(seq.size() <= model.m.size(), "a cursor returned more keys than are stored (%zu)", model.m.size());
    Bytes k, d;
    rc = cstep(db, c, FFDB_NEXT, false, 0, 0, k, d);
    if (rc == FFDB_NOT_FOUND) break;
    VCHECK(rc == 0, "a cursor step returned %d", rc);
    check_item(model, seen, k, d, false, "forward traversal");
    seq.push_back(k);
  }
  VCHECK(seq.size() == model.m.size(), "a forward traversal returned %zu of %zu keys", seq.size(), model.m.size());
  VCHECK(c->close(c) == 0, "closing a cursor failed");
  c = nullptr;
  rc = db->cursor(db, &c, FFDB_KEY_CURSOR);
  VCHECK(rc == 0 && c, "opening a cursor returned %d", rc);
  Rng r((uint64_t)seed * 77 + 5);
  long n = (long)seq.size(), pos = -1, turns = 0;   // -1: no position
  int dir = 0, last = -1;
  long run = 0;
  for (long i = 0; i < steps; i++) {
    unsigned fl;
    long want;
    if (pos < 0 || r.chance(3)) {              // also from the middle
      if (pos >= 0) g_feat["jump"]++;
      dir = r.chance(50);
      fl = dir ? FFDB_LAST : FFDB_FIRST;
      want = n ? (dir ? n - 1 : 0) : -1;
      run = r.chance(50) ? r.range(1, 4) : r.range(1, std::max(1L, n + 2));
      last = -1;
    } else {
      if (run-- <= 0) {
        dir = !dir;
        run = r.chance(60) ? r.range(0, 3) : r.chance(60) ? r.range(2, 30) : r.range(1, std::max(1L, n + 2));
      }
      if (r.chance(2)) {
        Bytes k, d;
        static const unsigned bad[] = {0, FFDB_AFTER, FFDB_CURRENT, FFDB_SET, FFDB_GET_BOTH, 1000};
        unsigned f = bad[r.below(6)];
        if (f != FFDB_FIRST && f != FFDB_LAST && f != FFDB_NEXT && f != FFDB_PREV) {
          FFDB_DBT key, data;
          key.data = data.data = nullptr; key.size = data.size = 0;
          rc = c->get(c, &key, &data, f);
          VCHECK(rc != 0 || (key.data && data.data), "a cursor step that is not supported (%u) reported success and returned nothing", f);
          if (rc == 0) { free(key.data); free(data.data); pos = -1; continue; }
        }
      }
      fl = dir ? FFDB_PREV : FFDB_NEXT;
      want = dir ? pos - 1 : (pos + 1 < n ? pos + 1 : -1);
      if (last >= 0 && last != dir) turns++;
      last = dir;
    }
    Bytes k, d;
    rc = cstep(db, c, fl, withdata, kbuf, maxkey(), k, d);
    if (want < 0) {
      VCHECK(rc == FFDB_NOT_FOUND, "a cursor stepping past the %s key returned %d", dir ? "first" : "last", rc);
      pos = -1;
      continue;
    }
    VCHECK(rc == 0, "step %ld of a cursor that changes direction returned %d (position %ld of %ld)", i, rc, want, n);
    VCHECK(k == seq[(size_t)want], "step %ld (%s) of a cursor that changes direction returned key %s, not the one at position %ld of %ld, %s", i,
           fl == FFDB_FIRST ? "first" : fl == FFDB_LAST ? "last" : dir ? "previous" : "next", hexs(k).c_str(), want, n, hexs(seq[(size_t)want]).c_str());
    if (withdata) {
      auto it = model.m.find(model.canon(k));
      VCHECK(it != model.m.end() && it->second.second == d, "step %ld of a cursor that changes direction returned wrong data for key %s", i, hexs(k).c_str());
    }
    pos = want;
  }
  VCHECK(c->close(c) == 0, "closing a cursor failed");
  if (n >= 2 && turns >= 2) g_feat["zigzag"]++;
}
// A cursor over data, which the interface names and nothing implements: it is
// refused, or it traverses everything.
void DbRun::dscan() {
  ffdb_cursor_t *c = nullptr;
  for (unsigned t : {0u, 1u, 2u, 3u, 4u, 5u, 16u, 0x7fu, 0xffffffffu}) {
    if (t == FFDB_KEY_CURSOR || t == FFDB_DATA_CURSOR) continue;
    VCHECK(db->cursor(db, &c, t) != 0, "a cursor of a kind that does not exist (%u) was given", t);
    c = nullptr;
  }
  int rc = db->cursor(db, &c, FFDB_DATA_CURSOR);
  if (rc != 0) return;
  VCHECK(c, "opening a data cursor reported success and gave no cursor");
  std::set<Bytes> seen;
  bool end = false, refused = false;
  for (size_t n = 0; !end && !refused; n++) {
    VCHECK(n <= model.m.size(), "a data cursor returned more items than are stored (%zu)", model.m.size());
    FFDB_DBT key, data;
    key.data = data.data = nullptr; key.size = data.size = 0;
    rc = c->get(c, &key, &data, FFDB_NEXT);
    if (rc == FFDB_NOT_FOUND) { end = true; break; }
    if (rc != 0) { refused = true; break; }
    VCHECK(key.data && data.data, "a step of a data cursor reported success and returned nothing");
    check_item(model, seen, Bytes((char *)key.data, (size_t)key.size), Bytes((char *)data.data, (size_t)data.size), true, "data cursor");
    free(key.data);
    free(data.data);
  }
  if (end) VCHECK(seen.size() == model.m.size(), "a data cursor returned %zu of %zu stored items", seen.size(), model.m.size());
  VCHECK(c->close(c) == 0, "closing a data cursor failed");
  g_feat["data_cursor"]++;
}

static void check_meta(FFDB_DB *db, const Model &m, const char *what) {
  unsigned maxlen = ffdb_max_user_info_len(db);
  {
    unsigned len = maxlen;
    unsigned char *b = (unsigned char *)malloc(maxlen ? maxlen : 1);
    int rc = ffdb_get_user_info(db, b, &len);
    VCHECK(rc == 0, "%s: reading the user information returned %d", what, rc);
    VCHECK(len == m.uinfo.size(), "%s: user information has length %u instead of %zu", what, len, m.uinfo.size());
    VCHECK(m.uinfo.empty() || !memcmp(b, m.uinfo.data(), len), "%s: user information differs", what);
    free(b);
  }
  if (m.cfg_set) {
    ffdb_all_config_info_t a;
    a.numconfigs = 0; a.allconfigs = nullptr;
    int rc = ffdb_get_all_configs(db, &a);
    VCHECK(rc == 0, "%s: reading all configurations returned %d", what, rc);
    VCHECK((size_t)a.numconfigs == m.cfgs.size(), "%s: %d configurations instead of %zu", what, a.numconfigs, m.cfgs.size());
    for (size_t i = 0; i < m.cfgs.size(); i++)
      VCHECK(same_config(a.allconfigs[i], m.cfgs[i]), "%s: configuration %zu differs", what, i);
    free(a.allconfigs);
  }
}
void DbRun::verify_meta() { check_meta(db, model, "metadata"); }
void expect_equal_to_model(FFDB_DB *db, const Model &m, const char *what, bool meta) {
  for (auto &kv : m.m) {
    Bytes out;
    int rc = do_get(db, kv.second.first, 0, 0, out);
    VCHECK(rc == 0, "%s: get of stored key %s (%zu bytes) returned %d", what, hexs(kv.second.first).c_str(), kv.second.first.size(), rc);
    VCHECK(out == kv.second.second, "%s: key %s has %zu bytes %s instead of %zu bytes %s", what, hexs(kv.second.first).c_str(), out.size(),
           hexs(out).c_str(), kv.second.second.size(), hexs(kv.second.second).c_str());
  }
  std::string w = std::string(what) + ", forward scan";
  scan_db(db, m, 0, 0, true, 0, 0, w.c_str());
  w = std::string(what) + ", backward scan";
  scan_db(db, m, 0, 1, false, 0, 0, w.c_str());
  if (meta) check_meta(db, m, what);
}
void DbRun::verify_all() {
  close_cursors();
  expect_equal_to_model(db, model, "full check");
  for (long i = 0; i < 6; i++) {
    Bytes k = key_bytes(model.ci, 900000000 + i * 2, 4 + i * 5);
    if (!model.m.count(model.canon(k))) get(k, (int)(i % 3));
  }
  g_feat["verify"]++;
}

// whole-database comparisons of big databases are rationed (by a count, so that
// the same case always does the same)
long DbRun::step_cap() const { return std::max(40L, std::min(30000000L / (long)cfg.page(), 4000000L / std::max(1L, cfg.nbuckets))); }
bool DbRun::affordable() {
  work += (long)model.m.size() * (cfg.page() > 2048 ? 3 : 1) + (cfg.nbuckets > 1000 ? cfg.nbuckets / 16 : 0);
  return work < 25000;
}
void DbRun::parse_check(const Bytes &file) {
  FmtDb f;
  std::string err;
  hash_fn h = hash_ref((int)cfg.hashk);
  VCHECK(fmt_parse(file, f, err, h), "the file does not follow the documented format: %s", err.c_str());
  std::map<Bytes, Bytes> got;
  for (auto &kv : f.items) VCHECK(got.emplace(model.canon(kv.first), kv.second).second, "the file holds key %s twice", hexs(kv.first).c_str());
  VCHECK(got.size() == model.m.size(), "the file holds %zu of %zu keys", got.size(), model.m.size());
  for (auto &kv : model.m) {
    auto it = got.find(kv.first);
    VCHECK(it != got.end(), "the file does not hold key %s", hexs(kv.first).c_str());
    VCHECK(it->second == kv.second.second, "the file holds other data for key %s", hexs(kv.first).c_str());
  }
  if (model.uinfo_set) VCHECK(f.uinfo == model.uinfo, "the file holds other user information");
  if (model.cfg_set) {
    VCHECK(f.configs.size() == model.cfgs.size(), "the file holds %zu of %zu configurations", f.configs.size(), model.cfgs.size());
    for (size_t i = 0; i < f.configs.size(); i++) {
      ffdb_config_info_t c;
      c.config = f.configs[i].config; c.index = f.configs[i].index; c.inserted = f.configs[i].inserted;
      c.type = f.configs[i].type; c.mtime = f.configs[i].mtime;
      memcpy(c.fname, f.configs[i].fname, 128);
      VCHECK(same_config(c, model.cfgs[i]), "the file holds another configuration %zu", i);
    }
  }
  g_feat["parsed"]++;
  g_feat["pages_ovfl"] += f.n_ovfl_pages;
  g_feat["pages_data"] += f.n_data_pages;
  g_feat["multi_items"] += f.n_multi;
  g_feat["pages_free"] += f.n_free;
  g_feat["pages_lost"] += f.n_lost;
  g_feat["moved"] += f.h.num_moved ? 1 : 0;
  g_feat["max_bucket"] = std::max(g_feat["max_bucket"], (long)f.h.max_bucket);
}

ffdb_cursor_t *DbRun::left_cursor(long steps, int dir) {
  ffdb_cursor_t *c = nullptr;
  int rc = db->cursor(db, &c, FFDB_KEY_CURSOR);
  VCHECK(rc == 0 && c, "opening a cursor returned %d", rc);
  steps = (steps - 1) % (long)(model.m.size() + 1) + 1;
  for (long i = 0; i < steps; i++) {
    Bytes k, d;
    rc = cstep(db, c, dir ? FFDB_PREV : FFDB_NEXT, false, 0, 0, k, d);
    if (rc == FFDB_NOT_FOUND) break;
    VCHECK(rc == 0, "a cursor step returned %d", rc);
  }
  g_feat["left_cursor"]++;
  return c;
}
void DbRun::snapshot_check(long steps, int dir) {
  ffdb_cursor_t *c = nullptr;
  if (steps > 0) c = left_cursor(steps, dir);
  if (!cur.empty()) g_feat["sync_cursor_open"]++;
  int rc = db->sync(db, 0);
  VCHECK(rc == 0, "sync returned %d", rc);
  g_feat["sync"]++;
  Bytes img = read_file(path);
  std::string cp = path + ".snap";
  write_file(cp, img);
  DbRun d(cp, cfg);
  d.model = model;
  d.open((int)(g_feat["sync"] & 1), g_feat["sync"] & 2 ? 1 : 0, 0, false);
  expect_equal_to_model(d.db, model, "copy taken after sync");
  d.close();
  unlink(cp.c_str());
  if (c) VCHECK(c->close(c) == 0, "closing a cursor failed");
  g_feat["snapshot"]++;
}

void DbRun::metaop(const Op &o) {
  if (o.name == "uset") {
    Bytes u = fill_bytes((uint64_t)o.at(0), (size_t)std::max(0L, o.at(1)));
    unsigned maxlen = ffdb_max_user_info_len(db);
    long want = cfg.defaults ? 4000 : cfg.uinfolen ? cfg.uinfolen : 4000;
    VCHECK((long)maxlen == want, "room for user information is %u instead of %ld", maxlen, want);
    unsigned char *b = (unsigned char *)malloc(u.size() ? u.size() : 1);
    memcpy(b, u.data(), u.size());
    int rc = ffdb_set_user_info(db, b, (unsigned)u.size());
    free(b);
    if (mode == 1) { VCHECK(rc != 0, "a read-only handle accepted user information"); g_feat["meta_refused"]++; }
    else if (u.size() > maxlen) { VCHECK(rc != 0, "user information of %zu bytes was accepted, room is %u", u.size(), maxlen); g_feat["meta_refused"]++; }
    else { VCHECK(rc == 0, "storing user information returned %d", rc); model.uinfo = u; model.uinfo_set = true; g_feat["uset"]++; }
    check_meta(db, model, "after setting user information");
  } else if (o.name == "uget") {
    if (!model.uinfo.empty() && o.at(0) == 1) {
      unsigned len = (unsigned)model.uinfo.size() - 1, l0 = len;
      unsigned char *b = (unsigned char *)malloc(len ? len : 1);
      int rc = ffdb_get_user_info(db, b, &len);
      VCHECK(rc != 0, "user information of %zu bytes was returned in a buffer of %u", model.uinfo.size(), l0);
      free(b);
      g_feat["uget_small"]++;
    } else check_meta(db, model, "reading metadata");
  } else if (o.name == "csetall") {
    long nc = cfg.defaults ? 1 : cfg.nconf ? cfg.nconf : 1;
    VCHECK((long)ffdb_num_configs(db) == nc, "room for %u configurations instead of %ld", ffdb_num_configs(db), nc);
    long n = nc + (o.at(1) == 1 ? 1 : o.at(1) == 2 ? -1 : 0);
    std::vector<ffdb_config_info_t> v;
    for (long i = 0; i < n; i++) v.push_back(make_config(o.at(0), i));
    ffdb_all_config_info_t a;
    a.numconfigs = (int)n;
    a.allconfigs = (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * (size_t)std::max(1L, n));
    for (long i = 0; i < n; i++) a.allconfigs[i] = v[(size_t)i];
    int rc = ffdb_set_all_configs(db, &a);
    free(a.allconfigs);
    if (mode == 1) { VCHECK(rc != 0, "a read-only handle accepted configurations"); g_feat["meta_refused"]++; }
    else if (n != nc) { VCHECK(rc != 0, "%ld configurations were accepted, room is %ld", n, nc); g_feat["meta_refused"]++; }
    else { VCHECK(rc == 0, "storing all configurations returned %d", rc); model.cfgs = v; model.cfg_set = true; g_feat["csetall"]++; }
    check_meta(db, model, "after setting all configurations");
  } else if (o.name == "cset") {
    long nc = cfg.defaults ? 1 : cfg.nconf ? cfg.nconf : 1;
    long idx = o.at(1) % (nc + 2);
    if (idx == nc + 1) idx = -1;
    ffdb_config_info_t c = make_config(o.at(0), idx < 0 ? 0 : idx);
    bool match = model.cfg_set && idx >= 0 && idx < nc;
    if (match) {
      if (o.at(2) == 0) c.config = model.cfgs[(size_t)idx].config;
      match = c.config == model.cfgs[(size_t)idx].config;
    }
    c.index = (int)idx;
    if (!model.cfg_set && idx >= 0 && idx < nc) return;   // unspecified before all were set
    int rc = ffdb_set_config(db, &c);
    if (mode == 1) { VCHECK(rc != 0, "a read-only handle accepted a configuration"); g_feat["meta_refused"]++; }
    else if (!match) { VCHECK(rc != 0, "a configuration with index %ld and an unknown number was accepted", idx); g_feat["meta_refused"]++; }
    else { VCHECK(rc == 0, "updating configuration %ld returned %d", idx, rc); model.cfgs[(size_t)idx] = c; g_feat["cset"]++; }
    check_meta(db, model, "after setting one configuration");
  } else if (o.name == "cget") {
    if (!model.cfg_set) return;
    long nc = (long)model.cfgs.size();
    long idx = o.at(0) % (nc + 1);
    ffdb_config_info_t c;
    memset(&c, o.at(1) ? 0x5a : 0xff, sizeof c);      // an output argument: its former contents do not matter
    unsigned num = idx < nc ? (unsigned)model.cfgs[(size_t)idx].config : 77u;
    int rc = ffdb_get_config(db, num, &c);
    if (idx < nc) {
      VCHECK(rc == 0, "configuration number %u is stored but reading it returned %d", num, rc);
      VCHECK(same_config(c, model.cfgs[(size_t)idx]), "configuration number %u differs", num);
      g_feat["cget"]++;
    } else VCHECK(rc != 0, "an unknown configuration number was found");
  }
}

bool DbRun::exec(const Op &o) {
  if (o.name == "put") put(o.at(0), o.at(1, 8), o.at(2), o.at(3), (int)o.at(4));
  else if (o.name == "bulk") {
    long n = std::min(o.at(1), 200000L);
    long step = std::max(1L, o.at(5, 1));
    // long histories are bounded: a chain of thousands of keys in one bucket is quadratic
    long hk = ((cfg.hashk % NHASH) + NHASH) % NHASH, cap = hk == 1 || hk == 2 || hk == 4 || hk == 5 || hk == 7 ? std::min(1500L, 300000 / std::max(1L, o.at(2, 8))) : 8000;
    for (long i = 0; i < n && (long)model.m.size() < cap; i++) put(o.at(0) + i * step, o.at(2, 8) + (o.at(6) ? i % o.at(6) : 0), o.at(3) + i, o.at(4) + (o.at(7) ? (i * 7) % o.at(7) : 0), 0);
    if (n >= 500) g_feat["bulk500"]++;
  } else if (o.name == "get") get(key_bytes(model.ci, o.at(0), o.at(1, 8)), (int)o.at(2) & 3);
  else if (o.name == "getm") {           // the i-th stored key
    if (model.m.empty()) return true;
    auto it = model.m.begin();
    std::advance(it, (long)((size_t)o.at(0) % model.m.size()));
    Bytes k = it->second.first;
    get(k, (int)o.at(1) & 3);
  } else if (o.name == "repm") {         // replace the i-th stored key by data of a share (0..100 %) of its size
    if (model.m.empty()) return true;
    auto it = model.m.begin();
    std::advance(it, (long)((size_t)o.at(0) % model.m.size()));
    Bytes k = it->second.first;
    size_t cs = it->second.second.size();
    size_t ns = o.at(2) >= 100 ? cs : cs * (size_t)std::max(0L, o.at(2)) / 100;
    if (o.at(2) == 101) ns = cs + 1;     // must be refused
    Bytes d = data_bytes(o.at(1), (long)ns);
    int rc = do_put(db, k, d, 0);
    if (mode == 1 || ns > cs) { VCHECK(rc != 0, "a replacement that must be refused (%s) returned success", mode == 1 ? "read-only" : "larger"); g_feat["put_refused"]++; }
    else {
      VCHECK(rc == 0, "replacing %zu bytes by %zu returned %d", cs, ns, rc);
      it->second.second = d;
      g_feat["replace"]++;
      if (cs > cfg.page()) g_feat["replace_multipage"]++;
    }
    get(k, 0);
  } else if (o.name == "putmax") {       // data longer than the format can say: refused before a byte is read
    Bytes k = key_bytes(model.ci, o.at(0), o.at(1, 8));
    if (o.at(2) && !model.m.empty()) {
      auto it = model.m.begin();
      std::advance(it, (long)((size_t)o.at(0) % model.m.size()));
      k = it->second.first;
    }
    char some[16] = {1, 2, 3};
    FFDB_DBT a, b;
    a.data = (void *)k.data(); a.size = k.size();
    b.data = some; b.size = maxdata + 1 + (o.at(3) ? std::min(std::max(0L, o.at(3)), 1L << 50) : 0);
    int rc = db->put(db, &a, &b, o.at(4) ? FFDB_NOOVERWRITE : 0);
    VCHECK(rc != 0, "data of %ld bytes, more than the limit of %ld, were accepted", (long)b.size, maxdata);
    get(k, 0);
    g_feat["put_refused"]++;
    g_feat["put_over_limit"]++;
  } else if (o.name == "del") {          // a removal that reports success has removed the key
    Bytes k = key_bytes(model.ci, o.at(0), o.at(1, 8));
    if (o.at(2) && !model.m.empty()) {
      auto it = model.m.begin();
      std::advance(it, (long)((size_t)o.at(0) % model.m.size()));
      k = it->second.first;
    }
    FFDB_DBT a;
    a.data = (void *)k.data();
    a.size = k.size();
    int rc = db->del(db, &a, 0);
    if (rc == 0) {
      VCHECK(mode == 0, "a read-only handle reported a key as removed");
      model.m.erase(model.canon(k));
    }
    get(k, 0);
    g_feat["del"]++;
  } else if (o.name == "scan") { if (affordable()) scan((int)o.at(0), (int)o.at(1), (int)o.at(2)); }
  else if (o.name == "zigzag") { if (affordable()) zigzag(o.at(0), std::min(o.at(1), step_cap()), (int)(o.at(2) & 1), (int)(o.at(2) >> 1) & 1); }
  else if (o.name == "dscan") dscan();
  else if (o.name == "copen") {
    int s = (int)(o.at(0) & 3);
    Cursor &c = cur[s];
    if (c.c) return true;
    int rc = db->cursor(db, &c.c, FFDB_KEY_CURSOR);
    VCHECK(rc == 0 && c.c, "opening a cursor returned %d", rc);
    c.dir = (int)(o.at(1) & 1);
    g_feat["cursor_open"]++;
    if (cur.size() > 1) g_feat["cursors_overlap"]++;
  } else if (o.name == "cstep") {
    int s = (int)(o.at(0) & 3);
    auto f = cur.find(s);
    if (f == cur.end()) return true;
    Cursor &c = f->second;
    if (c.started && !c.ended && o.at(3) == 2) {   // start over from the middle
      c.started = false;
      c.seen.clear();
      g_feat["jump"]++;
    }
    for (long i = 0; i < std::max(1L, std::min(o.at(1), step_cap())); i++) {
      if (c.ended) {
        // after the end: either rewind or step once more
        if (o.at(3) == 1) {
          Bytes k, d;
          int rc = cstep(db, c.c, c.dir ? FFDB_PREV : FFDB_NEXT, false, 0, 0, k, d);
          VCHECK(rc == FFDB_NOT_FOUND, "stepping a cursor past the end again returned %d", rc);
          return true;
        }
        c.ended = c.started = false;
        c.seen.clear();
      }
      unsigned fl = c.started ? (c.dir ? FFDB_PREV : FFDB_NEXT) : (c.dir ? FFDB_LAST : FFDB_FIRST);
      Bytes k, d;
      int rc = cstep(db, c.c, fl, o.at(2) & 1, (int)(o.at(2) >> 1) & 1, maxkey(), k, d);
      c.started = true;
      if (rc == FFDB_NOT_FOUND) {
        VCHECK(c.seen.size() == model.m.size(), "a cursor interleaved with other operations returned %zu of %zu keys", c.seen.size(), model.m.size());
        c.ended = true;
        g_feat["cursor_complete"]++;
        continue;
      }
      VCHECK(rc == 0, "a cursor step returned %d", rc);
      check_item(model, c.seen, k, d, o.at(2) & 1, "interleaved cursor");
    }
  } else if (o.name == "cclose") {
    auto f = cur.find((int)(o.at(0) & 3));
    if (f == cur.end()) return true;
    int rc = f->second.c->close(f->second.c);
    VCHECK(rc == 0, "closing a cursor returned %d", rc);
    cur.erase(f);
  } else if (o.name == "sync") {
    if (o.at(0) && mode == 0 && !g_sync_plain && affordable()) snapshot_check(o.at(1), (int)(o.at(2) & 1));
    else {
      int rc = db->sync(db, 0);
      VCHECK(rc == 0, "sync returned %d", rc);
      g_feat["sync"]++;
    }
  } else if (o.name == "reopen") {
    if (o.at(4) > 0) { close_cursors(); left_cursor(o.at(4), (int)(o.at(5) & 1)); }    // still open when the database is closed
    close();
    open((int)(o.at(0) % 3), o.at(1), o.at(2), o.at(0) >= 3);   // 3..5: the same with O_CREAT, of no effect
    if (o.at(3) && affordable()) verify_all();
  } else if (o.name == "verify") { if (affordable()) verify_all(); }
  else if (o.name == "uset" || o.name == "uget" || o.name == "csetall" || o.name == "cset" || o.name == "cget") metaop(o);
  else return false;
  return true;
}

// ---------------------------------------------------------------- generators
long gen_cache(Rng &r, const Cfg &c) {
  long pg = c.page();
  if (pg >= 65536) return r.pick({0L, pg * 3, pg * 40});     // every miss costs a checksum of the whole page
  switch (r.below(6)) {
  case 0: return 0;
  case 1: return pg * r.range(1, 3);
  case 2: return pg * r.range(4, 12);
  case 3: return pg * r.range(13, 64);
  case 4: return r.range(1, pg - 1);
  default: return pg * 1000;
  }
}
Cfg gen_cfg(Rng &r, const Profile &p) {
  Cfg c;
  int w = r.weighted({55, 12, 12, 6, 3, 2, p.huge_page_pct});
  const long bs[] = {512, 1024, 4096, 0, 16384, 65536, 1048576};
  c.bsize = bs[w];
  if (w < 3 && r.chance(15)) c.bsize = r.range(c.bsize / 2 + 1, c.bsize);   // rounded up to a power of two
  if (c.bsize && c.bsize < 257) c.bsize = 512;
  c.nbuckets = r.chance(70) ? r.pick({0L, 1L, 2L, 3L, 4L, 5L, 8L, 16L}) : r.chance(80) ? r.range(1, 64) : r.range(64, 1000);
  if (r.chance(p.many_buckets)) c.nbuckets = r.chance(50) ? r.range(1000, 20000) : r.range(20000, 140000);
  if (c.page() > 8192 && c.nbuckets > 32) c.nbuckets = 32;
  if (c.page() > 1024 && c.nbuckets > 1000) c.nbuckets = 1000;
  c.rearr = r.chance(60);
  if (p.tiny_cache) c.cache = gen_cache(r, c);
  c.uinfolen = r.chance(40) ? 0 : r.chance(50) ? r.range(1, 64) : r.range(1, 3000);
  if (r.chance(20)) c.uinfolen = (long)c.page() - 28 - 4 + r.range(-2, 2) + (r.chance(50) ? (long)c.page() - 28 : 0);
  c.uinfolen = std::min(c.uinfolen, 60000L);
  c.nconf = r.chance(50) ? 0 : r.chance(70) ? r.range(1, 9) : r.range(1, 60);
  if (p.vary_hash) c.hashk = r.weighted({40, 5, 6, 14, 5, 5, 15, 10});
  if (p.vary_cmp) c.cmpk = c.hashk == 6 || c.hashk == 1 || c.hashk == 4 ? r.weighted({30, 60, 10}) : r.weighted({70, 0, 30});
  if (r.chance(2)) { c.defaults = 1; c.hashk = 0; c.cmpk = 0; c.bsize = 0; c.uinfolen = 0; c.nconf = 0; }
  return c;
}
long gen_ksz(Rng &r, const Cfg &c) {
  long mx = (long)c.page() - 56;
  switch (r.weighted({50, 20, 12, 12, 3})) {
  case 0: return r.range(4, 24);
  case 1: return r.chance(6) ? 0 : r.range(1, 60);
  case 2: return r.range(1, mx);
  case 3: return mx + r.range(-6, 0);
  default: return mx + r.range(1, 4);
  }
}
long gen_dsz(Rng &r, const Cfg &c) {
  long pg = c.page();
  switch (r.weighted({40, 8, 20, 22, 8, 2})) {
  case 0: return r.range(0, 60);
  case 1: return r.range(0, 3);
  case 2: return r.range(0, pg);
  case 3: {
    // around the points where a datum stops fitting one, two, three pages
    long k = r.range(1, 4);
    return std::max(0L, k * (pg - r.pick({28L, 32L, 36L, 48L, 52L, 56L})) + r.range(-24, 24));
  }
  case 4: return r.range(pg, pg * 6);
  default: return std::min(pg * r.range(6, 40), 3000000L);
  }
}
void gen_ops(Rng &r, const Profile &p, const Cfg &c, Case &out, int n, bool big) {
  long space = r.pick({4L, 20L, 80L, 400L, 4000L});
  bool fixed_k = r.chance(40);
  long kfix = r.range(4, 24);
  bool heavy = r.chance(35);
  auto ksz = [&] { return fixed_k && !r.chance(10) ? kfix : gen_ksz(r, c); };
  auto dsz = [&] { long d = gen_dsz(r, c); return c.page() > 20000 ? std::min(d, 4L * c.page()) : d; };
  std::vector<std::pair<long, long>> used;
  auto left = [&] {
    if (!r.chance(p.left)) return;
    out.ops.back().a.push_back(r.chance(60) ? r.range(1, 8) : r.range(1, 4000));
    out.ops.back().a.push_back(r.range(0, 1));
  };
  for (int i = 0; i < n; i++) {
    switch (r.weighted({p.put, p.rep, p.noow, p.badflag, p.getp, p.geta, p.bulk, p.scan, p.sync, p.reopen, p.ro, p.trunc, p.meta, p.verify, p.cursor})) {
    case 0: {
      long kid = r.range(0, space), ks = ksz();
      used.push_back({kid, ks});
      out.add("put", {kid, ks, r.range(0, 100000), dsz(), 0});
      break;
    }
    case 1: out.add("repm", {r.range(0, 5000), r.range(0, 100000), r.pick({0L, 10L, 50L, 90L, 99L, 100L, 100L, 101L})}); break;
    case 2: {
      bool old = !used.empty() && r.chance(70);
      auto u = old ? r.pick(used) : std::make_pair(r.range(0, space), ksz());
      out.add("put", {u.first, u.second, r.range(0, 100000), old && r.chance(50) ? 0 : dsz(), 1});
      break;
    }
    case 3:
      if (r.chance(35)) out.add("del", {r.range(0, space), ksz(), (long)r.chance(75)});
      else out.add("put", {r.range(0, space), ksz(), r.range(0, 100000), dsz(), 2});
      break;
    case 4: out.add("getm", {r.range(0, 5000), r.range(0, 3)}); break;
    case 5: out.add("get", {r.range(0, space), ksz(), r.range(0, 3)}); break;
    case 6: {
      long cnt = r.chance(70) ? r.range(5, 60) : r.range(60, 400);
      if (c.page() > 8192) cnt = std::min(cnt, c.page() >= 65536 ? 8L : 60L);
      long dd = heavy ? dsz() : r.range(0, 80);
      if (dd * cnt > 4000000) cnt = std::max(1L, 4000000 / dd);
      long ks = std::min(ksz(), (long)c.page() - 56);
      out.add("bulk", {r.range(0, space * 3), cnt, std::max(4L, ks), r.range(0, 100000), dd, 1, r.chance(30) && ks < 200 ? r.range(2, 30) : 0, r.chance(40) ? r.range(2, 100) : 0});
      break;
    }
    case 7: out.add("scan", {r.range(0, 1), r.range(0, 1), r.range(0, 3)}); break;
    case 8: out.add("sync", {r.chance(60)}); if (p.left) left(); break;
    case 9: out.add("reopen", {r.chance(20) ? 3 : 0, p.multi_session_rearr ? (long)r.chance(60) : c.rearr, gen_cache(r, c), (long)r.chance(60)}); if (p.left) left(); break;
    case 10: out.add("reopen", {r.chance(25) ? 4 : 1, (long)r.chance(60), gen_cache(r, c), 1}); if (p.left) left(); break;
    case 11: out.add("reopen", {r.chance(30) ? 5 : 2, (long)r.chance(60), gen_cache(r, c), 1}); used.clear(); break;
    case 12:
      switch (r.below(6)) {
      case 0: case 1: {
        long L = c.uinfolen ? c.uinfolen : 4000;
        out.add("uset", {r.range(2, 10000), r.chance(15) ? L + r.range(1, 3) : r.chance(30) ? L : r.range(0, L)});
        break;
      }
      case 2: out.add("csetall", {r.range(0, 10000), r.chance(80) ? 0 : r.range(1, 2)}); break;
      case 3: out.add("cset", {r.range(0, 10000), r.range(0, 400), r.chance(75) ? 0 : 1}); break;
      case 4: out.add("cget", {r.range(0, 400), r.range(0, 1)}); break;
      default: out.add("uget", {r.range(0, 1)}); break;
      }
      break;
    case 13: out.add("verify"); break;
    default:
      switch (r.weighted({3, 8, 2})) {
      case 0: out.add("copen", {r.range(0, 3), r.range(0, 1)}); break;
      case 1: out.add("cstep", {r.range(0, 3), r.chance(70) ? r.range(1, 6) : r.range(10, 4000), r.range(0, 3), r.range(0, 2)}); break;
      default: out.add("cclose", {r.range(0, 3)}); break;
      }
    }
    if (big && r.chance(100 / std::max(1, n) + 2)) {
      long cnt = c.page() > 2048 ? r.range(500, 3000) : r.range(800, 5000);
      out.add("bulk", {r.range(0, 1000000), cnt, r.range(4, 28), r.range(0, 100000), r.range(0, 40), 1, r.chance(40) ? r.range(2, 12) : 0, r.chance(40) ? r.range(2, 60) : 0});
    }
  }
}
Case gen_history(Rng &r, const Profile &p) {
  Case c;
  Cfg cfg = gen_cfg(r, p);
  bool big = r.chance(p.big_pct);
  if (big && cfg.page() > 4096) big = false;
  if (big && (cfg.hashk == 1 || cfg.hashk == 4 || cfg.hashk == 5)) cfg.hashk = 7;   // one chain of thousands is quadratic
  c.ops.push_back(cfg.op());
  // most histories are short, some long
  int n = r.chance(60) ? (int)r.range(p.min_ops, std::max(p.min_ops, p.max_ops / 3)) : (int)r.range(p.min_ops, p.max_ops);
  if (cfg.page() >= 65536) n = std::min(n, 14);
  gen_ops(r, p, cfg, c, n, big);
  return c;
}
