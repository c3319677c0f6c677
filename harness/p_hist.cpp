// Properties decided by histories of operations against the model.
#include "dbrun.h"
#include "p_util.h"
#include "AllConfStoreDB.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "DBString.h"
#include <fcntl.h>
#include <unistd.h>
#include <memory>

// ------------------------------------------------------------ C03 cursors
static Case gen03(Rng &r, uint64_t) {
  Profile p;
  p.put = 14; p.rep = 8; p.noow = 2; p.badflag = 1; p.getp = 12; p.geta = 5; p.bulk = 14; p.scan = 14; p.sync = 0; p.reopen = 4; p.ro = 3;
  p.trunc = 1; p.meta = 1; p.verify = 2; p.cursor = 40; p.max_ops = 70; p.many_buckets = 1;
  Case c = gen_history(r, p);
  // complete both directions at the end
  for (int i = 0; i < 2; i++) c.add("scan", {i, r.range(0, 1), r.range(0, 3)});
  if (r.chance(70)) c.add("zigzag", {r.range(0, 1000000), r.chance(70) ? r.range(10, 400) : r.range(400, 6000), r.range(0, 3)});
  // and in the middle
  for (int n = (int)r.range(0, 2); n > 0 && c.ops.size() > 2; n--) {
    Op z;
    if (r.chance(15)) z.name = "dscan";
    else { z.name = "zigzag"; z.a = {r.range(0, 1000000), r.range(5, 300), r.range(0, 3)}; }
    c.ops.insert(c.ops.begin() + r.range(1, (long)c.ops.size() - 1), z);
  }
  return c;
}
static void run03(const Case &c) { run_history(c, false); }
static Registrar R03({"C03", "at least 5 keys stored and at least two complete traversals, one of them of a cursor interleaved with other operations or one in each direction",
  gen03, run03, [](const Feat &f) { return F(f, "insert") >= 5 && F(f, "cursor_complete") + (F(f, "scan_fwd") > 0) + (F(f, "scan_back") > 0) >= 2; },
  60, 100000, 1000000, 35, 500, 0, "exploration",
  {"no key is inserted while a cursor is open (replacements and lookups are)", "one thread"}});

// ------------------------------------------------------------ C04 sync
static Case gen04(Rng &r, uint64_t) {
  Profile p;
  p.sync = 14; p.reopen = 3; p.ro = 0; p.trunc = 1; p.verify = 1; p.scan = 3; p.badflag = 3; p.noow = 6; p.bulk = 9; p.cursor = 6; p.left = 35;
  Case c = gen_history(r, p);
  for (auto &o : c.ops) if (o.name == "sync") o.a[0] = 1;
  c.add("sync", {1});
  return c;
}
static void run04(const Case &c) { run_history(c, false); }
static Registrar R04({"C04", "at least 3 keys stored and a copy of the file taken after sync, in a session with earlier changes, opened and compared in full",
  gen04, run04, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "snapshot") > 0; },
  60, 100000, 1000000, 35, 500, 0, "exploration",
  {"the copy stands for the file after the process is gone: the operating system keeps what was written"}});

// ------------------------------------------------------------ C05 read-only
// a written file, then one or more read-only sessions full of reads and of
// attempts to write
static Case gen05(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 4; p.ro = 0; p.trunc = 0; p.sync = 1; p.verify = 0; p.scan = 0; p.max_ops = 30;
  Case c = gen_history(r, p);
  Cfg cfg = Cfg::from(c.ops[0]);
  Profile q;
  q.put = 25; q.rep = 15; q.noow = 5; q.badflag = 2; q.getp = 15; q.geta = 6; q.bulk = 2; q.scan = 8; q.sync = 8; q.reopen = 0; q.ro = 8;
  q.trunc = 0; q.meta = 20; q.verify = 4; q.cursor = 12;
  c.add("reopen", {r.chance(25) ? 4 : 1, r.range(0, 1), gen_cache(r, cfg), (long)r.chance(50)});
  gen_ops(r, q, cfg, c, (int)r.range(4, 40), false);
  c.add("reopen", {1, r.range(0, 1), 0, 1});
  return c;
}
static void run05(const Case &c) {
  g_sync_plain = true;
  run_history(c, false);
}
static Registrar R05({"C05", "a file with at least 3 keys, at least one read-only session that attempted a write, ended with the file compared byte for byte",
  gen05, run05, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "ro_unchanged") > 0 && F(f, "put_refused") + F(f, "meta_refused") > 0; },
  60, 100000, 1000000, 30, 400, 0, "exploration", {}});

// ------------------------------------------------------------ C06 rearrangement
// The same history runs twice: with page moving on close in the generated
// sessions, and never.  Both must be the model, and moving must not cost space.
static Case gen06(Rng &r, uint64_t) {
  if (r.chance(20)) {
    Case c;
    long page = 512L << r.range(0, 3);
    // through: C, and three classes; page size, buckets, entries, key size, data size, spread of the data size, seed
    c.add("once", {r.range(0, 3), page, r.chance(50) ? r.range(1, 8) : r.range(1, 100), r.chance(70) ? r.range(5, 300) : r.range(300, 1500), r.range(6, 40), r.range(0, 60), r.chance(50) ? r.range(1, 200) : r.range(1, 3 * page), (long)r.below(1 << 20)});
    return c;
  }
  Profile p;
  p.reopen = 14; p.ro = 1; p.trunc = 1; p.sync = 2; p.bulk = 18; p.put = 20; p.verify = 1; p.scan = 1; p.meta = 2; p.big_pct = 35; p.max_ops = 40; p.left = 10; p.many_buckets = 2;
  Case c = gen_history(r, p);
  c.ops[0].a[3] = r.chance(80);
  for (auto &o : c.ops) if (o.name == "reopen") o.a[1] = r.chance(80);
  c.add("reopen", {0, 1, 0, 1});
  c.add("bulk", {r.range(0, 100000), r.range(1, 200), r.range(4, 30), r.range(0, 1000), r.range(0, 60), 1, 0, 0});
  c.add("reopen", {0, 1, 0, 1});
  c.add("reopen", {1, 0, 0, 1});
  return c;
}
// a file written in one session: moving pages fills the places of buckets that are not in use yet
static void run06once(const Op &o) {
  using namespace FILEDB;
  long via = o.at(0) % 4, page = std::max(512L, std::min(o.at(1), 8192L)), nb = std::max(1L, std::min(o.at(2), 500L)), n = std::min(o.at(3), 3000L), spread = std::max(1L, o.at(6));
  std::map<std::string, std::string> m;
  Rng r((uint64_t)o.at(7));
  for (long i = 0; i < n; i++) {
    std::string k = std::to_string(r.below((uint64_t)n * 3));
    k.resize((size_t)std::min(std::max(1L, o.at(4)), page - 64), '.');
    size_t sz = via == 3 ? (size_t)std::max(0L, o.at(5)) : (size_t)(std::max(0L, o.at(5)) + (long)r.below((uint64_t)spread));
    if (!m.count(k)) m[k] = fill_bytes((uint64_t)i, sz);
  }
  long size[2];
  long gain = 0;
  for (int move = 0; move < 2; move++) {
    std::string path = g_dir + (move ? "/moved" : "/plain");
    auto by = [&](auto &d, auto &&ins) {
      d.setPageSize((unsigned)page);
      d.setNumberBuckets((unsigned)nb);
      if (move) d.enablePageMove(); else d.disablePageMove();
      VCHECK(d.open(path, O_RDWR | O_CREAT, 0600) == 0, "creating a store failed");
      for (auto &kv : m) VCHECK(ins(d, StringKey(kv.first), UserData(kv.second)) == 0, "an insert failed");
      VCHECK(d.close() == 0, "closing failed");
    };
    if (via == 0) {
      Cfg cfg;
      cfg.bsize = page; cfg.nbuckets = nb; cfg.rearr = move; cfg.cache = 64 << 20;
      FFDB_HASHINFO h = cfg.info(move, cfg.cache);
      FFDB_DB *d = ffdb_dbopen(path.c_str(), O_RDWR | O_CREAT, 0600, &h);
      VCHECK(d, "creating a database failed");
      for (auto &kv : m) {
        FFDB_DBT a, b;
        a.data = (void *)kv.first.data(); a.size = (long)kv.first.size(); b.data = (void *)kv.second.data(); b.size = (long)kv.second.size();
        VCHECK(d->put(d, &a, &b, 0) == 0, "a put failed");
      }
      VCHECK(d->close(d) == 0, "closing failed");
    } else if (via == 1) { ConfDataStoreDB<StringKey, UserData> d; by(d, [](auto &e, const StringKey &k, const UserData &v) { return e.insert(k, v); }); }
    else if (via == 2) { ConfDataStoreDBSimple d; by(d, [](auto &e, const StringKey &k, const UserData &v) { return e.template insert<StringKey, UserData>(k, v); }); }
    else { AllConfStoreDB<StringKey, UserData> d(std::vector<int>{1, 2}); by(d, [](auto &e, const StringKey &k, const UserData &v) { return e.insert(k, std::vector<UserData>(2, v)); }); }
    size[move] = file_size(path);
    FmtHdr h;
    std::string err;
    if (!move && fmt_header(read_file(path), h, err) && h.ovfl_point < 31 && h.spares[h.ovfl_point + 1]) {
      uint32_t lv = 0;
      while ((1u << lv) < h.high_mask + 1) lv++;
      long last = h.high_mask > 0 ? (long)h.high_mask - (1L << (lv - 1)) + h.spares[lv] : h.spares[0];
      gain = std::max(0L, std::min((long)h.high_mask - (long)h.max_bucket, (long)h.spares[h.ovfl_point + 1] - 1 - last));
    }
    // what is in it is the same
    Cfg cfg;
    FFDB_HASHINFO hi = cfg.info(0, 0);
    memset(&hi, 0, sizeof hi);
    FFDB_DB *d = ffdb_dbopen(path.c_str(), O_RDONLY, 0400, &hi);
    VCHECK(d, "the closed file cannot be opened");
    if (via == 0) for (auto &kv : m) {
      FFDB_DBT a, b;
      a.data = (void *)kv.first.data(); a.size = (long)kv.first.size(); b.data = nullptr; b.size = 0;
      VCHECK(d->get(d, &a, &b, 0) == 0 && std::string((char *)b.data, (size_t)b.size) == kv.second, "a key of the %s file is lost or has other data", move ? "rearranged" : "plain");
      free(b.data);
    }
    d->close(d);
  }
  g_feat["once"]++;
  if (gain > 4) { g_feat["gain"]++; g_feat["insert"] += (long)m.size(); g_feat["moved"]++; g_feat["verify"]++; }
  VCHECK(size[1] <= size[0] - gain * page + 2 * page, "%ld pages could take the place of unused buckets, but moving pages on close left %ld bytes instead of %ld", gain, size[1], size[0]);
}
static void run06(const Case &c) {
  if (c.ops.empty()) return;
  if (c.ops[0].name == "once") { run06once(c.ops[0]); return; }
  Cfg cfg = Cfg::from(c.ops[0]);
  for (int variant = 0; variant < 2; variant++) {
    DbRun d(g_dir + (variant ? "/db.plain" : "/db.moved"), cfg);
    d.open(0, variant ? 0 : cfg.rearr, cfg.cache, true);
    for (size_t i = 1; i < c.ops.size(); i++) {
      Op o = c.ops[i];
      if (o.name == "reopen" && variant) { while (o.a.size() < 4) o.a.push_back(0); o.a[1] = 0; }
      d.exec(o);
    }
    d.verify_all();
    d.close();
    FmtHdr h;
    std::string err;
    if (!variant && fmt_header(read_file(d.path), h, err)) { g_feat["final_buckets"] = h.max_bucket + 1; g_feat["moved"] = h.num_moved; }
  }
  long a = file_size(g_dir + "/db.moved"), b = file_size(g_dir + "/db.plain");
  g_feat["bytes_moved"] = a;
  g_feat["bytes_plain"] = b;
  VCHECK(a <= b + 2 * (long)cfg.page(), "moving pages on close left a larger file (%ld bytes) than not moving them (%ld bytes)", a, b);
}
static Registrar R06({"C06", "a session that asked for page moving was closed after keys were stored, pages were really moved (the header says so), and the contents compared afterwards",
  gen06, run06, [](const Feat &f) { return F(f, "insert") >= 10 && F(f, "moved") > 0 && F(f, "verify") > 0; },
  60, 100000, 1000000, 40, 500, 0, "exploration", {}});

// ------------------------------------------------------------ C07 cache sizes
static Case gen07(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 5; p.ro = 1; p.trunc = 0; p.sync = 3; p.bulk = 10; p.cursor = 4; p.max_ops = 40; p.huge_page_pct = 0; p.big_pct = 6;
  return gen_history(r, p);
}
static void run07(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  long pg = cfg.page();
  const long caches[] = {1, pg * 3, pg * 20, 0, 64L << 20};
  std::string first;
  for (long ca : caches) {
    if (pg >= 65536 && ca == 1) continue;
    DbRun d(g_dir + "/db", cfg);
    d.open(0, cfg.rearr, ca, true);
    for (size_t i = 1; i < c.ops.size(); i++) {
      Op o = c.ops[i];
      if (o.name == "reopen") { while (o.a.size() < 4) o.a.push_back(0); o.a[2] = ca; }
      d.exec(o);
    }
    d.verify_all();
    d.close();
    unlink((g_dir + "/db").c_str());
    g_feat["caches"]++;
  }
}
static Registrar R07({"C07", "at least 10 keys stored, under at least four cache sizes from one page to far more than the file",
  gen07, run07, [](const Feat &f) { return F(f, "insert") >= 40 && F(f, "caches") >= 4; },
  60, 100000, 1000000, 40, 500, 0, "exploration", {}});

// ------------------------------------------------------------ C12 format
static Case gen12(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 12; p.ro = 1; p.trunc = 1; p.sync = 4; p.bulk = 10; p.meta = 6; p.verify = 0; p.scan = 0; p.big_pct = 14; p.left = 8; p.many_buckets = 1;
  return gen_history(r, p);
}
static void run12(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  DbRun d(g_dir + "/db", cfg);
  int parses = 0;
  d.after_close = [&] { if (parses++ < 12) d.parse_check(read_file(d.path)); };
  d.open(0, cfg.rearr, cfg.cache, true);
  for (size_t i = 1; i < c.ops.size(); i++) d.exec(c.ops[i]);
  parses = 0;
  d.close();
}
static Registrar R12({"C12", "a file with at least 5 items that the independent reader decoded completely: every page checksum, link, back reference, bucket address and datum",
  gen12, run12, [](const Feat &f) { return F(f, "insert") >= 5 && F(f, "parsed") > 0; },
  60, 100000, 1000000, 35, 500, 0, "exploration",
  {"the layout is the one of ffdb_hash.h and ffdb_page.h, version 6", "files written on this (little-endian) machine; the other byte order is C10, version 5 is C11"}});

// ------------------------------------------------------------ C13 metadata
static Case gen13(Rng &r, uint64_t) {
  Profile p;
  p.put = 8; p.rep = 2; p.noow = 0; p.badflag = 0; p.getp = 2; p.geta = 0; p.bulk = 4; p.scan = 1; p.sync = 4; p.reopen = 10; p.ro = 6; p.trunc = 1;
  p.meta = 60; p.verify = 3; p.big_pct = 2; p.max_ops = 40;
  Case c;
  Cfg cfg = gen_cfg(r, p);
  long pg = cfg.page();
  // sizes around the page boundaries of the metadata area
  if (r.chance(50) && !cfg.defaults) {
    long k = r.range(0, 3);
    cfg.uinfolen = std::max(1L, std::min(60000L, (pg - 32) + k * (pg - 28) + r.range(-4, 4)));
  }
  if (r.chance(40) && !cfg.defaults) {
    long per = (pg - 28) / 148;
    cfg.nconf = std::min(400L, std::max(1L, per * r.range(1, 3) + r.range(-1, 1)));
  }
  c.ops.push_back(cfg.op());
  if (r.chance(80)) c.add("csetall", {r.range(0, 10000), 0});
  gen_ops(r, p, cfg, c, (int)r.range(4, 40), false);
  c.add("reopen", {1, 0, 0, 1});
  return c;
}
static void run13(const Case &c) { run_history(c, false); }
static Registrar R13({"C13", "user information or configurations stored, and read back in full after the file was closed and reopened",
  gen13, run13, [](const Feat &f) { return F(f, "uset") + F(f, "csetall") + F(f, "cset") >= 2 && F(f, "reopen_rw") + F(f, "reopen_ro") > 0 && F(f, "verify") > 0; },
  60, 100000, 1000000, 30, 400, 0, "exploration",
  {"configuration i is addressed by its index and number, as ffdb_set_config requires, after all were set once"}});

// ------------------------------------------------------------ C14 memory safety
// a part of the cases are programs of other properties, whose answers are judged there
static const int k14[] = {3, 10, 11, 16, 16, 17, 17, 18, 18, 19, 19, 23};
static const Property *inner14(long k) {
  for (int x : k14)
    if (x == k) {
      char id[8];
      snprintf(id, sizeof id, "C%02ld", k);
      for (auto &p : registry()) if (!strcmp(p.id, id)) return &p;
    }
  return nullptr;
}
static Case gen14(Rng &r, uint64_t) {
  if (r.chance(40)) {
    long k = k14[r.below(sizeof k14 / sizeof k14[0])];
    Case c;
    c.add("of", {k});
    if (const Property *q = inner14(k)) for (auto &o : q->gen(r, r.next()).ops) c.ops.push_back(o);
    return c;
  }
  Profile p;
  p.put = 22; p.rep = 10; p.noow = 3; p.badflag = 1; p.getp = 16; p.geta = 6; p.bulk = 6; p.scan = 6; p.sync = 4; p.reopen = 6; p.ro = 2; p.trunc = 1;
  p.meta = 14; p.verify = 2; p.cursor = 10; p.big_pct = 5; p.max_ops = 50; p.huge_page_pct = 1;
  return gen_history(r, p);
}
extern bool g_mute;
static void run14(const Case &c) {
  if (c.ops.empty()) return;
  if (c.ops[0].name != "of") { run_history(c, false); return; }
  const Property *q = inner14(c.ops[0].at(0));
  if (!q || c.ops.size() < 2) return;
  Case in;
  in.ops.assign(c.ops.begin() + 1, c.ops.end());
  g_feat["of"]++;
  g_mute = true;
  q->run(in);
  g_mute = false;
  g_feat[std::string("of_") + q->id]++;
}
static Registrar R14({"C14", "at least 3 keys stored, lookups into caller buffers of exact, larger or too small size, or a program of another property through cursors, conversions, several databases or the store classes, all under AddressSanitizer and UBSan",
  gen14, run14, [](const Feat &f) { return F(f, "of") > 0 || (F(f, "insert") >= 3 && F(f, "get_present") > 0); },
  90, 100000, 1000000, 60, 600, 0, "exploration",
  {"the address sanitizer sees accesses outside heap blocks, stack and globals, and after free; buffers handed in are exact-size heap blocks", "misaligned access and shifts are not judged"}});

// ------------------------------------------------------------ C23 several databases
static Case gen23(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 6; p.ro = 1; p.trunc = 1; p.sync = 3; p.cursor = 6; p.max_ops = 40; p.big_pct = 0; p.huge_page_pct = 0; p.bulk = 5;
  Case c;
  int n = (int)r.range(2, 4);
  c.add("n", {n});
  std::vector<Cfg> cf;
  for (int i = 0; i < n; i++) { cf.push_back(gen_cfg(r, p)); c.ops.push_back(cf.back().op()); }
  int blocks = (int)r.range(4, 24);
  for (int b = 0; b < blocks; b++) {
    int w = (int)r.below((uint64_t)n);
    c.add("db", {w});
    gen_ops(r, p, cf[(size_t)w], c, (int)r.range(1, 6), false);
  }
  return c;
}
static void run23(const Case &c) {
  std::vector<std::unique_ptr<DbRun>> d;
  for (auto &o : c.ops) if (o.name == "cfg") {
    Cfg cfg = Cfg::from(o);
    d.emplace_back(new DbRun(g_dir + "/db" + std::to_string(d.size()), cfg));
    d.back()->open(0, cfg.rearr, cfg.cache, true);
  }
  if (d.empty()) return;
  size_t w = 0, switches = 0;
  for (auto &o : c.ops) {
    if (o.name == "db") { size_t k = (size_t)std::max(0L, o.at(0)) % d.size(); switches += k != w; w = k; }
    else if (o.name != "cfg" && o.name != "n") d[w]->exec(o);
  }
  g_feat["switches"] = (long)switches;
  g_feat["dbs"] = (long)d.size();
  for (auto &x : d) x->verify_all();
  for (auto &x : d) x->close();
  // and each of them alone, after the others are gone
  for (auto &x : d) { x->open(1, 0, 0, false); x->verify_all(); x->close(); }
}
static Registrar R23({"C23", "at least two databases open at once in one process, at least 3 switches between them, keys stored in them",
  gen23, run23, [](const Feat &f) { return F(f, "dbs") >= 2 && F(f, "switches") >= 3 && F(f, "insert") >= 5; },
  60, 100000, 1000000, 30, 400, 0, "exploration", {"one thread"}});
