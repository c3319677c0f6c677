// Properties of the file itself: damage, byte order, old versions, refusals.
#include "dbrun.h"
#include "p_util.h"
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "AllConfStoreDB.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "DBString.h"

// ------------------------------------------------------------ C10, C11
// A history in which the file is rewritten, between sessions, as a machine of
// the other byte order or as library version 5 would have written it.
static void convert_between(DbRun &d, const Op &o) {
  d.close();
  Bytes f = read_file(d.path);
  std::string err;
  bool ok = o.name == "swap" ? fmt_swap_order(f, err) : fmt_to_v5(f, err);
  if (!ok) vfail("the file written by the library cannot be converted: %s", err.c_str());
  write_file(d.path, f);
  g_feat[o.name]++;
  if (o.name == "v5") d.maxdata = 0xffffffffL;
  d.open((int)(o.at(0) & 1), o.at(1), o.at(2), false);
  d.verify_all();
  if (o.at(0) & 1) { d.close(); d.open(0, o.at(1), o.at(2), false); }
}
static void run_conv(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  DbRun d(g_dir + "/db", cfg);
  bool conv = false;
  int parses = 0;
  d.after_close = [&] { if (conv && d.mode == 0 && parses++ < 8) d.parse_check(read_file(d.path)); };
  d.open(0, cfg.rearr, cfg.cache, true);
  for (size_t i = 1; i < c.ops.size(); i++) {
    const Op &o = c.ops[i];
    if (o.name == "swap" || o.name == "v5") { convert_between(d, o); conv = true; }
    else {
      d.exec(o);
      if (conv && (o.name == "put" || o.name == "repm" || o.name == "bulk" || o.name == "uset" || o.name == "csetall" || o.name == "cset")) g_feat["changed_after"]++;
    }
  }
  d.verify_all();
  parses = 0;
  d.close();
  d.open(1, 0, 0, false);
  d.verify_all();
  d.close();
}
static Case gen_conv(Rng &r, const char *op) {
  Profile p;
  p.reopen = 6; p.ro = 1; p.trunc = 0; p.sync = 2; p.bulk = 10; p.meta = 8; p.verify = 0; p.scan = 2; p.max_ops = 26; p.big_pct = 5; p.cursor = 3;
  Case c = gen_history(r, p);
  Cfg cfg = Cfg::from(c.ops[0]);
  c.add(op, {r.range(0, 1), (long)r.chance(60), gen_cache(r, cfg)});
  p.sync = 6;
  gen_ops(r, p, cfg, c, (int)r.range(2, 26), false);
  if (r.chance(40)) {
    c.add(op, {r.range(0, 1), (long)r.chance(60), gen_cache(r, cfg)});
    gen_ops(r, p, cfg, c, (int)r.range(2, 12), false);
  }
  return c;
}
static Case gen10(Rng &r, uint64_t) { return gen_conv(r, "swap"); }
static Case gen11(Rng &r, uint64_t) {
  Case c = gen_conv(r, "v5");
  if (r.chance(20)) {       // both at once
    Op s("swap", {r.range(0, 1), (long)r.chance(60), 0});
    c.ops.insert(c.ops.begin() + 1 + (long)r.below(c.ops.size()), s);
  }
  for (int n = (int)r.range(0, 2); n > 0; n--) c.ops.insert(c.ops.begin() + 1 + (long)r.below(c.ops.size()), Op("putmax", {r.range(0, 1000), r.range(1, 40), r.range(0, 1), r.chance(50) ? 0L : r.range(0, 1L << r.range(1, 44)), r.range(0, 1)}));
  return c;
}
static Registrar R10({"C10", "a file of the other byte order with at least 3 keys was read in full and then changed in a read-write session",
  gen10, run_conv, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "swap") > 0 && F(f, "changed_after") > 0; },
  60, 100000, 1000000, 35, 500, 0, "exploration",
  {"the other machine's file is produced by an independent converter from the documented layout"}});
static Registrar R11({"C11", "a version 5 file with at least 3 keys was read in full and then changed in a read-write session",
  gen11, run_conv, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "v5") > 0 && F(f, "changed_after") > 0; },
  60, 100000, 1000000, 30, 400, 0, "exploration",
  {"version 5 files are produced by an independent converter: they differ in the header version and the mark of valid data"}});

// ------------------------------------------------------------ C09 damage
static Case gen09(Rng &r, uint64_t) {
  Profile p;
  p.put = 30; p.rep = 6; p.noow = 0; p.badflag = 0; p.getp = 0; p.geta = 0; p.bulk = 16; p.scan = 0; p.sync = 0; p.reopen = 4; p.ro = 0; p.trunc = 0;
  p.meta = 6; p.verify = 0; p.max_ops = 24; p.big_pct = 2; p.huge_page_pct = 0;
  Case c = gen_history(r, p);
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; i++)
    // kind: 0 bits of a page in use, 1 header, 2 datum with the page checksum made good, 3 a run of bytes, 4 a page in the place of another
    c.add("dmg", {(long)r.weighted({46, 14, 22, 8, 10}), (long)r.below(1000003), (long)r.below(1000003), r.range(1, 255), r.chance(70) ? 1 : r.range(2, 5), r.range(0, 1)});
  return c;
}
static Bytes page_fix(Bytes f, const FmtHdr &h, uint32_t pg) {
  size_t o = (size_t)pg * h.bsize;
  uint32_t c = ref_crc32(0, f.data() + o, 20);
  c = ref_crc32(c, f.data() + o + 24, h.bsize - 24);
  if (h.lorder == 4321) fmt_put32be(f, o + 20, c);
  else for (int i = 0; i < 4; i++) f[o + 20 + (size_t)i] = (char)(c >> (8 * i));
  return f;
}
// read everything; 'E' an operation reported an error, 'W' a wrong answer, 'R' all right
static void read_all_sub(const std::string &path, const Cfg &cfg, const Model &m, int mode, const std::function<void(const Bytes &)> &send) {
  FFDB_HASHINFO h = cfg.info(0, 0);
  FFDB_DB *db = ffdb_dbopen(path.c_str(), mode ? O_RDONLY : O_RDWR, 0600, &h);
  if (!db) { send("E"); return; }
  bool err = false;
  auto wrong = [&](const std::string &s) { send("W" + s); _exit(0); };
  for (auto &kv : m.m) {
    FFDB_DBT k, d;
    k.data = (void *)kv.second.first.data(); k.size = (long)kv.second.first.size();
    d.data = nullptr; d.size = 0;
    int rc = db->get(db, &k, &d, 0);
    if (rc == 0) {
      if (Bytes((char *)d.data, (size_t)d.size) != kv.second.second) wrong("lookup of key " + hexs(kv.second.first) + " returned damaged data as success");
      free(d.data);
    } else if (rc == FFDB_NOT_FOUND) wrong("a stored key was reported as not stored");
    else err = true;
  }
  // keys that were never stored: one in every bucket or so
  size_t na = std::min<size_t>(m.m.size() + 8, 400);
  for (size_t i = 0; i < na; i++) {
    Bytes kb = "never" + std::to_string(i * 977);
    if (m.ci || m.m.count(m.canon(kb))) continue;
    FFDB_DBT k, d;
    k.data = (void *)kb.data(); k.size = (long)kb.size();
    d.data = nullptr; d.size = 0;
    int rc = db->get(db, &k, &d, 0);
    if (rc == 0) wrong("a key that was never stored was found");
    if (rc != FFDB_NOT_FOUND) err = true;
  }
  for (unsigned dir = 0; dir < 2; dir++) {
    ffdb_cursor_t *c = nullptr;
    if (db->cursor(db, &c, FFDB_KEY_CURSOR) != 0) { err = true; continue; }
    size_t n = 0;
    for (;;) {
      FFDB_DBT k, d;
      k.data = d.data = nullptr; k.size = d.size = 0;
      int rc = c->get(c, &k, &d, dir ? FFDB_PREV : FFDB_NEXT);
      if (rc == FFDB_NOT_FOUND) { if (n != m.m.size()) wrong("a traversal ended early without an error"); break; }
      if (rc != 0) { err = true; break; }
      Bytes kb((char *)k.data, (size_t)k.size);
      auto it = m.m.find(m.canon(kb));
      if (it == m.m.end() || it->second.first != kb) wrong("a traversal returned a key that was never stored");
      if (it->second.second != Bytes((char *)d.data, (size_t)d.size)) wrong("a traversal returned damaged data as success");
      free(k.data); free(d.data);
      if (++n > m.m.size()) wrong("a traversal does not end");
    }
    c->close(c);
  }
  if (m.uinfo_set) {
    unsigned len = ffdb_max_user_info_len(db);
    Bytes u(len ? len : 1, '\0');
    if (ffdb_get_user_info(db, (unsigned char *)&u[0], &len) != 0) err = true;
    else if (Bytes(u, 0, len) != m.uinfo) wrong("damaged user information was returned");
  }
  if (m.cfg_set) {
    ffdb_all_config_info_t a;
    a.numconfigs = 0; a.allconfigs = nullptr;
    if (ffdb_get_all_configs(db, &a) != 0) err = true;
    else {
      if ((size_t)a.numconfigs != m.cfgs.size()) wrong("damaged configuration count was returned");
      for (size_t i = 0; i < m.cfgs.size(); i++) if (!same_config(a.allconfigs[i], m.cfgs[i])) wrong("a damaged configuration was returned");
    }
  }
  if (db->close(db) != 0) err = true;
  send(err ? "E" : "R");
}
// the same through a store class, as far as it takes keys of any bytes
static void read_class_sub(const std::string &path, const Model &m, int mode, const std::function<void(const Bytes &)> &send) {
  FILEDB::ConfDataStoreDB<FILEDB::StringKey, FILEDB::UserData> x;
  if (x.open(path, mode ? O_RDONLY : O_RDWR, 0600) != 0) { send("E"); return; }
  bool err = false;
  for (auto &kv : m.m) {
    std::string got = "left over";
    int rc = -1;
    try { rc = x.getBinary(kv.second.first, got); } catch (std::exception &) {}
    if (rc == 0 && got != kv.second.second) { send("Wa class returned damaged data of key " + hexs(kv.second.first) + " as success"); _exit(0); }
    if (rc == FFDB_NOT_FOUND) { send("Wa class reported a stored key as not stored"); _exit(0); }
    if (rc != 0) err = true;
  }
  if (x.close() != 0) err = true;
  send(err ? "E" : "R");
}
static void run09(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  cfg.defaults = 0;
  DbRun d(g_dir + "/db", cfg);
  d.open(0, cfg.rearr, cfg.cache, true);
  std::vector<const Op *> dmg;
  for (size_t i = 1; i < c.ops.size(); i++) { if (c.ops[i].name == "dmg") dmg.push_back(&c.ops[i]); else d.exec(c.ops[i]); }
  d.close();
  Bytes good = read_file(d.path);
  FmtDb f;
  std::string err;
  if (!fmt_parse(good, f, err, hash_ref((int)cfg.hashk))) vfail("the file does not follow the documented format: %s", err.c_str());
  std::vector<uint32_t> used(f.used_pages.begin(), f.used_pages.end());
  // the undamaged file reads right through the same reader
  {
    SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) { read_all_sub(d.path, cfg, d.model, 1, send); }, 40);
    VCHECK(!s.timed_out && s.out == "R", "reading the undamaged file: %s %s", s.out.c_str(), status_text(s.status).c_str());
  }
  bool classes = cfg.hashk == 0 && cfg.cmpk == 0;
  if (classes) {
    SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) { read_class_sub(d.path, d.model, 1, send); }, 40);
    VCHECK(!s.timed_out && s.out == "R", "reading the undamaged file through a class: %s %s", s.out.c_str(), status_text(s.status).c_str());
  }
  for (const Op *o : dmg) {
    Bytes bad = good;
    long kind = ((o->at(0) % 5) + 5) % 5;
    bool must_report = true;
    std::string what;
    int cnt = (int)std::max(1L, std::min(o->at(4, 1), 8L));
    uint64_t a = (uint64_t)o->at(1), b = (uint64_t)o->at(2);
    unsigned char x = (unsigned char)(o->at(3) & 255);
    if (!x) x = 1;
    if (kind == 1) {
      for (int i = 0; i < cnt; i++) bad[(a + (uint64_t)i * b) % FMT_HDR] ^= (char)x;
      what = "the header";
    } else if (kind == 2) {
      if (f.items.empty()) continue;
      size_t it = a % f.items.size();
      if (f.where[it].n == 0) continue;
      // one run of at most four bytes, which the checksum of the datum always shows
      size_t off = (size_t)f.where[it].page * f.h.bsize + f.where[it].off, at = b % f.where[it].n;
      for (int i = 0; i < std::min(cnt, 4) && at + (size_t)i < f.where[it].n; i++) bad[off + at + (size_t)i] ^= (char)x;
      bad = page_fix(bad, f.h, f.where[it].page);
      what = "a datum (page checksum made good)";
    } else if (kind == 4) {
      uint32_t pg = used[a % used.size()], pg2 = used[b % used.size()];
      if (pg == pg2) continue;
      size_t o1 = (size_t)pg * f.h.bsize, o2 = (size_t)pg2 * f.h.bsize;
      bad.replace(o1, f.h.bsize, good, o2, f.h.bsize);
      if (x & 1) bad.replace(o2, f.h.bsize, good, o1, f.h.bsize);
      what = "page " + std::to_string(pg) + " (overwritten by page " + std::to_string(pg2) + ")";
    } else {
      uint32_t pg = used[a % used.size()];
      size_t o0 = (size_t)pg * f.h.bsize;
      if (kind == 0) for (int i = 0; i < cnt; i++) bad[o0 + (b + (uint64_t)i * 7919) % f.h.bsize] ^= (char)x;
      else for (int i = 0; i < cnt * 8; i++) { size_t q = o0 + (b % f.h.bsize + (size_t)i) % f.h.bsize; bad[q] = (char)(bad[q] ^ (char)(x + i)); }
      bool blank = true;
      for (uint32_t i = 0; i < f.h.bsize && blank; i++) blank = bad[o0 + i] == 0;
      if (blank) continue;
      what = "page " + std::to_string(pg);
    }
    if (bad == good) continue;
    std::string cp = g_dir + "/bad";
    write_file(cp, bad);
    int mode = (int)(o->at(5) & 1);
    SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) { read_all_sub(cp, cfg, d.model, mode, send); }, 40);
    VCHECK(!s.timed_out, "reading a file with damage in %s does not end", what.c_str());
    VCHECK(s.out.empty() || s.out[0] != 'W', "after damage in %s: %s", what.c_str(), s.out.c_str() + 1);
    VCHECK(!WIFSIGNALED(s.status), "reading a file with damage in %s crashed: %s", what.c_str(), status_text(s.status).c_str());
    bool exited = WIFSIGNALED(s.status) || WEXITSTATUS(s.status) != 0;
    VCHECK(exited || s.out == "E" || !must_report, "damage in %s was not reported by any operation", what.c_str());
    g_feat[kind == 1 ? "dmg_header" : kind == 2 ? "dmg_datum" : "dmg_page"]++;
    if (kind == 4) g_feat["dmg_place"]++;
    if (exited) g_feat["reported_by_exit"]++; else g_feat["reported_by_error"]++;
    if (classes && (kind != 1 || (b & 1))) {
      if (!mode) write_file(cp, bad);
      s = run_sub([&](const std::function<void(const Bytes &)> &send) { read_class_sub(cp, d.model, mode, send); }, 40);
      VCHECK(!s.timed_out, "reading a file with damage in %s through a class does not end", what.c_str());
      VCHECK(s.out.empty() || s.out[0] != 'W', "after damage in %s: %s", what.c_str(), s.out.c_str() + 1);
      VCHECK(!WIFSIGNALED(s.status), "reading a file with damage in %s through a class crashed: %s", what.c_str(), status_text(s.status).c_str());
      exited = WIFSIGNALED(s.status) || WEXITSTATUS(s.status) != 0;
      VCHECK(exited || s.out == "E" || kind != 2, "damage in %s was not reported through a class", what.c_str());
      g_feat["damage_class"]++;
    }
    unlink(cp.c_str());
  }
}
static Registrar R09({"C09", "a file with at least 3 keys in which bytes of the header, of a page in use or of a datum were changed, read in full afterwards",
  gen09, run09, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "dmg_header") + F(f, "dmg_page") + F(f, "dmg_datum") > 0; },
  120, 100000, 1000000, 35, 500, 0, "fault_enumeration",
  {"a page that reads as zeros throughout, or lies beyond the end of the file, is a page that was never written", "a page replaced by an older version of itself cannot be told", "the library reports damage by an error, by exit or by abort", "a change of several scattered bytes escapes a 32-bit checksum with probability 2^-32"}});

// ------------------------------------------------------------ C24 refusals
static Case gen24(Rng &r, uint64_t) {
  Profile p;
  p.put = 30; p.rep = 4; p.noow = 0; p.badflag = 0; p.getp = 0; p.geta = 0; p.bulk = 8; p.scan = 0; p.sync = 0; p.reopen = 2; p.ro = 0; p.trunc = 0;
  p.meta = 4; p.verify = 0; p.max_ops = 10; p.big_pct = 0; p.huge_page_pct = 0;
  Case c = gen_history(r, p);
  int n = (int)r.range(3, 10);
  for (int i = 0; i < n; i++) c.add("refuse", {r.range(0, 11), (long)r.below(1000003), (long)r.below(1000003), r.range(0, 1), r.range(0, 1), r.chance(35) ? r.range(1, 3) : 0});
  return c;
}
static void run24(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  cfg.defaults = 0;
  DbRun d(g_dir + "/db", cfg);
  d.open(0, cfg.rearr, cfg.cache, true);
  std::vector<const Op *> ref;
  for (size_t i = 1; i < c.ops.size(); i++) { if (c.ops[i].name == "refuse") ref.push_back(&c.ops[i]); else d.exec(c.ops[i]); }
  d.close();
  Bytes good = read_file(d.path);
  for (const Op *o : ref) {
    std::string p = g_dir + "/other";
    unlink(p.c_str());
    Bytes f = good;
    Cfg use = cfg;
    int fl = o->at(3) & 1 ? O_RDONLY : O_RDWR;
    if (o->at(4) & 1) fl |= O_CREAT;
    bool present = true, dir = false;
    std::string what;
    uint64_t a = (uint64_t)o->at(1), b = (uint64_t)o->at(2);
    switch (o->at(0) % 12) {
    case 0: f = fill_bytes(a, b % 6000); what = "a file of random bytes"; break;
    case 1: f[a % FMT_HDR] ^= (char)(1 + b % 255); what = "a damaged header"; break;
    case 2: { uint32_t m = (uint32_t)(a * 2654435761u); if (m == 0xcece3434u) m++; if (b % 3 == 0) m = 0xcece3434u ^ (1u << (a % 32)); fmt_put32be(f, HO_MAGIC, m); fmt_fix_header(f); what = "another magic number"; break; }
    case 3: { uint32_t v = b % 3 ? (uint32_t)(a % 12) : (uint32_t)(a * 2654435761u); if (v == 5 || v == 6) v = 7; fmt_put32be(f, HO_VERSION, v); fmt_fix_header(f); what = "version " + std::to_string((int)v); break; }
    case 4: {
      static const char CK[] = "%$sniglet^&";
      long k = (long)(a % NHASH);
      if (hash_ref((int)k)(CK, sizeof CK) == hash_ref((int)cfg.hashk)(CK, sizeof CK)) continue;
      use.hashk = k;
      use.cmpk = 0;
      what = "another hash function than it was written with";
      break;
    }
    case 5: f = f.substr(0, b % 5 ? a % FMT_HDR : 0); what = "a file shorter than the header"; break;
    case 6: present = false; fl &= ~O_CREAT; what = "a file that does not exist"; break;
    case 7: fl = (fl & ~O_ACCMODE) | O_WRONLY; present = b & 1; what = "write-only access"; break;
    case 8: present = false; dir = true; what = "a directory"; break;
    case 10: fl = O_RDWR | O_CREAT | O_EXCL; what = "a file to be created that exists"; break;
    case 11: fl |= a & 1 ? O_APPEND : O_SYNC; present = b & 1; what = "with an unsupported flag"; break;
    default:
      present = false;
      use.bsize = a & 1 ? (1 << 20) + 1 + (long)(b % 5000000) : 1 + (long)(b % 256);
      fl = O_RDWR | O_CREAT;
      what = "a page size of " + std::to_string(use.bsize);
    }
    if (present) write_file(p, f);
    if (dir) mkdir(p.c_str(), 0700);
    long cls = o->at(5) & 3, kd = o->at(0) % 12;
    if (kd == 4 || kd == 9) cls = 0;
    SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) {
      int rc = -1;
      if (cls == 1) { FILEDB::ConfDataStoreDB<FILEDB::StringKey, FILEDB::UserData> x; rc = x.open(p, fl, 0600); }
      if (cls == 2) { FILEDB::ConfDataStoreDBSimple x; rc = x.open(p, fl, 0600); }
      if (cls == 3) { std::vector<int> cf{1, 2}; FILEDB::AllConfStoreDB<FILEDB::StringKey, FILEDB::UserData> x(cf); rc = x.open(p, fl, 0600); }
      if (cls) { send(rc == 0 ? "opened" : "refused"); return; }
      FFDB_HASHINFO h = use.info(1, 0);
      FFDB_DB *db = ffdb_dbopen(p.c_str(), fl, 0600, &h);
      if (db) { send("opened"); _exit(0); }
      send("refused");
    }, 40);
    VCHECK(!s.timed_out, "opening %s does not end", what.c_str());
    VCHECK(s.out != "opened", "opening %s was accepted", what.c_str());
    VCHECK(!WIFSIGNALED(s.status), "opening %s crashed: %s", what.c_str(), status_text(s.status).c_str());
    if (dir) rmdir(p.c_str());
    else if (present) { VCHECK(file_exists(p) && read_file(p) == f, "refusing %s changed the file", what.c_str()); }
    else if (kd != 9) VCHECK(!file_exists(p), "refusing %s created a file", what.c_str());
    g_feat["refused"]++;
    g_feat[std::string("refuse_") + std::to_string(kd)]++;
    if (cls) g_feat["refused_by_class"]++;
  }
  // and what is a proper file is still accepted
  d.open(1, 0, 0, false);
  d.verify_all();
  d.close();
}
static Registrar R24({"C24", "at least one file that is no database of this library, version and hash function was offered and refused, next to a proper one that is accepted",
  gen24, run24, [](const Feat &f) { return F(f, "refused") >= 2 && F(f, "verify") > 0; },
  120, 100000, 1000000, 20, 300, 0, "exploration",
  {"the library refuses by a null handle or, for a header whose checksum fails, by exit"}});
