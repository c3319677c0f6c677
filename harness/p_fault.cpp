// Failing reads and writes: success is only reported when it is true.
#include "dbrun.h"
#include "p_util.h"
#include "wrap.h"
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

// ops: the history before the fault is ordinary; "fault" arms a plan; the
// operations after it are judged by fault-aware rules; "heal" disarms.
Case gen22cpp(Rng &r);
void run22cpp(const Case &c);
static Case gen22(Rng &r, uint64_t) {
  if (r.chance(15)) return gen22cpp(r);
  if (r.chance(22)) {
    // growth leaves pages free; a few large data take them again while reads or writes fail
    Case c;
    Cfg f;
    f.bsize = r.pick({512L, 1024L}); f.nbuckets = r.range(0, 4); f.cache = f.bsize * r.range(1, 40); f.rearr = r.chance(50); f.uinfolen = r.range(1, 40); f.hashk = r.pick({0L, 3L, 7L});
    c.ops.push_back(f.op());
    for (int i = (int)r.range(1, 2); i > 0; i--) c.add("bulk", {r.range(0, 100000), r.range(40, 400), r.chance(60) ? r.range(40, 100) : r.range(12, 90), r.range(0, 1000), r.range(0, 60), 1, 0, 0});
    if (r.chance(50)) c.add("reopen", {0, r.chance(40), f.bsize * r.range(1, 4), 0});
    c.add("fault", {r.chance(75) ? 0 : 1, r.chance(60) ? r.range(0, 3) : r.range(0, 12), r.chance(70) ? 1 : r.range(2, 5), r.range(0, 2), r.pick({0L, 5L, 5L, 5L, 4L, 2L, 3L})});
    for (int i = (int)r.range(2, 7); i > 0; i--) c.add("put", {200000 + r.range(0, 1000), r.range(4, 30), r.range(2, 100000), f.bsize * r.range(1, 9), 0});
    if (r.chance(30)) c.add("scan", {r.range(0, 1), 1, 0});
    c.add("end", {r.range(0, 2)});
    return c;
  }
  Profile p;
  p.put = 30; p.rep = 10; p.noow = 2; p.badflag = 0; p.getp = 10; p.geta = 3; p.bulk = 12; p.scan = 2; p.sync = 3; p.reopen = 3; p.ro = 1; p.trunc = 0;
  p.meta = 3; p.verify = 0; p.max_ops = 16; p.big_pct = 0; p.huge_page_pct = 0;
  Case c = gen_history(r, p);
  Cfg cfg = Cfg::from(c.ops[0]);
  bool ro = r.chance(25);
  c.add("reopen", {ro ? 1 : 0, r.chance(50), r.chance(70) ? (long)cfg.page() * r.range(1, 8) : gen_cache(r, cfg), 0});
  p.reopen = 0; p.ro = 0; p.sync = 8; p.scan = 4; p.getp = 20;
  gen_ops(r, p, cfg, c, (int)r.range(0, 6), false);
  // which: 0 reads, 1 writes; at: how many calls later; n: for how many calls
  if (r.chance(30)) c.add("uset", {r.range(2, 10000), r.range(0, cfg.uinfolen ? cfg.uinfolen : 4000)});
  c.add("fault", {r.chance(90) ? r.range(0, 1) : 2, r.chance(60) ? r.range(0, 6) : r.range(0, 60), r.chance(50) ? 1 : r.chance(50) ? r.range(2, 10) : 1000000000L, r.range(0, 2), r.chance(65) ? 0 : r.range(1, 5)});
  int nr = r.chance(35) ? (int)r.range(1, 2) : 0;
  for (int q = 0; q <= nr; q++) {
    gen_ops(r, p, cfg, c, (int)r.range(q ? 0 : 1, 12 / (nr + 1)), false);
    if (r.chance(15)) c.add("rmeta");
    if (q < nr) c.add("freopen", {r.chance(30), r.chance(60), r.chance(70) ? (long)cfg.page() * r.range(1, 8) : gen_cache(r, cfg)});
  }
  if (r.chance(60)) { c.add("heal"); gen_ops(r, p, cfg, c, (int)r.range(0, 6), false); }
  c.add("end", {r.range(0, 2)});
  return c;
}

namespace {
struct Out { std::string w; long hitr = 0, hitw = 0; bool failed = false; };
// keys whose state is not known any more because a change of them failed
struct FaultRun {
  DbRun &d;
  std::set<Bytes> unsure, unsure_bytes;
  bool change_failed = false;   // some change reported failure
  bool io_failed = false;       // anything reported failure
  const std::function<void(const Bytes &)> &send;
  FaultRun(DbRun &dd, const std::function<void(const Bytes &)> &s) : d(dd), send(s) {}
  [[noreturn]] void wrong(const std::string &s) { send("W" + s); _exit(0); }
  void get(const Bytes &k) {
    auto it = d.model.m.find(d.model.canon(k));
    FFDB_DBT key, data;
    key.data = (void *)k.data(); key.size = (long)k.size();
    data.data = nullptr; data.size = 0;
    int rc = d.db->get(d.db, &key, &data, 0);
    bool un = unsure.count(d.model.canon(k));
    if (rc == 0) {
      Bytes got((char *)data.data, (size_t)data.size);
      free(data.data);
      if (un) return;
      if (it == d.model.m.end()) wrong("a lookup under failing I/O returned data for a key never stored");
      if (got != it->second.second) wrong("a lookup under failing I/O returned wrong data as success");
    } else if (rc == FFDB_NOT_FOUND) {
      if (!un && it != d.model.m.end()) wrong("a lookup under failing I/O reported a stored key as not stored");
    } else io_failed = true;
  }
  void put(const Bytes &k, const Bytes &dt, unsigned fl) {
    Bytes ck = d.model.canon(k);
    auto it = d.model.m.find(ck);
    bool must_refuse = k.size() > d.maxkey() || fl > 1 || d.mode == 1 || (it != d.model.m.end() && (fl == 1 || dt.size() > it->second.second.size()));
    FFDB_DBT key, data;
    key.data = (void *)k.data(); key.size = (long)k.size();
    data.data = (void *)dt.data(); data.size = (long)dt.size();
    int rc = d.db->put(d.db, &key, &data, fl == 1 ? FFDB_NOOVERWRITE : 0);
    if (fl > 1) return;
    bool un = unsure.count(ck);
    if (rc == 0) {
      if (must_refuse && !un) wrong("a change that must be refused was reported as done");
      if (it != d.model.m.end()) it->second.second = dt;
      else d.model.m[ck] = {k, dt};
      // a key left by a failed change may be stored with the bytes of either
      if (un) unsure_bytes.insert(ck), unsure.erase(ck);
    } else if (!must_refuse || un) {
      // a change that failed half way: the failure was reported, and nothing is claimed about what follows
      send("x");
      _exit(0);
    }
  }
  void meta() {
    unsigned len = ffdb_max_user_info_len(d.db);
    std::vector<unsigned char> buf(len + 1);
    int rc = ffdb_get_user_info(d.db, buf.data(), &len);
    if (rc == 0) { if (d.model.uinfo_set && Bytes((char *)buf.data(), len) != d.model.uinfo) wrong("user information read under failing I/O differs"); }
    else io_failed = true;
    long nc = (long)ffdb_num_configs(d.db);
    if (d.model.cfg_set && nc == (long)d.model.cfgs.size()) {
      ffdb_all_config_info_t a;
      memset(&a, 0, sizeof a);
      rc = ffdb_get_all_configs(d.db, &a);
      if (rc == 0) {
        if (a.numconfigs != nc) wrong("the number of configurations read under failing I/O differs");
        for (long i = 0; i < nc; i++) if (!same_config(a.allconfigs[i], d.model.cfgs[(size_t)i])) wrong("a configuration read under failing I/O differs");
        free(a.allconfigs);
      } else io_failed = true;
    }
  }
  void scan(bool back) {
    ffdb_cursor_t *c = nullptr;
    if (d.db->cursor(d.db, &c, FFDB_KEY_CURSOR) != 0) { io_failed = true; return; }
    std::set<Bytes> seen;
    size_t n = 0;
    for (;;) {
      FFDB_DBT k, v;
      k.data = v.data = nullptr; k.size = v.size = 0;
      int rc = c->get(c, &k, &v, back ? (n ? FFDB_PREV : FFDB_LAST) : FFDB_NEXT);
      if (rc == FFDB_NOT_FOUND) {
        for (auto &kv : d.model.m) if (!unsure.count(kv.first) && !seen.count(kv.first)) wrong("a traversal under failing I/O reached its end without a stored key");
        break;
      }
      if (rc != 0) {
        // the failure was reported; going on must not crash
        io_failed = true;
        for (int q = 0; q < 2; q++) {
          k.data = v.data = nullptr; k.size = v.size = 0;
          if (c->get(c, &k, &v, back ? FFDB_PREV : FFDB_NEXT) == 0) { free(k.data); free(v.data); }
        }
        break;
      }
      Bytes kb((char *)k.data, (size_t)k.size), vb((char *)v.data, (size_t)v.size);
      free(k.data); free(v.data);
      Bytes ck = d.model.canon(kb);
      if (++n > d.model.m.size() + unsure.size() + 2) wrong("a traversal under failing I/O does not end");
      if (unsure.count(ck)) continue;
      auto it = d.model.m.find(ck);
      if (it == d.model.m.end()) wrong("a traversal under failing I/O returned a key never stored");
      if (it->second.second != vb) wrong("a traversal under failing I/O returned wrong data");
      seen.insert(ck);
    }
    c->close(c);
  }
};
}

static void run22(const Case &c) {
  if (c.ops.empty()) return;
  if (c.ops[0].name == "cpp") { run22cpp(c); return; }
  Cfg cfg = Cfg::from(c.ops[0]);
  DbRun d(g_dir + "/db", cfg);
  d.check_ro_bytes = false;
  d.open(0, cfg.rearr, cfg.cache, true);
  size_t i = 1;
  for (; i < c.ops.size() && c.ops[i].name != "fault"; i++) d.exec(c.ops[i]);
  if (i >= c.ops.size()) { d.verify_all(); d.close(); return; }
  d.close_cursors();
  Op fo = c.ops[i];
  size_t from = i + 1;
  bool was_ro = d.mode == 1;
  // the faulty part runs in a process of its own; it reports
  //   W text            a wrong answer
  //   S keys...         "sync or close reported success": what must now be in the file
  SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) {
    FaultRun r(d, send);
    g_fault = FaultPlan();
    g_fault.fd = d.db->fd(d.db);
    g_fault.path = d.path.c_str();
    if (fo.at(0) == 2) { g_fault.trunc_at = 0; g_fault.trunc_n = 1000000000L; }
    else if (fo.at(0) == 0) { g_fault.short_read = fo.at(3) == 2; g_fault.read_at = std::max(0L, fo.at(1)); g_fault.read_n = std::max(1L, fo.at(2, 1)); }
    else { g_fault.write_at = std::max(0L, fo.at(1)); g_fault.write_n = std::max(1L, fo.at(2, 1)); g_fault.enospc = fo.at(3) == 1; g_fault.short_write = fo.at(3) == 2; }
    const int types[] = {0, 0x1001, 0x2001, 0x3001, 0x6001, 0x8001};
    g_fault.type = types[((fo.at(4) % 6) + 6) % 6];
    g_fault.armed = true;
    long endk = 0;
    auto report_saved = [&](const char *how) {
      // pages of failed changes may be half made: only a clean history is judged
      if (r.change_failed) return;
      Bytes o = std::string("S") + how + "\n";
      send(o);
    };
    bool last_sync_ok = false, refused = false, opened_hit = false;
    for (size_t k = from; k < c.ops.size(); k++) {
      const Op &o = c.ops[k];
      bool changes = false;
      if (o.name == "heal") g_fault.armed = false;
      else if (o.name == "end") endk = o.at(0);
      else if (o.name == "put") { r.put(key_bytes(d.model.ci, o.at(0), o.at(1, 8)), data_bytes(o.at(2), o.at(3)), (unsigned)o.at(4)); changes = true; }
      else if (o.name == "bulk") {
        changes = true;
        long n = std::min(o.at(1), 300L), step = std::max(1L, o.at(5, 1));
        for (long q = 0; q < n; q++) r.put(key_bytes(d.model.ci, o.at(0) + q * step, o.at(2, 8) + (o.at(6) ? q % o.at(6) : 0)), data_bytes(o.at(3) + q, std::min(3000L, o.at(4) + (o.at(7) ? (q * 7) % o.at(7) : 0))), 0);
      } else if (o.name == "repm" && !d.model.m.empty()) {
        changes = true;
        auto it = d.model.m.begin();
        std::advance(it, (long)((size_t)o.at(0) % d.model.m.size()));
        Bytes k0 = it->second.first;
        size_t cs = it->second.second.size();
        r.put(k0, data_bytes(o.at(1), (long)(o.at(2) >= 101 ? cs + 1 : cs * (size_t)std::max(0L, o.at(2)) / 100)), 0);
      } else if (o.name == "get") r.get(key_bytes(d.model.ci, o.at(0), o.at(1, 8)));
      else if (o.name == "getm" && !d.model.m.empty()) {
        auto it = d.model.m.begin();
        std::advance(it, (long)((size_t)o.at(0) % d.model.m.size()));
        r.get(Bytes(it->second.first));
      } else if (o.name == "scan") r.scan(o.at(0) == 1);
      else if (o.name == "rmeta") r.meta();
      else if (o.name == "uset") {
        Bytes u = fill_bytes((uint64_t)o.at(0), (size_t)std::max(0L, o.at(1)));
        int rc = ffdb_set_user_info(d.db, (unsigned char *)&u[0], (unsigned)u.size());
        if (rc == 0 && (d.mode == 1 || u.size() > ffdb_max_user_info_len(d.db))) r.wrong("user information that must be refused was accepted");
        if (rc == 0) { d.model.uinfo = u; d.model.uinfo_set = true; changes = true; }
        else if (d.mode != 1 && u.size() <= ffdb_max_user_info_len(d.db)) { send("x"); _exit(0); }
      } else if (o.name == "freopen") {
        // close must be true to its word, and so must the open that follows
        long h0 = g_fault.hit_read + g_fault.hit_write + g_fault.hit_trunc;
        int rc = d.db->close(d.db);
        d.db = nullptr;
        if (rc != 0) {
          if (h0 + r.io_failed == 0 && g_fault.hit_read + g_fault.hit_write + g_fault.hit_trunc == h0) r.wrong("a close failed though no call failed");
          send("c");
          _exit(0);
        }
        FFDB_HASHINFO h = cfg.info(o.at(1), o.at(2));
        g_fault.fd = -1;
        // an open that moves pages back and fails half way is not judged (see DESIGN.md)
        bool moved = true;
        { bool a = g_fault.armed; g_fault.armed = false; FmtHdr f; std::string er; if (fmt_header(read_file(d.path), f, er)) moved = f.num_moved > 0; g_fault.armed = a; }
        h0 = g_fault.hit_read + g_fault.hit_write + g_fault.hit_trunc;
        d.db = ffdb_dbopen(d.path.c_str(), o.at(0) == 1 ? O_RDONLY : O_RDWR, 0600, &h);
        d.mode = o.at(0) == 1;
        if (!d.db) {
          if (g_fault.hit_read + g_fault.hit_write + g_fault.hit_trunc == h0) r.wrong("reopening after a close that reported success failed though no call failed");
          if (moved && !d.mode) { send("f"); _exit(0); }
          refused = true;
          break;
        }
        if (g_fault.hit_read + g_fault.hit_write > h0) opened_hit = true;
        last_sync_ok = false;
        continue;
      }
      else if (o.name == "sync") {
        int rc = d.db->sync(d.db, 0);
        last_sync_ok = rc == 0;
        if (rc != 0) r.io_failed = true;
        continue;
      }
      if (changes) last_sync_ok = false;
    }
    long hr = g_fault.hit_read, hw = g_fault.hit_write;
    if (hr) send("r");
    if (hw) send("w");
    if (g_fault.hit_trunc) send("t");
    if (opened_hit) send("o");
    if (refused) send("f");
    // serialise what must be in the file
    auto dump = [&] {
      Bytes o;
      if (d.model.uinfo_set) { char h[64]; snprintf(h, sizeof h, "U%zu\n", d.model.uinfo.size()); o += h; o += d.model.uinfo; }
      for (auto &kv : d.model.m) {
        char h[64];
        snprintf(h, sizeof h, "K%zu %zu\n", kv.second.first.size(), kv.second.second.size());
        o += h; o += kv.second.first; o += kv.second.second;
      }
      send(o);
    };
    if (refused) { report_saved("the close before an open that failed"); dump(); _exit(0); }
    if (endk == 0 && last_sync_ok) { report_saved("sync"); dump(); _exit(0); }   // the process is gone without a close
    int rc = d.db->close(d.db);
    if (g_fault.hit_write > hw) send("w");
    if (g_fault.hit_trunc) send("t");
    if (rc == 0) { report_saved("close"); dump(); }
    else send("c");
  }, 15);
  if (s.timed_out) { g_feat["slow"]++; return; }   // every page fetch retries every write: slow, not wrong
  size_t w = s.out.find('W');
  // tokens before the first S/W are single letters
  size_t q = 0;
  while (q < s.out.size() && (s.out[q] == 'r' || s.out[q] == 'w' || s.out[q] == 'c' || s.out[q] == 'x' || s.out[q] == 't' || s.out[q] == 'o' || s.out[q] == 'f')) { g_feat[std::string("hit_") + s.out[q]]++; q++; }
  (void)w;
  VCHECK(!(q < s.out.size() && s.out[q] == 'W'), "%s", s.out.c_str() + q + 1);
  VCHECK(!WIFSIGNALED(s.status), "the process crashed under failing I/O: %s", status_text(s.status).c_str());
  if (WIFSIGNALED(s.status) || WEXITSTATUS(s.status)) { g_feat["stopped"]++; return; }
  if (q < s.out.size() && s.out[q] == 'S') {
    size_t nl = s.out.find('\n', q);
    std::string how = s.out.substr(q + 1, nl - q - 1);
    Model m;
    m.ci = d.model.ci;
    m.uinfo = d.model.uinfo;
    m.cfg_set = d.model.cfg_set; m.cfgs = d.model.cfgs;
    size_t p = nl + 1;
    if (p < s.out.size() && s.out[p] == 'U') {
      size_t a;
      int used = 0;
      if (sscanf(s.out.c_str() + p, "U%zu%n", &a, &used) != 1) vharness("bad report");
      p += (size_t)used + 1;
      m.uinfo = s.out.substr(p, a); m.uinfo_set = true;
      p += a;
    }
    while (p < s.out.size() && s.out[p] == 'K') {
      size_t a, b;
      int used = 0;
      if (sscanf(s.out.c_str() + p, "K%zu %zu%n", &a, &b, &used) != 2) vharness("bad report");
      p += (size_t)used + 1;
      Bytes k = s.out.substr(p, a), v = s.out.substr(p + a, b);
      p += a + b;
      m.m[m.canon(k)] = {k, v};
    }
    DbRun e(d.path, cfg);
    e.model = m;
    FFDB_HASHINFO h = cfg.info(0, 0);
    e.db = ffdb_dbopen(d.path.c_str(), O_RDONLY, 0600, &h);
    VCHECK(e.db, "%s reported success, but the file cannot be opened", how.c_str());
    expect_equal_to_model(e.db, m, (how + " reported success under failing I/O").c_str(), m.uinfo_set);
    e.db->close(e.db);
    g_feat["saved_" + how]++;
  }
  if (was_ro) g_feat["ro_fault"]++;
}
static Registrar R22({"C22", "a read or a write of the file really failed (an injected EIO, ENOSPC or short write was hit) in a database with at least 3 keys",
  gen22, run22, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "hit_r") + F(f, "hit_w") + F(f, "hit_x") + F(f, "hit_t") + F(f, "stopped") > 0; },
  120, 100000, 1000000, 40, 500, 0, "fault_enumeration",
  {"the fault is a failing or short read(2)/write(2) of the database file; seeks, truncation and memory allocation do not fail", "after a change that reported failure nothing is claimed about the handle or the file"}});
