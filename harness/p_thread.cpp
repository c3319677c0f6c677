// Several threads on one handle, and on handles of their own.
#include "dbrun.h"
#include "fmt.h"
#include "p_util.h"
#include "wrap.h"
#include <atomic>
#include <fcntl.h>
#include <pthread.h>
#include <thread>
#include <unistd.h>

// cfg; load operations; "shared mode cache jitter"; then one "thr" per thread:
//   thr 0 seed n     lookups of stored and of absent keys
//   thr 1 seed n     n traversals, forward or backward, with data
//   thr 2 seed n     replacements of the keys this thread owns (read-write only)
//   thr 3 seed n     a database of its own
//   thr 4 seed n     flushes, and reads of user and configuration information
//   thr 5 seed n     sets of user information within its first page, and of single configurations (one such thread)
static Case gen08(Rng &r, uint64_t) {
  Profile p;
  p.put = 30; p.rep = 8; p.noow = 0; p.badflag = 0; p.getp = 0; p.geta = 0; p.bulk = 25; p.scan = 0; p.sync = 0; p.reopen = 3; p.ro = 0; p.trunc = 0;
  p.meta = 2; p.verify = 0; p.max_ops = 12; p.big_pct = 0; p.huge_page_pct = 0;
  Case c = gen_history(r, p);
  Cfg cfg = Cfg::from(c.ops[0]);
  int mode = (int)r.range(0, 2);     // 0 read-write (dirty pages in the cache), 1 read-only, 2 read-write reopened
  c.add("shared", {mode, r.chance(75) ? (long)cfg.page() * r.range(1, 12) : gen_cache(r, cfg), r.chance(30) ? 0 : r.chance(50) ? r.range(1, 60) : r.range(60, 500), r.chance(25) ? r.range(1, 2) : 0});
  int n = (int)r.range(2, 8);
  int style = (int)r.below(6);       // lookups, traversals, mixed, with replacements, those with flushes, anything
  for (int i = 0; i < n; i++) {
    long k = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? r.range(0, 1) : style == 3 ? (i % 2 ? 2 : 0) : style == 4 ? (i == 0 ? 4 : i == 1 ? r.range(4, 5) : i % 2 ? 2 : r.range(0, 1)) : r.range(0, 5);
    if (mode == 1 && (k == 2 || k == 5)) k = 0;
    c.add("thr", {k, (long)r.below(1 << 30), k == 1 ? r.range(1, 3) : r.chance(70) ? r.range(5, 60) : r.range(60, 300)});
  }
  return c;
}

enum { CVER = 50000000 };        // the type a configuration gets when it is set for the v-th time: CVER + v
namespace {
struct Entry { Bytes ck, key, data; int owner = -1; std::atomic<long> done{0}, begun{0}; std::vector<long> seeds; };
Bytes version(const Entry &e, long v) { return v == 0 ? e.data : fill_bytes((uint64_t)e.seeds[(size_t)v], e.data.size()); }
struct Shared {
  DbRun *d;
  std::vector<std::unique_ptr<Entry>> e;
  std::map<Bytes, size_t> at;
  std::atomic<long> gets{0}, absents{0}, walks{0}, reps{0}, own{0}, flushes{0};
  std::atomic<int> ready{0};
  // user information and, per configuration, its type: versions as for entries
  std::vector<Bytes> users;
  std::atomic<long> udone{0}, ubegun{0}, sets{0};
  std::vector<ffdb_config_info_t> conf;
  std::unique_ptr<std::atomic<long>[]> cdone, cbegun;
};
// got must be one of the versions lo..hi of this entry
void judge(Entry &e, const Bytes &got, long lo, long hi, const char *how) {
  for (long v = hi; v >= lo; v--) if (got == version(e, v)) return;
  for (long v = 0; v <= hi; v++) if (v < lo && got == version(e, v)) vfail("%s returned data older than the last finished replacement", how);
  vfail("%s returned %zu bytes that were never stored under the key", how, got.size());
}
void t_get(Shared &s, Rng &r, long n) {
  for (long i = 0; i < n; i++) {
    FFDB_DBT k, v;
    v.data = nullptr; v.size = 0;
    if (s.e.empty() || r.chance(15)) {
      Bytes kb = key_bytes(s.d->model.ci, 900000 + r.range(0, 1000), 12);
      if (s.at.count(s.d->model.canon(kb))) continue;
      k.data = (void *)kb.data(); k.size = (long)kb.size();
      int rc = s.d->db->get(s.d->db, &k, &v, 0);
      VCHECK(rc == FFDB_NOT_FOUND, "a lookup of a key never stored, among other threads, returned %d", rc);
      s.absents++;
      continue;
    }
    Entry &e = *s.e[r.below(s.e.size())];
    k.data = (void *)e.key.data(); k.size = (long)e.key.size();
    long lo = e.done.load();
    Bytes room;
    if (r.chance(25)) { room.resize(e.data.size() + 8, '\x5a'); v.data = (void *)room.data(); v.size = (long)room.size(); }
    int rc = s.d->db->get(s.d->db, &k, &v, 0);
    long hi = e.begun.load();
    VCHECK(rc == 0, "a lookup of a stored key, among other threads, returned %d", rc);
    judge(e, Bytes((char *)v.data, (size_t)v.size), lo, hi, "a lookup among other threads");
    if (room.empty()) free(v.data);
    else VCHECK(room.compare(e.data.size(), 8, "ZZZZZZZZ") == 0, "a lookup among other threads wrote past the data in the buffer given");
    s.gets++;
  }
}
void t_walk(Shared &s, Rng &r, long n) {
  for (long q = 0; q < n; q++) {
    bool back = r.chance(40), keys = r.chance(25);
    ffdb_cursor_t *c = nullptr;
    int rc = s.d->db->cursor(s.d->db, &c, FFDB_KEY_CURSOR);
    VCHECK(rc == 0, "opening a cursor among other threads returned %d", rc);
    std::set<Bytes> seen;
    std::vector<long> lo(s.e.size());
    for (size_t i = 0; i < s.e.size(); i++) lo[i] = s.e[i]->done.load();
    for (;;) {
      FFDB_DBT k, v;
      k.data = v.data = nullptr; k.size = v.size = 0;
      rc = c->get(c, &k, keys ? nullptr : &v, seen.empty() ? (back ? FFDB_LAST : FFDB_NEXT) : back ? FFDB_PREV : FFDB_NEXT);
      if (rc == FFDB_NOT_FOUND) break;
      VCHECK(rc == 0, "a traversal among other threads returned %d", rc);
      Bytes ck = s.d->model.canon(Bytes((char *)k.data, (size_t)k.size));
      auto it = s.at.find(ck);
      VCHECK(it != s.at.end(), "a traversal among other threads returned a key never stored");
      VCHECK(seen.insert(ck).second, "a traversal among other threads returned a key twice");
      if (!keys) judge(*s.e[it->second], Bytes((char *)v.data, (size_t)v.size), lo[it->second], s.e[it->second]->begun.load(), "a traversal among other threads");
      free(k.data); free(v.data);
    }
    VCHECK(seen.size() == s.e.size(), "a traversal among other threads gave %zu of %zu keys", seen.size(), s.e.size());
    rc = c->close(c);
    VCHECK(rc == 0, "closing a cursor among other threads returned %d", rc);
    s.walks++;
  }
}
void t_rep(Shared &s, Rng &r, long n, int me) {
  std::vector<Entry *> mine;
  for (auto &e : s.e) if (e->owner == me) mine.push_back(e.get());
  if (mine.empty()) return;
  for (long i = 0; i < n; i++) {
    Entry &e = *mine[r.below(mine.size())];
    long v = e.done.load() + 1;
    if (v >= (long)e.seeds.size()) continue;
    Bytes nd = version(e, v);
    FFDB_DBT k, x;
    k.data = (void *)e.key.data(); k.size = (long)e.key.size();
    x.data = (void *)nd.data(); x.size = (long)nd.size();
    e.begun.store(v);
    int rc = s.d->db->put(s.d->db, &k, &x, 0);
    VCHECK(rc == 0, "a replacement among other threads returned %d", rc);
    e.done.store(v);
    s.reps++;
  }
}
void look_meta(Shared &s) {
  unsigned maxlen = ffdb_max_user_info_len(s.d->db), len = maxlen;
  std::vector<unsigned char> b(maxlen + 1);
  long lo = s.udone.load();
  int rc = ffdb_get_user_info(s.d->db, b.data(), &len);
  long hi = s.ubegun.load();
  VCHECK(rc == 0, "reading the user information among other threads returned %d", rc);
  bool ok = false;
  for (long v = lo; v <= hi && !ok; v++) ok = s.users[(size_t)v].size() == len && !memcmp(b.data(), s.users[(size_t)v].data(), len);
  VCHECK(ok, "user information read among other threads is not what was set");
  if (s.conf.empty()) return;
  std::vector<long> clo(s.conf.size());
  for (size_t i = 0; i < s.conf.size(); i++) clo[i] = s.cdone[i].load();
  ffdb_all_config_info_t a;
  a.numconfigs = 0; a.allconfigs = nullptr;
  rc = ffdb_get_all_configs(s.d->db, &a);
  VCHECK(rc == 0 && (size_t)a.numconfigs == s.conf.size(), "reading the configurations among other threads returned %d, and %d of them", rc, (int)a.numconfigs);
  for (size_t i = 0; i < s.conf.size(); i++) {
    ffdb_config_info_t &g = a.allconfigs[i], want = s.conf[i];
    long chi = s.cbegun[i].load(), v = g.type == want.type ? 0 : g.type - CVER;
    VCHECK(v >= clo[i] && v <= chi, "a configuration read among other threads is not the one last set");
    if (v) want.type = want.inserted = CVER + (int)v;
    VCHECK(same_config(g, want), "a configuration read among other threads was never set so");
  }
  free(a.allconfigs);
}
void t_set(Shared &s, Rng &r, long n) {
  for (long i = 0; i < n; i++) {
    if (s.conf.empty() || r.chance(50)) {
      long v = s.udone.load() + 1;
      if (v >= (long)s.users.size()) continue;
      Bytes &u = s.users[(size_t)v];
      s.ubegun.store(v);
      int rc = ffdb_set_user_info(s.d->db, (unsigned char *)u.data(), (unsigned)u.size());
      VCHECK(rc == 0, "setting the user information among other threads returned %d", rc);
      s.udone.store(v);
    } else {
      size_t q = r.below(s.conf.size());
      long v = s.cdone[q].load() + 1;
      ffdb_config_info_t c = s.conf[q];
      c.type = c.inserted = CVER + (int)v;
      s.cbegun[q].store(v);
      int rc = ffdb_set_config(s.d->db, &c);
      VCHECK(rc == 0, "setting a configuration among other threads returned %d", rc);
      s.cdone[q].store(v);
    }
    s.sets++;
  }
}
void t_flush(Shared &s, Rng &r, long n) {
  for (long i = 0; i < n; i++) {
    if (r.chance(40)) look_meta(s);
    else VCHECK(s.d->db->sync(s.d->db, 0) == 0, "a flush among other threads failed");
    s.flushes++;
  }
}
void t_own(Shared &s, Rng &r, long n, int me) {
  std::string path = g_dir + "/own" + std::to_string(me);
  Cfg cfg = s.d->cfg;
  std::map<Bytes, Bytes> m;
  FFDB_DB *db = nullptr;
  bool made = false;
  auto op = [&] {
    FFDB_HASHINFO h = cfg.info(r.range(0, 1), (long)cfg.page() * r.range(1, 20));
    db = ffdb_dbopen(path.c_str(), O_RDWR | (made ? 0 : O_CREAT), 0600, &h);
    VCHECK(db, "a thread cannot open a database of its own");
    made = true;
  };
  op();
  for (long i = 0; i < n; i++) {
    long kid = r.range(0, 200);
    Bytes kb = key_bytes(s.d->model.ci, kid, 10), ck = s.d->model.canon(kb);
    FFDB_DBT k, v;
    k.data = (void *)kb.data(); k.size = (long)kb.size();
    int w = (int)r.below(20);
    if (w < 10) {
      Bytes x = fill_bytes(r.next(), r.chance(80) ? (size_t)r.range(0, 90) : (size_t)r.range(90, 3000));
      v.data = (void *)x.data(); v.size = (long)x.size();
      int rc = db->put(db, &k, &v, 0);
      auto it = m.find(ck);
      if (it == m.end()) { VCHECK(rc == 0, "a store in a thread's own database returned %d", rc); m[ck] = x; }
      else if (x.size() <= it->second.size()) { VCHECK(rc == 0, "a replacement in a thread's own database returned %d", rc); it->second = x; }
      else VCHECK(rc != 0, "a too large replacement was accepted in a thread's own database");
    } else if (w < 18) {
      v.data = nullptr; v.size = 0;
      int rc = db->get(db, &k, &v, 0);
      auto it = m.find(ck);
      if (it == m.end()) VCHECK(rc == FFDB_NOT_FOUND, "a lookup in a thread's own database returned %d for a key not stored", rc);
      else {
        VCHECK(rc == 0, "a lookup in a thread's own database returned %d", rc);
        VCHECK(Bytes((char *)v.data, (size_t)v.size) == it->second, "a lookup in a thread's own database returned wrong data");
        free(v.data);
      }
    } else if (w == 18) VCHECK(db->sync(db, 0) == 0, "a flush in a thread's own database failed");
    else { VCHECK(db->close(db) == 0, "a thread's own database failed to close"); op(); }
    s.own++;
  }
  VCHECK(db->close(db) == 0, "a thread's own database failed to close");
  op();
  for (auto &kv : m) {
    FFDB_DBT k, v;
    k.data = (void *)kv.first.data(); k.size = (long)kv.first.size();
    v.data = nullptr; v.size = 0;
    VCHECK(db->get(db, &k, &v, 0) == 0 && Bytes((char *)v.data, (size_t)v.size) == kv.second, "a thread's own database lost data");
    free(v.data);
  }
  VCHECK(db->close(db) == 0, "a thread's own database failed to close");
}
}

static void run08(const Case &c) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  DbRun d(g_dir + "/db", cfg);
  d.check_ro_bytes = false;
  d.open(0, cfg.rearr, cfg.cache, true);
  size_t i = 1;
  for (; i < c.ops.size() && c.ops[i].name != "shared"; i++) d.exec(c.ops[i]);
  if (i >= c.ops.size()) { d.close(); return; }
  d.close_cursors();
  Op so = c.ops[i];
  int mode = (int)so.at(0);
  if (so.at(3)) {          // as a machine of the other byte order, or version 5, would have written it
    d.close();
    Bytes f = read_file(d.path);
    std::string err;
    if (!(so.at(3) == 1 ? fmt_swap_order(f, err) : fmt_to_v5(f, err))) vfail("the file written by the library cannot be converted: %s", err.c_str());
    write_file(d.path, f);
    if (so.at(3) == 2) d.maxdata = 0xffffffffL;
    g_feat[so.at(3) == 1 ? "swap" : "v5"]++;
    d.open(mode == 1 ? 1 : 0, cfg.rearr, so.at(1), false);
  } else if (mode != 0) { d.close(); d.open(mode == 1 ? 1 : 0, cfg.rearr, so.at(1), false); }
  std::vector<Op> th;
  for (i++; i < c.ops.size(); i++) if (c.ops[i].name == "thr") th.push_back(c.ops[i]);
  if (th.size() > 8) th.resize(8);
  Shared s;
  s.d = &d;
  std::vector<int> reps;
  for (size_t q = 0; q < th.size(); q++) if (th[q].at(0) == 2 && mode != 1) reps.push_back((int)q);
  Rng r(77);
  for (auto &kv : d.model.m) {
    std::unique_ptr<Entry> e(new Entry);
    e->ck = kv.first; e->key = kv.second.first; e->data = kv.second.second;
    e->seeds.push_back(0);
    if (!reps.empty() && e->data.size() >= 8) {
      e->owner = reps[r.below(reps.size())];
      for (int v = 1; v < 12; v++) e->seeds.push_back((long)(r.next() >> 2));
    }
    s.at[e->ck] = s.e.size();
    s.e.push_back(std::move(e));
  }
  int setter = -1;
  for (size_t q = 0; q < th.size() && mode != 1; q++) if (th[q].at(0) == 5) { setter = (int)q; break; }
  s.users.push_back(d.model.uinfo);
  s.udone = s.ubegun = 0;
  if (d.model.cfg_set) s.conf = d.model.cfgs;
  s.cdone.reset(new std::atomic<long>[s.conf.size() + 1]);
  s.cbegun.reset(new std::atomic<long>[s.conf.size() + 1]);
  for (size_t q = 0; q < s.conf.size(); q++) { s.cdone[q] = s.cbegun[q] = 0; }
  if (setter >= 0) {
    long room = std::min((long)ffdb_max_user_info_len(d.db), (long)cfg.page() - 64);
    if (room >= 0 && (long)d.model.uinfo.size() <= room) for (int v = 1; v < 40; v++) s.users.push_back(fill_bytes(r.next(), (size_t)r.range(0, room)));
  }
  std::vector<std::thread> ts;
  g_jitter = (int)std::min(1000L, std::max(0L, so.at(2)));
  int nt = (int)th.size();
  for (int q = 0; q < nt; q++)
    ts.emplace_back([&, q] {
      Rng rr((uint64_t)th[(size_t)q].at(1) + 1);
      t_jitter = rr.next();
      s.ready++;
      while (s.ready.load() < nt) std::this_thread::yield();
      long k = th[(size_t)q].at(0), n = std::min(2000L, th[(size_t)q].at(2));
      if (k == 0) t_get(s, rr, n);
      else if (k == 1) t_walk(s, rr, std::min(n, 10L));
      else if (k == 2 && mode != 1) t_rep(s, rr, n, q);
      else if (k == 3) t_own(s, rr, n, q);
      else if (k == 4) t_flush(s, rr, std::min(n, 100L));
      else if (k == 5 && q == setter) t_set(s, rr, n);
    });
  for (auto &t : ts) t.join();
  g_jitter = 0;
  for (auto &e : s.e) d.model.m[e->ck].second = version(*e, e->done.load());
  d.model.uinfo = s.users[(size_t)s.udone.load()];
  for (size_t q = 0; q < s.conf.size(); q++) if (long v = s.cdone[q].load()) d.model.cfgs[q].type = d.model.cfgs[q].inserted = CVER + (int)v;
  d.verify_all();
  d.close();
  d.open(1, 0, 0, false);
  d.verify_all();
  d.close();
  g_feat["threads"] = nt;
  g_feat["t_gets"] = s.gets; g_feat["t_absent"] = s.absents; g_feat["t_walks"] = s.walks; g_feat["t_replaced"] = s.reps; g_feat["t_own"] = s.own; g_feat["t_flush"] = s.flushes; g_feat["t_set"] = s.sets;
}
static Registrar R08({"C08", "at least two threads ran on a database with 5 or more keys and made at least 20 lookups, traversals or replacements together",
  gen08, run08, [](const Feat &f) { return F(f, "threads") >= 2 && F(f, "insert") >= 5 && F(f, "t_gets") + 10 * F(f, "t_walks") + F(f, "t_replaced") >= 20; },
  90, 100000, 1000000, 25, 300, 4, "exploration",
  {"no thread stores new keys while others use the handle", "a thread that holds an open cursor makes no lookups of its own", "one thread replaces a given key"}, true});
