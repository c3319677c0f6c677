// The C API as a map: histories against an in-memory model.
#include "dbrun.h"
#include "p_util.h"
#include <fcntl.h>

void run_history(const Case &c, bool features) {
  if (c.ops.empty()) return;
  Cfg cfg = Cfg::from(c.ops[0]);
  DbRun d(g_dir + "/db", cfg);
  d.open(0, cfg.rearr, cfg.cache, true);
  for (size_t i = 1; i < c.ops.size(); i++) d.exec(c.ops[i]);
  d.verify_all();
  d.close();
  if (features) {
    FmtHdr h;
    std::string err;
    if (fmt_header(read_file(d.path), h, err)) { g_feat["final_buckets"] = h.max_bucket + 1; g_feat["final_keys"] = h.nkeys; }
  }
}

// ------------------------------------------------------------ C01 map semantics
static Case gen01(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 2; p.ro = 0; p.trunc = 0; p.sync = 1; p.meta = 1; p.noow = 6; p.rep = 14; p.badflag = 2; p.getp = 20; p.geta = 8; p.many_buckets = 3;
  Case c = gen_history(r, p);
  if (r.chance(20)) c.ops.insert(c.ops.begin() + 1 + (long)r.below(c.ops.size()), Op("putmax", {r.range(0, 1000), r.range(1, 40), r.range(0, 1), r.chance(50) ? 0L : r.range(0, 1L << r.range(1, 44)), r.range(0, 1)}));
  return c;
}
static void run01(const Case &c) { run_history(c, true); }
static Registrar R01({"C01", "at least 5 distinct keys stored, one replacement or refusal and one lookup of an absent key, in one history",
  gen01, run01, [](const Feat &f) { return F(f, "insert") >= 5 && F(f, "replace") + F(f, "put_refused") > 0 && F(f, "get_absent") > 0; },
  60, 100000, 1000000, 40, 600, 0, "exploration",
  {"one process, one thread on the handle"}});

// ------------------------------------------------------------ C02 persistence
static Case gen02(Rng &r, uint64_t) {
  Profile p;
  p.reopen = 16; p.ro = 4; p.trunc = 1; p.meta = 4; p.sync = 2; p.bulk = 10; p.left = 12; p.many_buckets = 2;
  Case c = gen_history(r, p);
  c.add("reopen", {r.range(0, 1), r.range(0, 1), 0, 1});
  return c;
}
static void run02(const Case &c) { run_history(c, true); }
static Registrar R02({"C02", "keys were stored, the file was closed and reopened at least twice, and the full contents compared after a reopen",
  gen02, run02, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "reopen_rw") + F(f, "reopen_ro") >= 2 && F(f, "verify") > 0; },
  60, 100000, 1000000, 40, 600, 0, "exploration",
  {"the file is closed before it is reopened"}});
