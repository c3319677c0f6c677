// C22 through the classes: an insert, update, lookup, listing or close that reports success is true to it.
#include "dbrun.h"
#include "p_util.h"
#include "wrap.h"
#include "AllConfStoreDB.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "DBString.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace FILEDB;
typedef std::string S;

Case gen22cpp(Rng &r) {
  Case c;
  long page = r.pick({512L, 1024L, 2048L}), kind = r.range(0, 2);
  c.add("cpp", {kind, page, page * r.range(1, 12), (long)r.chance(40), r.range(0, 12), r.range(1, 5)});
  for (int n = (int)r.range(0, 30); n > 0; n--) c.add("ins", {r.range(0, 60), (long)r.below(1 << 20), kind == 2 ? r.range(1, 60) : r.chance(80) ? r.range(0, 120) : r.range(0, 2500)});
  if (r.chance(60)) c.add("reopen", {page * r.range(1, 8)});
  c.add("fault", {r.range(0, 1), r.chance(60) ? r.range(0, 8) : r.range(0, 60), r.chance(50) ? 1 : r.chance(50) ? r.range(2, 10) : 1000000000L, r.range(0, 2)});
  for (int n = (int)r.range(1, 16); n > 0; n--)
    switch (r.weighted({40, 20, 8, 8, 8, 8, 5, 6, 8})) {
    case 0: c.add("ins", {r.range(0, 60), (long)r.below(1 << 20), kind == 2 ? r.range(1, 60) : r.chance(80) ? r.range(0, 120) : r.range(0, 2500)}); break;
    case 1: c.add("get", {r.range(0, 70)}); break;
    case 2: c.add("keys"); break;
    case 3: c.add("pairs"); break;
    case 4: c.add("flush"); break;
    case 7: c.add("iter"); break;
    case 8: c.add("reopen", {page * r.range(1, 8), (long)r.chance(60)}); break;
    case 5: c.add("upd", {r.range(0, 60), (long)r.below(1 << 20), r.range(0, 8)}); break;
    default: c.add("user", {(long)r.below(1 << 20), r.range(0, 100)});
    }
  if (r.chance(30)) c.add("heal");
  if (r.chance(50)) c.add("get", {r.range(0, 70)});
  c.add("end");
  return c;
}

namespace {
struct Quit {};
struct Cpp {
  std::map<S, std::vector<S>> m;
  S user;
  bool has_user = false;
  long nb = 1, esz = 0;
  int kind;
  S path;
  std::unique_ptr<ConfDataStoreDB<StringKey, UserData>> a;
  std::unique_ptr<ConfDataStoreDBSimple> b;
  std::unique_ptr<AllConfStoreDB<StringKey, UserData>> e;
  template <class T> void set(T &t, const Op &o, long cache) {
    t.setPageSize((unsigned)std::max(512L, o.at(1)));
    t.setCacheSize((unsigned)std::max(1L, cache));
    t.setNumberBuckets((unsigned)std::max(1L, o.at(4)));
    if (o.at(3)) t.enablePageMove(); else t.disablePageMove();
    t.setMaxUserInfoLen(200);
  }
  int open(const Op &o, long cache, int fl) {
    kind = (int)(o.at(0) % 3);
    nb = kind == 2 ? std::max(1L, std::min(o.at(5, 1), 20L)) : 1;
    if (kind == 0) { a.reset(new ConfDataStoreDB<StringKey, UserData>); set(*a, o, cache); return a->open(path, fl, 0600); }
    if (kind == 1) { b.reset(new ConfDataStoreDBSimple); set(*b, o, cache); return b->open(path, fl, 0600); }
    std::vector<int> cf;
    for (long i = 0; i < nb; i++) cf.push_back((int)i * 10);
    e.reset(new AllConfStoreDB<StringKey, UserData>(cf));
    set(*e, o, cache);
    return e->open(path, fl, 0600);
  }
  int close() {
    if (kind == 0) return a->close();
    if (kind == 2) return e->close();
    try { return b->close(); } catch (std::exception &) { return -1; }
  }
  std::vector<S> value(const S &k, long seed, long n) {
    if (kind == 2) { if (!esz) esz = std::max(1L, n); n = esz; }
    auto it = m.find(k);
    if (it != m.end()) n = (long)it->second[0].size();
    std::vector<S> v;
    for (long i = 0; i < nb; i++) v.push_back(fill_bytes((uint64_t)(seed + i), (size_t)std::max(0L, n)));
    return v;
  }
  int insert(const S &k, const std::vector<S> &v) {
    if (kind == 0) return a->insert(StringKey(k), UserData(v[0]));
    if (kind == 1) return b->insert(StringKey(k), UserData(v[0]));
    std::vector<UserData> x;
    for (auto &s : v) x.push_back(UserData(s));
    return e->insert(StringKey(k), x);
  }
  int get(const S &k, std::vector<S> &v) {
    v.clear();
    if (kind == 2) {
      std::vector<UserData> x;
      int rc = e->get(StringKey(k), x);
      for (auto &y : x) v.push_back((S)y);
      return rc;
    }
    UserData x;
    int rc = kind == 0 ? a->get(StringKey(k), x) : b->get(StringKey(k), x);
    if (rc == 0) v.push_back((S)x);
    return rc;
  }
  void keys(std::vector<S> &v) {
    std::vector<StringKey> k;
    if (kind == 0) a->keys(k); else if (kind == 1) b->keys<StringKey, UserData>(k); else e->keys(k);
    for (auto &x : k) v.push_back((S)x);
  }
  void pairs(std::vector<S> &v, std::vector<std::vector<S>> &w) {
    std::vector<StringKey> k;
    std::vector<UserData> d;
    std::vector<std::vector<UserData>> dd;
    if (kind == 0) a->keysAndData(k, d); else if (kind == 1) b->keysAndData(k, d); else e->keysAndData(k, dd);
    for (auto &x : k) v.push_back((S)x);
    for (auto &x : d) w.push_back({(S)x});
    for (auto &x : dd) { std::vector<S> q; for (auto &y : x) q.push_back((S)y); w.push_back(q); }
  }
  int setuser(const S &u) { return kind == 0 ? a->insertUserdata(u) : kind == 1 ? b->insertUserdata(u) : e->insertUserdata(u); }
  int getuser(S &u) { return kind == 0 ? a->getUserdata(u) : kind == 1 ? b->getUserdata(u) : e->getUserdata(u); }
  void flush() { if (kind == 0) a->flush(); else if (kind == 1) b->flush(); else e->flush(); }
};
}
static S ck(long k) { return "key" + std::to_string(k); }

void run22cpp(const Case &c) {
  const Op &o0 = c.ops[0];
  S path = g_dir + "/db";
  SubResult s = run_sub([&](const std::function<void(const Bytes &)> &send) {
    Cpp x;
    x.path = path;
    bool armed = false, ro = false;
    auto wrong = [&](const S &t) { send("W" + t); _exit(0); };
    auto done = [&](const char *t) {
      if (g_fault.hit_read) send("r");
      if (g_fault.hit_write) send("w");
      send(t);
      _exit(0);
    };
    auto judge = [&](const S &when) {
      Cpp y;
      y.path = path;
      if (y.open(o0, 1 << 20, O_RDONLY) != 0) wrong(when + " the file cannot be opened");
      for (auto &kv : x.m) {
        std::vector<S> v;
        int q = y.get(kv.first, v);
        if (q != 0 || v != kv.second) wrong(when + " a key of the file is missing or wrong");
      }
      S u;
      if (x.has_user && (y.getuser(u) != 0 || u != x.user)) wrong(when + " the user data are wrong");
      if (y.kind == 2) {
        std::vector<ConfigInfo> ci;
        if (y.e->getAllConfigInfo(ci) != 0 || (long)ci.size() != y.nb) wrong(when + " the configuration information is missing");
        for (long i = 0; i < y.nb; i++) if (ci[(size_t)i].configNumber() != i * 10 || ci[(size_t)i].index() != i) wrong(when + " the configuration information is wrong");
      }
      y.close();
    };
    g_fault = FaultPlan();
    g_fault.path = path.c_str();
    if (x.open(o0, o0.at(2), O_RDWR | O_CREAT) != 0) { send("Wcreating failed"); _exit(0); }
    for (size_t i = 1; i < c.ops.size(); i++) {
      const Op &o = c.ops[i];
      S k = ck(o.at(0));
      auto it = x.m.find(k);
      if (o.name == "reopen") {
        auto clean = [&] { return g_fault.hit_read + g_fault.hit_write == 0; };
        if (x.close() != 0) { if (clean()) wrong("closing failed without a fault"); done("c"); }
        ro = armed && o.at(1);
        if (x.open(o0, o.at(0), ro ? O_RDONLY : O_RDWR) != 0) {
          if (clean()) wrong("reopening failed without a fault");
          g_fault.armed = false;
          send("o");
          if (x.kind == 2) x.e.reset(); else if (x.kind == 0) x.a.reset();
          // what was closed before is there; an open that could not write what it had to may have left its mark
          if (ro || !g_fault.hit_write) judge("an open failed under failing I/O, and then");
          done("x");
        }
        send("q");
      } else if (o.name == "fault" && !armed) {
        armed = true;
        if (o.at(0) == 0) { g_fault.short_read = o.at(3) == 2; g_fault.read_at = std::max(0L, o.at(1)); g_fault.read_n = std::max(1L, o.at(2, 1)); }
        else { g_fault.write_at = std::max(0L, o.at(1)); g_fault.write_n = std::max(1L, o.at(2, 1)); g_fault.enospc = o.at(3) == 1; g_fault.short_write = o.at(3) == 2; }
        g_fault.armed = true;
      } else if (o.name == "heal") g_fault.armed = false;
      else if (ro && (o.name == "ins" || o.name == "upd" || o.name == "user" || o.name == "flush")) continue;
      else if (o.name == "ins") {
        std::vector<S> v = x.value(k, o.at(1), o.at(2));
        int rc = x.insert(k, v);
        if (rc == 0) x.m[k] = v;
        else { if (g_fault.hit_read + g_fault.hit_write == 0) wrong("an insert failed though no call failed"); done("x"); }
      } else if (o.name == "upd" && x.kind == 2) {
        std::vector<S> v = x.value(k, o.at(1), 1);
        long idx = o.at(2) % x.nb;
        if (it == x.m.end()) continue;
        int rc = x.e->update(StringKey(k), UserData(v[0]), (int)idx * 10, (int)idx);
        if (rc == 0) it->second[(size_t)idx] = v[0];
        else { if (g_fault.hit_read + g_fault.hit_write == 0) wrong("an update failed though no call failed"); done("x"); }
      } else if (o.name == "get") {
        std::vector<S> v;
        int rc = x.get(k, v);
        if (rc == 0 && it == x.m.end()) wrong("a lookup under failing I/O found a key never stored");
        if (rc == 0 && v != it->second) wrong("a lookup under failing I/O returned wrong data as success");
        if (rc == FFDB_NOT_FOUND && it != x.m.end()) wrong("a lookup under failing I/O reported a stored key as not stored");
      } else if (o.name == "keys" || o.name == "pairs") {
        std::vector<S> v;
        std::vector<std::vector<S>> w;
        try { if (o.name == "keys") x.keys(v); else x.pairs(v, w); }
        catch (FileHashDBException &) { send("e"); continue; }
        catch (SerializeException &) { send("e"); continue; }
        std::set<S> seen;
        for (size_t q = 0; q < v.size(); q++) {
          auto f = x.m.find(v[q]);
          if (f == x.m.end() || !seen.insert(v[q]).second) wrong("a listing under failing I/O has a key that is not stored, or one twice");
          if (!w.empty() && (w.size() != v.size() || w[q] != f->second)) wrong("a listing under failing I/O has wrong data");
        }
        if (seen.size() != x.m.size()) wrong("a listing under failing I/O reported " + std::to_string(seen.size()) + " of " + std::to_string(x.m.size()) + " keys as all");
      } else if (o.name == "iter" && x.kind == 2) {
        std::set<S> seen;
        auto walk = [&](auto &st) {
          for (auto it2 = st.begin(); it2 != st.end(); ++it2) {
            S q = (S)*it2;
            if (!x.m.count(q) || !seen.insert(q).second) wrong("an iteration under failing I/O has a key that is not stored, or one twice");
          }
        };
        try { walk(*x.e); }
        catch (FileHashDBException &) { send("e"); continue; }
        catch (SerializeException &) { send("e"); continue; }
        if (seen.size() != x.m.size()) wrong("an iteration under failing I/O gave " + std::to_string(seen.size()) + " of " + std::to_string(x.m.size()) + " keys as all");
      } else if (o.name == "flush") {
        try { x.flush(); }
        catch (FileHashDBException &) { if (g_fault.hit_read + g_fault.hit_write == 0) wrong("a flush failed though no call failed"); send("f"); continue; }
        // a copy of the file, as if the process ended here, has everything
        bool was = g_fault.armed;
        g_fault.armed = false;
        Cpp y;
        y.path = path + ".copy";
        write_file(y.path, read_file(path));
        if (y.open(o0, 1 << 20, O_RDONLY) != 0) wrong("a flush reported success under failing I/O, but the file cannot be opened");
        for (auto &kv : x.m) {
          std::vector<S> v;
          int q = y.get(kv.first, v);
          if (q != 0 || v != kv.second) wrong("a flush reported success under failing I/O, but a key of the file is missing or wrong");
        }
        y.close();
        unlink(y.path.c_str());
        g_fault.armed = was;
        send("k");
      }
      else if (o.name == "user") {
        S u = fill_bytes((uint64_t)o.at(0), (size_t)std::max(0L, o.at(1)));
        S was;
        if (x.getuser(was) == 0 && x.has_user && was != x.user) wrong("user data read under failing I/O are wrong");
        if (x.setuser(u) == 0) { x.user = u; x.has_user = true; }
        else { if (g_fault.hit_read + g_fault.hit_write == 0) wrong("storing user data failed though no call failed"); done("x"); }
      }
    }
    int rc = x.close();
    g_fault.armed = false;
    if (rc != 0) { if (g_fault.hit_read + g_fault.hit_write == 0) wrong("a close failed though no call failed"); done("c"); }
    if (g_fault.hit_read) send("r");
    if (g_fault.hit_write) send("w");
    judge("a close reported success under failing I/O, but");   // here, in the process that was told so
    send("s");
    char n[32];
    snprintf(n, sizeof n, "N%zu", x.m.size());
    send(n);
    _exit(0);
  }, 15);
  g_feat["cpp"]++;
  if (s.timed_out) { g_feat["slow"]++; return; }
  size_t q = 0;
  while (q < s.out.size() && islower((unsigned char)s.out[q])) { g_feat[S("hit_") + s.out[q]]++; q++; }
  VCHECK(!(q < s.out.size() && s.out[q] == 'W'), "%s", s.out.c_str() + q + 1);
  VCHECK(!WIFSIGNALED(s.status), "the process crashed under failing I/O: %s", status_text(s.status).c_str());
  if (WIFSIGNALED(s.status) || WEXITSTATUS(s.status)) { g_feat["stopped"]++; return; }
  if (q < s.out.size() && s.out[q] == 'N') { g_feat["cpp_saved"]++; g_feat["insert"] += atol(s.out.c_str() + q + 1); }
}
