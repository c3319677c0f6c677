// Interpreter: runs generated operation sequences against the real C API and
// an in-memory model, comparing every answer.
#ifndef VF_DBRUN_H
#define VF_DBRUN_H
#include "core.h"
#include "fmt.h"
extern "C" {
#include "ffdb_db.h"
}

// ---- hash and comparison functions an application may register
enum { NHASH = 8, NCMP = 3 };
typedef unsigned (*hash_fn)(const void *, unsigned);
typedef int (*cmp_fn)(const FFDB_DBT *, const FFDB_DBT *);
hash_fn hash_of(int k);       // the function handed to the library (null: library default)
hash_fn hash_ref(int k);      // the function that is then in force
cmp_fn cmp_of(int k);
bool is_ci(int hashk, int cmpk);

struct Cfg {
  long bsize = 512, nbuckets = 4, cache = 0, rearr = 1, uinfolen = 0, nconf = 0, hashk = 0, cmpk = 0, defaults = 0;
  static Cfg from(const Op &o);
  Op op() const;
  unsigned page() const;        // page size the file will have
  FFDB_HASHINFO info(long rearr_now, long cache_now) const;
};

Bytes key_bytes(bool ci, long kid, long ksz);
Bytes data_bytes(long seed, long n);

struct Model {
  bool ci = false;
  std::map<Bytes, std::pair<Bytes, Bytes>> m;   // canonical key -> (stored key, data)
  bool uinfo_set = false;
  Bytes uinfo;
  bool cfg_set = false;
  std::vector<ffdb_config_info_t> cfgs;
  Bytes canon(const Bytes &k) const;
};

struct Cursor {
  ffdb_cursor_t *c = nullptr;
  int dir = 0;               // 0 forward, 1 backward
  bool started = false, ended = false;
  std::set<Bytes> seen;
};

class DbRun {
public:
  std::string path;
  Cfg cfg;
  long maxdata = 1099511627775L;        // 40 bits; 32 in files of version 5
  Model model;
  FFDB_DB *db = nullptr;
  int mode = 0;              // 0 read-write, 1 read-only
  long sessions = 0;
  Bytes ro_before;           // file bytes when a read-only session began
  std::map<int, Cursor> cur;
  std::function<void()> after_close;   // hook for the property
  bool check_ro_bytes = true;
  std::string label;
  long work = 0;
  bool affordable();
  long step_cap() const;     // steps of one cursor operation that stay cheap

  DbRun(const std::string &p, const Cfg &c);
  bool exec(const Op &o);    // false: not an operation of this interpreter
  void open(int mode, long rearr, long cache, bool create);
  void close();
  void put(long kid, long ksz, long dseed, long dsz, int flag);
  void get(const Bytes &k, int buf);
  void zigzag(long seed, long steps, int withdata, int kbuf);
  void dscan();
  void scan(int dir, int withdata, int kbuf);
  void close_cursors();
  void verify_all();         // every key of the model and some absent ones, both scans, metadata
  void verify_meta();
  void snapshot_check(long steps = 0, int dir = 0);     // copy the file as it is and open the copy
  ffdb_cursor_t *left_cursor(long steps, int dir);     // a cursor that made some steps
  void parse_check(const Bytes &file);
  void metaop(const Op &o);
  unsigned maxkey() const { return cfg.page() - 56; }
};

// a read of a whole database through the library, used by several oracles
struct Dump {
  std::map<Bytes, Bytes> kv;
  bool uinfo_ok = false;
  Bytes uinfo;
  std::vector<ffdb_config_info_t> cfgs;
};
void expect_equal_to_model(FFDB_DB *db, const Model &m, const char *what, bool meta = true);
bool same_config(const ffdb_config_info_t &a, const ffdb_config_info_t &b);
ffdb_config_info_t make_config(long seed, long index);

// ---- generator building blocks
struct Profile {
  // weights of the operation kinds
  int put = 30, rep = 10, noow = 4, badflag = 1, getp = 12, geta = 4, bulk = 6, scan = 4, sync = 4, reopen = 6, ro = 2,
      trunc = 1, meta = 4, verify = 3, cursor = 0;
  int left = 0;              // share of reopenings and flushes made while a cursor is in the middle of its traversal
  int min_ops = 5, max_ops = 60;
  int big_pct = 12;          // share of cases with bulk loads of thousands of keys
  bool vary_hash = true, vary_cmp = true;
  bool tiny_cache = true;
  bool multi_session_rearr = true;
  int huge_page_pct = 1;
  int many_buckets = 0;      // share of tables created with thousands of buckets
};
Cfg gen_cfg(Rng &r, const Profile &p);
long gen_ksz(Rng &r, const Cfg &c);
long gen_dsz(Rng &r, const Cfg &c);
long gen_cache(Rng &r, const Cfg &c);
Case gen_history(Rng &r, const Profile &p);
void gen_ops(Rng &r, const Profile &p, const Cfg &c, Case &out, int n, bool big);
#endif
