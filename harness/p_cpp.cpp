// The C++ classes: serialization, stores, ensembles, several databases, merging.
#include <signal.h>
#include <sys/wait.h>
#include "core.h"
#include "dbrun.h"
#include "p_util.h"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include "AllConfStoreDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataDBMerger.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "ConfDataStoreMultipleDB.h"
#include "DBString.h"
#include "VFloatData.h"
using namespace FILEDB;
typedef std::string S;

// ------------------------------------------------------------ independent codecs
static S be16(unsigned v) { return S(1, (char)(v >> 8)) + S(1, (char)v); }
static S be32(uint32_t v) { return be16(v >> 16) + be16(v & 0xffff); }
static uint32_t rd16(const S &s, size_t o) { return ((uint32_t)(unsigned char)s[o] << 8) | (unsigned char)s[o + 1]; }
static uint32_t rd32(const S &s, size_t o) { return rd16(s, o) << 16 | rd16(s, o + 2); }
static S ser_key(const S &p) { return be16(0x11ff) + be16(102) + p; }
static S ser_data(const S &p) { return be16(0x11ff) + be16(0x1144) + p; }
static bool de_str(const S &b, unsigned id, S &out) {
  if (b.size() < 4 || rd16(b, 0) != 0x11ff || rd16(b, 2) != id) return false;
  out = b.substr(4);
  return true;
}
// text-like or binary payloads
static S payload(long seed, long n, int flavour) {
  S s = fill_bytes((uint64_t)seed, (size_t)std::max(0L, n));
  if (flavour == 0) for (auto &c : s) c = (char)('a' + (unsigned char)c % 26);
  if (flavour == 1) for (size_t i = 0; i < s.size(); i += 1 + (size_t)seed % 3) s[i] = 0;
  return s;
}

// ------------------------------------------------------------ C15 serialization
static Case gen15(Rng &r, uint64_t) {
  Case c;
  c.add("c15");
  int n = (int)r.range(1, 25);
  auto len = [&] { return r.chance(30) ? r.range(0, 6) : r.chance(80) ? r.range(0, 300) : r.range(0, 20000); };
  for (int i = 0; i < n; i++) {
    switch (r.below(5)) {
    case 0: c.add("key", {(long)r.below(1 << 30), len(), r.range(0, 3)}); break;
    case 1: c.add("data", {(long)r.below(1 << 30), len(), r.range(0, 3)}); break;
    case 2: c.add("vec", {(long)r.below(1 << 30), r.chance(30) ? r.range(0, 3) : r.range(0, 500), r.range(0, 3)}); break;
    case 3: c.add("bad", {r.range(0, 2), r.range(0, 6), (long)r.below(1 << 30), len(), (long)r.below(1 << 30)}); break;
    default: c.add("cross", {r.range(0, 2), r.range(0, 2), (long)r.below(1 << 30), len()});
    }
  }
  return c;
}
static S vec_bytes(long seed, long n, int fl) {
  S o = be16(0x6677) + be16(0) + be32((uint32_t)n);
  Rng r((uint64_t)seed);
  for (long i = 0; i < n; i++) {
    uint32_t u = (uint32_t)r.next();
    if (fl == 0) { float f = (float)(long)(u % 2000001) / 1000.0f - 1000.0f; memcpy(&u, &f, 4); }
    else if (fl == 1) { static const uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 1, 0x80000001u, 0x7f7fffffu, 0x3f800000u, 0x00800000u, 0x3effffffu}; u = sp[u % 10]; }
    else if ((u & 0x7f800000u) == 0x7f800000u) u &= ~0x00800000u;   // no NaN: equality is asked for
    o += be32(u);
  }
  return o;
}
// what each class must make of some bytes: -1 refuse, 1 accept, 0 either
static int verdict(int kind, const S &b, S &pl) {
  if (kind < 2) return de_str(b, kind == 0 ? 102 : 0x1144, pl) ? 1 : -1;
  if (b.size() < 8 || rd16(b, 0) != 0x6677 || (size_t)rd32(b, 4) * 4 != b.size() - 8) return -1;
  if (b[2] || b[3]) return 0;
  pl = b.substr(8);
  return 1;
}
static void offer(int kind, const S &b, const char *what) {
  S pl;
  int v = verdict(kind, b, pl);
  bool threw = false;
  // an exact-size copy on the heap, so that reading past its end is seen
  S in(b.data(), b.size());
  in.shrink_to_fit();
  try {
    if (kind == 0) { StringKey k("former contents"); k.readObject(in); if (v == 1) VCHECK((S)k == pl, "%s: a key read from its serial form differs", what); S o; k.writeObject(o); if (v == 1) VCHECK(o == b, "%s: a key written again differs", what); }
    else if (kind == 1) { UserData k("former contents"); k.readObject(in); if (v == 1) VCHECK((S)k == pl, "%s: data read from its serial form differ", what); S o; k.writeObject(o); if (v == 1) VCHECK(o == b, "%s: data written again differ", what); }
    else {
      VFloatData d(3, 2.5f);
      d.readObject(in);
      if (v == 1) {
        const std::vector<float> &fv = d;
        VCHECK(fv.size() * 4 == pl.size() && d.numberOfElements() == (int)fv.size(), "%s: %zu numbers instead of %zu", what, fv.size(), pl.size() / 4);
        for (size_t i = 0; i < fv.size(); i++) { uint32_t u; memcpy(&u, &fv[i], 4); VCHECK(u == rd32(pl, 4 * i), "%s: number %zu of a vector is %08x instead of %08x", what, i, u, rd32(pl, 4 * i)); }
        S o;
        d.writeObject(o);
        VCHECK(o == b, "%s: a vector of numbers written again differs", what);
        VFloatData e(d), g;
        g = e;
        bool nan = false;
        for (float f : fv) nan |= f != f;
        if (!nan) VCHECK(g == d && !(g != d) && e == g, "%s: a copied vector is not equal to the original", what);
        // vectors of another length, or with another number somewhere, are not equal
        auto made = [](const S &p) { S t = be16(0x6677) + be16(0) + be32((uint32_t)(p.size() / 4)) + p; VFloatData x; x.readObject(t); return x; };
        VFloatData lg = made(pl + be32(0x3f800000u));
        VCHECK(lg != d && !(lg == d) && d != lg, "%s: vectors of different length are equal", what);
        for (size_t i = 0; i < fv.size(); i += 1 + fv.size() / 5) {
          S q = pl;
          q.replace(4 * i, 4, be32(rd32(pl, 4 * i) == 0x40e00000u ? 0x41000000u : 0x40e00000u));
          VFloatData df = made(q);
          VCHECK(df != d && !(df == d) && d != df, "%s: vectors that differ in number %zu of %zu are equal", what, i, fv.size());
        }
      }
    }
  } catch (SerializeException &e) { threw = true; }
  if (v == -1) { VCHECK(threw, "%s: bytes that are no serial form (%zu bytes: %s) were accepted", what, b.size(), hexs(b).c_str()); g_feat["rejected"]++; }
  if (v == 1) { VCHECK(!threw, "%s: a proper serial form (%zu bytes: %s) was refused", what, b.size(), hexs(b).c_str()); g_feat["accepted"]++; }
}
static void run15(const Case &c) {
  for (size_t i = 1; i < c.ops.size(); i++) {
    const Op &o = c.ops[i];
    if (o.name == "key") {
      S p = payload(o.at(0), o.at(1), (int)o.at(2)), b;
      StringKey k(p), k2, k3(k);
      k2 = p;
      k.writeObject(b);
      VCHECK(b == ser_key(p), "the serial form of a key of %zu bytes is not marker, type and bytes", p.size());
      VCHECK(k == k2 && k == k3 && !(k != k2), "equal keys are not equal");
      StringKey other(p + "x");
      VCHECK(k != other && !(k == other), "different keys are equal");
      offer(0, b, "key");
    } else if (o.name == "data") {
      S p = payload(o.at(0), o.at(1), (int)o.at(2)), b;
      UserData k(p), k2, k3(p.data(), (long)p.size());
      k2 = p;
      k.writeObject(b);
      VCHECK(b == ser_data(p), "the serial form of data of %zu bytes is not marker, type and bytes", p.size());
      VCHECK(k == k2 && k == k3 && !(k != k2), "equal data are not equal");
      UserData other(p + "x"), k4("former");
      k4 = k;
      VCHECK(k == k4 && (S)k4 == p, "assigned data differ");
      VCHECK(k != other && !(k == other), "different data are equal");
      offer(1, b, "data");
    } else if (o.name == "vec") {
      offer(2, vec_bytes(o.at(0), o.at(1), (int)o.at(2)), "vector");
      if (o.at(1) > 0) {
        VFloatData d((unsigned)o.at(1), 0.1f + (float)(o.at(0) % 1000));
        S b;
        d.writeObject(b);
        VFloatData e;
        e.readObject(b);
        VCHECK(e == d && e.numberOfElements() == (int)o.at(1), "a vector of numbers changed on its way through its serial form");
      }
    } else if (o.name == "bad") {
      S b = o.at(0) == 0 ? ser_key(payload(o.at(2), o.at(3), 2)) : o.at(0) == 1 ? ser_data(payload(o.at(2), o.at(3), 2)) : vec_bytes(o.at(2), o.at(3) % 200, 2);
      uint64_t q = (uint64_t)o.at(4);
      switch (o.at(1)) {
      case 0: b = b.substr(0, q % (b.size() + 1)); break;                            // cut anywhere
      case 1: b = b.substr(0, q % std::min<size_t>(b.size() + 1, 12)); break;        // cut short
      case 2: b[q % std::min<size_t>(b.size(), 8)] ^= (char)(1 + (q >> 8) % 255); break;   // header byte
      case 3: b += payload((long)q, 1 + (long)(q % 9), 2); break;                     // too long
      case 4: b = payload((long)q, (long)(q >> 5) % 40, 2); break;                    // noise
      case 5: if (o.at(0) == 2) { uint32_t n = rd32(b, 4); uint32_t m = q % 4 == 0 ? n + 0x40000000u : q % 4 == 1 ? n + 1 : q % 4 == 2 ? n - 1 : (uint32_t)q; b = b.substr(0, 4) + be32(m) + b.substr(8); } break;   // count
      default: std::swap(b[0], b[1]);
      }
      offer((int)o.at(0), b, "changed bytes");
    } else if (o.name == "cross") {
      S b = o.at(1) == 0 ? ser_key(payload(o.at(2), o.at(3), 2)) : o.at(1) == 1 ? ser_data(payload(o.at(2), o.at(3), 2)) : vec_bytes(o.at(2), o.at(3) % 200, 2);
      offer((int)o.at(0), b, "bytes of another type");
    }
  }
}
static Registrar R15({"C15", "at least one object taken through its serial form and one proper or improper byte string offered to a reader",
  gen15, run15, [](const Feat &f) { return F(f, "accepted") > 0 && F(f, "rejected") > 0; },
  60, 2000000, 20000000, 20, 300, 0, "exploration", {"the two bytes of padding in the serial form of number vectors are not judged", "NaN payloads are compared bit by bit, equality operators are not asked about NaN"}});

// ------------------------------------------------------------ keys with their own hash and comparison
class CiKey : public DBKey {
public:
  S s;
  CiKey() {}
  CiKey(const S &x) : s(x) {}
  unsigned short serialID(void) const { return 7; }
  int hasHashFunc(void) const { return 1; }
  int hasCompareFunc(void) const { return 1; }
  static unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? (unsigned char)(c + 32) : c; }
  void writeObject(S &o) const noexcept(false) { o = "K" + s; }
  void readObject(const S &i) noexcept(false) { if (i.empty() || i[0] != 'K') throw SerializeException("CiKey", "no key"); s = i.substr(1); }
  int operator==(const CiKey &b) const { return s == b.s; }
  operator S(void) { return s; }
  static unsigned hash(const void *p, unsigned n) { unsigned h = 5381; for (unsigned i = 0; i < n; i++) h = h * 33 + low(((const unsigned char *)p)[i]); return h; }
  static int compare(const FFDB_DBT *a, const FFDB_DBT *b) {
    size_t n = std::min(a->size, b->size);
    for (size_t i = 0; i < n; i++) { int d = (int)low(((unsigned char *)a->data)[i]) - (int)low(((unsigned char *)b->data)[i]); if (d) return d; }
    return a->size < b->size ? -1 : a->size > b->size;
  }
};
class FixData : public DBData {
public:
  S s;
  FixData() : s(12, 0) {}
  FixData(const S &x) : s(x) { s.resize(12); }
  unsigned short serialID(void) const { return 9; }
  bool unwritable = false;
  void writeObject(S &o) const noexcept(false) { if (unwritable) throw SerializeException("FixData", "cannot be written"); o = s; }
  void readObject(const S &i) noexcept(false) { if (i.size() != 12) throw SerializeException("FixData", "size"); s = i; }
  operator S(void) { return s; }
};
template <class K> struct KT;
template <> struct KT<StringKey> {
  static S ser(const S &p) { return ser_key(p); }
  static S canon(const S &b) { return b; }
};
template <> struct KT<CiKey> {
  static S ser(const S &p) { return "K" + p; }
  static S canon(const S &b) { S o = b; for (auto &c : o) c = (char)CiKey::low((unsigned char)c); return o; }
};
template <class D> struct DT;
template <> struct DT<UserData> { static S ser(const S &p) { return ser_data(p); } static bool ok(const S &b) { S x; return de_str(b, 0x1144, x); } };
template <> struct DT<FixData> { static S ser(const S &p) { return FixData(p).s; } static bool ok(const S &b) { return b.size() == 12; } };

static S kp(long kid, long n) {
  char t[40];
  snprintf(t, sizeof t, "%ld", kid);
  S s = t;
  Rng r((uint64_t)kid * 77);
  while ((long)s.size() < n) s += (char)((r.chance(50) ? 'a' : 'A') + r.range(0, 25));
  // odd ids differ in case only from the even id before them, for keys that ignore case
  return s;
}
static S kp_variant(long kid, long n, bool up) {
  S s = kp(kid, n);
  if (up) for (auto &c : s) c = (char)toupper((unsigned char)c);
  return s;
}
typedef std::map<S, std::pair<S, S>> KV;    // canonical serial key -> (serial key stored, raw data)

// ------------------------------------------------------------ C16 stores
static Case gen16(Rng &r, uint64_t) {
  Case c;
  int kind = (int)r.range(0, 2);
  long page = 512L << (r.chance(70) ? r.range(0, 3) : r.range(0, 7));
  // kind page buckets cache pagemove uinfo nconf defaults
  c.add("c16", {kind, page, r.chance(60) ? r.range(1, 40) : r.range(1, 200), r.chance(50) ? page * r.range(1, 20) : 0, r.range(0, 1), r.chance(50) ? r.range(0, 3000) : -1, r.chance(30) ? r.range(1, 20) : 0, r.chance(15)});
  int n = (int)r.range(3, 60);
  long nk = r.chance(50) ? r.range(1, 8) : r.range(5, 60);
  auto dl = [&] { return r.chance(70) ? r.range(0, 200) : r.chance(80) ? r.range(0, 3 * page) : r.range(0, 40000); };
  auto kl = [&] { return r.chance(90) ? r.range(1, 40) : r.range(std::max(1L, page - 70), page - 40); };
  for (int i = 0; i < n; i++) {
    long k = r.range(0, nk), up = r.chance(20);
    switch (r.weighted({24, 6, 6, 14, 6, 6, 4, 4, 4, 3, 3, 3, 3, 4, 4, 5, 4, 3, 3, 4, 3})) {
    case 0: c.add("ins", {k, kl(), up, (long)r.below(1 << 30), dl()}); break;
    case 1: c.add("insk", {k, kl(), up, (long)r.below(1 << 30), dl()}); break;
    case 2: c.add("insb", {k, kl(), up, (long)r.below(1 << 30), dl()}); break;
    case 3: c.add("get", {k, kl(), up, r.range(0, 2), (long)r.below(1000)}); break;
    case 4: c.add("getb", {k, kl(), up, r.range(0, 2), (long)r.below(1000)}); break;
    case 5: c.add("exist", {k, kl(), up, r.range(0, 2), (long)r.below(1000)}); break;
    case 6: c.add("keys"); break;
    case 7: c.add("bkeys"); break;
    case 8: c.add("pairs"); break;
    case 9: c.add("some"); break;
    case 10: c.add("spairs"); break;
    case 11: c.add("bpairs"); break;
    case 12: c.add("name"); break;
    case 13: c.add("flush", {1}); break;
    case 14: c.add("uset", {(long)r.below(1 << 30), r.range(0, 3100)}); break;
    case 15: c.add("reopen", {r.chance(30) + (r.chance(20) ? 2 : 0), r.chance(40), r.chance(40) ? 512L << r.range(0, 4) : 0, r.range(0, 1)}); break;
    case 16: c.add("junk", {k, kl(), up, (long)r.below(1 << 30), r.range(0, 30)}); break;
    case 17: c.add("copy"); break;
    case 18: c.add("closed"); break;
    case 19: c.add("many", {r.range(0, 1000), r.range(1, 150), r.range(1, 30), r.range(0, 60)}); break;
    default: c.add("handle"); break;
    }
  }
  return c;
}
template <class K, class St, bool SIMPLE> struct Run16 {
  std::unique_ptr<St> st;
  KV m;
  bool uset = false;
  S uinfo, path = g_dir + "/store.db";
  long page = 0, umax = 0, nconf = 0;
  bool ro = false;
  K key(const S &p) { return K(p); }
  size_t maxkey() { return (size_t)page - 56; }
  bool refused(const S &kb, const S &data) {
    auto it = m.find(KT<K>::canon(kb));
    return ro || kb.size() > maxkey() || (it != m.end() && it->second.second.size() < data.size());
  }
  void stored(const S &kb, const S &data, int rc, const char *how) {
    bool ref = refused(kb, data);
    if (ref) { VCHECK(rc != 0, "%s that must be refused reported success", how); g_feat["ins_refused"]++; return; }
    VCHECK(rc == 0, "%s of a key of %zu and data of %zu bytes returned %d", how, kb.size(), data.size(), rc);
    auto &e = m[KT<K>::canon(kb)];
    if (e.first.empty()) { e.first = kb; g_feat["insert"]++; } else g_feat["replace"]++;
    e.second = data;
  }
  bool all_ok() { for (auto &kv : m) if (!DT<UserData>::ok(kv.second.second)) return false; return true; }
  static void same(std::map<S, S> &got, const KV &m, const char *how) {
    for (auto &kv : m) {
      auto it = got.find(kv.second.first);
      VCHECK(it != got.end(), "%s misses a stored key", how);
      VCHECK(it->second == kv.second.second, "%s has wrong data for a key", how);
    }
    VCHECK(got.size() == m.size(), "%s has %zu entries instead of %zu", how, got.size(), m.size());
  }
  void check_all(const char *when) {
    std::map<S, S> got;
    if constexpr (!SIMPLE) {
      std::vector<S> k, v;
      st->binaryKeysAndData(k, v);
      VCHECK(k.size() == v.size(), "%s: %zu keys but %zu data", when, k.size(), v.size());
      for (size_t i = 0; i < k.size(); i++) { VCHECK(!got.count(k[i]), "%s: a key is listed twice", when); got[k[i]] = v[i]; }
      same(got, m, when);
    } else {
      std::vector<K> k;
      st->template keys<K, UserData>(k);
      std::set<S> s;
      for (auto &x : k) { S b; x.writeObject(b); VCHECK(s.insert(b).second, "%s: a key is listed twice", when); }
      for (auto &kv : m) VCHECK(s.count(kv.second.first), "%s: a stored key is not listed", when);
      VCHECK(s.size() == m.size(), "%s: %zu keys listed instead of %zu", when, s.size(), m.size());
    }
    for (auto &kv : m) {
      S p;
      K kk;
      kk.readObject(kv.second.first);
      UserData d("former");
      int rc = get(kk, d);
      if (DT<UserData>::ok(kv.second.second)) { VCHECK(rc == 0, "%s: a stored key is not found", when); VCHECK(ser_data((S)d) == kv.second.second, "%s: wrong data for a key", when); }
      else VCHECK(rc != 0, "%s: data that are no serial form were returned as success", when);
    }
    S u = "former";
    int rc = st->getUserdata(u);
    VCHECK(rc == 0 && u == uinfo, "%s: user data differ (%d, %zu bytes instead of %zu)", when, rc, u.size(), uinfo.size());
    g_feat["verify"]++;
  }
  int get(const K &k, UserData &d) { if constexpr (SIMPLE) return st->template get<K, UserData>(k, d); else return st->get(k, d); }
  int ins(const K &k, const UserData &d) { if constexpr (SIMPLE) return st->template insert<K, UserData>(k, d); else return st->insert(k, d); }
  bool exist(const K &k) { if constexpr (SIMPLE) return st->template exist<K>(k); else return st->exist(k); }
  void setup(const Op &o) {
    st.reset(new St());
    page = 8192; umax = 4000; nconf = 1;
    if (!o.at(7)) {
      st->setPageSize((unsigned)o.at(1));
      page = o.at(1);
      st->setNumberBuckets((unsigned)std::max(1L, o.at(2)));
      if (o.at(3)) { if (o.at(3) % 3 == 0) st->setCacheSizeMB(1 + (unsigned)o.at(3) % 4); else st->setCacheSize((unsigned)o.at(3)); }
      if (o.at(4)) st->enablePageMove(); else st->disablePageMove();
      if (o.at(5) >= 0) { st->setMaxUserInfoLen((unsigned)o.at(5)); umax = o.at(5) + 1; }
      if (o.at(6)) { st->setMaxNumberConfigs((unsigned)o.at(6)); nconf = o.at(6); }
    }
    VCHECK(!st->fileExists(path), "a file that does not exist is said to exist");
    VCHECK(st->open(path, O_RDONLY, 0400) != 0, "opening a missing file for reading succeeded");
    VCHECK(st->open(path, O_RDWR | O_CREAT, 0600) == 0, "creating a store failed");
    VCHECK(st->fileExists(path), "an existing file is said not to exist");
    VCHECK((long)st->getMaxUserInfoLen() == umax, "room for %u bytes of user data instead of %ld", st->getMaxUserInfoLen(), umax);
    VCHECK((long)st->getMaxNumberConfigs() == nconf, "room for %u configurations instead of %ld", st->getMaxNumberConfigs(), nconf);
  }
  // which: 0 the key id as given, 1 a present key, 2 an absent one
  S pick(const Op &o) {
    if (o.at(3) == 1 && !m.empty()) { auto it = m.begin(); std::advance(it, o.at(4) % (long)m.size()); K k; k.readObject(it->second.first); S s = (S)k; if (o.at(2)) for (auto &c : s) c = (char)toupper((unsigned char)c); return s; }
    if (o.at(3) == 2) return kp(100000 + o.at(0), o.at(1));
    return kp_variant(o.at(0), o.at(1), o.at(2));
  }
  void op(const Op &o) {
    if (o.name == "ins") { S p = kp_variant(o.at(0), o.at(1), o.at(2)), d = payload(o.at(3), o.at(4), (int)(o.at(3) % 3)); stored(KT<K>::ser(p), ser_data(d), ins(key(p), UserData(d)), "an insert"); }
    else if (o.name == "many") { for (long q = 0; q < o.at(1); q++) { S p = kp(o.at(0) + q, o.at(2)), d = payload(q, o.at(3), 0); stored(KT<K>::ser(p), ser_data(d), ins(key(p), UserData(d)), "an insert"); } g_feat["many"]++; }
    else if (o.name == "get") {
      S p = pick(o);
      auto it = m.find(KT<K>::canon(KT<K>::ser(p)));
      UserData d("former");
      int rc = get(key(p), d);
      if (it == m.end()) { VCHECK(rc != 0, "a key that was never stored was found"); g_feat["absent"]++; }
      else if (DT<UserData>::ok(it->second.second)) { VCHECK(rc == 0, "a stored key was not found (%d)", rc); VCHECK(ser_data((S)d) == it->second.second, "a lookup returned wrong data"); g_feat["present"]++; }
      else VCHECK(rc != 0, "data that are no serial form were returned as success");
    } else if (o.name == "exist") { S p = pick(o); bool e = m.count(KT<K>::canon(KT<K>::ser(p))) > 0; VCHECK(exist(key(p)) == e, "existence of a key is reported wrongly"); }
    else if (o.name == "keys") {
      std::vector<K> k;
      if constexpr (SIMPLE) st->template keys<K, UserData>(k); else st->keys(k);
      std::set<S> s;
      for (auto &x : k) { S b; x.writeObject(b); VCHECK(s.insert(b).second, "a key is listed twice"); }
      VCHECK(s.size() == m.size(), "%zu keys are listed instead of %zu", s.size(), m.size());
      for (auto &kv : m) VCHECK(s.count(kv.second.first), "a stored key is not listed");
      g_feat["listed"]++;
    } else if (o.name == "pairs" || o.name == "some") {
      std::vector<K> k;
      std::vector<UserData> v;
      bool threw = false, some = o.name == "some";
      if (SIMPLE && some) return;
      try {
        if constexpr (SIMPLE) st->template keysAndData<K, UserData>(k, v); else if (some) st->someKeyAndData(k, v); else st->keysAndData(k, v);
      } catch (SerializeException &e) { threw = true; }
      if (!all_ok() && (threw || some)) { VCHECK(threw || !some || k.size() <= 1, "more than one pair"); g_feat["threw"] += threw; return; }
      VCHECK(!threw, "listing pairs threw an exception though all are proper");
      VCHECK(all_ok(), "listing pairs with data of no serial form did not report it");
      VCHECK(k.size() == v.size(), "%zu keys but %zu data are listed", k.size(), v.size());
      std::map<S, S> got;
      for (size_t i = 0; i < k.size(); i++) { S a, b; k[i].writeObject(a); v[i].writeObject(b); VCHECK(!got.count(a), "a pair is listed twice"); got[a] = b; }
      if (some) {
        VCHECK(k.size() == (m.empty() ? 0u : 1u), "asked for one pair of %zu, got %zu", m.size(), k.size());
        for (auto &g : got) { auto it = m.find(KT<K>::canon(g.first)); VCHECK(it != m.end() && it->second.second == g.second, "the one pair is not a stored one"); }
      } else same(got, m, "the list of pairs");
      g_feat["listed"]++;
    } else if (o.name == "uset") {
      S u = payload(o.at(0), std::min(o.at(1), umax + 3), 2);
      int rc = st->insertUserdata(u);
      if (ro || (long)u.size() > umax) VCHECK(rc != 0, "user data that must be refused were accepted");
      else { VCHECK(rc == 0, "storing user data of %zu bytes returned %d", u.size(), rc); uinfo = u; g_feat["uset"]++; }
      S g = "former";
      VCHECK(st->getUserdata(g) == 0 && g == uinfo, "user data read back differ");
    } else if (o.name == "reopen") {
      if (o.at(1)) { int rc = st->close(); VCHECK(rc == 0, "closing returned %d", rc); }
      // else: opening again closes the open one first
      if (o.at(2)) st->setPageSize((unsigned)o.at(2));     // of no effect on an existing file
      if (o.at(3)) st->enablePageMove(); else st->disablePageMove();
      ro = o.at(0) & 1;
      VCHECK(st->open(path, (ro ? O_RDONLY : O_RDWR) | (o.at(0) & 2 ? O_CREAT : 0), 0600) == 0, "reopening the store failed");
      check_all("after reopening");
      g_feat["reopen"]++;
    } else if (o.name == "copy") {
      std::unique_ptr<St> n(new St(*st));
      check_all("before copying");
      st = std::move(n);       // the original is destroyed, the copy goes on
      check_all("a copy of the store");
      g_feat["copy"]++;
    } else if (o.name == "flush") {
      st->flush();
      if (ro) return;
      S copy = g_dir + "/snap.db";
      write_file(copy, read_file(path));
      Run16 r2;
      r2.st.reset(new St());
      VCHECK(r2.st->open(copy, O_RDONLY, 0400) == 0, "the file after a flush cannot be opened");
      r2.m = m; r2.uinfo = uinfo; r2.page = page;
      r2.check_all("the file after a flush");
      r2.st->close();
      unlink(copy.c_str());
      g_feat["flush"]++;
    } else if (o.name == "name") VCHECK(st->storageName() == path, "the name of the store is '%s'", st->storageName().c_str());
    else if constexpr (!SIMPLE) {
      if (o.name == "insk") { S p = kp_variant(o.at(0), o.at(1), o.at(2)), d = payload(o.at(3), o.at(4), 2); stored(KT<K>::ser(p), ser_data(d), st->insertWithStringKey(KT<K>::ser(p), UserData(d)), "an insert by serial key"); }
      else if (o.name == "insb") { S p = kp_variant(o.at(0), o.at(1), o.at(2)), d = payload(o.at(3), o.at(4), 2); stored(KT<K>::ser(p), ser_data(d), st->insertBinary(KT<K>::ser(p), ser_data(d)), "a binary insert"); }
      else if (o.name == "junk") { S p = kp_variant(o.at(0), o.at(1), o.at(2)), d = payload(o.at(3), o.at(4), 2); stored(KT<K>::ser(p), d, st->insertBinary(KT<K>::ser(p), d), "a binary insert"); g_feat["junk"]++; }
      else if (o.name == "getb") {
        S p = pick(o), d = "former";
        auto it = m.find(KT<K>::canon(KT<K>::ser(p)));
        int rc = st->getBinary(KT<K>::ser(p), d);
        if (it == m.end()) VCHECK(rc != 0, "a key that was never stored was found");
        else VCHECK(rc == 0 && d == it->second.second, "a binary lookup returned %d and %zu bytes instead of %zu", rc, d.size(), it->second.second.size());
      } else if (o.name == "bkeys") {
        std::vector<S> k;
        st->binaryKeys(k);
        std::set<S> s(k.begin(), k.end());
        VCHECK(s.size() == k.size() && s.size() == m.size(), "%zu keys, %zu distinct, instead of %zu", k.size(), s.size(), m.size());
        for (auto &kv : m) VCHECK(s.count(kv.second.first), "a stored key is not listed");
      } else if (o.name == "bpairs") check_all("the binary list");
      else if (o.name == "spairs") {
        std::vector<S> k;
        std::vector<UserData> v;
        bool threw = false;
        try { st->stringKeysAndData(k, v); } catch (SerializeException &e) { threw = true; }
        if (!all_ok()) { VCHECK(threw, "listing pairs with data of no serial form did not report it"); return; }
        VCHECK(!threw && k.size() == v.size(), "listing pairs failed");
        std::map<S, S> got;
        for (size_t i = 0; i < k.size(); i++) { S b; v[i].writeObject(b); VCHECK(!got.count(k[i]), "a pair is listed twice"); got[k[i]] = b; }
        same(got, m, "the list of serial keys and data");
      } else if (o.name == "closed") {      // and below, for the simple store
        VCHECK(st->close() == 0, "closing failed");
        VCHECK(st->close() == 0, "closing a closed store failed");
        UserData d("former");
        S b = "former";
        K k0(S("1"));
        std::vector<K> ks;
        std::vector<S> bs;
        VCHECK(st->insert(k0, d) != 0 && st->insertWithStringKey("x", d) != 0 && st->insertBinary("x", "y") != 0, "a closed store accepted an insert");
        VCHECK(st->get(k0, d) != 0 && st->getBinary("x", b) != 0 && !st->exist(k0), "a closed store found a key");
        st->keys(ks); st->binaryKeys(bs); st->flush();
        VCHECK(ks.empty() && bs.empty(), "a closed store listed keys");
        VCHECK(st->insertUserdata("x") != 0 && st->getUserdata(b) != 0, "a closed store took or gave user data");
        VCHECK(st->open(path, ro ? O_RDONLY : O_RDWR, 0600) == 0, "reopening the store failed");
        check_all("after closing");
        g_feat["closed"]++;
      }
    }
    if (SIMPLE && o.name == "closed") {
      VCHECK(st->close() == 0, "closing failed");
      VCHECK(st->close() == 0, "closing a closed store failed");
      UserData d("former");
      S b = "former";
      K k0(S("1"));
      std::vector<K> ks;
      std::vector<UserData> ds;
      VCHECK(ins(k0, d) != 0, "a closed store accepted an insert");
      VCHECK(get(k0, d) != 0 && !exist(k0), "a closed store found a key");
      if constexpr (SIMPLE) { st->template keys<K, UserData>(ks); st->template keysAndData<K, UserData>(ks, ds); }
      st->flush();
      VCHECK(ks.empty() && ds.empty(), "a closed store listed keys");
      VCHECK(st->insertUserdata("x") != 0 && st->getUserdata(b) != 0, "a closed store took or gave user data");
      VCHECK(st->open(path, ro ? O_RDONLY : O_RDWR, 0600) == 0, "reopening the store failed");
      check_all("after closing");
      g_feat["closed"]++;
    }
    if (o.name == "handle") {
      // the functions on a database handle, and the iterator over keys
      int rc = st->close();
      VCHECK(rc == 0, "closing returned %d", rc);
      FFDB_HASHINFO info;
      memset(&info, 0, sizeof info);
      FFDB_DB *h = SIMPLE ? openDatabaseSimple(path, O_RDONLY, 0400, &info) : openDatabase<K>(path, O_RDONLY, 0400, &info);
      VCHECK(h, "opening a handle failed");
      VCHECK((isDatabaseEmpty<K>(h) != 0) == m.empty(), "emptiness of a database with %zu keys is reported wrongly", m.size());
      std::set<S> s;
      {
        auto it = DBKeyIterator<K, UserData>::init(h);
        DBKeyIterator<K, UserData> end(DBCursor(), K(), 1);
        size_t n = 0;
        while (it != end) {
          VCHECK(++n <= m.size() + 1, "iterating over keys does not end");
          S b; (*it).writeObject(b);
          VCHECK(s.insert(b).second, "iterating over keys gives one twice");
          if (n % 2) ++it; else it++;
          if (n % 5 == 0) { DBKeyIterator<K, UserData> cp(it); it = cp; }
          if (n % 3 == 0) {         // goes on with an iterator that was assigned, and compares with one
            DBKeyIterator<K, UserData> as, e2;
            as = it;
            e2 = end;
            VCHECK((as != e2) == (it != end) && (as == e2) == (it == end), "an assigned iterator compares differently from the one it was assigned from");
            VCHECK(as == it, "an assigned iterator differs from the one it was assigned from");
            if (it != end) { S c1, c2; as->writeObject(c1); (*it).writeObject(c2); VCHECK(c1 == c2, "an assigned iterator gives another key"); }
            it = as;
          }
          if (n % 4 == 1) {         // a copy that is given another value leaves the others as they are
            DBKeyIterator<K, UserData> c1(it), c2(it);
            c1 = end;
            VCHECK(c1 == end, "an iterator assigned the end does not equal the end");
            c2 = DBKeyIterator<K, UserData>::init(h);
            size_t left = 0;
            for (; c2 != end && left < 3; left++) ++c2;
            VCHECK(left == std::min<size_t>(3, m.size()), "a second iterator ends after %zu of %zu keys", left, m.size());
            c1 = c2;
            c2 = c1;
          }
        }
        VCHECK(it == end, "an iterator at the end does not equal the end");
      }
      VCHECK(s.size() == m.size(), "iterating gives %zu keys instead of %zu", s.size(), m.size());
      for (auto &kv : m) {
        VCHECK(s.count(kv.second.first), "iterating misses a key");
        K k; k.readObject(kv.second.first);
        VCHECK(keyExist<K>(h, k), "a stored key does not exist");
        S raw = "former";
        rc = getData<K, S>(h, k, raw);
        VCHECK(rc == 0 && raw == kv.second.second, "data read as bytes differ");
      }
      h->close(h);
      VCHECK(st->open(path, ro ? O_RDONLY : O_RDWR, 0600) == 0, "reopening the store failed");
      check_all("after use of the handle");
      g_feat["handle"]++;
    }
  }
  void run(const Case &c) {
    setup(c.ops[0]);
    for (size_t i = 1; i < c.ops.size(); i++) op(c.ops[i]);
    check_all("at the end");
    int rc = st->close();
    VCHECK(rc == 0, "closing returned %d", rc);
    st.reset(new St());
    VCHECK(st->open(path, O_RDONLY, 0400) == 0, "the closed store cannot be opened");
    check_all("in a new store object");
    st->close();
  }
};
static void run16(const Case &c) {
  if (c.ops.empty()) return;
  long k = c.ops[0].at(0);
  if (k == 0) { Run16<StringKey, ConfDataStoreDB<StringKey, UserData>, false> r; r.run(c); }
  else if (k == 1) { Run16<CiKey, ConfDataStoreDB<CiKey, UserData>, false> r; r.run(c); }
  else { Run16<StringKey, ConfDataStoreDBSimple, true> r; r.run(c); }
  g_feat["kind" + std::to_string(k)]++;
}
static Registrar R16({"C16", "at least 3 keys stored through a store object and its full contents compared at least twice",
  gen16, run16, [](const Feat &f) { return F(f, "insert") >= 3 && F(f, "verify") >= 2; },
  60, 100000, 1000000, 30, 400, 0, "exploration", {"operations without an open database are only made on the store class that checks for it", "one thread"}});

// ------------------------------------------------------------ C17 ensembles
static Case gen17(Rng &r, uint64_t) {
  Case c;
  long page = 512L << r.range(0, 4);
  // kind nbin elemsize page names cache move seed
  c.add("c17", {r.range(0, 1), r.chance(60) ? r.range(1, 6) : r.range(1, 60), r.chance(60) ? r.range(0, 40) : r.range(0, 700), page, r.range(0, 1), r.chance(50) ? page * r.range(1, 30) : 0, r.range(0, 1), (long)r.below(1 << 30)});
  int n = (int)r.range(3, 45);
  long nk = r.range(0, 12);
  for (int i = 0; i < n; i++) {
    long k = r.range(0, nk);
    switch (r.weighted({20, 5, 6, 10, 5, 5, 22, 5, 4, 4, 8, 5, 3, 7, 4, 4, 3, 2, 3})) {
    case 0: c.add("ins", {k, (long)r.below(1 << 30), r.chance(10) ? r.range(1, 3) : 0}); break;
    case 1: c.add("insk", {k, (long)r.below(1 << 30), r.chance(10) ? r.range(1, 3) : 0}); break;
    case 2: c.add("insb", {k, (long)r.below(1 << 30), r.chance(10) ? r.range(1, 3) : 0}); break;
    case 3: c.add("get", {k}); break;
    case 4: c.add("getk", {k}); break;
    case 5: c.add("getb", {k}); break;
    case 6: c.add("upd", {k, (long)r.below(1 << 30), r.chance(85) ? r.range(0, 60) : r.chance(50) ? -r.range(1, 5) : r.range(60, 100000), r.chance(90) ? 0 : r.range(1, 2)}); break;
    case 7: c.add("pairs"); break;
    case 8: c.add("spairs"); break;
    case 9: c.add("iter"); break;
    case 10: c.add("cset", {r.range(0, 70), (long)r.below(1 << 30), r.chance(10)}); break;
    case 11: c.add("cget", {r.range(0, 70)}); break;
    case 12: c.add("flush"); break;
    case 13: c.add("reopen", {r.chance(25) + (r.chance(20) ? 2 : 0), r.chance(50), r.range(0, 2), r.chance(40)}); break;
    case 14: c.add("done"); break;
    case 16: c.add("rosize", {k, r.range(0, 2)}); break;
    case 17: c.add("closed"); break;
    case 18: c.add("thr", {k, r.range(0, 2), (long)r.below(1 << 20)}); break;
    default: c.add("exist", {k});
    }
  }
  if (r.chance(12)) c.ops.insert(c.ops.begin() + 1, Op("other", {r.range(1, 70)}));
  if (r.chance(25)) c.add("raw", {r.range(0, 300), (long)r.below(1 << 20)});
  return c;
}
template <class D> struct Run17 {
  typedef AllConfStoreDB<StringKey, D> St;
  std::unique_ptr<St> st;
  std::map<S, std::vector<S>> m;      // key payload -> serial elements
  std::vector<ffdb_config_info_t> cf;
  long nbin, esz;
  bool ro = false, empty = true, stop = false;
  S path = g_dir + "/all.db";
  S key(long k) { return "key" + std::to_string(k); }
  S elem(long seed, long i) { return payload(seed * 131 + i, esz, 2); }
  std::vector<S> elems(long seed) { std::vector<S> v; for (long i = 0; i < nbin; i++) v.push_back(elem(seed, i)); return v; }
  std::vector<D> objs(const std::vector<S> &v) { std::vector<D> o; for (auto &x : v) o.push_back(D(x)); return o; }
  std::vector<S> sers(const std::vector<S> &v) { std::vector<S> o; for (auto &x : v) o.push_back(DT<D>::ser(x)); return o; }
  void cfgs_same(const char *when) {
    std::vector<ConfigInfo> v;
    VCHECK(st->getAllConfigInfo(v) == 0, "%s: configurations cannot be read", when);
    VCHECK((long)v.size() == nbin && st->size() == nbin, "%s: %zu configurations, size %d, instead of %ld", when, v.size(), st->size(), nbin);
    for (size_t i = 0; i < v.size(); i++) {
      auto &a = v[i]; auto &b = cf[i];
      VCHECK(a.configNumber() == b.config && a.index() == b.index && a.inserted() == b.inserted && a.type() == b.type && a.modifiedTime() == b.mtime && a.urlname() == b.fname,
             "%s: configuration %zu is (%d %d %d %d %d '%s') instead of (%d %d %d %d %d '%s')", when, i, a.configNumber(), a.index(), a.inserted(), a.type(), a.modifiedTime(), a.urlname().c_str(), b.config, b.index, b.inserted, b.type, b.mtime, b.fname);
    }
  }
  void one(const S &k, const std::vector<S> *want, const char *when) {
    std::vector<D> v;
    int rc = st->get(StringKey(k), v);
    if (!want) { VCHECK(rc != 0 && v.empty(), "%s: an ensemble that was never stored was found", when); return; }
    VCHECK(rc == 0, "%s: a stored ensemble is not found (%d)", when, rc);
    VCHECK((long)v.size() == nbin, "%s: %zu elements instead of %ld", when, v.size(), nbin);
    for (size_t i = 0; i < v.size(); i++) { S b; v[i].writeObject(b); VCHECK(b == (*want)[i], "%s: element %zu of %ld differs", when, i, nbin); }
  }
  void all(const char *when) {
    for (auto &kv : m) one(kv.first, &kv.second, when);
    one("absent", nullptr, when);
    std::vector<StringKey> k;
    st->keys(k);
    VCHECK(k.size() == m.size(), "%s: %zu keys listed instead of %zu", when, k.size(), m.size());
    cfgs_same(when);
    g_feat["verify"]++;
  }
  void setup(const Op &o) {
    nbin = std::max(1L, o.at(1));
    esz = std::is_same<D, FixData>::value ? 12 : o.at(2);
    Rng r((uint64_t)o.at(7));
    std::vector<int> num;
    std::vector<S> names;
    int at = (int)r.range(-50, 5000);
    for (long i = 0; i < nbin; i++) {
      at += (int)r.range(1, 30);
      num.push_back(at);
      names.push_back(r.chance(20) ? "N/A" : payload((long)r.below(1 << 30), r.chance(80) ? r.range(0, 60) : r.range(100, 300), 0));
    }
    if (r.chance(50)) for (size_t i = num.size(); i > 1; i--) std::swap(num[i - 1], num[r.below(i)]);
    { St none; VCHECK(none.open(path, O_RDWR | O_CREAT, 0600) != 0, "a new ensemble database without configurations was accepted"); none.close(); }
    unlink(path.c_str());
    if (o.at(4)) st.reset(new St(num, names)); else st.reset(new St(num));
    for (long i = 0; i < nbin; i++) {
      ffdb_config_info_t x;
      memset(&x, 0, sizeof x);
      x.config = num[(size_t)i];
      x.index = (int)i;
      if (o.at(4) && names[(size_t)i] != "N/A") strncpy(x.fname, names[(size_t)i].c_str(), sizeof x.fname - 1);
      cf.push_back(x);
    }
    st->setPageSize((unsigned)o.at(3));
    st->setNumberBuckets(1 + (unsigned)o.at(7) % 20);
    if (o.at(5)) st->setCacheSize((unsigned)o.at(5));
    if (o.at(6)) st->enablePageMove();
    VCHECK(st->open(path, O_RDWR | O_CREAT, 0600) == 0, "creating an ensemble database failed");
    cfgs_same("in a new database");
  }
  void op(const Op &o) {
    S k = key(o.at(0));
    auto it = m.find(k);
    if (o.name == "ins" || o.name == "insk" || o.name == "insb") {
      std::vector<S> e = elems(o.at(1));
      bool uneq = false;
      if (o.at(2) && nbin > 1 && !std::is_same<D, FixData>::value) { e[(size_t)(o.at(1) % nbin)] += S((size_t)o.at(2), 'x'); uneq = true; }
      std::vector<S> se = sers(e);
      int rc = o.name == "ins" ? st->insert(StringKey(k), objs(e)) : o.name == "insk" ? st->insertWithStringKey(ser_key(k), objs(e)) : st->insertBinaryData(ser_key(k), se);
      if (ro || uneq) { VCHECK(rc != 0, "an ensemble that must be refused (%s) was accepted", ro ? "read-only" : "unequal elements"); one(k, it == m.end() ? nullptr : &it->second, "after a refused insert"); g_feat["refused"]++; }
      else { VCHECK(rc == 0, "storing an ensemble returned %d", rc); m[k] = se; g_feat["insert"]++; }
    } else if (o.name == "rosize") {
      // elements of another length, refused as the database is read-only, leave no trace
      if (!ro || std::is_same<D, FixData>::value) return;
      std::vector<S> e = elems(5);
      for (auto &x : e) x += "longer";
      int rc = o.at(1) == 0 ? st->insert(StringKey(k), objs(e)) : o.at(1) == 1 ? st->insertWithStringKey(ser_key(k), objs(e)) : st->insertBinaryData(ser_key(k), sers(e));
      VCHECK(rc != 0, "a read-only ensemble database accepted an insert");
      one(k, it == m.end() ? nullptr : &it->second, "after a refused insert of another length");
    } else if (o.name == "get") one(k, it == m.end() ? nullptr : &it->second, "get");
    else if (o.name == "getk") {
      std::vector<D> v;
      int rc = st->getFromStringKey(ser_key(k), v);
      if (it == m.end()) { VCHECK(rc != 0 && v.empty(), "an ensemble that was never stored was found"); return; }
      VCHECK(rc == 0 && (long)v.size() == nbin, "a lookup by serial key returned %d and %zu elements", rc, v.size());
      for (size_t i = 0; i < v.size(); i++) { S b; v[i].writeObject(b); VCHECK(b == it->second[i], "element %zu differs", i); }
    } else if (o.name == "getb") {
      std::vector<S> v;
      int rc = st->getBinaryData(ser_key(k), v);
      if (it == m.end()) { VCHECK(rc != 0 && v.empty(), "an ensemble that was never stored was found"); return; }
      VCHECK(rc == 0 && v == it->second, "a binary lookup returned %d and %zu elements, or wrong ones", rc, v.size());
    } else if (o.name == "upd") {
      S e = elem(o.at(1), 7);
      bool wrong = o.at(3) && !std::is_same<D, FixData>::value;
      if (wrong) { if (o.at(3) == 1 || e.empty()) e += "x"; else e.pop_back(); }
      long idx = o.at(2) >= 0 && o.at(2) < 60 ? o.at(2) % nbin : o.at(2) < 0 ? o.at(2) : nbin + o.at(2) % 1000 - 60 % 1000;
      if (o.at(2) >= 60) idx = nbin + (o.at(2) - 60);
      bool in = idx >= 0 && idx < nbin;
      if (empty && in && it == m.end()) {
        // the first load: the other members are given their default value
        if (!std::is_same<D, FixData>::value) return;
        int rc = st->update(StringKey(k), D(e), in ? cf[(size_t)idx].config : 0, (int)idx);
        if (ro) { VCHECK(rc != 0, "a read-only ensemble was updated"); return; }
        VCHECK(rc == 0, "the first update returned %d", rc);
        std::vector<S> v((size_t)nbin, DT<D>::ser(S()));
        v[(size_t)idx] = DT<D>::ser(e);
        m[k] = v;
        one(k, &m[k], "after a first update");
        g_feat["first_update"]++;
        return;
      }
      int rc = st->update(StringKey(k), D(e), in ? cf[(size_t)idx].config : 0, (int)idx);
      bool must = !ro && in && !wrong && it != m.end();
      if (must) { VCHECK(rc == 0, "an update of member %ld of %ld returned %d", idx, nbin, rc); it->second[(size_t)idx] = DT<D>::ser(e); g_feat["update"]++; }
      else { VCHECK(rc != 0, "an update that must be refused was accepted"); g_feat["refused"]++; }
      one(k, it == m.end() ? nullptr : &it->second, "after an update");
    } else if (o.name == "pairs") {
      std::vector<StringKey> ks;
      std::vector<std::vector<D>> vs;
      st->keysAndData(ks, vs);
      VCHECK(ks.size() == vs.size() && ks.size() == m.size(), "%zu keys and %zu ensembles listed instead of %zu", ks.size(), vs.size(), m.size());
      std::set<S> seen;
      for (size_t i = 0; i < ks.size(); i++) {
        auto q = m.find((S)ks[i]);
        VCHECK(q != m.end() && seen.insert((S)ks[i]).second, "the list has a wrong key");
        VCHECK((long)vs[i].size() == nbin, "the list has %zu elements for a key", vs[i].size());
        for (size_t j = 0; j < vs[i].size(); j++) { S b; vs[i][j].writeObject(b); VCHECK(b == q->second[j], "the list has a wrong element"); }
      }
    } else if (o.name == "spairs") {
      std::vector<S> ks;
      std::vector<std::vector<D>> vs;
      st->stringKeysAndData(ks, vs);
      VCHECK(ks.size() == vs.size() && ks.size() == m.size(), "%zu keys and %zu ensembles listed instead of %zu", ks.size(), vs.size(), m.size());
      for (size_t i = 0; i < ks.size(); i++) {
        auto q = m.find(ks[i].substr(std::min<size_t>(4, ks[i].size())));
        VCHECK(q != m.end() && (long)vs[i].size() == nbin, "the list has a wrong key");
        for (size_t j = 0; j < vs[i].size(); j++) { S b; vs[i][j].writeObject(b); VCHECK(b == q->second[j], "the list has a wrong element"); }
      }
    } else if (o.name == "iter") {
      std::set<S> seen;
      auto spare = st->end();
      for (auto q = st->begin(); q != st->end(); ++q) {
        StringKey kk = *q;
        VCHECK(seen.insert((S)kk).second && m.count((S)kk), "iterating gives a key twice or a wrong one");
        if (seen.size() % 2) spare = q;
        else spare = st->begin();
        auto third = q;
        VCHECK(third == q && !(third != q), "a copy of an iterator differs from it");
      }
      VCHECK(seen.size() == m.size(), "iterating gives %zu keys instead of %zu", seen.size(), m.size());
    } else if (o.name == "cset") {
      long i = o.at(0) % (nbin + 1);
      Rng r((uint64_t)o.at(1));
      ConfigInfo info;
      info.configNumber(i < nbin && !o.at(2) ? cf[(size_t)i].config : 999999);
      info.index((int)i);
      info.insert((int)r.range(0, 1));
      info.type((int)r.range(-5, 100));
      info.modifiedTime((int)r.below(2000000000));
      info.urlname(payload((long)r.below(1 << 30), r.chance(80) ? r.range(0, 60) : r.range(100, 300), 0));
      int rc = st->setConfigInfo(info);
      if (ro || i >= nbin || o.at(2)) VCHECK(rc != 0, "a configuration that must be refused was accepted");
      else {
        VCHECK(rc == 0, "setting a configuration returned %d", rc);
        auto &x = cf[(size_t)i];
        x.inserted = info.inserted(); x.type = info.type(); x.mtime = info.modifiedTime();
        memset(x.fname, 0, sizeof x.fname);
        strncpy(x.fname, info.urlname().c_str(), sizeof x.fname - 1);
        g_feat["cset"]++;
      }
      cfgs_same("after setting a configuration");
    } else if (o.name == "cget") {
      long i = o.at(0) % (nbin + 1);
      ConfigInfo info;
      int rc = st->getConfigInfo(i < nbin ? (unsigned)cf[(size_t)i].config : 999999u, info);
      if (i >= nbin) VCHECK(rc != 0, "an unknown configuration was found");
      else VCHECK(rc == 0 && info.configNumber() == cf[(size_t)i].config && info.index() == i && info.inserted() == cf[(size_t)i].inserted && info.type() == cf[(size_t)i].type && info.modifiedTime() == cf[(size_t)i].mtime && info.urlname() == cf[(size_t)i].fname, "configuration %ld reads back differently (%d)", i, rc);
    } else if (o.name == "flush") {
      st->flush();
      if (ro) return;
      S copy = g_dir + "/snap.db";
      write_file(copy, read_file(path));
      Run17 r2;
      r2.st.reset(new St());
      r2.path = copy; r2.m = m; r2.cf = cf; r2.nbin = nbin; r2.esz = esz;
      if (!m.empty()) { VCHECK(r2.st->open(copy, O_RDONLY, 0400) == 0, "the file after a flush cannot be opened"); r2.all("the file after a flush"); r2.st->close(); }
      unlink(copy.c_str());
    } else if (o.name == "reopen") {
      if (m.empty() && (o.at(0) & 1)) return;                    // an empty database is set up again on opening
      bool fresh = o.at(1) && !m.empty();
      if (fresh || o.at(2)) VCHECK(st->close() == 0, "closing failed");
      // a new object need not know the configurations of an existing database, and they do not override it
      if (fresh) { if (o.at(2) == 2) { std::vector<int> other{1, 2, 3}; st.reset(new St(other)); } else st.reset(new St()); }
      ro = o.at(0) & 1;
      bool was = m.empty();
      VCHECK(st->open(path, (ro ? O_RDONLY : O_RDWR) | (o.at(0) & 2 ? O_CREAT : 0), 0600) == 0, "reopening failed");
      empty = was;
      if (was) for (auto &x : cf) { (void)x; }
      if (was) { cf_reset(); }
      if (!o.at(3)) all("after reopening");       // else the next operation is the first one
      g_feat["reopen"]++;
    } else if (o.name == "closed") {
      if (m.empty()) return;
      VCHECK(st->close() == 0, "closing failed");
      VCHECK(st->close() == 0, "closing a closed database failed");
      std::vector<D> v;
      std::vector<S> b;
      std::vector<ConfigInfo> ci;
      ConfigInfo info;
      info.configNumber(cf[0].config);
      info.index(0);
      StringKey k0(m.begin()->first);
      S kb = ser_key(m.begin()->first);
      std::vector<S> e = elems(1);
      VCHECK(st->get(k0, v) != 0 && st->getFromStringKey(kb, v) != 0 && st->getBinaryData(kb, b) != 0 && v.empty() && b.empty() && !st->exist(k0), "a closed database found a key");
      VCHECK(st->insert(k0, objs(e)) != 0 && st->insertWithStringKey(kb, objs(e)) != 0 && st->insertBinaryData(kb, sers(e)) != 0 && st->update(k0, D(e[0]), 0, 0) != 0, "a closed database accepted a change");
      VCHECK(st->setConfigInfo(info) != 0 && st->getConfigInfo((unsigned)cf[0].config, info) != 0 && st->getAllConfigInfo(ci) != 0 && ci.empty(), "a closed database took or gave configurations");
      for (auto q = st->begin(); q != st->end(); ++q) VCHECK(false, "a closed database iterates over a key");
      std::vector<StringKey> ks;
      std::vector<std::vector<D>> vs;
      st->keysAndData(ks, vs);
      VCHECK(ks.empty() && vs.empty(), "a closed database listed keys");
      VCHECK(st->open(path, ro ? O_RDONLY : O_RDWR, 0600) == 0, "reopening failed");
      empty = false;
      all("after closing");
      g_feat["closed"]++;
    } else if (o.name == "thr") {
      // a member that cannot be written: nothing is stored
      if constexpr (std::is_same<D, FixData>::value) {
        std::vector<D> v = objs(elems(o.at(2)));
        size_t bad = (size_t)(o.at(2) % nbin);
        v[bad].unwritable = true;
        if (o.at(1) == 2 && empty && it == m.end()) return;
        int rc = o.at(1) == 0 ? st->insert(StringKey(k), v) : o.at(1) == 1 ? st->insertWithStringKey(ser_key(k), v) : st->update(StringKey(k), v[bad], cf[bad].config, (int)bad);
        VCHECK(rc != 0, "data that could not be written were reported as stored");
        one(k, it == m.end() ? nullptr : &it->second, "after data that could not be written");
        g_feat["unwritable"]++;
      }
    } else if (o.name == "other") {
      // a database made for another number of configurations: refused, or made to hold as many
      if (!m.empty() || ro || std::max(1L, o.at(0)) == nbin) return;
      VCHECK(st->close() == 0, "closing failed");
      std::vector<int> num;
      for (long i = 0; i < std::max(1L, o.at(0)); i++) num.push_back((int)i * 3 + 1);
      {
        St q(num);
        int rc = q.open(path, O_RDWR, 0600);
        if (rc == 0) {
          std::vector<ConfigInfo> ci;
          VCHECK(q.getAllConfigInfo(ci) == 0 && ci.size() == num.size(), "an empty database of %ld configurations was opened for %zu, and says it has %zu", nbin, num.size(), ci.size());
          VCHECK(q.close() == 0, "closing failed");
        }
      }
      VCHECK(st->open(path, O_RDWR, 0600) == 0, "reopening failed");
      cf_reset();
      all("after opening with another number of configurations");
      g_feat["other"]++;
    } else if (o.name == "raw") {
      // an entry that is no ensemble of this many members
      if (ro || nbin < 2) return;
      S kb = ser_key("rawkey"), raw = payload(o.at(1), nbin * o.at(0) + 1 + o.at(1) % (nbin - 1), 2);
      VCHECK(st->insertBinary(kb, raw) == 0, "storing bytes failed");
      std::vector<D> v;
      std::vector<S> b;
      VCHECK(st->get(StringKey("rawkey"), v) != 0, "%zu bytes were returned as %zu members of an ensemble of %ld", raw.size(), v.size(), nbin);
      VCHECK(st->getFromStringKey(kb, v) != 0 && st->getBinaryData(kb, b) != 0, "%zu bytes were returned as an ensemble of %ld", raw.size(), nbin);
      VCHECK(v.empty() && b.empty(), "a refused lookup returned members");
      VCHECK(st->update(StringKey("rawkey"), D(elem(1, 1)), cf[0].config, 0) != 0, "%zu bytes were updated as an ensemble of %ld", raw.size(), nbin);
      S back;
      VCHECK(st->getBinary(kb, back) == 0 && back == raw, "bytes stored were changed by refused operations");
      for (auto &kv : m) one(kv.first, &kv.second, "beside an entry that is no ensemble");
      VCHECK(st->close() == 0, "closing failed");
      stop = true;
      g_feat["raw"]++;
    } else if (o.name == "done") { st->updateDone(); empty = false; }
    else if (o.name == "exist") VCHECK(st->exist(StringKey(k)) == (it != m.end()), "existence is reported wrongly");
  }
  std::vector<ffdb_config_info_t> cf0;
  void cf_reset() { cf = cf0; }
  void run(const Case &c) {
    setup(c.ops[0]);
    cf0 = cf;
    for (size_t i = 1; i < c.ops.size() && !stop; i++) op(c.ops[i]);
    g_feat["nbin"] = nbin;
    if (stop) return;
    all("at the end");
    VCHECK(st->close() == 0, "closing failed");
    if (!m.empty()) {
      st.reset(new St());
      VCHECK(st->open(path, O_RDONLY, 0400) == 0, "the closed database cannot be opened");
      all("in a new object");
      st->close();
    }
    g_feat["nbin"] = nbin;
  }
};
static void run17(const Case &c) {
  if (c.ops.empty()) return;
  if (c.ops[0].at(0)) { Run17<FixData> r; r.run(c); } else { Run17<UserData> r; r.run(c); }
}
static Registrar R17({"C17", "an ensemble database of at least 2 configurations with at least 2 ensembles stored, and one update or lookup verified in full",
  gen17, run17, [](const Feat &f) { return F(f, "nbin") >= 2 && F(f, "insert") + F(f, "first_update") >= 2 && F(f, "verify") > 0; },
  60, 100000, 1000000, 30, 400, 0, "exploration", {"all ensembles of a database have elements of one size"}});

// ------------------------------------------------------------ C18 several databases as one
static Case gen18(Rng &r, uint64_t) {
  Case c;
  c.add("c18", {r.range(0, 1), r.range(1, 4), (long)r.below(1 << 30)});
  int n = (int)r.range(2, 40);
  for (int i = 0; i < n; i++) c.add("p", {r.range(0, 3), r.range(0, 12), (long)r.below(1 << 30), r.chance(70) ? r.range(0, 60) : r.range(0, 3000)});
  int q = (int)r.range(2, 20);
  for (int i = 0; i < q; i++) {
    if (r.chance(15)) c.add("reopen", {(long)r.below(1 << 30), r.chance(25)});
    else c.add("q", {r.range(0, 14), r.range(0, 2)});
  }
  return c;
}
static void run18(const Case &c) {
  if (c.ops.empty()) return;
  bool ens = c.ops[0].at(0);
  size_t n = (size_t)std::max(1L, c.ops[0].at(1));
  Rng r((uint64_t)c.ops[0].at(2));
  std::vector<S> files;
  std::vector<std::map<S, std::vector<S>>> m(n);
  std::vector<long> nb(n), es(n);
  std::vector<S> user(n);
  for (size_t i = 0; i < n; i++) {
    files.push_back(g_dir + "/m" + std::to_string(i) + ".db");
    nb[i] = ens ? r.range(1, 6) : 1;
    es[i] = r.range(0, 40);
    user[i] = payload((long)r.below(1 << 20), r.range(0, 50), 0);
    for (auto &o : c.ops) if (o.name == "p" && (size_t)o.at(0) % n == i) {
      std::vector<S> v;
      for (long j = 0; j < nb[i]; j++) v.push_back(ser_data(payload(o.at(2) + j, ens ? es[i] : o.at(3), 2)));
      S k = "k" + std::to_string(o.at(1));
      auto it = m[i].find(k);
      if (it != m[i].end() && it->second[0].size() < v[0].size()) continue;
      m[i][k] = v;
    }
    if (ens) {
      m[i]["only" + std::to_string(i)] = std::vector<S>((size_t)nb[i], ser_data(payload(5, es[i], 0)));
      std::vector<int> cf;
      for (long j = 0; j < nb[i]; j++) cf.push_back((int)(j * 10));
      AllConfStoreDB<StringKey, UserData> d(cf);
      d.setPageSize(1024);
      VCHECK(d.open(files[i], O_RDWR | O_CREAT, 0600) == 0, "creating failed");
      for (auto &kv : m[i]) VCHECK(d.insertBinaryData(ser_key(kv.first), kv.second) == 0, "insert failed");
      d.insertUserdata(user[i]);
      VCHECK(d.close() == 0, "close failed");
    } else {
      ConfDataStoreDB<StringKey, UserData> d;
      d.setPageSize(1024);
      d.setMaxNumberConfigs((unsigned)(3 + i));
      VCHECK(d.open(files[i], O_RDWR | O_CREAT, 0600) == 0, "creating failed");
      for (auto &kv : m[i]) VCHECK(d.insertBinary(ser_key(kv.first), kv.second[0]) == 0, "insert failed");
      d.insertUserdata(user[i]);
      VCHECK(d.close() == 0, "close failed");
    }
  }
  ConfDataStoreMultipleDB<StringKey, UserData> md;
  AllConfStoreMultipleDB<StringKey, UserData> ma;
  std::vector<size_t> ord;
  for (size_t i = 0; i < n; i++) ord.push_back(i);
  auto names = [&] { std::vector<S> f; for (size_t i : ord) f.push_back(files[i]); return f; };
  auto open_all = [&] {
    std::vector<S> f = names();
    VCHECK(ens ? ma.fileExists(f) : md.fileExists(f), "existing files are said not to exist");
    if (r.chance(50)) { unsigned cs = (unsigned)r.range(1, 40000); if (ens) ma.setCacheSize(cs); else if (r.chance(50)) md.setCacheSize(cs); else md.setCacheSizeMB(1 + cs % 3); }
    int rc = ens ? ma.open(f) : md.open(f);
    VCHECK(rc == 0, "opening %zu databases returned %d", f.size(), rc);
    if (ens) VCHECK((long)ma.getMaxNumberConfigs() == nb[ord[0]], "room for %u configurations instead of %ld", ma.getMaxNumberConfigs(), nb[ord[0]]);
    if (ens) VCHECK(ma.size() == nb[ord[0]], "the number of configurations is %d instead of %ld", ma.size(), nb[ord[0]]);
    else VCHECK(md.getMaxNumberConfigs() == 3 + ord[0], "the number of configurations is %u", md.getMaxNumberConfigs());
    S u = "former";
    rc = ens ? ma.getUserdata(u) : md.getUserdata(u);
    VCHECK(rc == 0 && u == user[ord[0]], "user data are not those of the first database");
  };
  { std::vector<S> f = names(); f.insert(f.begin() + (long)r.below(f.size() + 1), g_dir + "/missing"); VCHECK(!(ens ? ma.fileExists(f) : md.fileExists(f)), "a missing file is said to exist"); }
  open_all();
  auto query = [&](const S &k, int how) {
    const std::vector<S> *want = nullptr;
    size_t hits = 0;
    for (size_t i : ord) { auto it = m[i].find(k); if (it != m[i].end()) { if (!want) want = &it->second; hits++; } }
    if (hits > 1) g_feat["multi_hit"]++;
    if (want && want != (m[ord[0]].count(k) ? &m[ord[0]][k] : nullptr)) g_feat["later_hit"]++;
    if (how == 0) VCHECK((ens ? ma.exist(StringKey(k)) : md.exist(StringKey(k))) == (want != nullptr), "existence of a key is reported wrongly");
    else if (ens) {
      std::vector<UserData> v;
      int rc = ma.get(StringKey(k), v);
      if (!want) { VCHECK(rc != 0, "a key of none of the databases was found"); return; }
      VCHECK(rc == 0 && v.size() == want->size(), "a lookup returned %d and %zu elements", rc, v.size());
      for (size_t i = 0; i < v.size(); i++) { S b; v[i].writeObject(b); VCHECK(b == (*want)[i], "element %zu is not that of the first database that has the key", i); }
    } else if (how == 1) {
      UserData d("former");
      int rc = md.get(StringKey(k), d);
      if (!want) { VCHECK(rc != 0, "a key of none of the databases was found"); return; }
      VCHECK(rc == 0 && ser_data((S)d) == (*want)[0], "a lookup (%d) did not return the data of the first database that has the key", rc);
    } else {
      S b = "former";
      int rc = md.getBinary(ser_key(k), b);
      if (!want) { VCHECK(rc != 0, "a key of none of the databases was found"); return; }
      VCHECK(rc == 0 && b == (*want)[0], "a binary lookup (%d) did not return the data of the first database that has the key", rc);
    }
    g_feat["query"]++;
  };
  auto sweep = [&] {
    std::set<S> ks;
    for (auto &x : m) for (auto &kv : x) ks.insert(kv.first);
    for (auto &k : ks) for (int h = 0; h < 3; h++) query(k, h);
    query("never", 0); query("never", 1); query("never", 2);
    if (!ens) {
      std::vector<StringKey> k;
      md.keys(k);
      std::multiset<S> got, want;
      for (auto &x : k) got.insert((S)x);
      for (size_t i : ord) for (auto &kv : m[i]) want.insert(kv.first);
      VCHECK(got == want, "the keys listed (%zu) are not those of all databases (%zu)", got.size(), want.size());
    }
  };
  sweep();
  for (auto &o : c.ops) {
    if (o.name == "q") query("k" + std::to_string(o.at(0)), (int)o.at(1));
    else if (o.name == "reopen") {
      // another order, perhaps fewer of them
      Rng q((uint64_t)o.at(0));
      ord.clear();
      for (size_t i = 0; i < n; i++) ord.push_back(i);
      for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[q.below(i)]);
      ord.resize(1 + q.below(n));
      int rc = ens ? ma.close() : md.close();
      VCHECK(rc == 0, "closing returned %d", rc);
      if (!ens) { UserData d; VCHECK(md.get(StringKey("k1"), d) != 0 && !md.exist(StringKey("k1")), "closed databases found a key"); }
      if (o.at(1)) {
        std::vector<S> f = names();
        f.insert(f.begin() + (long)q.below(f.size() + 1), g_dir + "/missing");
        rc = ens ? ma.open(f) : md.open(f);
        VCHECK(rc != 0, "opening with a missing file succeeded");
      }
      open_all();
      sweep();
      g_feat["reopen"]++;
    }
  }
  int rc = ens ? ma.close() : md.close();
  VCHECK(rc == 0, "closing returned %d", rc);
  g_feat["dbs"] = (long)n;
}
static Registrar R18({"C18", "at least two databases, with a key that several have or that only a later one has, looked up",
  gen18, run18, [](const Feat &f) { return F(f, "dbs") >= 2 && F(f, "multi_hit") + F(f, "later_hit") > 0; },
  60, 100000, 1000000, 20, 300, 0, "exploration", {}});

// ------------------------------------------------------------ C19 merging
static Case gen19(Rng &r, uint64_t) {
  Case c;
  long nc = r.chance(70) ? r.range(1, 6) : r.range(1, 20);
  // configs keys datasize memory ctor seed page
  c.add("c19", {nc, r.chance(70) ? r.range(1, 20) : r.range(1, 150), r.chance(80) ? r.range(0, 60) : r.range(0, 3000), r.chance(50) ? r.range(0, 3000) : r.chance(50) ? r.range(0, 100000) : 100000000L, r.range(0, 1), (long)r.below(1 << 30), 512L << r.range(0, 4)});
  for (long i = 0; i < nc; i++) if (r.chance(25)) c.add("na", {i});
  if (r.chance(30)) c.add("again", {(long)r.below(1 << 30)});
  if (r.chance(20)) c.add("extra", {r.range(0, nc - 1)});
  if (r.chance(40)) c.add("order", {(long)r.below(1 << 30)});
  // 0 a key missing in one database, 1 a database that does not exist, 2 data of another length in one database,
  // 3 longer data in all databases when merged again, 4 into a read-only database, 5 a file that is no database
  if (r.chance(25)) c.add("cannot", {r.range(0, 5), (long)r.below(1 << 20), (long)r.below(1 << 20)});
  return c;
}
static void run19(const Case &c) {
  if (c.ops.empty()) return;
  const Op &o = c.ops[0];
  long nc = std::max(1L, o.at(0)), nk = std::max(1L, o.at(1)), dsz = std::max(0L, o.at(2));
  unsigned mem = (unsigned)std::max(0L, o.at(3));
  std::vector<bool> na((size_t)nc, false);
  bool again = false, extra = false;
  long seed2 = 0, extra_at = -1;
  uint64_t order = 0;
  const Op *cannot = nullptr;
  for (auto &x : c.ops) {
    if (x.name == "na") na[(size_t)(x.at(0) % nc)] = true;
    if (x.name == "again") { again = true; seed2 = x.at(0); }
    if (x.name == "extra") { extra = true; extra_at = x.at(0) % nc; }
    if (x.name == "order") order = 1 + (uint64_t)x.at(0);
    if (x.name == "cannot") cannot = &x;
  }
  bool any = false;
  for (bool b : na) any |= !b;
  if (!any) na[(size_t)(o.at(5) % nc)] = false;
  // the order in which the configurations are given to the merger that takes their records
  std::vector<long> ord((size_t)nc);
  for (long i = 0; i < nc; i++) ord[(size_t)i] = i;
  if (order && o.at(4)) { Rng r(order); for (long i = nc - 1; i > 0; i--) std::swap(ord[(size_t)i], ord[r.below((uint64_t)i + 1)]); g_feat["reordered"]++; }
  long first = 0;
  while (na[(size_t)ord[(size_t)first]]) first++;
  first = ord[(size_t)first];
  if (extra_at == first || (extra_at >= 0 && na[(size_t)extra_at])) extra = false;       // additional keys of a later database are left out of the claim
  auto key = [&](long k) { return "corr." + std::to_string(k * 7919 % 100003); };
  auto datum = [&](long round, long cf, long k) { return ser_data(payload(o.at(5) + round * 1000003 + cf * 1009 + k, dsz, 2)); };
  std::vector<int> num;
  std::vector<S> url;
  for (long i = 0; i < nc; i++) { num.push_back((int)(100 + i * 10)); url.push_back(na[(size_t)i] ? "N/A" : g_dir + "/conf" + std::to_string(i) + ".db"); }
  auto write_confs = [&](long round) {
    for (long i = 0; i < nc; i++) {
      if (na[(size_t)i]) continue;
      ConfDataStoreDB<StringKey, UserData> d;
      d.setPageSize(1024);
      VCHECK(d.open(url[(size_t)i], O_RDWR | O_CREAT, 0600) == 0, "creating failed");
      // each database in its own order of insertion
      for (long q = 0; q < nk; q++) { long k = (q * (i % 2 ? 1 : nk - 1) + i) % nk; VCHECK(d.insertBinary(ser_key(key(k)), datum(round, i, k)) == 0, "insert failed"); }
      if (extra && i == extra_at) for (long k = 0; k < 3; k++) d.insertBinary(ser_key("extra" + std::to_string(k)), datum(round, i, k));
      VCHECK(d.close() == 0, "close failed");
    }
  };
  S path = g_dir + "/all.db";
  std::unique_ptr<AllConfStoreDB<StringKey, UserData>> all(new AllConfStoreDB<StringKey, UserData>(num, url));
  all->setPageSize((unsigned)std::max(512L, o.at(6)));
  VCHECK(all->open(path, O_RDWR | O_CREAT, 0600) == 0, "creating the ensemble database failed");
  for (long round = 0; round <= (again ? 1 : 0); round++) {
    write_confs(round + (round ? seed2 : 0));
    long rd = round + (round ? seed2 : 0);
    time_t t0 = time(nullptr);
    if (o.at(4)) {
      std::vector<ConfigInfo> infos;
      for (long i : ord) { ConfigInfo x; x.configNumber(num[(size_t)i]); x.index((int)i); x.type((int)i % 3); x.insert(0); x.modifiedTime(0); x.urlname(na[(size_t)i] ? S() : url[(size_t)i]); infos.push_back(x); }
      ConfDataDBMerger<StringKey, UserData> mg(infos, mem);
      mg.setDatabaseHandle(all.get());
      mg.merge();
    } else {
      ConfDataDBMerger<StringKey, UserData> mg(num, url, mem);
      mg.setDatabaseHandle(all.get());
      mg.merge();
    }
    time_t t1 = time(nullptr);
    if (round == 0 || o.at(5) % 2) {
      VCHECK(all->close() == 0, "closing failed");
      all.reset(new AllConfStoreDB<StringKey, UserData>());
      VCHECK(all->open(path, O_RDWR, 0600) == 0, "the merged database cannot be opened");
    }
    VCHECK(all->size() == nc, "the merged database has %d configurations instead of %ld", all->size(), nc);
    std::vector<StringKey> ks;
    all->keys(ks);
    VCHECK((long)ks.size() == nk, "the merged database has %zu keys instead of %ld", ks.size(), nk);
    for (long k = 0; k < nk; k++) {
      std::vector<S> v;
      int rc = all->getBinaryData(ser_key(key(k)), v);
      VCHECK(rc == 0 && (long)v.size() == nc, "key %ld of the merged database: %d, %zu elements instead of %ld", k, rc, v.size(), nc);
      for (long i = 0; i < nc; i++) if (!na[(size_t)i]) VCHECK(v[(size_t)i] == datum(rd, i, k), "key %ld, configuration %ld: not the data of its own database", k, i);
    }
    std::vector<ConfigInfo> inf;
    VCHECK(all->getAllConfigInfo(inf) == 0 && (long)inf.size() == nc, "configurations cannot be read");
    for (long i = 0; i < nc; i++) {
      auto &x = inf[(size_t)i];
      VCHECK(x.configNumber() == num[(size_t)i] && x.index() == i, "configuration %ld is recorded with number %d, index %d", i, x.configNumber(), x.index());
      if (na[(size_t)i]) VCHECK(x.inserted() == 0 && x.urlname().empty(), "configuration %ld without a database is recorded as inserted", i);
      else {
        VCHECK(x.inserted() == 1, "configuration %ld is not recorded as inserted", i);
        VCHECK(x.urlname() == url[(size_t)i], "configuration %ld is recorded with the database '%s'", i, x.urlname().c_str());
        VCHECK(x.modifiedTime() >= (int)t0 - 2 && x.modifiedTime() <= (int)t1 + 2, "configuration %ld is recorded with a wrong time", i);
      }
    }
    g_feat["merges"]++;
  }
  VCHECK(all->close() == 0, "closing failed");
  if (cannot) {
    // a merge that cannot be complete does not end as if it were
    long kind = ((cannot->at(0) % 6) + 6) % 6, at = -1, left = 0;
    for (long i = 0; i < nc; i++) if (!na[(size_t)i]) left++;
    long pick = left ? cannot->at(1) % left : 0;
    for (long i = 0; i < nc; i++) if (!na[(size_t)i] && pick-- == 0) at = i;
    const char *what = "";
    if ((kind == 0 || kind == 2) && (at == first || nc < 2)) kind = 1;
    S u = url[(size_t)at];
    if (kind == 0 || kind == 2) {
      unlink(u.c_str());
      ConfDataStoreDB<StringKey, UserData> d;
      VCHECK(d.open(u, O_RDWR | O_CREAT, 0600) == 0, "creating failed");
      long odd = cannot->at(2) % nk;
      for (long k = 0; k < nk; k++) {
        if (k == odd && kind == 0) continue;
        VCHECK(d.insertBinary(ser_key(key(k)), ser_data(payload(k, dsz + (k == odd), 2))) == 0, "insert failed");
      }
      VCHECK(d.close() == 0, "close failed");
      what = kind == 0 ? "a key one configuration does not have" : "data of another length in one configuration";
    } else if (kind == 1) { unlink(u.c_str()); what = "a database that does not exist"; }
    else if (kind == 3) {
      for (long i = 0; i < nc; i++) {
        if (na[(size_t)i]) continue;
        unlink(url[(size_t)i].c_str());
        ConfDataStoreDB<StringKey, UserData> d;
        VCHECK(d.open(url[(size_t)i], O_RDWR | O_CREAT, 0600) == 0, "creating failed");
        for (long k = 0; k < nk; k++) VCHECK(d.insertBinary(ser_key(key(k)), ser_data(payload(k + i, dsz + 1 + cannot->at(2) % 50, 2))) == 0, "insert failed");
        VCHECK(d.close() == 0, "close failed");
      }
      what = "data longer than what they replace";
    } else if (kind == 4) what = "a merged database opened read-only";
    else { write_file(u, fill_bytes((uint64_t)cannot->at(2), 3000)); what = "a file that is no database"; }
    bool recs = o.at(4);
    SubResult sr = run_sub([&](const std::function<void(const Bytes &)> &send) {
      AllConfStoreDB<StringKey, UserData> x;
      if (x.open(path, kind == 4 ? O_RDONLY : O_RDWR, 0600) != 0) { send("no open"); return; }
      try {
        if (recs) {
          std::vector<ConfigInfo> infos;
          for (long i : ord) { ConfigInfo y; y.configNumber(num[(size_t)i]); y.index((int)i); y.type(0); y.insert(0); y.modifiedTime(0); y.urlname(na[(size_t)i] ? S() : url[(size_t)i]); infos.push_back(y); }
          ConfDataDBMerger<StringKey, UserData> mg(infos, mem);
          mg.setDatabaseHandle(&x);
          mg.merge();
        } else {
          ConfDataDBMerger<StringKey, UserData> mg(num, url, mem);
          mg.setDatabaseHandle(&x);
          mg.merge();
        }
      } catch (std::exception &) { send("threw"); return; }
      send("merged");
    }, 40);
    VCHECK(!sr.timed_out, "a merge with %s does not end", what);
    VCHECK(sr.out != "no open", "the merged database cannot be opened");
    VCHECK(sr.out != "merged", "a merge with %s ended as if it were complete", what);
    VCHECK(!WIFSIGNALED(sr.status), "a merge with %s crashed: %s", what, status_text(sr.status).c_str());
    VCHECK(WIFSIGNALED(sr.status) || WEXITSTATUS(sr.status) != 0 || sr.out == "threw", "a merge with %s did not report it", what);
    g_feat[std::string("cannot_") + std::to_string(kind)]++;
  }
  g_feat["nc"] = nc;
  g_feat["nk"] = nk;
  if ((long)mem < nk * nc * (dsz + 20)) g_feat["chunks"]++;
}
static Registrar R19({"C19", "at least two configurations with at least two keys merged and compared element by element",
  gen19, run19, [](const Feat &f) { return F(f, "nc") >= 2 && F(f, "nk") >= 2 && F(f, "merges") > 0; },
  60, 100000, 1000000, 25, 300, 0, "exploration", {"all data are of one size; keys the first configuration does not have are not judged", "the clock of the machine does not jump by more than 2 s during a case", "what stands in the place of a configuration without a database is not judged"}});
