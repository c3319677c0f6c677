// The published helper functions: checksums, hash functions, comparison, byte order.
#include "core.h"
#include <algorithm>
#include <cstddef>
#include <unistd.h>
#include <sys/stat.h>
#include "FileDB.h"
#include "HashFunc.h"
#include "DBFunc.h"
extern "C" {
#include "ffdb_hash_func.h"
}

// cfg; "buf kind seed len off split" ; "num a" ; "pair seed la lb same" ; "name seed n"
static Case gen20(Rng &r, uint64_t) {
  Case c;
  c.add("cfg", {0});
  int n = (int)r.range(3, 14);
  for (int i = 0; i < n; i++) switch (r.below(4)) {
    case 0: {
      long len = r.chance(60) ? r.range(0, 40) : r.chance(80) ? r.range(0, 4000) : r.range(0, 200000);
      c.add("buf", {r.range(0, 4), (long)r.below(1 << 30), len, r.range(0, 8), r.range(0, 1000)});
      break;
    }
    case 1: {
      uint64_t v = r.next() >> r.below(64);
      if (r.chance(20)) v = ~0ull << r.below(64);
      if (r.chance(20)) v = (1ull << r.below(64)) + (uint64_t)r.range(-2, 2);
      c.add("num", {(long)v});
      break;
    }
    case 2: {
      long la = r.chance(80) ? r.range(0, 12) : r.range(0, 3000);
      c.add("pair", {(long)r.below(1 << 30), la, r.chance(50) ? la : r.range(0, la + 5), r.range(0, la), r.range(0, 255), r.range(0, 255)});
      break;
    }
    default: c.add("name", {(long)r.below(1 << 30), r.range(0, 20)});
  }
  return c;
}
static Bytes gen_buf(long kind, long seed, long len) {
  Bytes b = fill_bytes((uint64_t)seed, (size_t)len);
  for (size_t i = 0; i < b.size(); i++) {
    if (kind == 1) b[i] = (char)('a' + (unsigned char)b[i] % 26);
    if (kind == 2) b[i] = (char)((unsigned char)b[i] | 0x80);
    if (kind == 3) b[i] = (char)(seed & 1 ? 0 : 0xff);
    if (kind == 4) b[i] = (unsigned char)b[i] < 128 ? 0 : b[i];
  }
  return b;
}
static uint32_t ref_crc(uint32_t c, const Bytes &b) {       // bit by bit
  c = ~c;
  for (unsigned char x : b) {
    c ^= x;
    for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1;
  }
  return ~c;
}
// the published algorithms; bytes are taken as signed char, as on this platform
typedef uint32_t (*RefHash)(const Bytes &);
#define S(i) ((uint32_t)(int32_t)(signed char)b[i])
static uint32_t r_rs(const Bytes &b) { uint64_t a = 63689, h = 0; for (size_t i = 0; i < b.size(); i++) { h = (h * a + S(i)) & 0xffffffff; a = (a * 378551) & 0xffffffff; } return (uint32_t)h; }
static uint32_t r_js(const Bytes &b) { uint32_t h = 1315423911u; for (size_t i = 0; i < b.size(); i++) h ^= h * 32 + S(i) + h / 4; return h; }
static uint32_t r_pjw(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) { h = h * 16 + S(i); uint32_t t = h & 0xf0000000u; if (t) h = (h ^ (t >> 24)) & 0x0fffffffu; } return h; }
static uint32_t r_bkdr(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = h * 131 + S(i); return h; }
static uint32_t r_sdbm(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = S(i) + 65599u * h; return h; }
static uint32_t r_djb(const Bytes &b) { uint32_t h = 5381; for (size_t i = 0; i < b.size(); i++) h = h * 33 + S(i); return h; }
static uint32_t r_dek(const Bytes &b) { uint32_t h = (uint32_t)b.size(); for (size_t i = 0; i < b.size(); i++) h = ((h << 5) | (h >> 27)) ^ S(i); return h; }
static uint32_t r_bp(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = (h * 128) ^ S(i); return h; }
static uint32_t r_fnv(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = (h * 0x811C9DC5u) ^ S(i); return h; }
static uint32_t r_ap(const Bytes &b) {
  uint32_t h = 0xAAAAAAAAu;
  for (size_t i = 0; i < b.size(); i++) { if (i % 2 == 0) h ^= (h << 7) ^ S(i) ^ (h >> 3); else h ^= ~((h << 11) ^ S(i) ^ (h >> 5)); }
  return h;
}
static uint32_t r_db(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = (h * 16777619u) ^ S(i); return h; }
#define U(i) ((uint32_t)(unsigned char)b[i])
static uint32_t r_h2(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = 0x63c63cd9u * h + 0x9c39c33du + U(i); return h; }
static uint32_t r_h3(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = U(i) + 65599u * h; return h; }
static uint32_t r_h4(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = h * 33 + U(i); return h; }
static uint32_t r_h5(const Bytes &b) { uint32_t h = 0; for (size_t i = 0; i < b.size(); i++) h = (h * 16777619u) ^ U(i); return h; }

static void run20(const Case &c) {
  using namespace FILEDB;
  crc32_init();
  __ffdb_crc32_init();
  struct { const char *name; hash_func f; RefHash ref; } H[] = {
    {"RSHash", RSHash, r_rs}, {"JSHash", JSHash, r_js}, {"PJWHash", PJWHash, r_pjw}, {"ELFHash", ELFHash, r_pjw},
    {"BKDRHash", BKDRHash, r_bkdr}, {"SDBMHash", SDBMHash, r_sdbm}, {"DJBHash", DJBHash, r_djb}, {"DEKHash", DEKHash, r_dek},
    {"BPHash", BPHash, r_bp}, {"FNVHash", FNVHash, r_fnv}, {"APHash", APHash, r_ap}, {"db_hash_func", db_hash_func, r_db}};
  struct { const char *name; unsigned (*f)(const void *, unsigned); RefHash ref; } G[] = {
    {"hash function 2", __ham_func2, r_h2}, {"hash function 3", __ham_func3, r_h3}, {"hash function 4", __ham_func4, r_h4},
    {"hash function 5", __ham_func5, r_h5}, {"the default hash function", __ffdb_default_hash, r_h5}};
  for (const Op &o : c.ops) {
    if (o.name == "buf") {
      long len = std::max(0l, o.at(2)), off = std::max(0l, o.at(3)) % 16;
      Bytes b = gen_buf(o.at(0), o.at(1), len);
      // at any alignment, with other bytes on both sides; the end is the end of the allocation
      char *mem = (char *)malloc((size_t)(off + len) + (len + off == 0));
      memset(mem, 0x5a, (size_t)off);
      if (len) memcpy(mem + off, b.data(), (size_t)len);
      char *p = mem + off;
      uint32_t want = ref_crc(0, b), got = FILEDB::crc32(0, p, (unsigned)len), g2 = __ffdb_crc32_checksum(0, (unsigned char *)p, len);
      VCHECK(got == want, "the checksum of %ld bytes (class library) is %08x, CRC-32 is %08x", len, got, want);
      VCHECK(g2 == want, "the checksum of %ld bytes is %08x, CRC-32 is %08x", len, g2, want);
      long cut = len ? std::max(0l, o.at(4)) % (len + 1) : 0;
      VCHECK(FILEDB::crc32(FILEDB::crc32(0, p, (unsigned)cut), p + cut, (unsigned)(len - cut)) == want, "the checksum in two parts (%ld of %ld) differs (class library)", cut, len);
      VCHECK(__ffdb_crc32_checksum(__ffdb_crc32_checksum(0, (unsigned char *)p, cut), (unsigned char *)p + cut, len - cut) == want, "the checksum in two parts (%ld of %ld) differs", cut, len);
      for (auto &h : H) VCHECK(h.f(p, (unsigned)len) == h.ref(b), "%s of %ld bytes is %08x, by its definition %08x", h.name, len, h.f(p, (unsigned)len), h.ref(b));
      for (auto &h : G) VCHECK(h.f(p, (unsigned)len) == h.ref(b), "%s of %ld bytes is %08x, by its definition %08x", h.name, len, h.f(p, (unsigned)len), h.ref(b));
      VCHECK(len == 0 || !memcmp(p, b.data(), (size_t)len), "a hash or checksum function changed its input");
      for (long i = 0; i < off; i++) VCHECK(mem[i] == 0x5a, "a hash or checksum function wrote in front of its input");
      free(mem);
      g_feat["buf"]++;
      if (len > 8) g_feat["long"]++;
      for (unsigned char x : b) if (x >= 128) { g_feat["high"]++; break; }
    } else if (o.name == "num") {
      uint64_t v = (uint64_t)o.at(0);
      auto rev = [](uint64_t x, int n) { uint64_t y = 0; for (int i = 0; i < n; i++) { y = y << 8 | (x & 0xff); x >>= 8; } return y; };
      unsigned short s = (unsigned short)v;
      unsigned i = (unsigned)v;
      unsigned long l = (unsigned long)v;
      VCHECK(hton_short(s) == rev(s, 2) && ntoh_short(s) == rev(s, 2), "16-bit byte order conversion of %#x is wrong", s);
      VCHECK(hton_int(i) == rev(i, 4) && ntoh_int(i) == rev(i, 4), "32-bit byte order conversion of %#x is wrong", i);
      VCHECK(hton_long(l) == rev(l, 8) && ntoh_long(l) == rev(l, 8), "64-bit byte order conversion of %#lx is wrong", l);
      char t[40];
      snprintf(t, sizeof t, "%d", (int)v);
      VCHECK(itostr((int)v) == t, "the text of %s is \"%s\"", t, itostr((int)v).c_str());
      if (i <= 0x80000000u) {
        unsigned want = 0;
        while (want < 32 && (1ull << want) < i) want++;
        VCHECK(__ffdb_log2(i) == want, "the binary logarithm, rounded up, of %u is %u, not %u", i, want, __ffdb_log2(i));
      }
      g_feat["num"]++;
    } else if (o.name == "pair") {
      long la = std::max(0l, o.at(1)), lb = std::max(0l, o.at(2));
      Bytes a = fill_bytes((uint64_t)o.at(0), (size_t)la), b = a;
      b.resize((size_t)lb, (char)o.at(5));
      long at = o.at(3);
      if (at >= 0 && (size_t)at < b.size()) b[(size_t)at] = (char)o.at(4);
      FFDB_DBT x, y;
      // exact allocations: a read beyond the end is seen by the sanitizer
      char *pa = (char *)malloc(a.size() ? a.size() : 1), *pb = (char *)malloc(b.size() ? b.size() : 1);
      memcpy(pa, a.data(), a.size()); memcpy(pb, b.data(), b.size());
      x.data = pa; x.size = la; y.data = pb; y.size = lb;
      size_t m = std::min(a.size(), b.size());
      int w = m ? memcmp(a.data(), b.data(), m) : 0;
      if (!w) w = a.size() < b.size() ? -1 : a.size() > b.size();
      auto sg = [](int q) { return q < 0 ? -1 : q > 0; };
      int g = __ham_defcmp(&x, &y), h = __ham_defcmp(&y, &x), d = __ffdb_default_cmp(&x, &y);
      VCHECK(sg(g) == sg(w) && sg(h) == -sg(w) && sg(d) == sg(w), "the comparison of %s and %s gives %d and %d", hexs(a).c_str(), hexs(b).c_str(), g, h);
      free(pa); free(pb);
      g_feat[w ? "differ" : "equal"]++;
    } else if (o.name == "name") {
      Rng r((uint64_t)o.at(0));
      Bytes n, dir;
      for (long i = 0; i < o.at(1); i++) n += r.pick({'/', 'a', '.', 'b', ' ', '-'});
      bool any = false;
      for (size_t i = n.size(); i-- > 0;) if (n[i] == '/') { any = true; dir = n.substr(0, i); break; }
      VCHECK(unixDirectoryName(n) == (any ? dir : ""), "the directory of \"%s\" is given as \"%s\"", n.c_str(), unixDirectoryName(n).c_str());
      // files: present, a directory, absent
      Bytes f = g_dir + "/x" + std::to_string(r.below(1000));
      VCHECK(!fileExists(f), "a file that is not there is said to exist");
      if (r.chance(30)) mkdir(f.c_str(), 0700); else write_file(f, r.chance(50) ? Bytes() : Bytes("abc"));
      if (r.chance(20)) chmod(f.c_str(), 0);
      VCHECK(fileExists(f), "a file that is there is said not to exist");
      ::remove(f.c_str());
      VCHECK(!fileExists(f), "a removed file is said to exist");
      g_feat["name"]++;
    }
  }
}
static bool nt20(const Feat &f) { return (f.count("buf") && f.count("long") && f.count("high")) || (f.count("differ") && f.count("num")); }
static Registrar R20({"C20", "buffers longer than one unrolled step with bytes above 127, or a comparison of different keys and a number", gen20, run20, nt20, 20, 400000, 4000000, 15, 120, 0, "exploration",
  {"bytes are taken as signed char by the class library's hash functions, as on this platform", "rounded-up binary logarithms up to 2^31", "the platform is little-endian"}});
