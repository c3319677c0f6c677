#include "fmt.h"
#include <cstdarg>

uint32_t ref_crc32(uint32_t crc, const void *p, size_t n) {
  static uint32_t T[256];
  static bool init = false;
  if (!init) {
    for (uint32_t i = 0; i < 256; i++) {
      uint32_t c = i;
      for (int k = 0; k < 8; k++) c = (c & 1) ? 0xedb88320u ^ (c >> 1) : c >> 1;
      T[i] = c;
    }
    init = true;
  }
  const unsigned char *q = (const unsigned char *)p;
  crc = ~crc;
  while (n--) crc = T[(crc ^ *q++) & 0xff] ^ (crc >> 8);
  return ~crc;
}
static uint32_t be32(const Bytes &f, size_t o) {
  const unsigned char *p = (const unsigned char *)f.data() + o;
  return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
}
static uint32_t le32(const Bytes &f, size_t o) {
  const unsigned char *p = (const unsigned char *)f.data() + o;
  return (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
}
uint32_t fmt_get32be(const Bytes &f, size_t o) { return be32(f, o); }
void fmt_put32be(Bytes &f, size_t o, uint32_t v) {
  f[o] = (char)(v >> 24); f[o + 1] = (char)(v >> 16); f[o + 2] = (char)(v >> 8); f[o + 3] = (char)v;
}
static void put32(Bytes &f, size_t o, uint32_t v, bool big) {
  if (big) { fmt_put32be(f, o, v); return; }
  f[o] = (char)v; f[o + 1] = (char)(v >> 8); f[o + 2] = (char)(v >> 16); f[o + 3] = (char)(v >> 24);
}
void fmt_fix_header(Bytes &f) { fmt_put32be(f, HO_CHK, ref_crc32(0, f.data(), HO_CHK)); }

static bool bad(std::string &err, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static bool bad(std::string &err, const char *fmt, ...) {
  char b[400];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  err = b;
  return false;
}

bool fmt_header(const Bytes &f, FmtHdr &h, std::string &err) {
  if (f.size() < FMT_HDR) return bad(err, "file of %zu bytes has no header", f.size());
  size_t o = 0;
  auto n32 = [&]() { uint32_t v = be32(f, o); o += 4; return v; };
  auto n16 = [&]() { uint16_t v = (uint16_t)((unsigned char)f[o] << 8 | (unsigned char)f[o + 1]); o += 2; return v; };
  h.magic = n32(); h.version = n32(); h.lorder = n32(); h.bsize = n32(); h.bshift = n32(); h.ovfl_point = n32();
  h.max_bucket = n32(); h.high_mask = n32(); h.low_mask = n32(); h.ffactor = n32(); h.nkeys = n32(); h.hdrpages = n32();
  h.uinfolen = n32();
  h.uinfo_page = n16(); h.uinfo_npages = n16(); h.cfig_page = n16(); h.cfig_npages = n16();
  h.num_cfigs = n32(); h.h_charkey = n32(); h.num_moved = n32();
  for (auto &x : h.spares) x = n32();
  for (auto &x : h.freep) x = n32();
  h.chksum = n32();
  if (o != FMT_HDR) return bad(err, "internal");
  uint32_t c = ref_crc32(0, f.data(), HO_CHK);
  if (c != h.chksum) return bad(err, "header checksum %08x stored %08x", c, h.chksum);
  if (h.magic != 0xcece3434u) return bad(err, "magic %08x", h.magic);
  return true;
}

static unsigned lg2(unsigned n) { unsigned i = 0, l = 1; while (l < n) { l <<= 1; i++; } return i; }

namespace {
enum { T_BUCKET = 0x1001, T_DATA = 0x2001, T_UINFO = 0x4001, T_CONFIG = 0x5001, T_FREE = 0x6001, T_DELETED = 0x8001 };
const uint32_t SIGN = 0xe0f1a2b9u, NOPAGE = 0xffffffffu;
struct View {
  const Bytes &f;
  FmtHdr &h;
  bool big;
  View(const Bytes &ff, FmtHdr &hh) : f(ff), h(hh), big(hh.lorder == 4321) {}
  uint32_t u32(size_t o) const { return big ? be32(f, o) : le32(f, o); }
  uint16_t u16(size_t o) const {
    unsigned char a = (unsigned char)f[o], b = (unsigned char)f[o + 1];
    return big ? (uint16_t)(a << 8 | b) : (uint16_t)(b << 8 | a);
  }
  size_t off(uint32_t pg) const { return (size_t)pg * h.bsize; }
  uint32_t npages() const { return (uint32_t)(f.size() / h.bsize); }
  uint32_t bucket_page(uint32_t b) const {
    unsigned l = lg2(b + 1);
    return b > 0 ? b - (1u << (l - 1)) + h.spares[l] : h.spares[l];
  }
  bool zero(uint32_t pg) const {
    if (pg >= npages()) return true;
    for (size_t i = off(pg); i < off(pg) + h.bsize; i++) if (f[i]) return false;
    return true;
  }
  uint32_t crc(uint32_t pg) const {
    uint32_t c = ref_crc32(0, f.data() + off(pg), 20);
    return ref_crc32(c, f.data() + off(pg) + 24, h.bsize - 24);
  }
  bool page(uint32_t pg, unsigned type, std::string &err) const {
    if (pg >= npages()) return bad(err, "page %u (type %04x) lies beyond the file (%u pages)", pg, type, npages());
    size_t o = off(pg);
    if (u32(o + 12) != SIGN) return bad(err, "page %u has signature %08x", pg, u32(o + 12));
    if (u32(o) != pg) return bad(err, "page %u says it is page %u", pg, u32(o));
    if (u16(o + 18) != type) return bad(err, "page %u has type %04x, expected %04x", pg, u16(o + 18), type);
    uint32_t c = crc(pg);
    if (c != u32(o + 20)) return bad(err, "page %u checksum %08x stored %08x", pg, c, u32(o + 20));
    return true;
  }
};
}

bool fmt_parse(const Bytes &f, FmtDb &db, std::string &err, unsigned (*hash)(const void *, unsigned)) {
  FmtHdr &h = db.h;
  if (!fmt_header(f, h, err)) return false;
  if (h.version != 6 && h.version != 5) return bad(err, "version %u", h.version);
  if (h.lorder != 1234 && h.lorder != 4321) return bad(err, "byte order %u", h.lorder);
  if (h.bsize < 512 || h.bsize > (1u << 20) || (h.bsize & (h.bsize - 1)) || (1u << h.bshift) != h.bsize)
    return bad(err, "page size %u shift %u", h.bsize, h.bshift);
  if (f.size() % h.bsize) return bad(err, "file size %zu is no multiple of the page size %u", f.size(), h.bsize);
  if (h.high_mask < h.max_bucket || ((h.high_mask + 1) & h.high_mask)) return bad(err, "masks high %x max bucket %x", h.high_mask, h.max_bucket);
  if (h.max_bucket > h.low_mask ? h.high_mask != 2 * h.low_mask + 1 && h.high_mask != 0 : h.high_mask != 0)
    return bad(err, "masks low %x high %x max bucket %x", h.low_mask, h.high_mask, h.max_bucket);
  if (h.uinfo_page != 1 || h.cfig_page != h.uinfo_page + h.uinfo_npages || h.hdrpages != (unsigned)h.cfig_page + h.cfig_npages ||
      h.spares[0] != h.hdrpages)
    return bad(err, "metadata pages: uinfo %u+%u config %u+%u of %u", h.uinfo_page, h.uinfo_npages, h.cfig_page, h.cfig_npages, h.hdrpages);
  View v(f, h);
  // user information
  {
    Bytes u;
    uint32_t len = 0;
    for (unsigned i = 0; i < h.uinfo_npages; i++) {
      uint32_t pg = h.uinfo_page + i;
      if (!v.page(pg, T_UINFO, err)) return false;
      size_t o = v.off(pg);
      if (i == 0) {
        db.uinfo_set = v.u16(o + 16) == 1;
        len = v.u32(o + 28);
        if (len > h.uinfolen) return bad(err, "user info length %u of %u", len, h.uinfolen);
        u.append(f, o + 32, h.bsize - 32);
      } else
        u.append(f, o + 28, h.bsize - 28);
    }
    if (u.size() < len) return bad(err, "user info does not fit its pages");
    db.uinfo = u.substr(0, len);
  }
  for (unsigned i = 0; i < h.cfig_npages; i++) {
    uint32_t pg = h.cfig_page + i;
    if (!v.page(pg, T_CONFIG, err)) return false;
    size_t o = v.off(pg);
    for (unsigned k = 0; k < v.u16(o + 16); k++) {
      size_t c = o + 28 + 148 * k;
      if (c + 148 > o + h.bsize) return bad(err, "configuration beyond page");
      FmtConfig fc;
      fc.config = (int)v.u32(c); fc.index = (int)v.u32(c + 4); fc.inserted = (int)v.u32(c + 8); fc.type = (int)v.u32(c + 12);
      fc.mtime = (int)v.u32(c + 16);
      memcpy(fc.fname, f.data() + c + 20, 128);
      db.configs.push_back(fc);
    }
  }
  uint32_t valid = h.version == 5 ? 0xffeeffeeu : 0xffeeu;
  std::set<Bytes> seen;
  std::set<uint32_t> pages_seen;
  std::set<uint32_t> dpages;
  for (uint32_t b = 0; b <= h.max_bucket; b++) {
    uint32_t pg = v.bucket_page(b), prev = NOPAGE;
    if (v.zero(pg)) continue; // a bucket that never held anything
    bool first = true;
    while (pg != NOPAGE) {
      if (!pages_seen.insert(pg).second) return bad(err, "page %u belongs to two buckets or a cycle (bucket %u)", pg, b);
      if (first && pg < v.npages() && v.u32(v.off(pg) + 12) == SIGN && v.u16(v.off(pg) + 18) == T_DELETED) break;
      if (!v.page(pg, T_BUCKET, err)) { err += " (bucket " + std::to_string(b) + ")"; return false; }
      size_t o = v.off(pg);
      if (v.u32(o + 4) != prev) return bad(err, "page %u has previous page %u, expected %u", pg, v.u32(o + 4), prev);
      unsigned n = v.u16(o + 16);
      if (first && n == 0 && v.u32(o + 8) != NOPAGE) return bad(err, "bucket %u is empty but has overflow pages", b);
      (first ? db.n_bucket_pages : db.n_ovfl_pages)++;
      uint32_t low = v.u32(o + 24) + 1;
      if (low > h.bsize || low < 28 + 12 * n) return bad(err, "page %u free offset %u with %u entries", pg, low - 1, n);
      for (unsigned i = 0; i < n; i++) {
        uint32_t ko = v.u32(o + 28 + 12 * i), kl = v.u32(o + 32 + 12 * i), dof = v.u32(o + 36 + 12 * i);
        if (ko < low || ko > h.bsize || kl > h.bsize - ko || dof < low || dof % 4 || dof + 16 > ko)
          return bad(err, "page %u entry %u key %u+%u datap %u low %u", pg, i, ko, kl, dof, low);
        Bytes key = f.substr(o + ko, kl);
        uint32_t dfirst = v.u32(o + dof), doff = v.u32(o + dof + 4), dlen = v.u32(o + dof + 8), dsum = v.u32(o + dof + 12);
        uint64_t len = dlen;
        if (h.version > 5) { len |= (uint64_t)(doff >> 20 & 0xff) << 32; doff &= 0xfffff; }
        if (!v.page(dfirst, T_DATA, err)) { err += " (data of entry " + std::to_string(i) + " of page " + std::to_string(pg) + ")"; return false; }
        dpages.insert(dfirst);
        size_t d = v.off(dfirst);
        if (doff < 32 || doff % 4 || doff + 20 > h.bsize) return bad(err, "data offset %u on page %u", doff, dfirst);
        uint32_t hl = v.u32(d + doff), hs = v.u32(d + doff + 4);
        uint64_t hlen = hl;
        if (h.version > 5) { hlen |= (uint64_t)(hs >> 20 & 0xff) << 32; hs &= 0xfffff; }
        if (hlen != len || hs != valid) return bad(err, "data header on page %u offset %u: len %llu status %x, pointer len %llu", dfirst, doff, (unsigned long long)hlen, hs, (unsigned long long)len);
        if (v.u32(d + doff + 12) != pg || v.u32(d + doff + 16) != i)
          return bad(err, "data on page %u offset %u belongs to page %u entry %u, not page %u entry %u", dfirst, doff, v.u32(d + doff + 12), v.u32(d + doff + 16), pg, i);
        // the header must be on the page's own list of data items
        {
          uint32_t p = v.u32(d + 28), cnt = v.u16(d + 16);
          bool on = false;
          for (uint32_t k = 0; k < cnt && p >= 32 && p + 20 <= h.bsize; k++) { if (p == doff) { on = true; break; } p = v.u32(d + p + 8); }
          if (!on) return bad(err, "data on page %u offset %u is not on the page's item list", dfirst, doff);
        }
        Bytes val;
        uint64_t left = len;
        size_t at = doff + 20;
        uint32_t dp = dfirst;
        size_t guard = 0;
        while (left) {
          uint64_t take = std::min<uint64_t>(left, h.bsize - at);
          val.append(f, v.off(dp) + at, take);
          left -= take;
          if (left) {
            if (guard++ == 0) db.n_multi++;
            uint32_t before = dp;
            dp = v.u32(v.off(dp) + 8);
            if (!v.page(dp, T_DATA, err)) { err += " (continuation)"; return false; }
            if (v.u32(v.off(dp) + 4) != before) return bad(err, "data page %u follows page %u but has previous page %u", dp, before, v.u32(v.off(dp) + 4));
            dpages.insert(dp);
            at = 32;
          }
        }
        if (ref_crc32(0, val.data(), val.size()) != dsum) return bad(err, "data checksum of key %s", hexs(key).c_str());
        if (hash) {
          uint32_t hv = hash(key.data(), (unsigned)key.size());
          uint32_t want = hv & h.high_mask;
          if (want > h.max_bucket) want = hv & h.low_mask;
          if (want != b) return bad(err, "key %s is in bucket %u, belongs in %u", hexs(key).c_str(), b, want);
        }
        if (!seen.insert(key).second) return bad(err, "key %s is stored twice", hexs(key).c_str());
        db.items.emplace_back(key, val);
        db.item_bucket.push_back(b);
        db.where.push_back({dfirst, doff + 20, (uint32_t)std::min<uint64_t>(len, h.bsize - doff - 20)});
      }
      prev = pg;
      pg = v.u32(o + 8);
      first = false;
    }
  }
  for (uint32_t p : dpages) if (pages_seen.count(p)) return bad(err, "page %u is a data page and a key page", p);
  db.n_data_pages = (long)dpages.size();
  for (unsigned i = h.uinfo_page; i < h.hdrpages; i++) db.used_pages.insert(i);
  db.used_pages.insert(pages_seen.begin(), pages_seen.end());
  db.used_pages.insert(dpages.begin(), dpages.end());
  if (h.nkeys != db.items.size()) return bad(err, "header counts %u keys, the file holds %zu", h.nkeys, db.items.size());
  // lists of free pages. Pages moved into the places of unused buckets keep
  // their former numbers there, which they get back at the next opening
  uint32_t to = 0, from = 0, n = h.num_moved;
  if (n) {
    if (h.max_bucket >= h.high_mask || h.ovfl_point > 30 || h.spares[h.ovfl_point + 1] <= n) return bad(err, "%u pages are said to be moved, but there is no place for them", n);
    to = v.bucket_page(h.max_bucket + 1);
    from = h.spares[h.ovfl_point + 1] - n;
  }
  auto now = [&](uint32_t p) { return n && p >= from && p - from < n ? to + (p - from) : p; };
  std::set<uint32_t> buckets, freeset;
  for (uint32_t b = 0; b <= h.max_bucket; b++) buckets.insert(v.bucket_page(b));
  auto add_free = [&](uint32_t p, const char *what) {
    if (p < h.hdrpages || p == NOPAGE) return bad(err, "%s %u is a page of the header", what, p);
    if (db.used_pages.count(p)) return bad(err, "%s %u is in use", what, p);
    if (buckets.count(p)) return bad(err, "%s %u is the page of a bucket", what, p);
    if (!freeset.insert(p).second) return bad(err, "%s %u is on the free lists twice", what, p);
    return true;
  };
  for (unsigned l = 0; l < 32; l++) {
    uint32_t p = h.freep[l], prev = NOPAGE;
    if (p == NOPAGE) continue;
    p = now(p);
    while (p != NOPAGE) {
      if (!v.page(p, T_FREE, err)) { err += " (free list of level " + std::to_string(l) + ")"; return false; }
      if (!add_free(p, "free list page")) return false;
      size_t o = v.off(p);
      if (prev != NOPAGE && v.u32(o + 4) != prev) return bad(err, "free list page %u follows page %u but has previous page %u", p, prev, v.u32(o + 4));
      unsigned cnt = v.u16(o + 16);
      if (28 + 4 * (size_t)cnt > h.bsize) return bad(err, "free list page %u holds %u entries", p, cnt);
      for (unsigned i = 0; i < cnt; i++) if (!add_free(now(v.u32(o + 28 + 4 * i)), "free page")) return false;
      db.n_free += 1 + cnt;
      prev = p;
      p = v.u32(o + 8);
    }
  }
  // pages between the buckets of the levels that are neither in use nor free
  for (uint32_t b = h.max_bucket + 1; b <= h.high_mask; b++) buckets.insert(v.bucket_page(b));
  for (uint32_t p = h.hdrpages; p < v.npages(); p++)
    if (!db.used_pages.count(p) && !buckets.count(p) && !freeset.count(p)) {
      // the rest of data replaced by smaller data stays where it is
      if (!v.zero(p) && v.u16(v.off(p) + 18) == T_DATA && v.u16(v.off(p) + 16) == 0) db.n_rest++;
      else if (++db.n_lost > (long)h.ovfl_point + 2) return bad(err, "page %u is neither in use nor on a free list, nor are %ld others", p, db.n_lost - 1);
    }
  return true;
}

// visit every 32-bit (or 16-bit) integer of the page so that it can be rewritten
static bool convert(Bytes &f, std::string &err, bool swap, bool v5) {
  FmtHdr h;
  if (!fmt_header(f, h, err)) return false;
  if (f.size() % h.bsize) return bad(err, "size");
  View v(f, h);
  bool big = v.big, nbig = swap ? !big : big;
  uint32_t np = v.npages();
  Bytes g = f;
  auto w32 = [&](size_t o, uint32_t x) { put32(g, o, x, nbig); };
  auto w16 = [&](size_t o, uint16_t x) {
    if (nbig) { g[o] = (char)(x >> 8); g[o + 1] = (char)x; } else { g[o] = (char)x; g[o + 1] = (char)(x >> 8); }
  };
  for (uint32_t p = 1; p < np; p++) {
    size_t o = v.off(p);
    if (v.u32(o + 12) != SIGN) continue;
    unsigned type = v.u16(o + 18), n = v.u16(o + 16);
    for (int k : {0, 4, 8, 12, 24}) w32(o + (size_t)k, v.u32(o + (size_t)k));
    w16(o + 16, (uint16_t)n);
    w16(o + 18, (uint16_t)type);
    if (type == T_BUCKET) {
      for (unsigned i = 0; i < n; i++) {
        size_t e = o + 28 + 12 * i;
        uint32_t dof = v.u32(e + 8);
        for (int k : {0, 4, 8}) w32(e + (size_t)k, v.u32(e + (size_t)k));
        if (dof + 16 > h.bsize) return bad(err, "datap");
        for (int k : {0, 4, 8, 12}) w32(o + dof + (size_t)k, v.u32(o + dof + (size_t)k));
      }
    } else if (type == T_DATA) {
      uint32_t q = v.u32(o + 28);
      w32(o + 28, q);
      for (unsigned i = 0; i < n; i++) {
        if (q < 32 || q + 20 > h.bsize) return bad(err, "data list");
        for (int k : {0, 4, 8, 12, 16}) {
          uint32_t x = v.u32(o + q + (size_t)k);
          if (k == 4 && v5) x = 0xffeeffeeu;
          w32(o + q + (size_t)k, x);
        }
        q = v.u32(o + q + 8);
      }
    } else if (type == T_FREE) {
      for (unsigned i = 0; i < n; i++) w32(o + 28 + 4 * i, v.u32(o + 28 + 4 * i));
    } else if (type == T_UINFO) {
      if (p == h.uinfo_page) w32(o + 28, v.u32(o + 28));
    } else if (type == T_CONFIG) {
      for (unsigned i = 0; i < n; i++)
        for (unsigned k = 0; k < 20; k += 4) w32(o + 28 + 148 * i + k, v.u32(o + 28 + 148 * i + k));
    }
    uint32_t c = ref_crc32(0, g.data() + o, 20);
    c = ref_crc32(c, g.data() + o + 24, h.bsize - 24);
    w32(o + 20, c);
  }
  if (swap) fmt_put32be(g, HO_LORDER, h.lorder == 1234 ? 4321 : 1234);
  if (v5) fmt_put32be(g, HO_VERSION, 5);
  fmt_fix_header(g);
  f = g;
  return true;
}
bool fmt_swap_order(Bytes &f, std::string &err) { return convert(f, err, true, false); }
bool fmt_to_v5(Bytes &f, std::string &err) { return convert(f, err, false, true); }
