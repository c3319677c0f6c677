// An independent reader (and byte-order / version converter) of the FFDB file
// format, written from the layout documented in ffdb_hash.h and ffdb_page.h.
// It shares no code with the library.
#ifndef VF_FMT_H
#define VF_FMT_H
#include "core.h"
struct FmtConfig { int config, index, inserted, type, mtime; char fname[128]; };
struct FmtHdr {
  uint32_t magic, version, lorder, bsize, bshift, ovfl_point, max_bucket, high_mask, low_mask, ffactor,
      nkeys, hdrpages, uinfolen;
  uint16_t uinfo_page, uinfo_npages, cfig_page, cfig_npages;
  uint32_t num_cfigs, h_charkey, num_moved;
  uint32_t spares[32], freep[32], chksum;
};
struct FmtDb {
  FmtHdr h;
  std::vector<std::pair<Bytes, Bytes>> items;
  std::vector<uint32_t> item_bucket;
  bool uinfo_set = false;
  Bytes uinfo;
  std::vector<FmtConfig> configs;
  std::set<uint32_t> used_pages;                  // pages a complete read has to visit (not the header)
  struct Where { uint32_t page; uint32_t off, n; };
  std::vector<Where> where;                       // first byte of each item's data, bytes of it on that page
  long n_bucket_pages = 0, n_ovfl_pages = 0, n_data_pages = 0, n_multi = 0, n_free = 0, n_lost = 0, n_rest = 0;
};
enum { FMT_HDR = 332 };
uint32_t ref_crc32(uint32_t crc, const void *p, size_t n);
bool fmt_header(const Bytes &f, FmtHdr &h, std::string &err);
// strict: every documented invariant is checked
bool fmt_parse(const Bytes &f, FmtDb &db, std::string &err, unsigned (*hash)(const void *, unsigned));
// the same database as a machine of the other byte order would have written it
bool fmt_swap_order(Bytes &f, std::string &err);
// the same database as library version 5 would have written it
bool fmt_to_v5(Bytes &f, std::string &err);
// recompute the header checksum after editing the header
void fmt_fix_header(Bytes &f);
void fmt_put32be(Bytes &f, size_t off, uint32_t v);
uint32_t fmt_get32be(const Bytes &f, size_t off);
// offset of header fields
enum { HO_MAGIC = 0, HO_VERSION = 4, HO_LORDER = 8, HO_BSIZE = 12, HO_MAXB = 24, HO_NKEYS = 40, HO_CHARKEY = 64, HO_MOVED = 68, HO_CHK = 328 };
#endif
