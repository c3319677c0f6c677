#ifndef VF_PUTIL_H
#define VF_PUTIL_H
#include "dbrun.h"
inline long F(const Feat &f, const char *k) { auto i = f.find(k); return i == f.end() ? 0 : i->second; }
void run_history(const Case &c, bool features);
extern bool g_sync_plain;   // "sync" never copies the file (read-only sessions)
#endif
