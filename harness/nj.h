// Helpers to drive Noja end to end through its public API.
#ifndef NJ_H
#define NJ_H
#include <stdio.h>
#include "nsym.h"
#include <lib/run.h>
#include <lib/runtime.h>
#include <lib/diagram.h>
#include <lib/objects/objects.h>
void nsym_mkfile(const char *name, const void *data, size_t len);      // scratch/virtual file
size_t nsym_readfile(const char *name, void *buf, size_t max);         // returns its length, (size_t)-1 if absent
void nsym_set_stdin(const void *d, size_t n);
extern int nsym_full_format, nsym_rand_mode;                            // rand() gives symbolic values
extern long (*nsym_sys)(int call, long a, long b, long c, const void *in, void *out, size_t n); // model of the socket calls: result or -errno
enum { SYS_socket_, SYS_bind_, SYS_listen_, SYS_accept_, SYS_recv_, SYS_send_, SYS_close_, SYS_setsockopt_ };
enum { V_NONE, V_BOOL, V_INT, V_FLOAT, V_STR, V_LIST, V_MAP, V_BUF, V_TYPE, V_OTHER };
typedef struct { int tag; long long i; double f; char s[96]; size_t n; } NV;
#define NJ_MAXOUT 512
static NV nj_out[NJ_MAXOUT]; static int nj_nout;
static Runtime *nj_rt; static Error nj_err; static int nj_outcalls; static int nj_lastargc;
static void nj_read(Object *o, NV *v) {
  memset(v, 0, sizeof *v);
  if (Object_IsNone(o)) v->tag = V_NONE;
  else if (Object_IsBool(o)) { v->tag = V_BOOL; v->i = Object_GetBool(o); }
  else if (Object_IsInt(o)) { v->tag = V_INT; v->i = Object_GetInt(o); }
  else if (Object_IsFloat(o)) { v->tag = V_FLOAT; v->f = Object_GetFloat(o); }
  else if (Object_IsString(o)) { size_t n; const char *s = Object_GetString(o, &n); v->tag = V_STR; v->n = n; if (n > 95) n = 95; memcpy(v->s, s, n); v->s[n] = 0; }
  else if (Object_IsList(o)) { Error e; Error_Init(&e); v->tag = V_LIST; v->n = Object_Count(o, &e); }
  else if (Object_IsMap(o)) { Error e; Error_Init(&e); v->tag = V_MAP; v->n = Object_Count(o, &e); }
  else if (Object_IsBuffer(o)) { v->tag = V_BUF; Object_GetBuffer(o, &v->n); }
  else v->tag = V_OTHER;
}
static int nj_bin_out(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) {
  (void)r; (void)rets; (void)e; nj_outcalls++; nj_lastargc = (int)argc;
  for (unsigned i = 0; i < argc; i++) if (nj_nout < NJ_MAXOUT) nj_read(argv[i], &nj_out[nj_nout++]);
  return 0;
}
static int nj_bin_gc(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) {
  (void)argv; (void)argc; (void)rets; return Runtime_CollectGarbage(r, e) ? 0 : -1;
}
static StaticMapSlot nj_slots[] = { {"out", SM_FUNCT, .as_funct = nj_bin_out, .argc = -1}, {NULL, SM_END, {}, {}} };
static bool nj_boot_cfg(RuntimeConfig c, StaticMapSlot *extra) {
  Error_Init(&nj_err); nj_nout = 0; nj_outcalls = 0;
  nj_rt = Runtime_New(c); if (!nj_rt) return false;
  if (!Runtime_plugDefaultBuiltins(nj_rt, &nj_err)) return false;
  if (!Runtime_plugBuiltinsFromStaticMap(nj_rt, nj_slots, NULL, &nj_err)) return false;
  if (extra && !Runtime_plugBuiltinsFromStaticMap(nj_rt, extra, NULL, &nj_err)) return false;
  return true;
}
static bool nj_boot(StaticMapSlot *extra) { RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; return nj_boot_cfg(c, extra); }
static bool nj_run(const char *src) { return runString(nj_rt, src, &nj_err); }
static void nj_end(void) { Error_Free(&nj_err); Runtime_Free(nj_rt); nj_rt = NULL; }
static inline bool nj_isint(int k, long long v) { return k < nj_nout && nj_out[k].tag == V_INT && nj_out[k].i == v; }
static inline bool nj_isbool(int k, bool v) { return k < nj_nout && nj_out[k].tag == V_BOOL && nj_out[k].i == v; }
static inline bool nj_isnone(int k) { return k < nj_nout && nj_out[k].tag == V_NONE; }
static inline bool nj_isstr(int k, const char *s, size_t n) { return k < nj_nout && nj_out[k].tag == V_STR && nj_out[k].n == n && memcmp(nj_out[k].s, s, n) == 0; }
static inline uint64_t nj_fbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool nj_sameflt(double a, double b) { return nj_fbits(a) == nj_fbits(b) || (a != a && b != b); }
static inline bool nj_isflt(int k, double v) { return k < nj_nout && nj_out[k].tag == V_FLOAT && nj_sameflt(nj_out[k].f, v); }
static inline void nj_logout(void) { sym_out(nj_nout); for (int i = 0; i < nj_nout; i++) { sym_out(nj_out[i].tag); if (nj_out[i].tag == V_INT || nj_out[i].tag == V_BOOL) sym_out((uint64_t)nj_out[i].i); else if (nj_out[i].tag != V_FLOAT) sym_out(nj_out[i].n); } }
// --- building source text
static char nj_src[16384]; static int nj_sn;
static inline void sb0(void) { nj_sn = 0; nj_src[0] = 0; }
static inline void sbn(const char *s, size_t n) { if (nj_sn + n < sizeof nj_src) { memcpy(nj_src + nj_sn, s, n); nj_sn += (int)n; nj_src[nj_sn] = 0; } else sym_check(0, "harness: source too long"); }
static inline void sb(const char *s) { sbn(s, strlen(s)); }
static inline void sbc(char c) { sbn(&c, 1); }
static inline void sbi(long long v) { char t[24]; int i = 24; unsigned long long u = v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v; do { t[--i] = (char)('0' + u % 10); u /= 10; } while (u); if (v < 0) t[--i] = '-'; sbn(t + i, 24 - i); }
static inline bool sb_run(void) { return nj_run(nj_src); }
#define NJ_INT(nm, v) { nm, SM_INT, .as_int = (v) }
#define NJ_FLT(nm, v) { nm, SM_FLOAT, .as_float = (v) }
#define NJ_BOOL(nm, v) { nm, SM_BOOL, .as_bool = (v) }
#define NJ_STR(nm, v, l) { nm, SM_STRING, .as_string = (v), .length = (l) }
#define NJ_FUN(nm, f, n) { nm, SM_FUNCT, .as_funct = (f), .argc = (n) }
#define NJ_END { NULL, SM_END, {}, {} }
#endif
