// Harness API. Under the engine these are intrinsics; natively (replay) see native.c.
#ifndef NSYM_H
#define NSYM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
uint64_t sym_u64(const char *name, uint64_t bits);          // fresh unconstrained input
void     sym_assume(uint64_t cond);
void     sym_check(uint64_t cond, const char *label);        // the property
void     sym_cover(const char *label);                       // reachability witness
void     sym_out(uint64_t value);                            // observable (trace validation)
uint64_t sym_conc(uint64_t v);                               // fork over every feasible value
uint64_t sym_is_symbolic(uint64_t v);
int64_t  sym_param(const char *name, int64_t dflt);          // bound chosen by the tier
extern long nsym_alloc_count, nsym_alloc_fail, nsym_alloc_fails;  // allocations made by the code; the one that fails (0: none); how many fail from there on
extern int nsym_alloc_lie; extern long nsym_ftell_lie; // large blocks are promised, files claim a size
extern long nsym_io_count, nsym_io_fail, nsym_io_fails; extern int nsym_io_op; // the same for calls to the file system, and the first that was refused
void     sym_end(void);                                      // finish this path
uint64_t sym_live(void);                                       // blocks of process memory that are allocated now
void     sym_dbg(const char *l, uint64_t v);
static inline int64_t sym_i64(const char *n){ return (int64_t)sym_u64(n,64); }
static inline int32_t sym_i32(const char *n){ return (int32_t)sym_u64(n,32); }
static inline uint8_t sym_u8(const char *n){ return (uint8_t)sym_u64(n,8); }
static inline bool    sym_bool(const char *n){ return sym_u64(n,1); }
static inline int64_t sym_range(const char *n,int64_t lo,int64_t hi){ // inclusive
  int64_t v; if(lo>=0&&hi<256) v=(int64_t)sym_u64(n,8); else v=(int64_t)sym_u64(n,64);
  sym_assume((uint64_t)(v-lo)<=(uint64_t)(hi-lo)); return v; }
static inline double sym_f64(const char *n){ uint64_t v=sym_u64(n,64); double d; memcpy(&d,&v,8); return d; }
static inline int sym_choose(const char *n,int k){ return (int)sym_conc((uint64_t)sym_range(n,0,k-1)); } // forked
static inline void sym_bytes(void *p,size_t k,const char*n){ for(size_t i=0;i<k;i++) ((unsigned char*)p)[i]=(unsigned char)sym_u64(n,8); }
#endif
