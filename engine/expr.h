// Expression layer: hash-consed bit-vector / float terms, simplifier, evaluator, z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

enum class XOp : u8 { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, SMulO, UMulO,
  FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FUno, FP2SI, FP2UI, SI2FP, UI2FP, FPExt, FPTrunc, FRnd, FSqrt, UF };

struct SymSet { u64 w[8] = {0,0,0,0,0,0,0,0};
  void set(u32 i){ i&=511; w[i>>6]|=1ull<<(i&63);} 
  bool inter(const SymSet&o)const{ for(int i=0;i<8;i++) if(w[i]&o.w[i]) return true; return false;}
  void uni(const SymSet&o){ for(int i=0;i<8;i++) w[i]|=o.w[i]; }
  bool has(u32 i)const{ i&=511; return w[i>>6]>>(i&63)&1; } };

struct Expr { XOp op; u8 w; u32 aux; u32 id; u64 hash; u64 c; const Expr*k[3]; SymSet syms;
  mutable u64 evgen=0, evval=0; mutable void*z3=nullptr; mutable u64 z3gen=0; };
typedef const Expr* E;

static inline u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sextw(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

E mkConst(u64 v, unsigned w);
E mkSym(unsigned w, u32 idx);
E mkBin(XOp op, E a, E b);
E mkEq(E a,E b); E mkNot(E a); E mkAnd1(E a,E b); E mkOr1(E a,E b);
E mkIte(E c,E a,E b);
E mkConcat(E hi,E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
E mkFBin(XOp op,E a,E b); // FAdd.. (w 32/64) and FO* (w 1)
E mkConv(XOp op,E a,unsigned w); // FP2SI.. etc
E mkFRnd(E a,int mode); // 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
E mkFSqrt(E a);
E mkUF(u32 fid,E a,E b);
u64 concBin(XOp op,u64 a,u64 b,unsigned w);
u64 concF(XOp op,u64 a,u64 b,unsigned w);
u64 concConv(XOp op,u64 a,unsigned wa,unsigned w);
u64 concRnd(u64 a,unsigned w,int mode);
u64 concUF(u32 fid,u64 a,u64 b);
unsigned tzBits(E e);
static inline bool isC(E e){ return e->op==XOp::Const; }
std::string exprStr(E e,int depth=6);

// models
typedef std::vector<u64> Model; // by symbol index
u64 evalExpr(E e,const Model&m); // memoised per call generation
void evalBegin(); // start new generation
u64 evalIn(E e,const Model&m);

enum class SR { Sat, Unsat, Unknown };
struct SolverStats { u64 queries=0, cacheHits=0, sat=0, unsat=0, unknown=0; double secs=0, maxSecs=0; };
extern SolverStats g_sst;
// constraints ∧ extra ; on Sat fills m for the symbols occurring.
SR solve(const std::vector<E>&cs, Model&m);
void solverReset(); // after fork
std::string solverSmt2(const std::vector<E>&cs);
extern std::vector<std::pair<std::string,unsigned>> g_symInfo; // not used by the solver, only naming
extern u64 g_rlimit;
extern const char*g_dumpDir; extern int g_dumpMax;
