// Pre-decoded program (from LLVM bitcode)
#pragma once
#include "expr.h"
#include <memory>
struct Val { u64 c; E e; };
enum class IOp : u8 { Bin, FBin, ICmp, FCmp, FNeg, Cast, Conv, Mov, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Select, ExtractV, InsertV, Unreach, Freeze, MemCpy, MemSet, Intr, VaStart, Nop, Bad };
struct Edge { u32 pc; std::vector<std::pair<i32,i32>> mv; };  // dst <- operand
struct SwitchI { std::vector<std::pair<u64,u32>> cases; u32 def; }; // edge ids
struct Fn;
struct CallI { Fn*fn=nullptr; i32 target=0; std::vector<i32> args; std::vector<u8> w; std::vector<u32> byval; bool noreturn=false; };
struct Inst { IOp op; u8 w; u8 w2; u8 sub; i32 dst; i32 a,b,c; u32 x,y; u32 line; u8 n; };
struct GepI { u64 cst; std::vector<std::pair<i32,u64>> idx; std::vector<u8> iw; };
struct Fn { std::string name; bool decl=false; int builtin=-1; u32 objId=0; bool vararg=false; bool decoded=false; bool executed=false; bool fromRepo=false;
  std::vector<Inst> code; std::vector<Val> consts; i32 nregs=0; std::vector<i32> params; std::vector<u8> paramW; u32 nparams=0; u8 retN=0; std::vector<u8> retW;
  std::vector<Edge> edges; std::vector<SwitchI> sws; std::vector<CallI> calls; std::vector<GepI> geps; void*llvm=nullptr; std::string file; std::vector<std::pair<i32,u32>> byvalParams; };
struct GlobalObj { std::string name; u32 id; u32 size; bool ro; std::vector<u8> data; Fn*fn=nullptr; };
struct Program { std::vector<GlobalObj> globals; std::vector<Fn*> fns; std::unordered_map<std::string,Fn*> byName; u32 nextId; };
static inline u64 addrOf(u32 id){ return ((u64)id<<32)|0x10; }
Program*loadProgram(const std::vector<std::string>&files);
void decodeFn(Fn*f);
