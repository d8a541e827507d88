// nsym: bounded symbolic executor for LLVM bitcode (path-forking, z3 as the deciding back end).
#include "prog.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <deque>
#include <set>
#include <chrono>
#include <algorithm>
#include <atomic>
#include <cassert>
using std::vector; using std::string;
struct Obj { u32 ref; u32 size; u8 kind; bool ro; u8*data; E*sym; u32 nsym; Fn*fn; };
struct Chunk { u32 ref; Obj*o[256]; };
enum { K_GLOBAL, K_HEAP, K_STACK, K_FUNC };
struct Frame { Fn*fn; u32 pc; u32 base; u32 alloc0; u32 vaId; u32 uid; };
struct InRec { const char*name; u8 w; };
struct JmpRec { u32 uid; u32 pc; u32 depth; };
static Obj*objNew(u32 size,u8 kind,int fill){ Obj*o=new Obj; o->ref=1;o->size=size;o->kind=kind;o->ro=false;o->sym=nullptr;o->nsym=0;o->fn=nullptr; o->data=(u8*)malloc(size?size:1); if(fill>=0) memset(o->data,fill,size); return o; }
static void objUnref(Obj*o){ if(o&&--o->ref==0){ free(o->data); free(o->sym); delete o; } }
static Obj*objClone(Obj*s){ Obj*o=new Obj(*s); o->ref=1; o->data=(u8*)malloc(s->size?s->size:1); memcpy(o->data,s->data,s->size); if(s->sym){ o->sym=(E*)malloc(sizeof(E)*s->size); memcpy(o->sym,s->sym,sizeof(E)*s->size);} return o; }
static u64 g_uid=1;
struct State {
  vector<Chunk*> ch; u32 nextId=0; vector<Val> regs; vector<Frame> frames; vector<u32> allocas; vector<E> pc; Model model; vector<Val> log; vector<InRec> inputs; vector<JmpRec> jmps; u64 steps=0; u32 depth=0; u32 uidc=1; vector<u8> covered; bool dead=false; bool deferEnd=false;
  u64 symSteps=0;
  State(){}
  State(const State&o):ch(o.ch),nextId(o.nextId),regs(o.regs),frames(o.frames),allocas(o.allocas),pc(o.pc),model(o.model),log(o.log),inputs(o.inputs),jmps(o.jmps),steps(o.steps),depth(o.depth+1),uidc(o.uidc){ for(auto c:ch) c->ref++; }
  ~State(){ for(auto c:ch) if(--c->ref==0){ for(int i=0;i<256;i++) objUnref(c->o[i]); delete c; } }
  Obj*get(u32 id){ return id<nextId? ch[id>>8]->o[id&255]:nullptr; }
  Chunk*own(u32 ci){ Chunk*c=ch[ci]; if(c->ref>1){ Chunk*n=new Chunk(*c); n->ref=1; for(int i=0;i<256;i++) if(n->o[i]) n->o[i]->ref++; c->ref--; ch[ci]=c=n; } return c; }
  Obj*getW(u32 id){ Chunk*c=own(id>>8); Obj*&o=c->o[id&255]; if(o->ref>1){ Obj*n=objClone(o); o->ref--; o=n; } return o; }
  u32 add(Obj*o){ u32 id=nextId++; if((id>>8)>=ch.size()){ Chunk*c=new Chunk; c->ref=1; memset(c->o,0,sizeof c->o); ch.push_back(c);} own(id>>8)->o[id&255]=o; return id; }
  void del(u32 id){ Chunk*c=own(id>>8); objUnref(c->o[id&255]); c->o[id&255]=nullptr; }
};
// ---- globals / options
static Program*P; static string g_entry; static int g_outFd=-1; static double g_timeout=300; static u64 g_maxSteps=200000000; static u64 g_maxIte=600; static std::map<string,i64> g_params; static int g_maxViol=3; static double g_grace=0; static double*g_violAt=nullptr; static vector<u64> g_concIn; static bool g_conc=false; static u64 g_maxAlloc=1u<<30; static int g_pathSamples=6; static std::atomic<int>*g_tok=nullptr; static bool g_verbose=false;
static u64 st_paths=0,st_forks=0,st_steps=0,st_checks=0,st_checkQueries=0,st_killed=0,st_incomplete=0,st_errors=0,st_assumeKilled=0,st_conc=0; static std::map<string,u64> g_cover,g_checks; static std::map<string,int> g_violCount; static vector<string> g_incWhy; static u64 g_hung=0;
static std::deque<State*> g_work; static vector<pid_t> g_kids; static double t_start;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static string jesc(const string&s){ string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static void emit(const string&s){ string t=s+"\n"; if(g_outFd>=0){ ssize_t n=write(g_outFd,t.data(),t.size()); (void)n; } else fputs(t.c_str(),stdout); }
static string inputsJson(State&s,const Model&m){ string r="["; for(size_t i=0;i<s.inputs.size();i++){ if(i) r+=","; char b[64]; snprintf(b,64,",%d,%llu]",s.inputs[i].w,(unsigned long long)((i<m.size()?m[i]:0)&maskw(s.inputs[i].w))); r+="[\""+jesc(s.inputs[i].name)+"\""+b; } return r+"]"; }
static string where(State&s){ if(s.frames.empty()) return "?"; string r; int n=0; for(int i=s.frames.size()-1;i>=0&&n<6;i--){ Frame&f=s.frames[i]; if(n) r+=" < "; u32 ln=f.pc<f.fn->code.size()?f.fn->code[f.pc].line:0; r+=f.fn->name+":"+std::to_string(ln); n++; } return r; }
static string siteFn(State&s){ for(int i=s.frames.size()-1;i>=0;i--) if(s.frames[i].fn->fromRepo) return s.frames[i].fn->name; return s.frames.empty()?"?":s.frames.back().fn->name; }
static std::map<string,int> g_incCount;
static const char*const GRACE="time budget after a violation"; static bool pastGrace(){ return g_violAt&&*g_violAt>0&&now()-*g_violAt>g_grace; }
static void incomplete(State&s,const string&why){ st_incomplete++; if(g_incCount[why+"|"+siteFn(s)]++<4&&why.find("time budget")==string::npos) emit("{\"t\":\"viol\",\"entry\":\""+g_entry+"\",\"kind\":\"incomplete\",\"label\":\""+jesc(why)+"\",\"func\":\""+jesc(siteFn(s))+"\",\"where\":\""+jesc(where(s))+"\",\"inputs\":"+inputsJson(s,s.model)+"}"); if(g_incWhy.size()<10) g_incWhy.push_back(why+" @ "+where(s)); if(g_verbose) fprintf(stderr,"incomplete: %s @ %s\n",why.c_str(),where(s).c_str()); }
static void violation(State&s,const Model&m,const string&kind,const string&label){ st_errors++; string key=kind+"|"+label+"|"+siteFn(s); int&c=g_violCount[key]; c++; if(g_violAt&&*g_violAt==0) *g_violAt=now(); if(c>g_maxViol) return;
  emit("{\"t\":\"viol\",\"entry\":\""+g_entry+"\",\"kind\":\""+kind+"\",\"label\":\""+jesc(label)+"\",\"func\":\""+jesc(siteFn(s))+"\",\"where\":\""+jesc(where(s))+"\",\"inputs\":"+inputsJson(s,m)+"}"); if(g_verbose) fprintf(stderr,"VIOL %s %s @ %s\n",kind.c_str(),label.c_str(),where(s).c_str()); }
// ---- constraints
static bool inPc(State&s,E c){ for(size_t i=s.pc.size();i-->0;) if(s.pc[i]==c) return true; return false; }
static SR query(State&s,E cond,Model&m){ // PC ∧ cond
  if(isC(cond)) { if(cond->c){ m=s.model; return SR::Sat;} return SR::Unsat; }
  vector<E> cs; cs.push_back(cond); SymSet ss=cond->syms; vector<char> used(s.pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]&&s.pc[i]->syms.inter(ss)){ used[i]=1; ss.uni(s.pc[i]->syms); cs.push_back(s.pc[i]); ch=true; } }
  m=s.model; SR r=solve(cs,m);
  if(r==SR::Sat){ evalBegin(); for(E c:cs) if(!evalIn(c,m)) { if(getenv("NSYM_DBG")){ fprintf(stderr,"model mismatch %s\n",exprStr(c,8).c_str()); } return SR::Unknown; } }
  return r; }
static void addPc(State&s,E c){ if(isC(c)) return; if(c->op==XOp::And){ addPc(s,c->k[0]); addPc(s,c->k[1]); return; } if(!inPc(s,c)) s.pc.push_back(c); }
static void maybeFork(State&cur);
static void pushState(State*n){ st_forks++; g_work.push_back(n); }
// decide a 1-bit condition for the current state; other side (if feasible) is returned in *other (not yet scheduled)
static bool decide(State&s,E c,State**other){ *other=nullptr; if(isC(c)) return c->c;
  if(inPc(s,c)) return true; E nc=mkNot(c); if(inPc(s,nc)) return false;
  bool v=evalExpr(c,s.model); Model m2; SR r=query(s,v?nc:c,m2);
  if(r==SR::Unsat) return v;
  if(r==SR::Unknown){ incomplete(s,"solver unknown"); addPc(s,v?c:nc); return v; }
  State*o=new State(s); o->model=m2; addPc(*o,v?nc:c); addPc(s,v?c:nc); *other=o; return v; }
static u64 concretize(State&s,E e){ if(isC(e)) return e->c; st_conc++; u64 v=evalExpr(e,s.model); E eq=mkEq(e,mkConst(v,e->w)); State*o; bool b=decide(s,eq,&o); (void)b; for(int n=0;o;n++){ State*c=o; o=nullptr; if(n<64&&g_tok){ E e2=mkEq(e,mkConst(evalExpr(e,c->model),e->w)); decide(*c,e2,&o); } pushState(c); } return v; }
static inline u64 cval(State&s,Val v){ return v.e? concretize(s,v.e) : v.c; }
static inline E ex(Val v,unsigned w){ return v.e? v.e : mkConst(v.c,w); }
static inline Val mk(E e){ if(isC(e)) return {e->c,nullptr}; return {0,e}; }
// ---- memory
static inline E byteAt(Obj*o,u32 off){ if(o->sym&&o->sym[off]) return o->sym[off]; return mkConst(o->data[off],8); }
static Val rdObj(Obj*o,u32 off,unsigned w){ unsigned n=(w+7)/8; bool sy=false; if(o->nsym) for(unsigned i=0;i<n;i++) if(o->sym[off+i]){ sy=true; break; }
  if(!sy){ u64 v=0; memcpy(&v,o->data+off,n); return {v&maskw(w),nullptr}; }
  E e=byteAt(o,off); for(unsigned i=1;i<n;i++) e=mkConcat(byteAt(o,off+i),e);
  if(w&7) e=mkExtract(e,0,w); return mk(e); }
static void wrObj(Obj*o,u32 off,unsigned w,Val v){ unsigned n=(w+7)/8; if(!v.e){ u64 x=v.c&maskw(w); memcpy(o->data+off,&x,n); if(o->nsym) for(unsigned i=0;i<n;i++) if(o->sym[off+i]){ o->sym[off+i]=nullptr; o->nsym--; } return; }
  if(!o->sym) o->sym=(E*)calloc(o->size,sizeof(E)); E e=v.e; if(e->w<n*8) e=mkZExt(e,n*8);
  for(unsigned i=0;i<n;i++){ E b=mkExtract(e,i*8,8); if(isC(b)){ o->data[off+i]=b->c; if(o->sym[off+i]){ o->sym[off+i]=nullptr; o->nsym--; } } else { if(!o->sym[off+i]) o->nsym++; o->sym[off+i]=b; } } }
// resolve address to an object for an access of n bytes; returns false if the path is dead
static string memDesc(State&s,u64 a,u64 n,bool wr){ u32 id=a>>32; char b[160]; i64 off=(i64)(a&0xffffffff)-0x10; if(a<0x100000000ull*16) snprintf(b,160,"invalid %s of %llu bytes through null/wild pointer",wr?"write":"read",(unsigned long long)n); else if(id>=s.nextId) snprintf(b,160,"invalid %s through wild pointer",wr?"write":"read"); else if(!s.get(id)) snprintf(b,160,"%s of freed or out-of-scope memory",wr?"write":"read"); else { Obj*o=s.get(id); if(wr&&o->ro) snprintf(b,160,"write to read-only memory"); else snprintf(b,160,"out-of-bounds %s of %llu bytes at offset %lld of %u-byte %s object",wr?"write":"read",(unsigned long long)n,(long long)off,o->size,o->kind==K_HEAP?"heap":o->kind==K_STACK?"stack":"global"); } return b; }
static inline bool okAcc(Obj*o,u64 a,u64 n,bool wr){ if(!o) return false; i64 off=(i64)(a&0xffffffff)-0x10; return off>=0&&(u64)off+n<=o->size&&!(wr&&o->ro)&&o->kind!=K_FUNC; }
static bool resolveC(State&s,u64 a,u64 n,bool wr,u32&id,u32&off){ id=a>>32; Obj*o=s.get(id); if(n==0){ off=0; return true; } if(!okAcc(o,a,n,wr)){ violation(s,s.model,"mem",memDesc(s,a,n,wr)); return false; } off=(u32)a-0x10; return true; }
// symbolic address: constrain to one object; off expression returned
static bool resolveS(State&s,E a,u64 n,bool wr,u32&id,E&off){
  u64 av=evalExpr(a,s.model); id=av>>32; Obj*o=s.get(id); u64 base=addrOf(id);
  E same=mkEq(mkExtract(a,32,32),mkConst(id,32));
  if(!o||o->kind==K_FUNC||(wr&&o->ro)||o->size<n){ Model m2; E ns=mkNot(same); if(query(s,ns,m2)==SR::Sat){ State*x=new State(s); x->model=m2; addPc(*x,ns); pushState(x); } violation(s,s.model,"mem",memDesc(s,av,n,wr)); return false; }
  E d=mkBin(XOp::Sub,a,mkConst(base,64)); E inb=mkBin(XOp::Ule,d,mkConst(o->size-n,64));
  if(!evalExpr(inb,s.model)){ // error under current model
     E region=mkAnd1(same,mkNot(inb)); E nr=mkNot(region); Model m2; if(query(s,nr,m2)==SR::Sat){ State*x=new State(s); x->model=m2; addPc(*x,nr); pushState(x); } violation(s,s.model,"mem",memDesc(s,av,n,wr)); return false; }
  State*ot; decide(s,inb,&ot); if(ot) pushState(ot); off=d; return true; }
static bool load(State&s,Val a,u32 xo,unsigned w,Val&out){ unsigned n=(w+7)/8;
  if(!a.e){ u64 ad=a.c+xo; u32 id=ad>>32; Obj*o=s.get(id); if(!okAcc(o,ad,n,false)){ violation(s,s.model,"mem",memDesc(s,ad,n,false)); return false; } out=rdObj(o,(u32)ad-0x10,w); return true; }
  E e=xo?mkBin(XOp::Add,a.e,mkConst(xo,64)):a.e; if(isC(e)) return load(s,{e->c,nullptr},0,w,out);
  u32 id; E off; if(!resolveS(s,e,n,false,id,off)) return false; Obj*o=s.get(id);
  if(isC(off)){ out=rdObj(o,off->c,w); return true; }
  u64 step=1ull<<std::min(tzBits(off),12u); u64 nc=(o->size-n)/step+1;
  if(nc>g_maxIte){ u64 v=concretize(s,off); out=rdObj(o,v,w); return true; }
  // value-grouped ite chain
  E r=nullptr; for(u64 i=nc;i-->0;){ E v=ex(rdObj(o,i*step,w),w); if(!r) r=v; else r=mkIte(mkEq(off,mkConst(i*step,64)),v,r); }
  out=mk(r); return true; }
static bool store(State&s,Val a,u32 xo,unsigned w,Val v){ unsigned n=(w+7)/8;
  if(!a.e){ u64 ad=a.c+xo; u32 id=ad>>32; Obj*o=s.get(id); if(!okAcc(o,ad,n,true)){ violation(s,s.model,"mem",memDesc(s,ad,n,true)); return false; } wrObj(s.getW(id),(u32)ad-0x10,w,v); return true; }
  E e=xo?mkBin(XOp::Add,a.e,mkConst(xo,64)):a.e; if(isC(e)) return store(s,{e->c,nullptr},0,w,v);
  u32 id; E off; if(!resolveS(s,e,n,true,id,off)) return false; Obj*o=s.getW(id);
  if(isC(off)){ wrObj(o,off->c,w,v); return true; }
  u64 step=1ull<<std::min(tzBits(off),12u); u64 nc=(o->size-n)/step+1;
  if(nc>64||step<n){ u64 x=concretize(s,off); o=s.getW(id); wrObj(o,x,w,v); return true; }
  for(u64 i=0;i<nc;i++){ E old=ex(rdObj(o,i*step,w),w); wrObj(o,i*step,w,mk(mkIte(mkEq(off,mkConst(i*step,64)),ex(v,w),old))); }
  return true; }
static bool copyMem(State&s,u64 d,u64 sr,u64 n){ if(n==0) return true; u32 i1,o1,i2,o2; if(!resolveC(s,sr,n,false,i1,o1)||!resolveC(s,d,n,true,i2,o2)) return false; Obj*dst=s.getW(i2); Obj*src=s.get(i1);
  if(src==dst){ vector<u8> t(src->data+o1,src->data+o1+n); vector<E> ts; if(src->nsym) ts.assign(src->sym+o1,src->sym+o1+n); memcpy(dst->data+o2,t.data(),n); if(src->nsym) for(u64 i=0;i<n;i++){ E a=dst->sym[o2+i],b=ts[i]; if(!a&&b) dst->nsym++; if(a&&!b) dst->nsym--; dst->sym[o2+i]=b; } return true; }
  memcpy(dst->data+o2,src->data+o1,n);
  if(src->nsym||dst->nsym){ if(!dst->sym) dst->sym=(E*)calloc(dst->size,sizeof(E)); for(u64 i=0;i<n;i++){ E a=dst->sym[o2+i],b=src->sym?src->sym[o1+i]:nullptr; if(!a&&b) dst->nsym++; if(a&&!b) dst->nsym--; dst->sym[o2+i]=b; } }
  return true; }
static bool setMem(State&s,u64 d,Val v,u64 n){ if(n==0) return true; u32 id,off; if(!resolveC(s,d,n,true,id,off)) return false; Obj*o=s.getW(id); if(!v.e){ memset(o->data+off,(u8)v.c,n); if(o->nsym) for(u64 i=0;i<n;i++) if(o->sym[off+i]){ o->sym[off+i]=nullptr; o->nsym--; } return true; }
  E b=mkExtract(v.e,0,8); for(u64 i=0;i<n;i++) wrObj(o,off+i,8,mk(b)); return true; }
static bool readCStr(State&s,u64 a,string&r){ u32 id=a>>32; Obj*o=s.get(id); if(!o) return false; u64 off=(a&0xffffffff)-0x10; r.clear(); for(;;off++){ if(off>=o->size) return false; if(o->sym&&o->sym[off]) { r+='?'; continue; } if(!o->data[off]) return true; r+=(char)o->data[off]; } }
static const char*internStr(const string&s){ static std::set<string> t; return t.insert(s).first->c_str(); }
// ---- builtins
enum BI { B_NONE=-1,B_malloc,B_calloc,B_realloc,B_free,B_memcpy,B_memmove,B_memset,B_memcmp,B_strcmp,B_strncmp,B_setjmp,B_longjmp,B_abort,B_exit,B_floor,B_ceil,B_trunc,B_round,B_rint,B_sqrt,B_fabs,B_fmod,B_sin,B_cos,B_tan,B_asin,B_acos,B_atan,B_atan2,B_exp,B_log,B_log10,B_pow,B_sym_u64,B_sym_assume,B_sym_check,B_sym_cover,B_sym_out,B_sym_conc,B_sym_is,B_sym_param,B_sym_end,B_sym_alive,B_sym_live,B_sym_putdbg, B_hostfmt, B_hoststrtod, B_uf=1000 };
static std::map<string,int> biTab={{"sinf",B_uf+70},{"cosf",B_uf+71},{"tanf",B_uf+72},{"asinf",B_uf+73},{"acosf",B_uf+74},{"atanf",B_uf+75},{"expf",B_uf+76},{"logf",B_uf+77},{"log10f",B_uf+78},{"sqrtf",B_uf+79},{"floorf",B_uf+80},{"ceilf",B_uf+81},{"roundf",B_uf+82},{"truncf",B_uf+83},{"fabsf",B_uf+84},{"powf",B_uf+90},{"atan2f",B_uf+91},{"fmodf",B_uf+92},{"sinh",B_uf+11},{"cosh",B_uf+12},{"tanh",B_uf+13},{"asinh",B_uf+14},{"acosh",B_uf+15},{"atanh",B_uf+16},{"log2",B_uf+17},{"exp2",B_uf+18},{"log1p",B_uf+19},{"expm1",B_uf+20},{"cbrt",B_uf+21},{"erf",B_uf+22},{"tgamma",B_uf+23},{"lgamma",B_uf+24},{"hypot",B_uf+40},{"remainder",B_uf+41},{"fdim",B_uf+42},{"nextafter",B_uf+43},{"malloc",B_malloc},{"calloc",B_calloc},{"realloc",B_realloc},{"free",B_free},{"memcpy",B_memcpy},{"memmove",B_memmove},{"memset",B_memset},{"memcmp",B_memcmp},{"bcmp",B_memcmp},{"strcmp",B_strcmp},{"strncmp",B_strncmp},{"setjmp",B_setjmp},{"_setjmp",B_setjmp},{"__sigsetjmp",B_setjmp},{"longjmp",B_longjmp},{"_longjmp",B_longjmp},{"abort",B_abort},{"exit",B_exit},{"_exit",B_exit},{"floor",B_floor},{"ceil",B_ceil},{"trunc",B_trunc},{"round",B_round},{"rint",B_rint},{"sqrt",B_sqrt},{"fabs",B_fabs},{"fmod",B_fmod},{"sin",B_sin},{"cos",B_cos},{"tan",B_tan},{"asin",B_asin},{"acos",B_acos},{"atan",B_atan},{"atan2",B_atan2},{"exp",B_exp},{"log",B_log},{"log10",B_log10},{"pow",B_pow},{"sym_u64",B_sym_u64},{"sym_assume",B_sym_assume},{"sym_check",B_sym_check},{"sym_cover",B_sym_cover},{"sym_out",B_sym_out},{"sym_conc",B_sym_conc},{"sym_is_symbolic",B_sym_is},{"sym_param",B_sym_param},{"sym_end",B_sym_end},{"sym_alive",B_sym_alive},{"sym_live",B_sym_live},{"sym_dbg",B_sym_putdbg},{"sym_hostfmt",B_hostfmt},{"sym_hoststrtod",B_hoststrtod}};
static void bindBuiltins(){ for(Fn*f:P->fns){ auto it=biTab.find(f->name); if(it!=biTab.end()) f->builtin=it->second; } }
static void finishPath(State&s){ st_paths++; 
  if((int)st_paths<=g_pathSamples||(st_paths&(st_paths-1))==0){ u64 h=1469598103934665603ull; string vals="["; evalBegin(); size_t i=0; for(auto&v:s.log){ u64 x=v.e?evalIn(v.e,s.model):v.c; h=(h^x)*1099511628211ull; if(i<12){ if(i) vals+=","; vals+=std::to_string(x); } i++; } char b[64]; snprintf(b,64,"%016llx",(unsigned long long)h);
    emit("{\"t\":\"path\",\"entry\":\""+g_entry+"\",\"digest\":\""+b+"\",\"out\":"+vals+"],\"steps\":"+std::to_string(s.steps)+",\"inputs\":"+inputsJson(s,s.model)+"}"); } }
// compare memory as ite; returns false if out of a simple form
static bool cmpIte(State&s,u64 a,u64 b,u64 n,bool str,Val&out){ u32 ia=a>>32,ib=b>>32; Obj*oa=s.get(ia),*ob=s.get(ib); if(!oa||!ob) return false; i64 fa=(i64)(a&0xffffffff)-0x10,fb=(i64)(b&0xffffffff)-0x10; if(fa<0||fb<0) return false;
  struct Pr{E x,y;}; vector<Pr> v; bool ended=false; u64 i=0;
  for(;i<n;i++){ if(fa+i>=oa->size||fb+i>=ob->size) return false; E x=byteAt(oa,fa+i),y=byteAt(ob,fb+i); v.push_back({x,y}); if(isC(x)&&isC(y)){ if(x->c!=y->c){ ended=true; break; } if(str&&x->c==0){ ended=true; break; } } else if(str&&((isC(x)&&x->c==0)||(isC(y)&&y->c==0))){ ended=true; break; } }
  if(!ended&&i<n) return false; E r=mkConst(0,32); E m1=mkConst(0xffffffffu,32),p1=mkConst(1,32);
  for(size_t j=v.size();j-->0;){ E eq=mkEq(v[j].x,v[j].y); E cont=r; if(str) cont=mkIte(mkEq(v[j].x,mkConst(0,8)),mkConst(0,32),r); r=mkIte(eq,cont,mkIte(mkBin(XOp::Ult,v[j].x,v[j].y),m1,p1)); }
  out=mk(r); return true; }
enum RR { R_NEXT, R_DEAD, R_JUMPED, R_FALLBACK };
static Val VC(u64 c){ return {c,nullptr}; }
static RR doBuiltin(State&s,Fn*bf,const CallI&ci,Val*a,Val&ret){
  switch(bf->builtin){
  case B_malloc: case B_calloc: case B_realloc: { Val szv= bf->builtin==B_malloc?a[0]:a[1]; u64 sz; 
      if(bf->builtin==B_calloc){ u64 n=cval(s,a[0]),m=cval(s,a[1]); unsigned __int128 p=(unsigned __int128)n*m; if(p>g_maxAlloc){ ret=VC(0); return R_NEXT; } sz=(u64)p; }
      else { if(szv.e){ State*ot; E big=mkBin(XOp::Ult,mkConst(g_maxAlloc,64),szv.e); bool isbig=decide(s,big,&ot); if(ot) pushState(ot); if(isbig){ if(bf->builtin==B_realloc) { cval(s,a[0]); } ret=VC(0); return R_NEXT; } } sz=cval(s,szv); if(sz>g_maxAlloc){ ret=VC(0); return R_NEXT; } }
      if(bf->builtin==B_realloc){ u64 p=cval(s,a[0]); if(p){ u32 id=p>>32; Obj*o=s.get(id); if(!o||o->kind!=K_HEAP||p!=addrOf(id)){ violation(s,s.model,"mem",o?"realloc of a pointer that is not a heap block":"realloc of freed memory"); return R_DEAD; } Obj*n=objNew(sz,K_HEAP,0xA5); u32 m=std::min<u64>(sz,o->size); memcpy(n->data,o->data,m); if(o->nsym){ n->sym=(E*)calloc(sz?sz:1,sizeof(E)); for(u32 i=0;i<m;i++) if(o->sym[i]){ n->sym[i]=o->sym[i]; n->nsym++; } } s.del(id); ret=VC(addrOf(s.add(n))); return R_NEXT; } }
      Obj*o=objNew(sz,K_HEAP,bf->builtin==B_calloc?0:0xA5); ret=VC(addrOf(s.add(o))); return R_NEXT; }
  case B_free: { u64 p=cval(s,a[0]); if(!p) return R_NEXT; u32 id=p>>32; Obj*o=s.get(id); if(!o||o->kind!=K_HEAP||p!=addrOf(id)){ violation(s,s.model,"mem",o?"free of a pointer that is not a heap block":"double free or free of invalid pointer"); return R_DEAD; } s.del(id); return R_NEXT; }
  case B_memcpy: case B_memmove: { u64 n=cval(s,a[2]); u64 d=cval(s,a[0]),r=cval(s,a[1]); if(!copyMem(s,d,r,n)) return R_DEAD; ret=VC(d); return R_NEXT; }
  case B_memset: { u64 n=cval(s,a[2]); u64 d=cval(s,a[0]); Val v=a[1]; if(v.e&&v.e->w>8) v=mk(mkExtract(v.e,0,8)); if(!setMem(s,d,v,n)) return R_DEAD; ret=VC(d); return R_NEXT; }
  case B_memcmp: case B_strcmp: case B_strncmp: { u64 n=~0ull; bool str=bf->builtin!=B_memcmp; if(bf->builtin!=B_strcmp) n=cval(s,a[2]); if(a[0].e||a[1].e){ cval(s,a[0]); u64 x=cval(s,a[0]),y=cval(s,a[1]); if(cmpIte(s,x,y,n,str,ret)) return R_NEXT; return R_FALLBACK; } if(n==0){ ret=VC(0); return R_NEXT; } if(cmpIte(s,a[0].c,a[1].c,n,str,ret)) return R_NEXT; return R_FALLBACK; }
  case B_setjmp: { u64 b=cval(s,a[0]); u32 id,off; if(!resolveC(s,b,8,true,id,off)) return R_DEAD; u32 k=s.jmps.size(); Frame&f=s.frames.back(); s.jmps.push_back({f.uid,f.pc,(u32)s.frames.size()}); wrObj(s.getW(id),off,64,VC(0x4a4d500000000000ull|k)); ret=VC(0); return R_NEXT; }
  case B_longjmp: { u64 b=cval(s,a[0]); u32 id,off; if(!resolveC(s,b,8,false,id,off)) return R_DEAD; Val v=rdObj(s.get(id),off,64); u32 k=(u32)v.c; if(v.e||(v.c>>32)!=0x4a4d5000||k>=s.jmps.size()){ violation(s,s.model,"mem","longjmp through an uninitialised jmp_buf"); return R_DEAD; }
      JmpRec j=s.jmps[k]; if(j.depth>s.frames.size()||s.frames[j.depth-1].uid!=j.uid){ violation(s,s.model,"mem","longjmp to a frame that has returned"); return R_DEAD; }
      u64 val=cval(s,a[1]); if(val==0) val=1; while(s.frames.size()>j.depth){ Frame&f=s.frames.back(); while(s.allocas.size()>f.alloc0){ s.del(s.allocas.back()); s.allocas.pop_back(); } s.regs.resize(f.base); s.frames.pop_back(); }
      Frame&f=s.frames.back(); s.regs.resize(f.base+f.fn->nregs); f.pc=j.pc; Inst&I=f.fn->code[f.pc]; if(I.dst>=0) s.regs[f.base+I.dst]=VC(val&0xffffffff); f.pc++; return R_JUMPED; }
  case B_abort: violation(s,s.model,"abort","abort() called"); return R_DEAD;
  case B_exit: finishPath(s); return R_DEAD;
  case B_floor: case B_ceil: case B_trunc: case B_rint: case B_round: { int m=bf->builtin==B_floor?0:bf->builtin==B_ceil?1:bf->builtin==B_trunc?2:bf->builtin==B_rint?3:4; ret=mk(mkFRnd(ex(a[0],64),m)); return R_NEXT; }
  case B_sqrt: ret=mk(mkFSqrt(ex(a[0],64))); return R_NEXT;
  case B_fabs: ret=mk(mkBin(XOp::And,ex(a[0],64),mkConst(0x7fffffffffffffffull,64))); return R_NEXT;
  case B_uf+11 ... B_uf+39: ret=mk(mkUF(bf->builtin-B_uf,ex(a[0],64),mkConst(0,64))); return R_NEXT;
  case B_uf+40 ... B_uf+60: ret=mk(mkUF(bf->builtin-B_uf,ex(a[0],64),ex(a[1],64))); return R_NEXT;
  case B_uf+70 ... B_uf+99: { E x=ex(a[0],32); E y=bf->builtin>=B_uf+90?ex(a[1],32):mkConst(0,32); ret=mk(mkExtract(mkUF(bf->builtin-B_uf,mkZExt(x,64),mkZExt(y,64)),0,32)); return R_NEXT; }
  case B_fmod: ret=mk(mkFBin(XOp::FRem,ex(a[0],64),ex(a[1],64))); return R_NEXT;
  case B_sin:case B_cos:case B_tan:case B_asin:case B_acos:case B_atan:case B_exp:case B_log:case B_log10:case B_atan2:case B_pow: { static const std::map<int,int> fm={{B_sin,0},{B_cos,1},{B_tan,2},{B_asin,3},{B_acos,4},{B_atan,5},{B_atan2,6},{B_exp,7},{B_log,8},{B_log10,9},{B_pow,10}}; int f=fm.at(bf->builtin); E x=ex(a[0],64); E y=(f==6||f==10)?ex(a[1],64):mkConst(0,64); ret=mk(mkUF(f,x,y)); return R_NEXT; }
  case B_sym_u64: { string nm; u64 p=cval(s,a[0]); readCStr(s,p,nm); u64 w=cval(s,a[1]); u32 idx=s.inputs.size(); s.inputs.push_back({internStr(nm),(u8)w}); if(g_conc){ u64 v=idx<g_concIn.size()?g_concIn[idx]:0; ret=VC(v&maskw(w)); if(s.model.size()<=idx) s.model.resize(idx+1,0); s.model[idx]=v; return R_NEXT; } if(s.model.size()<=idx) s.model.resize(idx+1,0); ret=mk(mkZExt(mkSym(w,idx),64)); return R_NEXT; }
  case B_sym_assume: { Val c=a[0]; E e=c.e? mkNot(mkEq(c.e,mkConst(0,c.e->w))) : mkConst(c.c!=0,1); if(isC(e)){ if(!e->c){ st_assumeKilled++; return R_DEAD; } return R_NEXT; } if(evalExpr(e,s.model)){ addPc(s,e); return R_NEXT; } Model m; SR r=query(s,e,m); if(r==SR::Sat){ s.model=m; addPc(s,e); return R_NEXT; } if(r==SR::Unknown) incomplete(s,"solver unknown in assume"); st_assumeKilled++; return R_DEAD; }
  case B_sym_check: { string lb; readCStr(s,cval(s,a[1]),lb); st_checks++; g_checks[lb]++; Val c=a[0]; E e=c.e? mkNot(mkEq(c.e,mkConst(0,c.e->w))) : mkConst(c.c!=0,1); if(isC(e)){ if(!e->c){ violation(s,s.model,"check",lb); return R_DEAD; } return R_NEXT; } st_checkQueries++; 
      Model m; E ne=mkNot(e); SR r; if(!evalExpr(e,s.model)){ m=s.model; r=SR::Sat; } else r=query(s,ne,m);
      if(r==SR::Sat){ violation(s,m,"check",lb); Model m2; if(query(s,e,m2)==SR::Sat){ s.model=m2; addPc(s,e); return R_NEXT; } return R_DEAD; } if(r==SR::Unknown) incomplete(s,"solver unknown on check "+lb); addPc(s,e); return R_NEXT; }
  case B_sym_cover: { string lb; readCStr(s,cval(s,a[0]),lb); g_cover[lb]++; return R_NEXT; }
  case B_sym_out: { s.log.push_back(a[0]); return R_NEXT; }
  case B_sym_conc: { ret=VC(cval(s,a[0])); return R_NEXT; }
  case B_sym_is: ret=VC(a[0].e!=nullptr); return R_NEXT;
  case B_sym_param: { string nm; readCStr(s,cval(s,a[0]),nm); auto it=g_params.find(nm); if(it!=g_params.end()) ret=VC((u64)it->second); else ret=VC(cval(s,a[1])); return R_NEXT; }
  case B_sym_end: finishPath(s); return R_DEAD;
  case B_sym_alive: { u64 p=cval(s,a[0]); u32 id=p>>32; Obj*o=s.get(id); ret=VC(o!=nullptr); return R_NEXT; }
  case B_sym_live: { u64 n=0; for(u32 i=0;i<s.nextId;i++){ Obj*o=s.get(i); if(o&&o->kind==K_HEAP) n++; } ret=VC(n); return R_NEXT; }
  case B_hostfmt: { string fm; readCStr(s,cval(s,a[2]),fm); u64 d=cval(s,a[3]); double x; memcpy(&x,&d,8); char b[512]; int n=snprintf(b,sizeof b,fm.c_str(),x); u64 bp=cval(s,a[0]),cap=cval(s,a[1]); u32 id,off; if(!resolveC(s,bp,cap,true,id,off)) return R_DEAD; Obj*o=s.getW(id); for(int i=0;i<n&&(u64)i<cap;i++) wrObj(o,off+i,8,VC((u8)b[i])); ret=VC(n); return R_NEXT; }
  case B_hoststrtod: { string t; readCStr(s,cval(s,a[0]),t); double x=strtod(t.c_str(),nullptr); u64 v; memcpy(&v,&x,8); ret=VC(v); return R_NEXT; }
  case B_sym_putdbg: { if(g_verbose){ string nm; readCStr(s,cval(s,a[0]),nm); fprintf(stderr,"[dbg] %s %s\n",nm.c_str(),a[1].e?exprStr(a[1].e).c_str():std::to_string(a[1].c).c_str()); } return R_NEXT; }
  }
  return R_FALLBACK; }
static void enter(State&s,Fn*fn,Val*args,const CallI*ci,unsigned nargs){
  decodeFn(fn); fn->executed=true; Frame f; f.fn=fn; f.pc=0; f.base=s.regs.size(); f.alloc0=s.allocas.size(); f.vaId=0; f.uid=s.uidc++; s.regs.resize(f.base+fn->nregs,VC(0));
  for(unsigned i=0;i<fn->nparams;i++) s.regs[f.base+i]= i<nargs?args[i]:VC(0);
  s.frames.push_back(f);
  for(auto&bp:fn->byvalParams){ u64 src=s.regs[f.base+bp.first].c; u32 sid=src>>32; Obj*so=s.get(sid); Obj*o=objNew(bp.second,K_STACK,0); u32 so_off=(u32)src-0x10; if(so&&so_off+bp.second<=so->size){ memcpy(o->data,so->data+so_off,bp.second); if(so->nsym){ o->sym=(E*)calloc(bp.second,sizeof(E)); for(u32 i=0;i<bp.second;i++) if(so->sym[so_off+i]){ o->sym[i]=so->sym[so_off+i]; o->nsym++; } } } u32 id=s.add(o); s.allocas.push_back(id); s.regs[f.base+bp.first]=VC(addrOf(id)); }
  if(fn->vararg){ unsigned nv=nargs>fn->nparams?nargs-fn->nparams:0; Obj*o=objNew(nv*8+8,K_STACK,0); for(unsigned i=0;i<nv;i++){ Val v=args[fn->nparams+i]; if(v.e&&v.e->w<64) v=mk(mkZExt(v.e,64)); wrObj(o,i*8,64,v); } u32 id=s.add(o); s.allocas.push_back(id); s.frames.back().vaId=id; }
}
static void takeEdge(State&s,Frame*f,u32 e){ Edge&ed=f->fn->edges[e]; Val*R=&s.regs[f->base]; auto&mv=ed.mv; size_t n=mv.size(); if(n==1){ i32 o=mv[0].second; R[mv[0].first]= o>=0?R[o]:f->fn->consts[~o]; } else if(n){ Val tmp[64]; vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++){ i32 o=mv[i].second; t[i]= o>=0?R[o]:f->fn->consts[~o]; } for(size_t i=0;i<n;i++) R[mv[i].first]=t[i]; } f->pc=ed.pc; }
static Val fcmp(unsigned pred,Val a,Val b,unsigned w){ // llvm predicates 0..15
  E x=ex(a,w),y=ex(b,w); E r; bool uno=pred>=8; // FCMP_FALSE0 OEQ1 OGT2 OGE3 OLT4 OLE5 ONE6 ORD7 UNO8 UEQ9 UGT10 UGE11 ULT12 ULE13 UNE14 TRUE15
  switch(pred){ case 0:return VC(0); case 15:return VC(1); case 1:r=mkFBin(XOp::FOeq,x,y);break; case 2:r=mkFBin(XOp::FOlt,y,x);break; case 3:r=mkFBin(XOp::FOle,y,x);break; case 4:r=mkFBin(XOp::FOlt,x,y);break; case 5:r=mkFBin(XOp::FOle,x,y);break;
   case 6:r=mkOr1(mkFBin(XOp::FOlt,x,y),mkFBin(XOp::FOlt,y,x));break; case 7:r=mkNot(mkFBin(XOp::FUno,x,y));break; case 8:r=mkFBin(XOp::FUno,x,y);break; case 9:r=mkOr1(mkFBin(XOp::FUno,x,y),mkFBin(XOp::FOeq,x,y));break; case 10:r=mkNot(mkFBin(XOp::FOle,x,y));break; case 11:r=mkNot(mkFBin(XOp::FOlt,x,y));break; case 12:r=mkNot(mkFBin(XOp::FOle,y,x));break; case 13:r=mkNot(mkFBin(XOp::FOlt,y,x));break; case 14:r=mkNot(mkFBin(XOp::FOeq,x,y));break; default:abort(); }
  (void)uno; return mk(r); }
#define OP(i) ((i)>=0? R[i] : K[~(i)])
static void runState(State*sp){ State&s=*sp; u64 tick=0;
  for(;;){ // frame (re)entry
    Frame*f=&s.frames.back(); Val*R=s.regs.data()+f->base; const Val*K=f->fn->consts.data(); const Inst*code=f->fn->code.data();
    bool reenter=false;
    while(!reenter){
      const Inst&I=code[f->pc]; s.steps++; 
      if((++tick&0xfff)==0){ if(s.steps>g_maxSteps){ g_hung++; violation(s,s.model,"hang","no termination within the step budget"); st_steps+=tick; delete sp; return; } if((tick&0xffff)==0&&now()-t_start>g_timeout){ incomplete(s,"time budget"); st_steps+=tick; delete sp; return; } if((tick&0xffff)==0&&pastGrace()){ incomplete(s,GRACE); st_steps+=tick; delete sp; return; } }
      switch(I.op){
      case IOp::Bin: { Val a=OP(I.a),b=OP(I.b); XOp o=(XOp)I.sub;
        if(__builtin_expect(!a.e&&!b.e,1)){ if(o>=XOp::UDiv&&o<=XOp::SRem){ if((b.c&maskw(I.w))==0){ violation(s,s.model,"div0","integer division by zero"); goto dead; } if((o==XOp::SDiv||o==XOp::SRem)&&I.w>=32&&sextw(b.c,I.w)==-1&&(a.c&maskw(I.w))==(1ull<<(I.w-1))){ violation(s,s.model,"div0","signed division overflow"); goto dead; } }
           switch(o){ case XOp::Add:R[I.dst]=VC((a.c+b.c)&maskw(I.w));break; case XOp::Sub:R[I.dst]=VC((a.c-b.c)&maskw(I.w));break; case XOp::And:R[I.dst]=VC(a.c&b.c);break; case XOp::Or:R[I.dst]=VC(a.c|b.c);break; default:R[I.dst]=VC(concBin(o,a.c,b.c,I.w)); } }
        else { E x=ex(a,I.w),y=ex(b,I.w); if(o>=XOp::UDiv&&o<=XOp::SRem){ E z=mkEq(y,mkConst(0,I.w)); State*ot; bool v=decide(s,z,&ot); if(v){ violation(s,s.model,"div0","integer division by zero"); if(ot) pushState(ot); goto dead; } if(ot){ violation(*ot,ot->model,"div0","integer division by zero"); delete ot; }
             if((o==XOp::SDiv||o==XOp::SRem)&&I.w>=32){ E ov=mkAnd1(mkEq(y,mkConst(~0ull,I.w)),mkEq(x,mkConst(1ull<<(I.w-1),I.w))); bool v2=decide(s,ov,&ot); if(v2){ violation(s,s.model,"div0","signed division overflow"); if(ot) pushState(ot); goto dead; } if(ot){ violation(*ot,ot->model,"div0","signed division overflow"); delete ot; } } }
           R[I.dst]=mk(mkBin(o,x,y)); }
        f->pc++; break; }
      case IOp::FBin: { Val a=OP(I.a),b=OP(I.b); if(!a.e&&!b.e) R[I.dst]=VC(concF((XOp)I.sub,a.c,b.c,I.w)); else R[I.dst]=mk(mkFBin((XOp)I.sub,ex(a,I.w),ex(b,I.w))); f->pc++; break; }
      case IOp::ICmp: { Val a=OP(I.a),b=OP(I.b); if(!a.e&&!b.e) R[I.dst]=VC(concBin((XOp)I.sub,a.c,b.c,I.w)^I.w2); else { E r=mkBin((XOp)I.sub,ex(a,I.w),ex(b,I.w)); if(I.w2) r=mkNot(r); R[I.dst]=mk(r); } f->pc++; break; }
      case IOp::FCmp: R[I.dst]=fcmp(I.sub,OP(I.a),OP(I.b),I.w); f->pc++; break;
      case IOp::FNeg: { Val a=OP(I.a); u64 sb=1ull<<(I.w-1); if(!a.e) R[I.dst]=VC(a.c^sb); else R[I.dst]=mk(mkBin(XOp::Xor,a.e,mkConst(sb,I.w))); f->pc++; break; }
      case IOp::Cast: { Val a=OP(I.a); if(!a.e) R[I.dst]=VC(I.sub? (u64)sextw(a.c,I.w2)&maskw(I.w) : a.c&maskw(I.w)); else if(I.w<I.w2) R[I.dst]=mk(mkExtract(a.e,0,I.w)); else R[I.dst]=mk(I.sub?mkSExt(a.e,I.w):mkZExt(a.e,I.w)); f->pc++; break; }
      case IOp::Conv: R[I.dst]=mk(mkConv((XOp)I.sub,ex(OP(I.a),I.w2),I.w)); f->pc++; break;
      case IOp::Mov: { for(unsigned i=0;i<I.n;i++){ i32 o=I.a>=0?I.a+(i32)i:~((~I.a)+(i32)i); Val v=OP(o); R[I.dst+i]=v; } f->pc++; break; }
      case IOp::Load: { Val a=OP(I.a); Val out; if(!load(s,a,I.x,I.w,out)) goto dead; R[I.dst]=out; f->pc++; break; }
      case IOp::Store: { Val a=OP(I.a),v=OP(I.b); if(!store(s,a,I.x,I.w,v)) goto dead; f->pc++; break; }
      case IOp::Gep: { Val b=OP(I.a); const GepI&g=f->fn->geps[I.x]; u64 c=g.cst; E e=b.e; if(!e) c+=b.c; for(size_t i=0;i<g.idx.size();i++){ Val x=OP(g.idx[i].first); if(!x.e) c+=(u64)sextw(x.c,g.iw[i])*g.idx[i].second; else { E t=mkBin(XOp::Mul,mkSExt(x.e,64),mkConst(g.idx[i].second,64)); e=e?mkBin(XOp::Add,e,t):t; } }
        R[I.dst]= e? mk(mkBin(XOp::Add,e,mkConst(c,64))) : VC(c); f->pc++; break; }
      case IOp::Alloca: { u64 n=cval(s,OP(I.a)); u32 id=s.add(objNew((u32)(n*I.x),K_STACK,0xA5)); s.allocas.push_back(id); R=s.regs.data()+f->base; R[I.dst]=VC(addrOf(id)); f->pc++; break; }
      case IOp::Br: takeEdge(s,f,I.x); break;
      case IOp::CondBr: { Val c=OP(I.a); if(!c.e){ takeEdge(s,f,(c.c&1)?I.x:I.y); break; } State*ot; bool v=decide(s,c.e,&ot); if(ot){ takeEdge(*ot,&ot->frames.back(),v?I.y:I.x); pushState(ot); } takeEdge(s,f,v?I.x:I.y); if(ot){ maybeFork(s); if(s.dead) goto dead; } break; }
      case IOp::Switch: { Val c=OP(I.a); const SwitchI&sw=f->fn->sws[I.x]; if(!c.e){ u32 e=sw.def; for(auto&p:sw.cases) if(p.first==(c.c&maskw(I.w))){ e=p.second; break; } takeEdge(s,f,e); break; }
        u64 v=evalExpr(c.e,s.model)&maskw(I.w); u32 e=sw.def; bool found=false; for(auto&p:sw.cases) if(p.first==v){ e=p.second; found=true; break; }
        E mine; if(found){ mine=mkConst(0,1); for(auto&p:sw.cases) if(p.second==e) mine=mkOr1(mine,mkEq(c.e,mkConst(p.first,I.w))); } else { mine=mkConst(1,1); for(auto&p:sw.cases) mine=mkAnd1(mine,mkNot(mkEq(c.e,mkConst(p.first,I.w)))); }
        State*ot; decide(s,mine,&ot); if(ot) pushState(ot); takeEdge(s,f,e); if(ot){ maybeFork(s); if(s.dead) goto dead; } break; }
      case IOp::Select: { Val c=OP(I.a); if(!c.e) R[I.dst]= (c.c&1)?OP(I.b):OP(I.c); else { Val a=OP(I.b),b=OP(I.c); if(!a.e&&!b.e&&a.c==b.c) R[I.dst]=a; else R[I.dst]=mk(mkIte(c.e,ex(a,I.w),ex(b,I.w))); } f->pc++; break; }
      case IOp::Ret: { unsigned n=f->fn->retN; Val rv[8]; for(unsigned i=0;i<n&&i<8;i++){ i32 o=I.a>=0?I.a+(i32)i:~((~I.a)+(i32)i); rv[i]=OP(o); } while(s.allocas.size()>f->alloc0){ s.del(s.allocas.back()); s.allocas.pop_back(); } s.regs.resize(f->base); s.frames.pop_back();
        if(s.frames.empty()){ finishPath(s); st_steps+=tick; delete sp; return; } f=&s.frames.back(); const Inst&C=f->fn->code[f->pc]; if(C.dst>=0) for(unsigned i=0;i<n&&i<C.n;i++) s.regs[f->base+C.dst+i]=rv[i]; f->pc++; reenter=true; break; }
      case IOp::Call: { const CallI&ci=f->fn->calls[I.x]; Fn*fn=ci.fn; if(!fn){ u64 p=cval(s,OP(ci.target)); u32 id=p>>32; Obj*o=s.get(id); if(!o||o->kind!=K_FUNC||p!=addrOf(id)){ violation(s,s.model,"mem",p==0?"call through null function pointer":"call through invalid function pointer"); goto dead; } fn=o->fn; }
        Val av[64]; unsigned n=ci.args.size(); if(n>64) n=64; for(unsigned i=0;i<n;i++) av[i]=OP(ci.args[i]);
        if(fn->builtin>=0){ Val ret=VC(0); RR r=doBuiltin(s,fn,ci,av,ret); if(r==R_DEAD) goto dead; if(r==R_NEXT){ f=&s.frames.back(); if(I.dst>=0){ if(I.w&&I.w<64){ if(ret.e){ if(ret.e->w>I.w) ret=mk(mkExtract(ret.e,0,I.w)); } else ret.c&=maskw(I.w); } s.regs[f->base+I.dst]=ret; } f->pc++; R=s.regs.data()+f->base; if(!g_work.empty()){ maybeFork(s); if(s.dead) goto dead; } break; } if(r==R_JUMPED){ reenter=true; break; } 
           if(fn->decl){ auto it=P->byName.find("__c_"+fn->name); if(it==P->byName.end()){ incomplete(s,"builtin fallback missing: "+fn->name); goto dead; } fn=it->second; } }
        if(fn->decl){ incomplete(s,"unmodelled external function "+fn->name); goto dead; }
        if(s.frames.size()>30000){ violation(s,s.model,"stack","stack exhausted by recursion"); goto dead; }
        enter(s,fn,av,&ci,n); reenter=true; break; }
      case IOp::Unreach: violation(s,s.model,"trap",I.sub?"trap executed":"unreachable code executed"); goto dead;
      case IOp::MemCpy: { u64 n=cval(s,OP(I.c)); u64 d=cval(s,OP(I.a)),r=cval(s,OP(I.b)); if(!copyMem(s,d,r,n)) goto dead; f->pc++; break; }
      case IOp::MemSet: { u64 n=cval(s,OP(I.c)); u64 d=cval(s,OP(I.a)); if(!setMem(s,d,OP(I.b),n)) goto dead; f->pc++; break; }
      case IOp::VaStart: { u64 p=cval(s,OP(I.a)); u32 id,off; if(!resolveC(s,p,24,true,id,off)) goto dead; Obj*o=s.getW(id); wrObj(o,off,32,VC(48)); wrObj(o,off+4,32,VC(176)); wrObj(o,off+8,64,VC(addrOf(f->vaId))); wrObj(o,off+16,64,VC(0)); f->pc++; break; }
      case IOp::Intr: { Val a=OP(I.a); unsigned w=I.w; E x; 
        switch(I.sub){
        case 1: case 2: case 3: case 4: case 5: case 6: { Val b=OP(I.b); E p=ex(a,w),q=ex(b,w); E r,ov; 
            if(I.sub==1||I.sub==2){ r=mkBin(XOp::Add,p,q); if(I.sub==2) ov=mkBin(XOp::Ult,r,p); else { E t=mkBin(XOp::And,mkBin(XOp::Xor,r,p),mkBin(XOp::Xor,r,q)); ov=mkExtract(t,w-1,1); } }
            else if(I.sub==3||I.sub==4){ r=mkBin(XOp::Sub,p,q); if(I.sub==4) ov=mkBin(XOp::Ult,p,q); else { E t=mkBin(XOp::And,mkBin(XOp::Xor,p,q),mkBin(XOp::Xor,r,p)); ov=mkExtract(t,w-1,1); } }
            else { r=mkBin(XOp::Mul,p,q); ov=mkBin(I.sub==5?XOp::SMulO:XOp::UMulO,p,q); }
            R[I.dst]=mk(r); R[I.dst+1]=mk(ov); break; }
        case 7: case 8: case 9: case 10: { E p=ex(a,w),q=ex(OP(I.b),w); E c= I.sub<=8? mkBin(XOp::Slt,p,q):mkBin(XOp::Ult,p,q); bool mx=I.sub==7||I.sub==9; R[I.dst]=mk(mx?mkIte(c,q,p):mkIte(c,p,q)); break; }
        case 11: { E p=ex(a,w); R[I.dst]=mk(mkIte(mkBin(XOp::Slt,p,mkConst(0,w)),mkBin(XOp::Sub,mkConst(0,w),p),p)); break; }
        case 12: { E p=ex(a,w),q=ex(OP(I.b),w); R[I.dst]=mk(mkIte(mkBin(XOp::Ult,p,q),mkConst(0,w),mkBin(XOp::Sub,p,q))); break; }
        case 13: { E p=ex(a,w),q=ex(OP(I.b),w); E r=mkBin(XOp::Add,p,q); R[I.dst]=mk(mkIte(mkBin(XOp::Ult,r,p),mkConst(~0ull,w),r)); break; }
        case 20: x=ex(a,w); R[I.dst]=mk(mkBin(XOp::And,x,mkConst(maskw(w)>>1,w))); break;
        case 21: case 22: case 23: case 24: case 25: R[I.dst]=mk(mkFRnd(ex(a,w),I.sub-21)); break;
        case 26: R[I.dst]=mk(mkFSqrt(ex(a,w))); break;
        case 27: case 28: case 29: { if(!a.e){ u64 v=a.c&maskw(w); u64 r= I.sub==27?__builtin_popcountll(v): I.sub==28?(v?__builtin_clzll(v)-(64-w):w):(v?__builtin_ctzll(v):w); R[I.dst]=VC(r); } else { E r=mkConst(I.sub==27?0:w,w); if(I.sub==27) for(unsigned i=0;i<w;i++) r=mkBin(XOp::Add,r,mkZExt(mkExtract(a.e,i,1),w)); else if(I.sub==28) for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(a.e,i,1),mkConst(w-1-i,w),r); else for(unsigned i=w;i-->0;) r=mkIte(mkExtract(a.e,i,1),mkConst(i,w),r); R[I.dst]=mk(r); } break; }
        case 30: { E p=ex(a,w); E r=mkExtract(p,0,8); for(unsigned i=8;i<w;i+=8) r=mkConcat(r,mkExtract(p,i,8)); R[I.dst]=mk(r); break; }
        case 40: { E p=ex(a,w),q=ex(OP(I.b),w),r=ex(OP(I.c),w); R[I.dst]=mk(mkFBin(XOp::FAdd,mkFBin(XOp::FMul,p,q),r)); break; }
        case 41: case 42: { E p=ex(a,w),q=ex(OP(I.b),w),c=ex(OP(I.c),w); E sh=mkBin(XOp::URem,c,mkConst(w,w)); E in=mkBin(XOp::Sub,mkConst(w,w),sh); if(I.sub==41) R[I.dst]=mk(mkBin(XOp::Or,mkBin(XOp::Shl,p,sh),mkBin(XOp::LShr,q,in))); else R[I.dst]=mk(mkBin(XOp::Or,mkBin(XOp::Shl,p,in),mkBin(XOp::LShr,q,sh))); break; }
        case 43: { E p=ex(a,w); E r=mkConst(0,1); E ab=mkBin(XOp::And,p,mkConst(maskw(w)>>1,w)); u64 inf=w==64?0x7ff0000000000000ull:0x7f800000ull; E neg=mkExtract(p,w-1,1); u64 qb=w==64?1ull<<51:1ull<<22; E nan=mkBin(XOp::Ult,mkConst(inf,w),ab); E isInf=mkEq(ab,mkConst(inf,w)); E zero=mkEq(ab,mkConst(0,w)); E ex0=mkBin(XOp::Ult,ab,mkConst(qb<<1,w)); E sub_=mkAnd1(ex0,mkNot(zero)); E norm=mkAnd1(mkNot(ex0),mkBin(XOp::Ult,ab,mkConst(inf,w))); E quiet=mkNot(mkEq(mkBin(XOp::And,p,mkConst(qb,w)),mkConst(0,w))); u32 m=I.x; auto orr=[&](u32 bit,E c){ if(m&bit) r=mkOr1(r,c); }; orr(1,mkAnd1(nan,mkNot(quiet))); orr(2,mkAnd1(nan,quiet)); orr(4,mkAnd1(isInf,neg)); orr(8,mkAnd1(norm,neg)); orr(16,mkAnd1(sub_,neg)); orr(32,mkAnd1(zero,neg)); orr(64,mkAnd1(zero,mkNot(neg))); orr(128,mkAnd1(sub_,mkNot(neg))); orr(256,mkAnd1(norm,mkNot(neg))); orr(512,mkAnd1(isInf,mkNot(neg))); R[I.dst]=mk(r); break; }
        case 44: { E p=ex(a,w),q=ex(OP(I.b),w); u64 sb=1ull<<(w-1); R[I.dst]=mk(mkBin(XOp::Or,mkBin(XOp::And,p,mkConst(sb-1,w)),mkBin(XOp::And,q,mkConst(sb,w)))); break; }
        case 45: case 46: { E p=ex(a,w),q=ex(OP(I.b),w); E c= I.sub==45? mkFBin(XOp::FOlt,p,q):mkFBin(XOp::FOlt,q,p); R[I.dst]=mk(mkIte(mkOr1(c,mkFBin(XOp::FUno,q,q)),p,q)); break; }
        default: incomplete(s,"intrinsic"); goto dead; }
        f->pc++; break; }
      default: incomplete(s,"unsupported instruction: "+ (I.op==IOp::Bad? *(string*)(uintptr_t)f->fn->consts[I.x].c : string("?"))); goto dead;
      }
    }
    continue;
    dead: st_steps+=tick; delete sp; return;
  }
}
// split work across processes
static bool g_isChild=false; static void statLine();
static void maybeFork(State&cur){ if(!g_tok||g_work.empty()) return; int a=g_tok[0].load(); int mx=g_tok[1].load(); if(a>=mx) return; if(!g_tok[0].compare_exchange_strong(a,a+1)) return;
  size_t take=(g_work.size()+1)/2; pid_t p=fork(); if(p<0){ g_tok[0]--; return; }
  if(p==0){ g_isChild=true; g_kids.clear(); while(g_work.size()>take){ /* keep the oldest 'take' */ delete g_work.back(); g_work.pop_back(); } cur.dead=true; st_paths=st_forks=st_steps=st_checks=st_checkQueries=st_killed=st_incomplete=st_errors=st_assumeKilled=st_conc=0; g_cover.clear(); g_checks.clear(); g_incWhy.clear(); g_hung=0; g_sst=SolverStats(); }
  else { for(size_t i=0;i<take;i++){ delete g_work.front(); g_work.pop_front(); } g_kids.push_back(p); } }
static void statLine(){ string r="{\"t\":\"stat\",\"entry\":\""+g_entry+"\",\"paths\":"+std::to_string(st_paths)+",\"forks\":"+std::to_string(st_forks)+",\"steps\":"+std::to_string(st_steps)+",\"checks\":"+std::to_string(st_checks)+",\"check_queries\":"+std::to_string(st_checkQueries)+",\"assume_killed\":"+std::to_string(st_assumeKilled)+",\"incomplete\":"+std::to_string(st_incomplete)+",\"errors\":"+std::to_string(st_errors)+",\"conc\":"+std::to_string(st_conc)+",\"queries\":"+std::to_string(g_sst.queries)+",\"cache_hits\":"+std::to_string(g_sst.cacheHits)+",\"sat\":"+std::to_string(g_sst.sat)+",\"unsat\":"+std::to_string(g_sst.unsat)+",\"unknown\":"+std::to_string(g_sst.unknown)+",\"solver_s\":"+std::to_string(g_sst.secs)+",\"max_query_s\":"+std::to_string(g_sst.maxSecs);
  auto mp=[&](const char*n,std::map<string,u64>&m){ r+=string(",\"")+n+"\":{"; bool f=true; for(auto&p:m){ if(!f) r+=","; f=false; r+="\""+jesc(p.first)+"\":"+std::to_string(p.second); } r+="}"; }; mp("cover",g_cover); mp("checks_by",g_checks);
  r+=",\"why\":["; for(size_t i=0;i<g_incWhy.size();i++){ if(i) r+=","; r+="\""+jesc(g_incWhy[i])+"\""; } r+="],\"funcs\":["; bool f=true; for(Fn*fn:P->fns) if(fn->executed&&fn->fromRepo){ if(!f) r+=","; f=false; r+="\""+jesc(fn->name)+"\""; } r+="]}"; emit(r); }
int main(int argc,char**argv){ vector<string> files; string out; int jobs=1; const char*tokf=nullptr;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--entry") g_entry=nx(); else if(a=="--out") out=nx(); else if(a=="--jobs") jobs=stoi(nx()); else if(a=="--timeout") g_timeout=stod(nx()); else if(a=="--maxsteps") g_maxSteps=stoull(nx()); else if(a=="--param"){ string p=nx(); size_t e=p.find('='); g_params[p.substr(0,e)]=stoll(p.substr(e+1)); } else if(a=="--tokens"){ static string t; t=nx(); tokf=t.c_str(); } else if(a=="--rlimit") g_rlimit=stoull(nx()); else if(a=="--samples") g_pathSamples=stoi(nx()); else if(a=="--grace") g_grace=stod(nx()); else if(a=="-v") g_verbose=true; else if(a=="--dump"){ static string t; t=nx(); g_dumpDir=t.c_str(); g_dumpMax=20; }
    else if(a=="--conc"){ g_conc=true; string t=nx(); if(FILE*f=fopen(t.c_str(),"r")){ unsigned long long v; while(fscanf(f,"%llu",&v)==1) g_concIn.push_back(v); fclose(f);} } else files.push_back(a); }
  if(!out.empty()){ g_outFd=open(out.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); }
  { struct rlimit rl={(rlim_t)6<<30,(rlim_t)6<<30}; setrlimit(RLIMIT_DATA,&rl); }
  if(g_grace>0){ g_violAt=(double*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *g_violAt=0; }
  t_start=now(); P=loadProgram(files); bindBuiltins();
  if(tokf){ int fd=open(tokf,O_RDWR); g_tok=(std::atomic<int>*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); if(g_tok==MAP_FAILED){ perror("mmap"); return 3; } for(;;){ int a=g_tok[0].load(); if(a<g_tok[1].load()&&g_tok[0].compare_exchange_strong(a,a+1)) break; usleep(2000); } t_start=now(); } else if(jobs>1){ g_tok=(std::atomic<int>*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); g_tok[0]=1; g_tok[1]=jobs; }
  State*s=new State; s->nextId=0; for(u32 i=0;i<P->nextId;i++) s->add(nullptr);
  for(auto&g:P->globals){ Obj*o=objNew(g.size,g.fn?K_FUNC:K_GLOBAL,0); o->ro=g.ro; o->fn=g.fn; if(!g.data.empty()) memcpy(o->data,g.data.data(),g.data.size()); s->own(g.id>>8)->o[g.id&255]=o; }
  auto it=P->byName.find(g_entry); if(it==P->byName.end()||it->second->decl){ fprintf(stderr,"nsym: no entry %s\n",g_entry.c_str()); return 3; }
  enter(*s,it->second,nullptr,nullptr,0); g_work.push_back(s);
  while(!g_work.empty()){ if(pastGrace()){ incomplete(*g_work.back(),GRACE); break; } if(now()-t_start>g_timeout){ incomplete(*g_work.back(),"time budget ("+std::to_string(g_work.size())+" states left)"); break; } State*n=g_work.back(); g_work.pop_back(); runState(n); }
  statLine(); if(g_tok) g_tok[0]--; int rc=0; for(pid_t p:g_kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ rc=4; if(WIFSIGNALED(st)||WEXITSTATUS(st)!=4){ emit("{\"t\":\"crash\",\"entry\":\""+g_entry+"\",\"status\":"+std::to_string(st)+"}"); if(g_tok) g_tok[0]--; } } }
  fflush(stdout); _exit(rc); }
