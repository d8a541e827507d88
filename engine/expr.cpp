#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <cfenv>
static const size_t ARENA=4096;
static std::vector<Expr*> arena; static size_t arenaUsed=ARENA; static u32 nextId=1;
struct Tab { std::vector<Expr*> t; size_t n=0; Tab(){ t.assign(1<<16,nullptr);} } tab;
static u64 mix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
static E intern(XOp op,unsigned w,u32 aux,u64 c,E a=nullptr,E b=nullptr,E d=nullptr){
  u64 h=mix(((u64)op<<56)^((u64)w<<48)^aux); h=mix(h^c);
  if(a) h=mix(h*31+a->id); if(b) h=mix(h*31+b->id); if(d) h=mix(h*31+d->id);
  size_t m=tab.t.size()-1, i=h&m;
  while(Expr*x=tab.t[i]){ if(x->hash==h&&x->op==op&&x->w==w&&x->aux==aux&&x->c==c&&x->k[0]==a&&x->k[1]==b&&x->k[2]==d) return x; i=(i+1)&m; }
  if(arenaUsed==ARENA){ arena.push_back((Expr*)calloc(ARENA,sizeof(Expr))); arenaUsed=0; }
  Expr*x=new(&arena.back()[arenaUsed++]) Expr();
  x->op=op;x->w=w;x->aux=aux;x->id=nextId++;x->hash=h;x->c=c;x->k[0]=a;x->k[1]=b;x->k[2]=d;
  if(a)x->syms.uni(a->syms); if(b)x->syms.uni(b->syms); if(d)x->syms.uni(d->syms);
  if(op==XOp::Sym) x->syms.set((u32)c);
  tab.t[i]=x; tab.n++;
  if(tab.n*2>tab.t.size()){ std::vector<Expr*> nt(tab.t.size()*2,nullptr); size_t mm=nt.size()-1; for(Expr*y:tab.t) if(y){ size_t j=y->hash&mm; while(nt[j]) j=(j+1)&mm; nt[j]=y; } tab.t.swap(nt); }
  return x;
}
E mkConst(u64 v,unsigned w){ return intern(XOp::Const,w,0,v&maskw(w)); }
E mkSym(unsigned w,u32 idx){ return intern(XOp::Sym,w,0,idx); }

u64 concBin(XOp op,u64 a,u64 b,unsigned w){ u64 m=maskw(w); a&=m;b&=m;
  switch(op){
  case XOp::Add:return (a+b)&m; case XOp::Sub:return (a-b)&m; case XOp::Mul:return (a*b)&m;
  case XOp::UDiv:return b? a/b : m; case XOp::URem:return b? a%b : a;
  case XOp::SDiv:{ if(!b) return sextw(a,w)<0?1:m; i64 x=sextw(a,w),y=sextw(b,w); if(y==-1) return (0-a)&m; return (u64)(x/y)&m; }
  case XOp::SRem:{ if(!b) return a; i64 x=sextw(a,w),y=sextw(b,w); if(y==-1) return 0; return (u64)(x%y)&m; }
  case XOp::And:return a&b; case XOp::Or:return a|b; case XOp::Xor:return a^b;
  case XOp::Shl:return b>=w?0:(a<<b)&m; case XOp::LShr:return b>=w?0:a>>b;
  case XOp::AShr:{ i64 x=sextw(a,w); return (u64)(x>>(b>=w?w-1:b))&m; }
  case XOp::Eq:return a==b; case XOp::Ult:return a<b; case XOp::Ule:return a<=b;
  case XOp::Slt:return sextw(a,w)<sextw(b,w); case XOp::Sle:return sextw(a,w)<=sextw(b,w);
  case XOp::SMulO:{ __int128 p=(__int128)sextw(a,w)*sextw(b,w); return p!=(__int128)sextw((u64)p,w); }
  case XOp::UMulO:{ unsigned __int128 p=(unsigned __int128)a*b; return p!=(u64)(p&m); }
  default: abort(); } }
static double asD(u64 v){ double d; memcpy(&d,&v,8); return d; } static u64 ofD(double d){ u64 v; memcpy(&v,&d,8); return v; }
static float asF(u64 v){ u32 x=v; float d; memcpy(&d,&x,4); return d; } static u64 ofF(float d){ u32 v; memcpy(&v,&d,4); return v; }
u64 concF(XOp op,u64 a,u64 b,unsigned w){
  if(w==64){ double x=asD(a),y=asD(b); switch(op){ case XOp::FAdd:return ofD(x+y); case XOp::FSub:return ofD(x-y); case XOp::FMul:return ofD(x*y); case XOp::FDiv:return ofD(x/y); case XOp::FRem:return ofD(fmod(x,y));
    case XOp::FOeq:return x==y; case XOp::FOlt:return x<y; case XOp::FOle:return x<=y; case XOp::FUno:return std::isnan(x)||std::isnan(y); default:abort(); } }
  float x=asF(a),y=asF(b); switch(op){ case XOp::FAdd:return ofF(x+y); case XOp::FSub:return ofF(x-y); case XOp::FMul:return ofF(x*y); case XOp::FDiv:return ofF(x/y); case XOp::FRem:return ofF(fmodf(x,y));
    case XOp::FOeq:return x==y; case XOp::FOlt:return x<y; case XOp::FOle:return x<=y; case XOp::FUno:return std::isnan(x)||std::isnan(y); default:abort(); } }
u64 concConv(XOp op,u64 a,unsigned wa,unsigned w){
  switch(op){
  case XOp::FP2SI:{ double x=wa==64?asD(a):asF(a); double lim=ldexp(1.0,w-1); if(!(x>=-lim&&x<lim)) return (1ull<<(w-1)); // x86 'indefinite'
     return (u64)(i64)x&maskw(w); }
  case XOp::FP2UI:{ double x=wa==64?asD(a):asF(a); double lim=ldexp(1.0,w); if(!(x>-1.0&&x<lim)) return (1ull<<(w-1)); if(x<0) return 0; return (u64)x&maskw(w); }
  case XOp::SI2FP:{ i64 x=sextw(a,wa); return w==64?ofD((double)x):ofF((float)x); }
  case XOp::UI2FP:{ u64 x=a&maskw(wa); return w==64?ofD((double)x):ofF((float)x); }
  case XOp::FPExt: return ofD((double)asF(a));
  case XOp::FPTrunc: return ofF((float)asD(a));
  default: abort(); } }
u64 concRnd(u64 a,unsigned w,int mode){ double x=w==64?asD(a):asF(a); double r; switch(mode){case 0:r=floor(x);break;case 1:r=ceil(x);break;case 2:r=trunc(x);break;case 3:r=rint(x);break;default:r=round(x);} return w==64?ofD(r):ofF((float)r); }
u64 concUF(u32 f,u64 a,u64 b){ double x=asD(a),y=asD(b); switch(f){case 70:return ofF(sinf(asF(a)));case 71:return ofF(cosf(asF(a)));case 72:return ofF(tanf(asF(a)));case 73:return ofF(asinf(asF(a)));case 74:return ofF(acosf(asF(a)));case 75:return ofF(atanf(asF(a)));case 76:return ofF(expf(asF(a)));case 77:return ofF(logf(asF(a)));case 78:return ofF(log10f(asF(a)));case 79:return ofF(sqrtf(asF(a)));case 80:return ofF(floorf(asF(a)));case 81:return ofF(ceilf(asF(a)));case 82:return ofF(roundf(asF(a)));case 83:return ofF(truncf(asF(a)));case 84:return ofF(fabsf(asF(a)));case 90:return ofF(powf(asF(a),asF(b)));case 91:return ofF(atan2f(asF(a),asF(b)));case 92:return ofF(fmodf(asF(a),asF(b)));case 11:return ofD(sinh(x));case 12:return ofD(cosh(x));case 13:return ofD(tanh(x));case 14:return ofD(asinh(x));case 15:return ofD(acosh(x));case 16:return ofD(atanh(x));case 17:return ofD(log2(x));case 18:return ofD(exp2(x));case 19:return ofD(log1p(x));case 20:return ofD(expm1(x));case 21:return ofD(cbrt(x));case 22:return ofD(erf(x));case 23:return ofD(tgamma(x));case 24:return ofD(lgamma(x));case 40:return ofD(hypot(x,y));case 41:return ofD(remainder(x,y));case 42:return ofD(fdim(x,y));case 43:return ofD(nextafter(x,y));case 0:return ofD(sin(x));case 1:return ofD(cos(x));case 2:return ofD(tan(x));case 3:return ofD(asin(x));case 4:return ofD(acos(x));case 5:return ofD(atan(x));case 6:return ofD(atan2(x,y));case 7:return ofD(exp(x));case 8:return ofD(log(x));case 9:return ofD(log10(x));case 10:return ofD(pow(x,y));} abort(); }

static bool isCv(E e,u64 v){ return e->op==XOp::Const&&e->c==(v&maskw(e->w)); }
static bool isCmp(XOp o){ return o==XOp::Eq||o==XOp::Ult||o==XOp::Ule||o==XOp::Slt||o==XOp::Sle||o==XOp::SMulO||o==XOp::UMulO; }
static bool comm(XOp o){ return o==XOp::Add||o==XOp::Mul||o==XOp::And||o==XOp::Or||o==XOp::Xor||o==XOp::Eq||o==XOp::SMulO||o==XOp::UMulO; }
E mkNot(E a){ // 1-bit
  if(isC(a)) return mkConst(!a->c,1);
  if(a->op==XOp::Eq&&a->k[0]->w==1&&isC(a->k[1])&&a->k[1]->c==0) return a->k[0];
  if(a->op==XOp::Ult) return mkBin(XOp::Ule,a->k[1],a->k[0]);
  if(a->op==XOp::Ule) return mkBin(XOp::Ult,a->k[1],a->k[0]);
  if(a->op==XOp::Slt) return mkBin(XOp::Sle,a->k[1],a->k[0]);
  if(a->op==XOp::Sle) return mkBin(XOp::Slt,a->k[1],a->k[0]);
  return intern(XOp::Eq,1,0,0,a,mkConst(0,1)); }
E mkAnd1(E a,E b){ return mkBin(XOp::And,a,b); } E mkOr1(E a,E b){ return mkBin(XOp::Or,a,b); }
E mkEq(E a,E b){ return mkBin(XOp::Eq,a,b); }
// unsigned upper bound (cheap)
static u64 umax(E e,int d=4){ u64 m=maskw(e->w); if(isC(e)) return e->c; if(d==0) return m;
  switch(e->op){ case XOp::ZExt: return umax(e->k[0],d-1); case XOp::And: return std::min(umax(e->k[0],d-1),umax(e->k[1],d-1));
   case XOp::LShr: if(isC(e->k[1])) return e->k[1]->c>=e->w?0:umax(e->k[0],d-1)>>e->k[1]->c; return m;
   case XOp::URem: if(isC(e->k[1])&&e->k[1]->c) return e->k[1]->c-1; return m;
   case XOp::UDiv: if(isC(e->k[1])&&e->k[1]->c) return umax(e->k[0],d-1)/e->k[1]->c; return m;
   case XOp::Ite: return std::max(umax(e->k[1],d-1),umax(e->k[2],d-1));
   case XOp::Add: { u64 a=umax(e->k[0],d-1),b=umax(e->k[1],d-1); if(a>m-b) return m; return a+b; }
   case XOp::Mul: { unsigned __int128 p=(unsigned __int128)umax(e->k[0],d-1)*umax(e->k[1],d-1); return p>m?m:(u64)p; }
   case XOp::Shl: if(isC(e->k[1])&&e->k[1]->c<e->w){ unsigned __int128 p=(unsigned __int128)umax(e->k[0],d-1)<<e->k[1]->c; return p>m?m:(u64)p; } return m;
   case XOp::Concat: { u64 h=umax(e->k[0],d-1); return (h<<e->k[1]->w)|maskw(e->k[1]->w); }
   default: return m; } }
E mkBin(XOp op,E a,E b){
  unsigned w=a->w; unsigned rw=isCmp(op)?1:w;
  if(isC(a)&&isC(b)) return mkConst(concBin(op,a->c,b->c,w),rw);
  if(comm(op)){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
  switch(op){
  case XOp::Add:
    if(w==1) return mkBin(XOp::Xor,a,b);
    if(isCv(b,0)) return a;
    if(isC(b)&&a->op==XOp::Add&&isC(a->k[1])) return mkBin(XOp::Add,a->k[0],mkConst(a->k[1]->c+b->c,w));
    if(!isC(b)){ if(a->op==XOp::Add&&isC(a->k[1])) return mkBin(XOp::Add,mkBin(XOp::Add,a->k[0],b),a->k[1]);
                 if(b->op==XOp::Add&&isC(b->k[1])) return mkBin(XOp::Add,mkBin(XOp::Add,a,b->k[0]),b->k[1]);
                 if(a->op==XOp::Sub&&a->k[1]==b) return a->k[0]; if(b->op==XOp::Sub&&b->k[1]==a) return b->k[0]; }
    if(isC(b)&&a->op==XOp::Ite&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
    break;
  case XOp::Sub:
    if(w==1) return mkBin(XOp::Xor,a,b);
    if(a==b) return mkConst(0,w); if(isC(b)) return mkBin(XOp::Add,a,mkConst(0-b->c,w));
    if(a->op==XOp::Add){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; 
       if(isC(a->k[1])&&b->op==XOp::Add&&isC(b->k[1])) return mkBin(XOp::Add,mkBin(XOp::Sub,a->k[0],b->k[0]),mkConst(a->k[1]->c-b->k[1]->c,w)); 
       if(isC(a->k[1])) return mkBin(XOp::Add,mkBin(XOp::Sub,a->k[0],b),a->k[1]); }
    if(b->op==XOp::Add&&b->k[0]==a) return mkBin(XOp::Sub,mkConst(0,w),b->k[1]);
    break;
  case XOp::Mul:
    if(w==1) return mkBin(XOp::And,a,b);
    if(isC(b)){ if(b->c==0) return b; if(b->c==1) return a; if((b->c&(b->c-1))==0) return mkBin(XOp::Shl,a,mkConst(__builtin_ctzll(b->c),w)); }
    break;
  case XOp::UDiv: if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return mkBin(XOp::LShr,a,mkConst(__builtin_ctzll(b->c),w)); if(isC(b)&&b->c&&umax(a)<b->c) return mkConst(0,w); break;
  case XOp::SDiv: if(isCv(b,1)) return a; break;
  case XOp::URem: if(isC(b)&&b->c&&(b->c&(b->c-1))==0) return mkBin(XOp::And,a,mkConst(b->c-1,w)); if(isC(b)&&b->c&&umax(a)<b->c) return a; break;
  case XOp::SRem: if(isCv(b,1)) return mkConst(0,w); break;
  case XOp::And:
    if(a==b) return a; if(isC(b)){ if(b->c==0) return b; if(b->c==maskw(w)) return a;
      if(a->op==XOp::And&&isC(a->k[1])) return mkBin(XOp::And,a->k[0],mkConst(a->k[1]->c&b->c,w));
      if((b->c&(b->c+1))==0){ unsigned n=64-__builtin_clzll(b->c); if(umax(a)<=b->c) return a; if(n<w) return mkZExt(mkExtract(a,0,n),w); }
      if(a->op==XOp::ZExt&&(b->c&maskw(a->k[0]->w))==0) return mkConst(0,w); }
    if(w==1&&(a==mkNot(b))) return mkConst(0,1);
    break;
  case XOp::Or:
    if(a==b) return a; if(isC(b)){ if(b->c==0) return a; if(b->c==maskw(w)) return b; }
    if(w==1&&(a==mkNot(b))) return mkConst(1,1);
    if(w>1){ // or of disjoint zext / shl => concat
      E z=nullptr,s=nullptr; if(a->op==XOp::ZExt) z=a; if(b->op==XOp::ZExt&&!z) z=b; s=(z==a)?b:a;
      if(z&&s->op==XOp::Shl&&isC(s->k[1])&&s->k[1]->c<w&&s->k[1]->c>=z->k[0]->w){ unsigned n=s->k[1]->c; return mkConcat(mkExtract(s->k[0],0,w-n), mkZExt(z->k[0],n)); } }
    break;
  case XOp::Xor: if(a==b) return mkConst(0,w); if(isCv(b,0)) return a; if(w==1&&isC(b)) return mkNot(a); 
    if(isC(b)&&a->op==XOp::Xor&&isC(a->k[1])) return mkBin(XOp::Xor,a->k[0],mkConst(a->k[1]->c^b->c,w));
    break;
  case XOp::Shl: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); if(a->op==XOp::Shl&&isC(a->k[1])) return mkBin(XOp::Shl,a->k[0],mkConst(std::min<u64>(a->k[1]->c+b->c,w),w)); } break;
  case XOp::LShr: if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); if(a->op==XOp::ZExt||a->op==XOp::Concat||a->op==XOp::Extract) return mkZExt(mkExtract(a,b->c,w-b->c),w); } break;
  case XOp::AShr: if(isC(b)){ if(b->c==0) return a; if(a->op==XOp::ZExt) return mkBin(XOp::LShr,a,b); } break;
  case XOp::Eq:
    if(a==b) return mkConst(1,1);
    if(w==1&&isC(b)) return b->c? a : mkNot(a);
    if(isC(b)){
      if(a->op==XOp::ZExt){ if(b->c>maskw(a->k[0]->w)) return mkConst(0,1); return mkEq(a->k[0],mkConst(b->c,a->k[0]->w)); }
      if(a->op==XOp::SExt){ unsigned iw=a->k[0]->w; if((u64)(sextw(b->c,iw))&~maskw(w) ? (((u64)sextw(b->c,iw))&maskw(w))!=b->c : (u64)sextw(b->c,iw)!=b->c) return mkConst(0,1); return mkEq(a->k[0],mkConst(b->c,iw)); }
      if(a->op==XOp::Add&&isC(a->k[1])) return mkEq(a->k[0],mkConst(b->c-a->k[1]->c,w));
      if(a->op==XOp::Xor&&isC(a->k[1])) return mkEq(a->k[0],mkConst(b->c^a->k[1]->c,w));
      if(a->op==XOp::Sub&&b->c==0) return mkEq(a->k[0],a->k[1]);
      if(a->op==XOp::Concat){ unsigned lw=a->k[1]->w; return mkAnd1(mkEq(a->k[0],mkConst(b->c>>lw,a->k[0]->w)),mkEq(a->k[1],mkConst(b->c,lw))); }
      if(a->op==XOp::Ite){ if(isC(a->k[1])||isC(a->k[2])||a->k[1]->op==XOp::Ite||a->k[2]->op==XOp::Ite){
          E t=mkEq(a->k[1],b),f=mkEq(a->k[2],b); if(isC(t)||isC(f)||1) return mkIte(a->k[0],t,f); } }
      if(a->op==XOp::Shl&&isC(a->k[1])){ unsigned n=a->k[1]->c; if(b->c&maskw(n)) return mkConst(0,1); return mkEq(mkExtract(a->k[0],0,w-n),mkConst(b->c>>n,w-n)); }
      if(b->c>umax(a)) return mkConst(0,1);
    } else {
      if(a->op==XOp::ZExt&&b->op==XOp::ZExt&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if(a->op==XOp::SExt&&b->op==XOp::SExt&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if(a->op==XOp::Add&&b->op==XOp::Add&&isC(a->k[1])&&isC(b->k[1])) return mkEq(a->k[0],mkBin(XOp::Add,b->k[0],mkConst(b->k[1]->c-a->k[1]->c,w)));
      if(a->op==XOp::Add&&isC(a->k[1])&&a->k[0]==b) return mkConst(0,1);
      if(b->op==XOp::Add&&isC(b->k[1])&&b->k[0]==a) return mkConst(0,1);
    }
    break;
  case XOp::Ult:
    if(a==b) return mkConst(0,1); if(isC(b)){ if(b->c==0) return mkConst(0,1); if(b->c==1) return mkEq(a,mkConst(0,w)); if(umax(a)<b->c) return mkConst(1,1); if(a->op==XOp::ZExt) return b->c>maskw(a->k[0]->w)?mkConst(1,1):mkBin(op,a->k[0],mkConst(b->c,a->k[0]->w)); }
    if(isC(a)){ if(umax(b)<=a->c) return mkConst(0,1); if(a->c==0) return mkNot(mkEq(b,a)); if(b->op==XOp::ZExt) return a->c>=maskw(b->k[0]->w)?mkConst(0,1):mkBin(op,mkConst(a->c,b->k[0]->w),b->k[0]); }
    if(a->op==XOp::ZExt&&b->op==XOp::ZExt&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
    break;
  case XOp::Ule:
    if(a==b) return mkConst(1,1); if(isC(a)&&a->c==0) return mkConst(1,1); if(isC(b)){ if(umax(a)<=b->c) return mkConst(1,1); return mkBin(XOp::Ult,a,mkConst(b->c+1,w)); }
    if(isC(a)){ return mkBin(XOp::Ult,mkConst(a->c-1,w),b); }
    if(a->op==XOp::ZExt&&b->op==XOp::ZExt&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
    break;
  case XOp::Slt: case XOp::Sle: {
    if(a==b) return mkConst(op==XOp::Sle,1);
    u64 sm=maskw(w)>>1; u64 ma=umax(a),mb=umax(b);
    if(ma<=sm&&mb<=sm) return mkBin(op==XOp::Slt?XOp::Ult:XOp::Ule,a,b);
    if(a->op==XOp::SExt&&b->op==XOp::SExt&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
    if(isC(b)&&ma<=sm&&(b->c>sm)) return mkConst(0,1);
    if(isC(a)&&mb<=sm&&(a->c>sm)) return mkConst(1,1);
    if(a->op==XOp::SExt&&isC(b)){ unsigned iw=a->k[0]->w; i64 bv=sextw(b->c,w), lo=-(1ll<<(iw-1)), hi=(1ll<<(iw-1))-1; if(bv>hi) return mkConst(1,1); if(bv<lo) return mkConst(0,1); return mkBin(op,a->k[0],mkConst((u64)bv,iw)); }
    if(b->op==XOp::SExt&&isC(a)){ unsigned iw=b->k[0]->w; i64 av=sextw(a->c,w), lo=-(1ll<<(iw-1)), hi=(1ll<<(iw-1))-1; if(av>hi) return mkConst(0,1); if(av<lo) return mkConst(1,1); return mkBin(op,mkConst((u64)av,iw),b->k[0]); }
    if(op==XOp::Sle&&isC(b)){ if(b->c==sm) return mkConst(1,1); return mkBin(XOp::Slt,a,mkConst(b->c+1,w)); }
    if(op==XOp::Sle&&isC(a)){ if(a->c==(sm+1)) return mkConst(1,1); return mkBin(XOp::Slt,mkConst(a->c-1,w),b); }
    break; }
  default: break;
  }
  if(isC(b)&&a->op==XOp::Ite&&isC(a->k[1])&&isC(a->k[2])&&op!=XOp::UDiv&&op!=XOp::SDiv&&op!=XOp::URem&&op!=XOp::SRem) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
  if(isC(a)&&b->op==XOp::Ite&&isC(b->k[1])&&isC(b->k[2])&&isCmp(op)) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
  return intern(op,rw,0,0,a,b);
}
E mkIte(E c,E a,E b){
  if(isC(c)) return c->c?a:b; if(a==b) return a;
  if(a->w==1){ if(isC(a)) return a->c? mkOr1(c,b) : mkAnd1(mkNot(c),b); if(isC(b)) return b->c? mkOr1(mkNot(c),a) : mkAnd1(c,a); }
  if(c->op==XOp::Eq&&c->k[0]->w==1&&isCv(c->k[1],0)) return mkIte(c->k[0],b,a);
  if(a->op==XOp::Ite&&a->k[0]==c) a=a->k[1]; if(b->op==XOp::Ite&&b->k[0]==c) b=b->k[2];
  if(a==b) return a;
  if(b->op==XOp::Ite&&b->k[1]==a) return mkIte(mkOr1(c,b->k[0]),a,b->k[2]);
  return intern(XOp::Ite,a->w,0,0,c,a,b);
}
E mkConcat(E hi,E lo){ unsigned w=hi->w+lo->w;
  if(w>64) abort();
  if(isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
  if(isC(hi)&&hi->c==0) return mkZExt(lo,w);
  if(hi->op==XOp::Extract&&lo->op==XOp::Extract&&hi->k[0]==lo->k[0]&&hi->aux==lo->aux+lo->w) return mkExtract(hi->k[0],lo->aux,w);
  // hi = extract(x, off..), lo = concat(extract(x,..), ...) 
  if(lo->op==XOp::Concat&&hi->op==XOp::Extract&&lo->k[0]->op==XOp::Extract&&hi->k[0]==lo->k[0]->k[0]&&hi->aux==lo->k[0]->aux+lo->k[0]->w) return mkConcat(mkExtract(hi->k[0],lo->k[0]->aux,hi->w+lo->k[0]->w),lo->k[1]);
  // lo not an extract but whole value x, hi extract of wider? no
  if(hi->op==XOp::Ite&&lo->op==XOp::Ite&&hi->k[0]==lo->k[0]) return mkIte(hi->k[0],mkConcat(hi->k[1],lo->k[1]),mkConcat(hi->k[2],lo->k[2]));
  if(hi->op==XOp::Ite&&isC(lo)&&isC(hi->k[1])&&isC(hi->k[2])) return mkIte(hi->k[0],mkConcat(hi->k[1],lo),mkConcat(hi->k[2],lo));
  if(lo->op==XOp::Ite&&isC(hi)&&isC(lo->k[1])&&isC(lo->k[2])) return mkIte(lo->k[0],mkConcat(hi,lo->k[1]),mkConcat(hi,lo->k[2]));
  return intern(XOp::Concat,w,0,0,hi,lo); }
E mkExtract(E a,unsigned off,unsigned w){
  if(off==0&&w==a->w) return a;
  if(off+w>a->w) abort();
  if(isC(a)) return mkConst(a->c>>off,w);
  switch(a->op){
  case XOp::Extract: return mkExtract(a->k[0],a->aux+off,w);
  case XOp::Concat: { unsigned lw=a->k[1]->w; if(off>=lw) return mkExtract(a->k[0],off-lw,w); if(off+w<=lw) return mkExtract(a->k[1],off,w);
      return mkConcat(mkExtract(a->k[0],0,off+w-lw),mkExtract(a->k[1],off,lw-off)); }
  case XOp::ZExt: { unsigned iw=a->k[0]->w; if(off>=iw) return mkConst(0,w); if(off+w<=iw) return mkExtract(a->k[0],off,w); return mkZExt(mkExtract(a->k[0],off,iw-off),w); }
  case XOp::SExt: { unsigned iw=a->k[0]->w; if(off+w<=iw) return mkExtract(a->k[0],off,w); if(off<iw) return mkSExt(mkExtract(a->k[0],off,iw-off),w); return mkSExt(mkExtract(a->k[0],iw-1,1),w); }
  case XOp::Ite: if(isC(a->k[1])||isC(a->k[2])||(a->k[1]->op==XOp::Ite)||(a->k[2]->op==XOp::Ite)||1) return mkIte(a->k[0],mkExtract(a->k[1],off,w),mkExtract(a->k[2],off,w)); break;
  case XOp::And: case XOp::Or: case XOp::Xor: return mkBin(a->op,mkExtract(a->k[0],off,w),mkExtract(a->k[1],off,w));
  case XOp::Add: case XOp::Sub: case XOp::Mul: if(off==0) { 
       // only push when it simplifies
       E x=a->k[0],y=a->k[1]; bool p=(isC(y)||y->op==XOp::ZExt||y->op==XOp::SExt||y->op==XOp::Concat)&&(x->op==XOp::ZExt||x->op==XOp::SExt||x->op==XOp::Concat); if(p) return mkBin(a->op,mkExtract(x,0,w),mkExtract(y,0,w)); } break;
  case XOp::Shl: if(isC(a->k[1])){ unsigned n=a->k[1]->c; if(off>=n) return mkExtract(a->k[0],off-n,w); if(off+w<=n) return mkConst(0,w); } break;
  case XOp::LShr: if(isC(a->k[1])){ unsigned n=a->k[1]->c; if(off+w+n<=a->w) return mkExtract(a->k[0],off+n,w); } break;
  default: break; }
  return intern(XOp::Extract,w,off,0,a); }
E mkZExt(E a,unsigned w){ if(w==a->w) return a; if(isC(a)) return mkConst(a->c,w); if(a->op==XOp::ZExt) return mkZExt(a->k[0],w);
  if(a->op==XOp::Add&&isC(a->k[1])&&a->k[0]->op==XOp::ZExt&&umax(a->k[0])<=maskw(a->w)-a->k[1]->c) return mkBin(XOp::Add,mkZExt(a->k[0],w),mkConst(a->k[1]->c,w));
  if(a->op==XOp::Ite&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkZExt(a->k[1],w),mkZExt(a->k[2],w));
  return intern(XOp::ZExt,w,0,0,a); }
E mkSExt(E a,unsigned w){ if(w==a->w) return a; if(isC(a)) return mkConst((u64)sextw(a->c,a->w),w); if(a->op==XOp::ZExt) return mkZExt(a->k[0],w); if(a->op==XOp::SExt) return mkSExt(a->k[0],w);
  if(umax(a)<=(maskw(a->w)>>1)) return mkZExt(a,w);
  if(a->op==XOp::Ite&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkSExt(a->k[1],w),mkSExt(a->k[2],w));
  return intern(XOp::SExt,w,0,0,a); }
E mkFBin(XOp op,E a,E b){ bool cmp=op==XOp::FOeq||op==XOp::FOlt||op==XOp::FOle||op==XOp::FUno; unsigned rw=cmp?1:a->w;
  if(isC(a)&&isC(b)) return mkConst(concF(op,a->c,b->c,a->w),rw);
  if((op==XOp::FAdd||op==XOp::FMul||op==XOp::FOeq||op==XOp::FUno)&&a->id>b->id) std::swap(a,b);
  return intern(op,rw,0,0,a,b); }
E mkConv(XOp op,E a,unsigned w){ if(isC(a)) return mkConst(concConv(op,a->c,a->w,w),w); return intern(op,w,0,0,a); }
E mkFRnd(E a,int mode){ if(isC(a)) return mkConst(concRnd(a->c,a->w,mode),a->w); return intern(XOp::FRnd,a->w,mode,0,a); }
E mkFSqrt(E a){ if(isC(a)) return mkConst(ofD(sqrt(asD(a->c))),64); return intern(XOp::FSqrt,a->w,0,0,a); }
E mkUF(u32 f,E a,E b){ if(isC(a)&&isC(b)) return mkConst(concUF(f,a->c,b->c),64); return intern(XOp::UF,64,f,0,a,b); }
unsigned tzBits(E e){ switch(e->op){ case XOp::Const: return e->c?__builtin_ctzll(e->c):e->w; case XOp::Mul: return std::min<unsigned>(e->w,tzBits(e->k[0])+tzBits(e->k[1])); case XOp::Shl: if(isC(e->k[1])) return std::min<u64>(e->w,tzBits(e->k[0])+e->k[1]->c); return tzBits(e->k[0]);
  case XOp::Add: case XOp::Sub: case XOp::Or: case XOp::Xor: return std::min(tzBits(e->k[0]),tzBits(e->k[1])); case XOp::And: return std::max(tzBits(e->k[0]),tzBits(e->k[1])); case XOp::Ite: return std::min(tzBits(e->k[1]),tzBits(e->k[2]));
  case XOp::Concat: { unsigned l=tzBits(e->k[1]); return l<e->k[1]->w? l : l+tzBits(e->k[0]); } case XOp::ZExt: case XOp::SExt: { unsigned l=tzBits(e->k[0]); return l>=e->k[0]->w?e->w:l; } default: return 0; } }
std::string exprStr(E e,int d){ static const char*nm[]={"C","S","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","smulo","umulo","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo","fp2si","fp2ui","si2fp","ui2fp","fpext","fptrunc","frnd","fsqrt","uf"};
  if(isC(e)) return std::to_string(e->c)+":"+std::to_string(e->w); if(e->op==XOp::Sym) return "s"+std::to_string(e->c); if(d==0) return "..";
  std::string r="("+std::string(nm[(int)e->op]); if(e->op==XOp::Extract) r+="["+std::to_string(e->aux)+"+"+std::to_string(e->w)+"]"; for(int i=0;i<3&&e->k[i];i++) r+=" "+exprStr(e->k[i],d-1); return r+")"; }

// ---- evaluation
static u64 g_evgen=1;
void evalBegin(){ g_evgen++; }
u64 evalIn(E e,const Model&m){
  if(e->op==XOp::Const) return e->c;
  if(e->op==XOp::Sym) return e->c<m.size()? m[e->c]&maskw(e->w):0;
  if(e->evgen==g_evgen) return e->evval;
  u64 r; E a=e->k[0],b=e->k[1];
  switch(e->op){
  case XOp::Ite: r=evalIn(a,m)?evalIn(b,m):evalIn(e->k[2],m); break;
  case XOp::Concat: r=(evalIn(a,m)<<b->w)|evalIn(b,m); break;
  case XOp::Extract: r=(evalIn(a,m)>>e->aux)&maskw(e->w); break;
  case XOp::ZExt: r=evalIn(a,m); break;
  case XOp::SExt: r=(u64)sextw(evalIn(a,m),a->w)&maskw(e->w); break;
  case XOp::FAdd:case XOp::FSub:case XOp::FMul:case XOp::FDiv:case XOp::FRem:case XOp::FOeq:case XOp::FOlt:case XOp::FOle:case XOp::FUno: r=concF(e->op,evalIn(a,m),evalIn(b,m),a->w); break;
  case XOp::FP2SI:case XOp::FP2UI:case XOp::SI2FP:case XOp::UI2FP:case XOp::FPExt:case XOp::FPTrunc: r=concConv(e->op,evalIn(a,m),a->w,e->w); break;
  case XOp::FRnd: r=concRnd(evalIn(a,m),e->w,e->aux); break;
  case XOp::FSqrt: r=ofD(sqrt(asD(evalIn(a,m)))); break;
  case XOp::UF: r=concUF(e->aux,evalIn(a,m),evalIn(b,m)); break;
  default: r=concBin(e->op,evalIn(a,m),evalIn(b,m),a->w); }
  e->evgen=g_evgen; e->evval=r; return r; }
u64 evalExpr(E e,const Model&m){ if(e->op==XOp::Const) return e->c; evalBegin(); return evalIn(e,m); }

// ---- z3
SolverStats g_sst; u64 g_rlimit=20000000; const char*g_dumpDir=nullptr; int g_dumpMax=0;
static Z3_context cx=nullptr; static u64 cxgen=0; static Z3_solver inc=nullptr; static pid_t cxpid=0; static u64 cxUse=0;
static void z3err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
static void ensure(){ if(cx&&cxUse<40000) return; 
  if(cx){ Z3_del_context(cx); }
  Z3_config cfg=Z3_mk_config(); cx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(cx,z3err); cxgen++; cxpid=getpid(); cxUse=0;
  inc=Z3_mk_simple_solver(cx); Z3_solver_inc_ref(cx,inc);
  Z3_params p=Z3_mk_params(cx); Z3_params_inc_ref(cx,p); Z3_params_set_uint(cx,p,Z3_mk_string_symbol(cx,"rlimit"),(unsigned)(g_rlimit>4000000000ull?4000000000ull:g_rlimit)); Z3_solver_set_params(cx,inc,p); Z3_params_dec_ref(cx,p); }
void solverReset(){ }
static Z3_ast T(E e);
static Z3_ast b2v(Z3_ast b){ Z3_sort s=Z3_mk_bv_sort(cx,1); return Z3_mk_ite(cx,b,Z3_mk_unsigned_int64(cx,1,s),Z3_mk_unsigned_int64(cx,0,s)); }
static Z3_sort fps(unsigned w){ return w==64?Z3_mk_fpa_sort_double(cx):Z3_mk_fpa_sort_single(cx); }
static Z3_ast toF(E e){ 
  switch(e->op){ default: return Z3_mk_fpa_to_fp_bv(cx,T(e),fps(e->w)); 
   case XOp::FAdd:return Z3_mk_fpa_add(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]),toF(e->k[1]));
   case XOp::FSub:return Z3_mk_fpa_sub(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]),toF(e->k[1]));
   case XOp::FMul:return Z3_mk_fpa_mul(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]),toF(e->k[1]));
   case XOp::FDiv:return Z3_mk_fpa_div(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]),toF(e->k[1]));
   case XOp::SI2FP:return Z3_mk_fpa_to_fp_signed(cx,Z3_mk_fpa_rne(cx),T(e->k[0]),fps(e->w));
   case XOp::UI2FP:return Z3_mk_fpa_to_fp_unsigned(cx,Z3_mk_fpa_rne(cx),T(e->k[0]),fps(e->w));
   case XOp::FPExt:case XOp::FPTrunc:return Z3_mk_fpa_to_fp_float(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]),fps(e->w));
   case XOp::FSqrt:return Z3_mk_fpa_sqrt(cx,Z3_mk_fpa_rne(cx),toF(e->k[0]));
   case XOp::FRnd:{ Z3_ast rm= e->aux==0?Z3_mk_fpa_rtn(cx):e->aux==1?Z3_mk_fpa_rtp(cx):e->aux==2?Z3_mk_fpa_rtz(cx):e->aux==3?Z3_mk_fpa_rne(cx):Z3_mk_fpa_rna(cx); return Z3_mk_fpa_round_to_integral(cx,rm,toF(e->k[0])); } } }
static Z3_ast B(E e){ // 1-bit expr as Bool
  switch(e->op){
   case XOp::Const: return e->c?Z3_mk_true(cx):Z3_mk_false(cx);
   case XOp::Eq: if(e->k[0]->w==1){ if(isCv(e->k[1],0)) return Z3_mk_not(cx,B(e->k[0])); return Z3_mk_iff(cx,B(e->k[0]),B(e->k[1])); } return Z3_mk_eq(cx,T(e->k[0]),T(e->k[1]));
   case XOp::Ult: return Z3_mk_bvult(cx,T(e->k[0]),T(e->k[1])); case XOp::Ule: return Z3_mk_bvule(cx,T(e->k[0]),T(e->k[1]));
   case XOp::Slt: return Z3_mk_bvslt(cx,T(e->k[0]),T(e->k[1])); case XOp::Sle: return Z3_mk_bvsle(cx,T(e->k[0]),T(e->k[1]));
   case XOp::SMulO: { Z3_ast a=T(e->k[0]),b=T(e->k[1]); Z3_ast x[2]={Z3_mk_bvmul_no_overflow(cx,a,b,true),Z3_mk_bvmul_no_underflow(cx,a,b)}; return Z3_mk_not(cx,Z3_mk_and(cx,2,x)); }
   case XOp::UMulO: return Z3_mk_not(cx,Z3_mk_bvmul_no_overflow(cx,T(e->k[0]),T(e->k[1]),false));
   case XOp::FOeq: return Z3_mk_fpa_eq(cx,toF(e->k[0]),toF(e->k[1])); case XOp::FOlt: return Z3_mk_fpa_lt(cx,toF(e->k[0]),toF(e->k[1])); case XOp::FOle: return Z3_mk_fpa_leq(cx,toF(e->k[0]),toF(e->k[1]));
   case XOp::FUno: { Z3_ast x[2]={Z3_mk_fpa_is_nan(cx,toF(e->k[0])),Z3_mk_fpa_is_nan(cx,toF(e->k[1]))}; return Z3_mk_or(cx,2,x); }
   case XOp::And: if(e->w==1){ Z3_ast x[2]={B(e->k[0]),B(e->k[1])}; return Z3_mk_and(cx,2,x);} break;
   case XOp::Or: if(e->w==1){ Z3_ast x[2]={B(e->k[0]),B(e->k[1])}; return Z3_mk_or(cx,2,x);} break;
   case XOp::Xor: if(e->w==1){ return Z3_mk_xor(cx,B(e->k[0]),B(e->k[1]));} break;
   case XOp::Ite: if(e->w==1) return Z3_mk_ite(cx,B(e->k[0]),B(e->k[1]),B(e->k[2])); break;
   default: break; }
  Z3_sort s=Z3_mk_bv_sort(cx,1); return Z3_mk_eq(cx,T(e),Z3_mk_unsigned_int64(cx,1,s)); }
static Z3_ast T(E e){
  if(e->z3&&e->z3gen==cxgen) return (Z3_ast)e->z3;
  Z3_ast r; Z3_sort s;
  switch(e->op){
  case XOp::Const: s=Z3_mk_bv_sort(cx,e->w); r=Z3_mk_unsigned_int64(cx,e->c,s); break;
  case XOp::Sym: s=Z3_mk_bv_sort(cx,e->w); r=Z3_mk_const(cx,Z3_mk_int_symbol(cx,(int)e->c),s); break;
  case XOp::Add: r=Z3_mk_bvadd(cx,T(e->k[0]),T(e->k[1])); break; case XOp::Sub: r=Z3_mk_bvsub(cx,T(e->k[0]),T(e->k[1])); break; case XOp::Mul: r=Z3_mk_bvmul(cx,T(e->k[0]),T(e->k[1])); break;
  case XOp::UDiv: r=Z3_mk_bvudiv(cx,T(e->k[0]),T(e->k[1])); break; case XOp::SDiv: r=Z3_mk_bvsdiv(cx,T(e->k[0]),T(e->k[1])); break; case XOp::URem: r=Z3_mk_bvurem(cx,T(e->k[0]),T(e->k[1])); break; case XOp::SRem: r=Z3_mk_bvsrem(cx,T(e->k[0]),T(e->k[1])); break;
  case XOp::Shl: r=Z3_mk_bvshl(cx,T(e->k[0]),T(e->k[1])); break; case XOp::LShr: r=Z3_mk_bvlshr(cx,T(e->k[0]),T(e->k[1])); break; case XOp::AShr: r=Z3_mk_bvashr(cx,T(e->k[0]),T(e->k[1])); break;
  case XOp::And: if(e->w>1){ r=Z3_mk_bvand(cx,T(e->k[0]),T(e->k[1])); break;} r=b2v(B(e)); break;
  case XOp::Or: if(e->w>1){ r=Z3_mk_bvor(cx,T(e->k[0]),T(e->k[1])); break;} r=b2v(B(e)); break;
  case XOp::Xor: if(e->w>1){ r=Z3_mk_bvxor(cx,T(e->k[0]),T(e->k[1])); break;} r=b2v(B(e)); break;
  case XOp::Ite: r=Z3_mk_ite(cx,B(e->k[0]),T(e->k[1]),T(e->k[2])); break;
  case XOp::Concat: r=Z3_mk_concat(cx,T(e->k[0]),T(e->k[1])); break;
  case XOp::Extract: r=Z3_mk_extract(cx,e->aux+e->w-1,e->aux,T(e->k[0])); break;
  case XOp::ZExt: r=Z3_mk_zero_ext(cx,e->w-e->k[0]->w,T(e->k[0])); break; case XOp::SExt: r=Z3_mk_sign_ext(cx,e->w-e->k[0]->w,T(e->k[0])); break;
  case XOp::FP2SI: { Z3_ast f=toF(e->k[0]); unsigned fw=e->k[0]->w; Z3_sort fs=fps(fw); double lim=ldexp(1.0,e->w-1); Z3_ast lo=Z3_mk_fpa_numeral_double(cx,-lim,fs),hi=Z3_mk_fpa_numeral_double(cx,lim,fs); Z3_ast x[2]={Z3_mk_fpa_geq(cx,f,lo),Z3_mk_fpa_lt(cx,f,hi)}; s=Z3_mk_bv_sort(cx,e->w); r=Z3_mk_ite(cx,Z3_mk_and(cx,2,x),Z3_mk_fpa_to_sbv(cx,Z3_mk_fpa_rtz(cx),f,e->w),Z3_mk_unsigned_int64(cx,1ull<<(e->w-1),s)); break; }
  case XOp::FP2UI: { Z3_ast f=toF(e->k[0]); Z3_sort fs=fps(e->k[0]->w); double lim=ldexp(1.0,e->w); Z3_ast lo=Z3_mk_fpa_numeral_double(cx,-1.0,fs),z=Z3_mk_fpa_numeral_double(cx,0.0,fs),hi=Z3_mk_fpa_numeral_double(cx,lim,fs); Z3_ast x[2]={Z3_mk_fpa_gt(cx,f,lo),Z3_mk_fpa_lt(cx,f,hi)}; s=Z3_mk_bv_sort(cx,e->w); r=Z3_mk_ite(cx,Z3_mk_and(cx,2,x),Z3_mk_ite(cx,Z3_mk_fpa_lt(cx,f,z),Z3_mk_unsigned_int64(cx,0,s),Z3_mk_fpa_to_ubv(cx,Z3_mk_fpa_rtz(cx),f,e->w)),Z3_mk_unsigned_int64(cx,1ull<<(e->w-1),s)); break; }
  case XOp::FAdd:case XOp::FSub:case XOp::FMul:case XOp::FDiv:case XOp::SI2FP:case XOp::UI2FP:case XOp::FPExt:case XOp::FPTrunc:case XOp::FRnd:case XOp::FSqrt: r=Z3_mk_fpa_to_ieee_bv(cx,toF(e)); break;
  case XOp::FRem: case XOp::UF: { Z3_sort d=Z3_mk_bv_sort(cx,e->w); Z3_sort ds[2]={d,d}; Z3_func_decl fd=Z3_mk_func_decl(cx,Z3_mk_int_symbol(cx,1000000+(e->op==XOp::FRem?99:e->aux)),2,ds,d); Z3_ast as[2]={T(e->k[0]),T(e->k[1])}; r=Z3_mk_app(cx,fd,2,as); break; }
  default: r=b2v(B(e)); }
  e->z3=r; e->z3gen=cxgen; return r; }
static void collectSyms(E e,std::vector<E>&out,std::vector<E>&stk,u64 gen){ // uses evgen as visited marker
  stk.push_back(e); while(!stk.empty()){ E x=stk.back(); stk.pop_back(); if(isC(x)||x->evgen==gen) continue; x->evgen=gen; if(x->op==XOp::Sym){ out.push_back(x); continue; } for(int i=0;i<3&&x->k[i];i++) stk.push_back(x->k[i]); } }
struct VH { size_t operator()(const std::vector<u32>&v)const{ u64 h=v.size(); for(u32 x:v) h=mix(h*1000003+x); return h; } };
struct CEnt { SR r; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<std::vector<u32>,CEnt,VH> cache;
static SR extractModel(Z3_solver s,const std::vector<E>&cs,CEnt&ce){
  Z3_model zm=Z3_solver_get_model(cx,s); if(!zm) return SR::Unknown; Z3_model_inc_ref(cx,zm);
  std::vector<E> ss,stk; evalBegin(); u64 gen=g_evgen; for(E e:cs) collectSyms(e,ss,stk,gen);
  for(E e:ss){ Z3_ast v=nullptr; if(!Z3_model_eval(cx,zm,T(e),true,&v)) continue; u64 x=0; Z3_get_numeral_uint64(cx,v,&x); ce.m.push_back({(u32)e->c,x}); }
  Z3_model_dec_ref(cx,zm); return SR::Sat; }
static bool hasFP(const std::vector<E>&cs){ std::vector<E> stk; evalBegin(); u64 gen=g_evgen; for(E e:cs) stk.push_back(e); while(!stk.empty()){ E x=stk.back(); stk.pop_back(); if(x->evgen==gen||isC(x)) continue; x->evgen=gen; if(x->op>=XOp::FAdd) return true; for(int i=0;i<3&&x->k[i];i++) stk.push_back(x->k[i]); } return false; }
static int dumped=0;
std::string solverSmt2(const std::vector<E>&cs){ ensure(); std::vector<Z3_ast> as; for(E e:cs) as.push_back(B(e)); 
  Z3_solver s=Z3_mk_simple_solver(cx); Z3_solver_inc_ref(cx,s); for(auto a:as) Z3_solver_assert(cx,s,a); std::string r=Z3_solver_to_string(cx,s); Z3_solver_dec_ref(cx,s); return r; }
SR solve(const std::vector<E>&cs,Model&m){
  std::vector<u32> key; for(E e:cs) key.push_back(e->id); std::sort(key.begin(),key.end());
  auto it=cache.find(key);
  if(it!=cache.end()){ g_sst.cacheHits++; if(it->second.r==SR::Sat) for(auto&p:it->second.m){ if(m.size()<=p.first) m.resize(p.first+1,0); m[p.first]=p.second; } return it->second.r; }
  ensure(); cxUse++; auto t0=std::chrono::steady_clock::now();
  CEnt ce; ce.r=SR::Unknown;
  bool fp=hasFP(cs);
  for(int att=0;att<2&&ce.r==SR::Unknown;att++){
    Z3_solver s=inc; bool tmp=false;
    if(fp||att==1){ s=Z3_mk_solver_for_logic(cx,Z3_mk_string_symbol(cx,fp?"QF_UFFPBV":"QF_BV")); if(fp) { s=Z3_mk_solver(cx);} Z3_solver_inc_ref(cx,s); tmp=true; Z3_params p=Z3_mk_params(cx); Z3_params_inc_ref(cx,p); Z3_params_set_uint(cx,p,Z3_mk_string_symbol(cx,"rlimit"),(unsigned)(g_rlimit*8>4000000000ull?4000000000ull:g_rlimit*8)); Z3_solver_set_params(cx,s,p); Z3_params_dec_ref(cx,p); }
    else Z3_solver_push(cx,s);
    for(E e:cs) Z3_solver_assert(cx,s,B(e));
    Z3_lbool r=Z3_solver_check(cx,s);
    if(r==Z3_L_TRUE) ce.r=extractModel(s,cs,ce); else if(r==Z3_L_FALSE) ce.r=SR::Unsat;
    if(g_dumpDir&&dumped<g_dumpMax&&ce.r!=SR::Unknown&&(g_sst.queries%97)==0){ char fn[512]; snprintf(fn,sizeof fn,"%s/q%d_%d_%s.smt2",g_dumpDir,(int)getpid(),dumped++,ce.r==SR::Sat?"sat":"unsat"); if(FILE*f=fopen(fn,"w")){ std::string t=Z3_solver_to_string(cx,s); fprintf(f,"(set-logic ALL)\n%s\n(check-sat)\n",t.c_str()); fclose(f);} }
    if(tmp) Z3_solver_dec_ref(cx,s); else Z3_solver_pop(cx,s,1);
    if(fp) break;
  }
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  g_sst.queries++; g_sst.secs+=dt; if(dt>g_sst.maxSecs) g_sst.maxSecs=dt;
  if(ce.r==SR::Sat) g_sst.sat++; else if(ce.r==SR::Unsat) g_sst.unsat++; else g_sst.unknown++;
  if(dt>1.0&&getenv("NSYM_SLOW")){ fprintf(stderr,"slow query %.2fs (%d) n=%zu: ",dt,(int)ce.r,cs.size()); for(E e:cs) fprintf(stderr,"%s\n   ",exprStr(e,8).c_str()); fprintf(stderr,"\n"); }
  if(ce.r==SR::Sat) for(auto&p:ce.m){ if(m.size()<=p.first) m.resize(p.first+1,0); m[p.first]=p.second; }
  if(cache.size()>400000) cache.clear();
  SR res=ce.r; cache.emplace(std::move(key),std::move(ce));
  return res;
}
