// Minimal C library for symbolic execution (only linked into the engine's program, never natively).
#include "nsym.h"
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <time.h>
typedef struct MF { unsigned char *buf; size_t len, cap, pos; int fixed, write, append, used, eof, dyn, nord; char **up; size_t *us; int isout; int vf; } MF;
typedef struct MF FILE_;
#define FILE FILE_
static MF s_in={.used=1,.vf=-1}, s_out={.used=1,.write=1,.isout=1,.vf=-1}, s_err={.used=1,.write=1,.isout=1,.vf=-1};
FILE *stdin=&s_in,*stdout=&s_out,*stderr=&s_err;
static int err_; int *__errno_location(void){ return &err_; }
int nsym_full_format; // 1: symbolic integers are formatted digit by digit; 0: replaced by '#'
uint64_t sym_hostfmt(char*buf,uint64_t n,const char*fmt,double d);
double sym_hoststrtod(const char*s);
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
char *strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char *stpcpy(char*d,const char*s){ while((*d=*s)){ d++; s++; } return d; }
char *strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char *strncat(char*d,const char*s,size_t n){ char*e=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
char *strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return NULL; } }
char *strrchr(const char*s,int c){ char*r=NULL; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
void *memchr(const void*p,int c,size_t n){ const unsigned char*s=p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return NULL; }
char *strstr(const char*h,const char*n){ size_t k=strlen(n); for(;;h++){ size_t i=0; while(i<k&&h[i]==n[i]) i++; if(i==k) return (char*)h; if(!*h) return NULL; } }
size_t strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&strchr(a,s[n])) n++; return n; }
size_t strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!strchr(a,s[n])) n++; return n; }
int __c_memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int __c_bcmp(const void*a,const void*b,size_t n){ return __c_memcmp(a,b,n); }
int __c_strcmp(const char*a,const char*b){ for(size_t i=0;;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int __c_strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
int strcasecmp(const char*a,const char*b){ for(size_t i=0;;i++){ unsigned char x=a[i],y=b[i]; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
char *strdup(const char*s){ size_t n=strlen(s)+1; char*p=malloc(n); if(p) memcpy(p,s,n); return p; }
char *strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*p=malloc(n+1); if(p){ memcpy(p,s,n); p[n]=0; } return p; }
char *strerror(int e){ (void)e; return "error"; }
int isdigit(int c){ return (unsigned)c-'0'<10; } int isalpha(int c){ return ((unsigned)c|32)-'a'<26; } int isalnum(int c){ return isdigit(c)|isalpha(c); } int isspace(int c){ return (c==' ')|((unsigned)c-9<5); }
int isupper(int c){ return (unsigned)c-'A'<26; } int islower(int c){ return (unsigned)c-'a'<26; } int isprint(int c){ return (unsigned)c-32<95; } int isgraph(int c){ return (unsigned)c-33<94; } int iscntrl(int c){ return ((unsigned)c<32)|(c==127); } int ispunct(int c){ return isgraph(c)&!isalnum(c); } int isxdigit(int c){ return isdigit(c)|(((unsigned)c|32)-'a'<6); } int isblank(int c){ return (c==' ')|(c=='\t'); } int isascii(int c){ return (unsigned)c<128; }
int tolower(int c){ return isupper(c)?c+32:c; } int toupper(int c){ return islower(c)?c-32:c; }
static unsigned short ctab[384]; static const unsigned short*ctp; static void ctinit(void){ for(int c=-128;c<256;c++){ unsigned u=c; unsigned short m=0; if(c<0){ ctab[c+128]=0; continue; } if(isupper(u)) m|=1<<8; if(islower(u)) m|=1<<9; if(isalpha(u)) m|=1<<10; if(isdigit(u)) m|=1<<11; if(isxdigit(u)) m|=1<<12; if(isspace(u)) m|=1<<13; if(isprint(u)) m|=1<<14; if(isgraph(u)) m|=1<<15; if(isblank(u)) m|=1<<0; if(iscntrl(u)) m|=1<<1; if(ispunct(u)) m|=1<<2; if(isalnum(u)) m|=1<<3; ctab[c+128]=m; } ctp=ctab+128; }
const unsigned short **__ctype_b_loc(void){ if(!ctp) ctinit(); return &ctp; }
long long strtoll(const char*s,char**e,int base){ const char*p=s; while(isspace((unsigned char)*p)) p++; int neg=0; if(*p=='-'){ neg=1; p++; } else if(*p=='+') p++; if(base==0){ if(p[0]=='0'&&(p[1]|32)=='x'&&isxdigit((unsigned char)p[2])){ base=16; p+=2; } else if(p[0]=='0') base=8; else base=10; }
  unsigned long long v=0; int any=0,ovf=0; for(;;p++){ int c=(unsigned char)*p,d; if(isdigit(c)) d=c-'0'; else if(isalpha(c)) d=(c|32)-'a'+10; else break; if(d>=base) break; any=1; if(ovf) continue; unsigned long long lim=neg?(unsigned long long)LLONG_MAX+1:LLONG_MAX; if((v>lim/base)|((v==lim/base)&((unsigned)d>lim%base))){ ovf=1; continue; } v=v*base+d; }
  if(e) *e=(char*)(any?p:s); if(ovf){ err_=ERANGE; return neg?LLONG_MIN:LLONG_MAX; } return neg?(long long)(0-v):(long long)v; }
long strtol(const char*s,char**e,int b){ return strtoll(s,e,b); } unsigned long long strtoull(const char*s,char**e,int b){ return strtoll(s,e,b); } unsigned long strtoul(const char*s,char**e,int b){ return strtoll(s,e,b); }
int atoi(const char*s){ return (int)strtoll(s,NULL,10); } long long atoll(const char*s){ return strtoll(s,NULL,10); } long atol(const char*s){ return strtoll(s,NULL,10); }
long long __isoc23_strtoll(const char*s,char**e,int b){ return strtoll(s,e,b);} long __isoc23_strtol(const char*s,char**e,int b){ return strtoll(s,e,b);} unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return strtoll(s,e,b);} unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return strtoll(s,e,b);}
double strtod(const char*s,char**e){ char b[512]; size_t n=0,i=0; while(isspace((unsigned char)s[i])) i++; int c=sym_conc((unsigned char)s[i]); if(c=='-'||c=='+'){ b[n++]=c; i++; } int dig=0,dot=0; for(;n<500;i++){ c=sym_conc((unsigned char)s[i]); if(isdigit(c)){ dig=1; b[n++]=c; } else if(c=='.'&&!dot){ dot=1; b[n++]=c; } else break; } if(!dig){ if(e) *e=(char*)s; return 0; }
  if((c|32)=='e'){ size_t j=i+1,m=n; b[m++]='e'; int c2=sym_conc((unsigned char)s[j]); if(c2=='-'||c2=='+'){ b[m++]=c2; j++; } int d2=0; while(m<510&&isdigit(c2=sym_conc((unsigned char)s[j]))){ d2=1; b[m++]=c2; j++; } if(d2){ n=m; i=j; } }
  b[n]=0; if(e) *e=(char*)s+i; double d=sym_hoststrtod(b); if(d>1.7976931348623157e308||d< -1.7976931348623157e308) err_=ERANGE; return d; }
double atof(const char*s){ return strtod(s,NULL); }
int nsym_rand_mode; static uint32_t rs=1; void srand(unsigned s){ rs=s; } int rand(void){ if(nsym_rand_mode==2) return 0; if(nsym_rand_mode) return (int)sym_u64("rand",31); rs=rs*1103515245u+12345u; return (rs>>1)&0x7fffffff; }
static long ck; clock_t clock(void){ return ck++; } time_t time(time_t*t){ if(t) *t=1; return 1; }
int clock_gettime(clockid_t c,struct timespec*t){ (void)c; t->tv_sec=1; t->tv_nsec=ck++; return 0; }
void (*signal(int s,void(*h)(int)))(int){ (void)s;(void)h; return NULL; }
char *getenv(const char*n){ (void)n; return NULL; }
char *getcwd(char*b,size_t n){ const char*c="/w/dir"; if(strlen(c)+1>n){ err_=ERANGE; return NULL; } return strcpy(b,c); }
// ---- virtual files
typedef struct { char name[256]; unsigned char*data; size_t len,cap; int exists; } VF; static VF vfs[24];
// names are normalised textually, relative to the working directory /w/dir: "x//y", "./x" and "x/../y" work, "/w/a" stays absolute
static void vf_base(const char*n,char*o){ char b[1100]; size_t m=0; if(n[0]!='/'){ strcpy(b,"/w/dir"); m=6; } while(*n&&m<1000){ while(*n=='/') n++; size_t k=0; while(n[k]&&n[k]!='/') k++; if(!k) break; if(k==2&&n[0]=='.'&&n[1]=='.'){ while(m&&b[--m]!='/'); } else if(!(k==1&&n[0]=='.')){ b[m++]='/'; for(size_t i=0;i<k&&m<1000;i++) b[m++]=n[i]; } n+=k; } b[m]=0; const char*r=strncmp(b,"/w/dir/",7)?b:b+7; strncpy(o,r,255); o[255]=0; }
static VF*vf_find(const char*nn){ char n[256]; vf_base(nn,n); for(int i=0;i<24;i++) if(vfs[i].exists&&!strcmp(vfs[i].name,n)) return &vfs[i]; return NULL; }
static VF*vf_new(const char*nn){ char n[256]; vf_base(nn,n); if(!strncmp(n,"nodir/",6)||n[0]=='/') return NULL; for(int i=0;i<24;i++) if(!vfs[i].exists){ vfs[i].exists=1; strncpy(vfs[i].name,n,255); vfs[i].data=NULL; vfs[i].len=vfs[i].cap=0; return &vfs[i]; } return NULL; }
void nsym_mkfile(const char*n,const void*d,size_t l){ VF*v=vf_find(n); if(!v) v=vf_new(n); else free(v->data); v->data=malloc(l+1); memcpy(v->data,d,l); v->len=v->cap=l; }
size_t nsym_readfile(const char*n,void*d,size_t m){ VF*v=vf_find(n); if(!v) return (size_t)-1; size_t k=v->len<m?v->len:m; memcpy(d,v->data,k); return v->len; }
static MF*mf_new(void){ MF*f=malloc(sizeof(MF)); memset(f,0,sizeof*f); f->used=1; f->vf=-1; return f; }
FILE*fopen(const char*n,const char*m){ VF*v=vf_find(n); int w=0,app=0,plus=0; char k=m[0]; for(const char*p=m;*p;p++) if(*p=='+') plus=1; if(k=='w'){ if(!v) v=vf_new(n); if(v) v->len=0; else err_=ENOENT; w=1; } else if(k=='a'){ if(!v) v=vf_new(n); w=1; app=1; } else if(k=='r'){ if(!v){ err_=ENOENT; return NULL; } } else { err_=EINVAL; return NULL; } if(!v) return NULL; MF*f=mf_new(); f->write=w||plus; f->nord=w&&!plus; f->append=app; f->vf=(int)(v-vfs); f->buf=v->data; f->len=v->len; f->cap=v->cap; f->dyn=1; if(app) f->pos=f->len; return f; }
static void ld_(MF*f){ if(f->vf>=0){ VF*v=&vfs[f->vf]; f->buf=v->data; f->len=v->len; f->cap=v->cap; } }
static void sync_(MF*f){ if(f->vf>=0&&f->write){ VF*v=&vfs[f->vf]; v->data=f->buf; v->len=f->len; v->cap=f->cap; } if(f->up){ *f->up=(char*)f->buf; *f->us=f->len; } }
int fclose(FILE*f){ if(f->isout||f==&s_in) return 0; if(f->vf<0) sync_(f); free(f); return 0; }
int fflush(FILE*f){ if(f&&f->vf<0) sync_(f); return 0; }
FILE*fmemopen(void*b,size_t n,const char*m){ MF*f=mf_new(); f->fixed=1; f->buf=b; if(!b){ f->buf=malloc(n); } f->cap=n; if(m[0]=='w'){ f->write=1; if(n&&m[1]=='+') f->buf[0]=0; } else { f->len=n; f->write=m[1]=='+'; } return f; }
FILE*open_memstream(char**p,size_t*s){ MF*f=mf_new(); f->write=1; f->dyn=1; f->up=p; f->us=s; f->buf=malloc(16); f->cap=16; f->buf[0]=0; *p=(char*)f->buf; *s=0; return f; }
FILE*tmpfile(void){ MF*f=mf_new(); f->write=1; f->dyn=1; return f; }
void nsym_set_stdin(const void*d,size_t n){ s_in.buf=malloc(n+1); memcpy(s_in.buf,d,n); s_in.len=n; s_in.pos=0; s_in.eof=0; }
static size_t mwrite(MF*f,const void*d,size_t n){ if(!f->write){ return 0; } if(f->isout&&!f->dyn) return n; ld_(f); if(f->append) f->pos=f->len; if(f->fixed){ size_t k=f->cap>f->pos?f->cap-f->pos:0; if(k>n) k=n; memcpy(f->buf+f->pos,d,k); f->pos+=k; if(f->pos>f->len) f->len=f->pos; if(f->len<f->cap) f->buf[f->len]=0; else if(f->cap&&k&&!f->append) f->buf[f->cap-1]=0; return k; }
  if(f->pos+n+1>f->cap){ size_t c=f->cap?f->cap:64; while(c<f->pos+n+1) c*=2; f->buf=realloc(f->buf,c); f->cap=c; } if(f->pos>f->len) memset(f->buf+f->len,0,f->pos-f->len); memcpy(f->buf+f->pos,d,n); f->pos+=n; if(f->pos>f->len) f->len=f->pos; f->buf[f->len]=0; sync_(f); return n; }
size_t fwrite(const void*d,size_t s,size_t n,FILE*f){ if(!s||!n) return 0; return mwrite(f,d,s*n)/s; }
size_t fread(void*d,size_t s,size_t n,FILE*f){ size_t k=s*n; if(!k||f->nord) return 0; ld_(f); size_t a=f->len>f->pos?f->len-f->pos:0; if(k>a){ k=a; f->eof=1; } memcpy(d,f->buf+f->pos,k); f->pos+=k; return k/s; }
int getc(FILE*f){ ld_(f); if(f->pos>=f->len){ f->eof=1; return -1; } return f->buf[f->pos++]; } int fgetc(FILE*f){ return getc(f); } int getchar(void){ return getc(stdin); } int _IO_getc(FILE*f){ return getc(f); } int getc_unlocked(FILE*f){ return getc(f);} int __uflow(FILE*f){ return getc(f);} 
int ungetc(int c,FILE*f){ if(c>=0&&f->pos){ f->pos--; f->eof=0; } return c; }
char*fgets(char*s,int n,FILE*f){ int i=0; while(i<n-1){ int c=getc(f); if(c<0) break; s[i++]=c; if(c=='\n') break; } if(!i) return NULL; s[i]=0; return s; }
int feof(FILE*f){ return f->eof; } int ferror(FILE*f){ (void)f; return 0; } void clearerr(FILE*f){ f->eof=0; }
int fseek(FILE*f,long o,int w){ ld_(f); long b=w==0?0:w==1?(long)f->pos:(long)f->len; if(b+o<0) return -1; f->pos=b+o; f->eof=0; return 0; } long ftell(FILE*f){ return f->pos; } void rewind(FILE*f){ f->pos=0; f->eof=0; }
int fputc(int c,FILE*f){ unsigned char b=c; return mwrite(f,&b,1)==1?b:-1; } int putc(int c,FILE*f){ return fputc(c,f);} int putchar(int c){ return fputc(c,stdout);} 
int fputs(const char*s,FILE*f){ size_t n=strlen(s); mwrite(f,s,n); return (int)n; } int puts(const char*s){ fputs(s,stdout); return fputc('\n',stdout); }
int fileno(FILE*f){ (void)f; return 3; } int setvbuf(FILE*f,char*b,int m,size_t n){ (void)f;(void)b;(void)m;(void)n; return 0; } int remove(const char*n){ VF*v=vf_find(n); if(!v) return -1; v->exists=0; return 0; } int unlink(const char*n){ return remove(n); }
// directories: "/w/dir" holds the virtual files
struct DIR_ { int i; char pre[256]; }; struct dirent_ { unsigned long ino; long off; unsigned short rl; unsigned char ty; char name[256]; }; static struct dirent_ de;
static const char*vf_child(const char*pre,const char*n){ size_t k=strlen(pre); if(k){ if(strncmp(n,pre,k)||n[k]!='/') return NULL; return n+k+1; } return n[0]=='/'?NULL:n; }
static int vf_samehead(const char*a,const char*b){ for(;;a++,b++){ int x=*a=='/'?0:*a,y=*b=='/'?0:*b; if(x!=y) return 0; if(!x) return 1; } }
void*opendir(const char*n){ char b[256]; if(!*n){ err_=ENOENT; return NULL; } vf_base(n,b); if(!strcmp(b,"/w/dir")) b[0]=0; else if(!*n){ err_=ENOENT; return NULL; } else { int hit=0; for(int i=0;i<24;i++) if(vfs[i].exists&&vf_child(b,vfs[i].name)) hit=1; if(!hit){ err_=ENOENT; return NULL; } } struct DIR_*d=malloc(sizeof*d); d->i=-2; strcpy(d->pre,b); return d; }
void*readdir(void*p){ struct DIR_*d=p; while(d->i<24){ int k=d->i++; if(k<0){ strcpy(de.name,k==-2?".":".."); return &de; } const char*c; if(!vfs[k].exists||!(c=vf_child(d->pre,vfs[k].name))) continue; int dup=0; for(int j=0;j<k;j++){ const char*e; if(vfs[j].exists&&(e=vf_child(d->pre,vfs[j].name))&&vf_samehead(c,e)) dup=1; } if(dup) continue; size_t n=0; while(c[n]&&c[n]!='/'){ de.name[n]=c[n]; n++; } de.name[n]=0; return &de; } return NULL; }
int closedir(void*d){ free(d); return 0; }
// ---- formatting
typedef struct { char*b; size_t n,cap; FILE*f; } SK; static void put(SK*k,const char*s,size_t n){ if(k->f) mwrite(k->f,s,n); else for(size_t i=0;i<n;i++) if(k->n+i<k->cap) k->b[k->n+i]=s[i]; k->n+=n; }
static void padn(SK*k,char c,long n){ while(n-->0) put(k,&c,1); }
static int fmt(SK*k,const char*f,va_list ap){
  for(;*f;f++){ if(*f!='%'){ put(k,f,1); continue; } const char*f0=f; f++; int left=0,zero=0,plus=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f==' '||*f=='#'); else break; } long w=0,p=-1; if(*f=='*'){ w=va_arg(ap,int); if(w<0){ left=1; w=-w; } f++; } else while(isdigit(*f)) w=w*10+*f++-'0'; if(*f=='.'){ f++; p=0; if(*f=='*'){ p=va_arg(ap,int); f++; } else while(isdigit(*f)) p=p*10+*f++-'0'; }
    int l=0; while(*f=='l'||*f=='h'||*f=='z'||*f=='j'||*f=='t'){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t') l=1; f++; }
    switch(*f){ case '%': put(k,"%",1); break;
     case 'c': { char c=va_arg(ap,int); if(!left) padn(k,' ',w-1); put(k,&c,1); if(left) padn(k,' ',w-1); break; }
     case 's': { const char*s=va_arg(ap,const char*); if(!s) s="(null)"; size_t n=p>=0?strnlen(s,p):strlen(s); if(!left) padn(k,' ',w-(long)n); put(k,s,n); if(left) padn(k,' ',w-(long)n); break; }
     case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': { unsigned long long u; int neg=0; char t[32]; int n=0; int base=(*f=='x'||*f=='X'||*f=='p')?16:10; if(*f=='d'||*f=='i'){ long long v=l?va_arg(ap,long long):va_arg(ap,int); if(sym_is_symbolic((uint64_t)v)&&!nsym_full_format){ put(k,"#",1); break; } neg=v<0; u=neg?0-(unsigned long long)v:(unsigned long long)v; } else { u=(l||*f=='p')?va_arg(ap,unsigned long long):va_arg(ap,unsigned); if(sym_is_symbolic(u)&&!nsym_full_format){ put(k,"#",1); break; } }
        do { t[n++]="0123456789abcdef"[u%base]; u/=base; } while(u); long tot=n+neg; if(*f=='p'){ put(k,"0x",2); } if(!left&&!zero) padn(k,' ',w-tot); if(neg) put(k,"-",1); else if(plus) put(k,"+",1); if(!left&&zero) padn(k,'0',w-tot); while(n--) put(k,&t[n],1); if(left) padn(k,' ',w-tot); break; }
     case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { double d=va_arg(ap,double); char b[400]; char fm[32]; int q=0; uint64_t bits; memcpy(&bits,&d,8); if(sym_is_symbolic(bits)&&!nsym_full_format){ put(k,"#",1); break; } (void)f0; fm[q++]='%'; if(p>=0){ fm[q++]='.'; if(p>=10) fm[q++]='0'+p/10%10; fm[q++]='0'+p%10; } fm[q++]=*f; fm[q]=0; size_t n=sym_hostfmt(b,400,fm,d); if(!left) padn(k,' ',w-(long)n); put(k,b,n); if(left) padn(k,' ',w-(long)n); break; }
     case 0: return (int)k->n; default: put(k,"?",1); } }
  return (int)k->n; }
int vsnprintf(char*b,size_t n,const char*f,va_list ap){ SK k={b,0,n?n-1:0,NULL}; int r=fmt(&k,f,ap); if(n) b[k.n<n-1?k.n:n-1]=0; return r; }
int snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,1u<<30,f,ap); va_end(ap); return r; }
int vfprintf(FILE*o,const char*f,va_list ap){ if(o->isout&&!o->dyn) return 0; SK k={NULL,0,0,o}; return fmt(&k,f,ap); }
int fprintf(FILE*o,const char*f,...){ va_list ap; va_start(ap,f); int r=vfprintf(o,f,ap); va_end(ap); return r; }
int printf(const char*f,...){ (void)f; return 0; } int vprintf(const char*f,va_list ap){ (void)f;(void)ap; return 0; }
int asprintf(char**p,const char*f,...){ va_list ap; va_start(ap,f); va_list a2; va_copy(a2,ap); int n=vsnprintf(NULL,0,f,a2); *p=malloc(n+1); vsnprintf(*p,n+1,f,ap); va_end(ap); return n; }
void perror(const char*s){ (void)s; }
// network: calls go to the harness's model, without one they fail
long (*nsym_sys)(int call,long a,long b,long c,const void*in,void*out,size_t n);
static long sys_(int k,long a,long b,long c,const void*in,void*out,size_t n){ if(!nsym_sys){ err_=ENOSYS; return -1; } long r=nsym_sys(k,a,b,c,in,out,n); if(r<0){ err_=(int)-r; return -1; } return r; }
int socket(int a,int b,int c){ return (int)sys_(0,a,b,c,NULL,NULL,0); } int bind(int a,const void*b,unsigned c){ return (int)sys_(1,a,0,0,b,NULL,c); } int listen(int a,int b){ return (int)sys_(2,a,b,0,NULL,NULL,0); } int accept(int a,void*b,unsigned*c){ return (int)sys_(3,a,0,0,NULL,b,*c); } long recv(int a,void*b,size_t c,int d){ return sys_(4,a,0,d,NULL,b,c); } long send(int a,const void*b,size_t c,int d){ return sys_(5,a,0,d,b,NULL,c); } int close(int f){ return (int)sys_(6,f,0,0,NULL,NULL,0); } int setsockopt(int a,int b,int c,const void*d,unsigned e){ return (int)sys_(7,a,b,c,d,NULL,e); }
int inet_pton(int a,const char*b,void*c){ unsigned char q[4]; int i=0; if(a!=2) return -1; for(;;){ int v=0,n=0; while(isdigit(*b)){ v=v*10+(*b++-'0'); if(++n>3||v>255) return 0; } if(!n) return 0; q[i++]=(unsigned char)v; if(i==4) break; if(*b++!='.') return 0; } if(*b) return 0; memcpy(c,q,4); return 1; }
void qsort(void*b,size_t n,size_t s,int(*c)(const void*,const void*)){ char*p=b; char t[256]; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&c(p+(j-1)*s,p+j*s)>0;j--){ memcpy(t,p+j*s,s); memcpy(p+j*s,p+(j-1)*s,s); memcpy(p+(j-1)*s,t,s); } }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; } long long llabs(long long x){ return x<0?-x:x; }
int usleep(unsigned x){ (void)x; return 0; } unsigned sleep(unsigned x){ (void)x; return 0; }
int access(const char*n,int m){ (void)m; return vf_find(n)?0:-1; }
unsigned short htons(unsigned short x){ return (unsigned short)(x<<8|x>>8); } unsigned short ntohs(unsigned short x){ return htons(x); } unsigned htonl(unsigned x){ return __builtin_bswap32(x); } unsigned ntohl(unsigned x){ return htonl(x); }

// what a changed library might use instead
int strncasecmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
void*mempcpy(void*d,const void*s,size_t n){ memcpy(d,s,n); return (char*)d+n; } void*memrchr(const void*p,int c,size_t n){ const unsigned char*s=p; while(n--) if(s[n]==(unsigned char)c) return (void*)(s+n); return NULL; }
void*memmem(const void*a,size_t n,const void*b,size_t m){ const char*p=a; if(!m) return (void*)p; for(size_t i=0;i+m<=n;i++) if(!memcmp(p+i,b,m)) return (void*)(p+i); return NULL; }
char*strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:NULL; } char*strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
char*strtok_r(char*s,const char*d,char**q){ if(!s) s=*q; s+=strspn(s,d); if(!*s){ *q=s; return NULL; } char*e=s+strcspn(s,d); if(*e) *e++=0; *q=e; return s; } static char*tk_; char*strtok(char*s,const char*d){ return strtok_r(s,d,&tk_); }
char*strsep(char**p,const char*d){ char*s=*p; if(!s) return NULL; char*e=s+strcspn(s,d); if(*e){ *e=0; *p=e+1; } else *p=NULL; return s; }
void bzero(void*p,size_t n){ memset(p,0,n); } void explicit_bzero(void*p,size_t n){ memset(p,0,n); } void*reallocarray(void*p,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return NULL; return realloc(p,n); }
int posix_memalign(void**p,size_t a,size_t n){ (void)a; *p=malloc(n); return *p?0:12; } void*aligned_alloc(size_t a,size_t n){ (void)a; return malloc(n); }
void*bsearch(const void*k,const void*b,size_t n,size_t s,int(*c)(const void*,const void*)){ size_t lo=0,hi=n; while(lo<hi){ size_t m=(lo+hi)/2; int r=c(k,(const char*)b+m*s); if(!r) return (void*)((const char*)b+m*s); if(r<0) hi=m; else lo=m+1; } return NULL; }
int vasprintf(char**p,const char*f,va_list ap){ va_list a2; va_copy(a2,ap); int n=vsnprintf(NULL,0,f,a2); *p=malloc(n+1); return vsnprintf(*p,n+1,f,ap); }
long random(void){ return rand(); } void srandom(unsigned s){ srand(s); } int rand_r(unsigned*s){ *s=*s*1103515245u+12345u; return (*s>>1)&0x7fffffff; }
int atexit(void(*f)(void)){ (void)f; return 0; }
long nsym_alloc_count, nsym_alloc_fail, nsym_alloc_fails=1; static int refuse_(void){ nsym_alloc_count++; return nsym_alloc_fail && nsym_alloc_count>=nsym_alloc_fail && nsym_alloc_count<nsym_alloc_fail+nsym_alloc_fails; }
int nsym_alloc_lie; void*nsym_malloc(size_t n){ return refuse_()?NULL:malloc(nsym_alloc_lie&&n>>24?4096:n); } void*nsym_calloc(size_t n,size_t m){ return refuse_()?NULL:calloc(n,m); } void*nsym_realloc(void*p,size_t n){ return refuse_()?NULL:realloc(p,n); } char*nsym_strndup(const char*s,size_t n){ size_t l=0; while(l<n&&s[l]) l++; char*p=nsym_malloc(l+1); if(p){ memcpy(p,s,l); p[l]=0; } return p; } char*nsym_strdup(const char*s){ return nsym_strndup(s,(size_t)-1); }

#define NS_DIR void
#define NS_DIRENT void
#define IO_ERR err_ = EIO
#include "nsym_io.h"
