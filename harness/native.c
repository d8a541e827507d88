// Native side of the harness API: replays one concrete input vector against the real build.
#include "nsym.h"
#include <stdio.h>
#include <unistd.h>
static FILE *in; static uint64_t h=1469598103934665603ull; static int quiet;
static void fin(int code){ if(code==0) printf("\nNSYM-DIGEST %016llx\n",(unsigned long long)h); fflush(NULL); _exit(code); }
uint64_t sym_u64(const char *n,uint64_t bits){ unsigned long long v=0; if(!in){ const char*p=getenv("NSYM_INPUT"); in=p?fopen(p,"r"):NULL; } if(!in||fscanf(in,"%llu",&v)!=1) v=0; if(bits<64) v&=(1ull<<bits)-1; if(getenv("NSYM_TRACE")) fprintf(stderr,"input %s = %lld (0x%llx)\n",n,(long long)v,v); return v; }
void sym_assume(uint64_t c){ if(!c){ fprintf(stderr,"NSYM-ASSUME-FAILED\n"); fflush(NULL); _exit(78);} }
void sym_check(uint64_t c,const char*l){ if(!c){ fprintf(stderr,"\nNSYM-CHECK-FAILED %s\n",l); fflush(NULL); _exit(77);} }
void sym_cover(const char*l){ (void)l; (void)quiet; }
void sym_out(uint64_t v){ h=(h^v)*1099511628211ull; if(getenv("NSYM_TRACE")) fprintf(stderr,"out %llu\n",(unsigned long long)v); }
uint64_t sym_conc(uint64_t v){ return v; }
uint64_t sym_is_symbolic(uint64_t v){ (void)v; return 0; }
int64_t sym_param(const char*n,int64_t d){ char k[128]; snprintf(k,sizeof k,"NSYM_P_%s",n); const char*v=getenv(k); return v?atoll(v):d; }
void sym_end(void){ fin(0); }
void sym_dbg(const char*l,uint64_t v){ if(getenv("NSYM_TRACE")) fprintf(stderr,"dbg %s %lld\n",l,(long long)v); }
static long live_; static void hm(const volatile void*p,size_t n){ (void)p;(void)n; live_++; } static void hf(const volatile void*p){ if(p) live_--; }
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
uint64_t sym_live(void){ static int on; if(!__sanitizer_install_malloc_and_free_hooks) return 0; if(!on){ on=1; live_=1<<20; __sanitizer_install_malloc_and_free_hooks(hm,hf); } return (uint64_t)live_; }
long nsym_alloc_count, nsym_alloc_fail, nsym_alloc_fails=1; static int refuse_(void){ nsym_alloc_count++; return nsym_alloc_fail && nsym_alloc_count>=nsym_alloc_fail && nsym_alloc_count<nsym_alloc_fail+nsym_alloc_fails; }
int nsym_alloc_lie; void*nsym_malloc(size_t n){ return refuse_()?NULL:malloc(nsym_alloc_lie&&n>>24?4096:n); } void*nsym_calloc(size_t n,size_t m){ return refuse_()?NULL:calloc(n,m); } void*nsym_realloc(void*p,size_t n){ return refuse_()?NULL:realloc(p,n); } char*nsym_strndup(const char*s,size_t n){ size_t l=0; while(l<n&&s[l]) l++; char*p=nsym_malloc(l+1); if(p){ memcpy(p,s,l); p[l]=0; } return p; } char*nsym_strdup(const char*s){ return nsym_strndup(s,(size_t)-1); }
int nsym_full_format;
#include <sys/stat.h>
void nsym_mkfile(const char*n,const void*d,size_t l){ char b[2048]; for(int i=0;n[i]&&i<2047;i++){ b[i]=n[i]; if(n[i+1]=='/'){ b[i+1]=0; mkdir(b,0700); } } FILE*f=fopen(n,"wb"); if(f){ fwrite(d,1,l,f); fclose(f);} }
size_t nsym_readfile(const char*n,void*d,size_t m){ FILE*f=fopen(n,"rb"); if(!f) return (size_t)-1; size_t t=0; unsigned char*p=d; int c; while((c=getc(f))!=EOF){ if(t<m) p[t]=c; t++; } fclose(f); return t; }
void nsym_set_stdin(const void*d,size_t n){ FILE*f=fopen(".nsym_stdin","wb"); fwrite(d,1,n,f); fclose(f); if(!freopen(".nsym_stdin","rb",stdin)) _exit(79); }
// network: calls go to the harness's model and never reach the system
#include <errno.h>
#include <sys/syscall.h>
#include <sys/socket.h>
long (*nsym_sys)(int call,long a,long b,long c,const void*in,void*out,size_t n);
static long sys_(int k,long a,long b,long c,const void*in,void*out,size_t n){ if(!nsym_sys){ errno=ENOSYS; return -1; } long r=nsym_sys(k,a,b,c,in,out,n); if(r<0){ errno=(int)-r; return -1; } return r; }
int socket(int a,int b,int c){ return (int)sys_(0,a,b,c,NULL,NULL,0); } int bind(int a,const struct sockaddr*b,socklen_t c){ return (int)sys_(1,a,0,0,b,NULL,c); } int listen(int a,int b){ return (int)sys_(2,a,b,0,NULL,NULL,0); } int accept(int a,struct sockaddr*b,socklen_t*c){ return (int)sys_(3,a,0,0,NULL,b,*c); } ssize_t recv(int a,void*b,size_t c,int d){ return sys_(4,a,0,d,NULL,b,c); } ssize_t send(int a,const void*b,size_t c,int d){ return sys_(5,a,0,d,b,NULL,c); } int setsockopt(int a,int b,int c,const void*d,socklen_t e){ return (int)sys_(7,a,b,c,d,NULL,e); }
int close(int f){ return nsym_sys?(int)sys_(6,f,0,0,NULL,NULL,0):(int)syscall(SYS_close,f); }
#include <dirent.h>
#define NS_DIR DIR
#define NS_DIRENT struct dirent
#define IO_ERR errno = EIO
#include "nsym_io.h"
int nsym_rand_mode; int rand(void){ return nsym_rand_mode==2?0:nsym_rand_mode?(int)sym_u64("rand",31):(int)(random()&0x7fffffff); }
#include "entries.inc"
int main(int argc,char**argv){ if(argc<2) return 2; for(unsigned i=0;i<sizeof ents/sizeof*ents;i++) if(!strcmp(ents[i].n,argv[1])){ ents[i].f(); fin(0); } fprintf(stderr,"no entry\n"); return 3; }
