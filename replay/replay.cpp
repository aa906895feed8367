// replay: runs one natively compiled harness on one recorded assignment.
//   replay <lib.so> <harness> <input file> [--front]
// The heap is served from guarded pages (each allocation ends at, or with --front starts at, an unmapped
// page; freed pages become unmapped), so heap overruns and use-after-free fault.
// exit: 0 completed, 10 assertion failed, 11 panic/abort, 12 memory fault, 13 assignment does not fit the
// harness, 14 allocation in a no-allocation section, 15 hang
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <vector>
#include <string>
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_realloc(void*,size_t); void*__libc_memalign(size_t,size_t); }
static bool guard=false, front=false, rt=false;
static char*arena=nullptr,*cur=nullptr; static const size_t ARENA=1ull<<38;
static void die(int code,const char*m){ size_t r=write(1,m,strlen(m)); r=write(1,"\n",1); (void)r; _exit(code); }
static bool ours(void*p){ return arena&&(char*)p>=arena&&(char*)p<arena+ARENA; }
struct Hdr{ size_t size,pages; char*start; };
static void*galloc(size_t n,size_t al){
  if(rt) die(14,"ALLOC on the audio side");
  if(al<16) al=16; size_t pages=(n+al+4095)/4096; if(!pages) pages=1;
  char*h=cur; cur+=(pages+2)*4096; // header page (made read-only), data pages, guard page
  if(mprotect(h,(pages+1)*4096,PROT_READ|PROT_WRITE)) die(13,"guard heap exhausted");
  Hdr*H=(Hdr*)h; char*d=h+4096; H->size=n; H->pages=pages; char*p=front?(char*)(((uintptr_t)d+al-1)/al*al):(char*)((uintptr_t)(d+pages*4096-n)/al*al); H->start=p;
  memset(d,0xA5,pages*4096); mprotect(h,4096,front?PROT_NONE:PROT_NONE);
  // headers live in a side table so that the page before the data stays inaccessible
  return p; }
// side table keyed by pointer
struct Ent{ void*p; size_t size,pages; char*h; bool live; };
static std::vector<Ent>*tab; static bool inTab=false;
static void*galloc2(size_t n,size_t al){ char*h=cur; void*p=galloc(n,al); size_t pages=(cur-h)/4096-2; inTab=true; bool g=guard; guard=false; tab->push_back({p,n,pages,h,true}); guard=g; inTab=false; return p; }
static Ent*ent(void*p){ for(size_t i=tab->size();i-->0;) if((*tab)[i].p==p) return &(*tab)[i]; return nullptr; }
static void gfree(void*p){ if(rt) die(14,"FREE on the audio side"); Ent*e=ent(p); if(!e||!e->live) die(12,"MEMORY invalid free"); e->live=false; mprotect(e->h,(e->pages+2)*4096,PROT_NONE); }
extern "C" {
void*malloc(size_t n){ return guard?galloc2(n,16):__libc_malloc(n); }
void*calloc(size_t a,size_t b){ if(!guard) return __libc_calloc(a,b); void*p=galloc2(a*b,16); memset(p,0,a*b); return p; }
void free(void*p){ if(!p) return; if(ours(p)) gfree(p); else __libc_free(p); }
void*realloc(void*p,size_t n){ if(!p) return malloc(n); if(!ours(p)) { return __libc_realloc(p,n);} Ent*e=ent(p); if(!e||!e->live) die(12,"MEMORY invalid realloc"); size_t os=e->size; void*q=galloc2(n,16); memcpy(q,p,os<n?os:n); gfree(p); return q; }
void*memalign(size_t al,size_t n){ return guard?galloc2(n,al):__libc_memalign(al,n); }
void*aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
int posix_memalign(void**o,size_t al,size_t n){ *o=memalign(al,n); return 0; }
size_t malloc_usable_size(void*p){ if(ours(p)){ Ent*e=ent(p); return e?e->size:0; } return 0; }
}
struct In{ std::string name; unsigned w; uint64_t v; };
static std::vector<In> in; static size_t pos=0;
static uint64_t next(unsigned w){ if(pos>=in.size()) { /* symbolic run stopped before: remaining inputs are unconstrained */ pos++; return 0; } In&i=in[pos++]; if(i.w!=w) die(13,"MISMATCH input width"); return i.v; }
extern "C" {
__attribute__((visibility("default"))) uint64_t ks_any(uint32_t bits,const char*,size_t){ return next(bits); }
__attribute__((visibility("default"))) float ks_any_f32(const char*,size_t){ uint32_t v=(uint32_t)next(32); float f; memcpy(&f,&v,4); return f; }
__attribute__((visibility("default"))) double ks_any_f64(const char*,size_t){ uint64_t v=next(64); double f; memcpy(&f,&v,8); return f; }
__attribute__((visibility("default"))) uint32_t ks_choice(uint32_t n,const char*,size_t){ uint32_t v=(uint32_t)next(32); if(v>=n) v=0; return v; }
__attribute__((visibility("default"))) void ks_assume(bool b){ if(!b){ die(13,"MISMATCH an assumption does not hold"); } }
__attribute__((visibility("default"))) void ks_assert(bool b,const char*id,size_t n){ if(!b){ guard=false; rt=false; char m[400]; snprintf(m,400,"ASSERT %.*s",(int)n,id); die(10,m); } }
__attribute__((visibility("default"))) void ks_cover(const char*,size_t){}
__attribute__((visibility("default"))) void ks_note(uint64_t v){ bool g=guard,r=rt; guard=false; rt=false; printf("NOTE 64 %lu\n",v); guard=g; rt=r; }
__attribute__((visibility("default"))) void ks_note_f32(float f){ uint32_t v; memcpy(&v,&f,4); bool g=guard,r=rt; guard=false; rt=false; printf("NOTE 32 %u\n",v); guard=g; rt=r; }
__attribute__((visibility("default"))) uint32_t ks_mix(uint32_t a,uint32_t b){ uint32_t h=(a*0xcc9e2d51u)^((b<<13|b>>19)*0x1b873593u+0xe6546b64u); h^=h>>16; h*=0x85ebca6bu; h^=h>>13; h*=0xc2b2ae35u; h^=h>>16; return h; }
static bool panicOk=false;
__attribute__((visibility("default"))) void ks_panic_ok(bool b){ panicOk=b; }
__attribute__((visibility("default"))) uint64_t ks_concretize(uint64_t v){ return v; }
__attribute__((visibility("default"))) uint32_t ks_issym(uint64_t){ return 0; }
__attribute__((visibility("default"))) void ks_rt(bool b){ rt=b; }
__attribute__((visibility("default"))) void ks_havoc_tables(bool){}
}
static void onsig(int s){ rt=false; guard=false; if(s==SIGABRT){ if(panicOk) die(0,"PANIC allowed here"); die(11,"PANIC abort"); } if(s==SIGALRM) die(15,"HANG"); if(s==SIGILL||s==SIGTRAP) die(11,"PANIC trap"); if(s==SIGFPE) die(11,"PANIC arithmetic fault"); die(12,"MEMORY fault (signal)"); }
int main(int c,char**v){
  setenv("RUST_BACKTRACE","0",1); setenv("RUST_LIB_BACKTRACE","0",1);
  if(c<4) return 13; for(int i=4;i<c;i++) if(!strcmp(v[i],"--front")) front=true;
  setvbuf(stdout,nullptr,_IOLBF,0);
  FILE*f=fopen(v[3],"r"); if(!f){ perror(v[3]); return 13; } char nm[256]; unsigned w; unsigned long long x; char line[512];
  while(fgets(line,sizeof line,f)){ if(line[0]=='#') continue; if(sscanf(line,"%255s %u %llu",nm,&w,&x)==3) in.push_back({nm,w,x}); } fclose(f);
  void*h=dlopen(v[1],RTLD_NOW|RTLD_GLOBAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); return 13; }
  void(*fn)()=(void(*)())dlsym(h,v[2]); if(!fn){ fprintf(stderr,"%s\n",dlerror()); return 13; }
  tab=new std::vector<Ent>; tab->reserve(1<<16); in.reserve(in.size()+1);
  arena=(char*)mmap(nullptr,ARENA,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(arena==MAP_FAILED) return 13; cur=arena+4096;
  static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGABRT,SIGILL,SIGTRAP,SIGFPE,SIGALRM}) sigaction(s,&sa,nullptr);
  alarm(20); printf("START\n"); fflush(stdout);
  guard=true; fn(); guard=false; puts("END"); fflush(stdout); _exit(0);
}
